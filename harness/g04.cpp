// G04: selected CI of the legacy library: spaces, candidate lists, search, diagonalisation, growth, refinement, the drivers.
#include "fock.hpp"
#include <bit>
#include <complex>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <optional>
#include <set>
#include <sys/wait.h>
#include <unistd.h>
#include <../src/dbwy/gf.c++>
#include <dbwy/asci_body.hpp>
#include <dbwy/double_loop.hpp>
namespace ref = fock;
using fock::det;
using fock::Ints;
using fock::u64;
using fock::vec;
namespace ed = cmz::ed;
using cd = std::complex<double>;
template <size_t N> using B = std::bitset<N>;
template <size_t N> B<N> bits(u64 d, int n) {
  B<N> b;
  for(int i = 0; i < n; ++i) b[i] = d >> i & 1, b[i + N / 2] = d >> (i + n) & 1;
  return b;
}
template <size_t N> u64 back(const B<N>& b, int n) {
  u64 d = 0;
  for(int i = 0; i < n; ++i) d |= u64(b[i]) << i | u64(b[i + N / 2]) << (i + n);
  if(bits<N>(d, n) != b) mc::fail("a determinant occupies orbitals that do not exist");
  return d;
}
template <size_t N> struct Less {
  bool operator()(const B<N>& a, const B<N>& b) const {
    for(int i = N - 1; i >= 0; --i) if(a[i] != b[i]) return b[i];
    return false;
  }
};
template <size_t N> using Pairs = std::vector<dbwy::asci_contrib<N>>;
template <size_t N> using Table = std::map<B<N>, double, Less<N>>;
struct Quiet {  // the library talks
  std::ostringstream s;
  std::streambuf* o;
  Quiet() : o(std::cout.rdbuf(s.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(o); }
};
template <class F> void guarded(const F& f) {
  try { f(); }
  catch(const std::string& s) { mc::fail("threw \"%s\"", s.c_str()); }
  catch(const char* s) { mc::fail("threw \"%s\"", s); }
}
template <class F> void alone(const F& f, bool takes_comm = false) {
  auto o = mc::few_schedules();
  o.modes = {0};
  if(!takes_comm) o.sub_phase = -1;  // the legacy searches use the world communicator
  mc::mpi(1, [&] { return std::function<void(int)>([&](int) { Quiet q; guarded(f); }); },
          [](const smpi::Result& r) {
            if(!r.error.empty()) mc::fail("%s", r.error.c_str());
            for(auto& t : r.threw) if(!t.empty()) mc::fail("%s", t.c_str());
          }, o);
}
template <size_t N> struct Imp : dbwy::SDBuildHamiltonianGenerator<N> {
  using dbwy::SDBuildHamiltonianGenerator<N>::SDBuildHamiltonianGenerator;
  size_t nimp = N / 2;
  size_t GetNimp() const override { return nimp; }
};
template <size_t N> struct Gen {
  Ints J;
  Imp<N> H;
  explicit Gen(const Ints& I) : J(I), H(size_t(J.n), J.V.data(), J.T.data()) {}
  Gen(const Gen&) = delete;
};
static double diagonal(const Ints& I, u64 d) { auto c = ref::column(I, d); auto it = c.find(d); return it == c.end() ? 0. : it->second; }
static u64 up(u64 d, int n) { return d & ((u64(1) << n) - 1); }
static u64 down(u64 d, int n) { return d >> n; }
// ---- spaces
template <size_t N> void spaces() {
  mc::suite(mc::fmt("spaces-%zu", N).c_str(), [&] {
    auto strings = [](size_t m, size_t k) {
      mc::executions(1);
      auto v = dbwy::build_combs<N>(m, k);
      std::set<B<N>, Less<N>> s;
      for(auto& b : v) {
        if(!s.insert(b).second) mc::fail("a string of %zu out of %zu is listed twice", k, m);
        if(b.count() != k) mc::fail("a string of %zu out of %zu holds %zu", k, m, b.count());
        for(size_t i = m; i < N; ++i) if(b[i]) mc::fail("a string of %zu out of %zu occupies place %zu", k, m, i);
      }
      double want = 1;
      for(size_t i = 1; i <= k; ++i) want = want * (m - k + i) / i;
      if(v.size() != size_t(std::llround(want))) mc::fail("%zu strings of %zu out of %zu, expected %.0f", v.size(), k, m, want);
    };
    for(int m = 0; m <= (mc::thorough ? 14 : 11); ++m) mc::test([&] { return mc::fmt("strings over %d places", m); }, [&] {
      if(m) mc::nontrivial();
      for(int k = 0; k <= m; ++k) strings(m, k);
    });
    for(size_t m : {31, 32, 33, 63, 64, 65, 127, 128}) if(m <= N) for(int k = 0; k < 6; ++k)
      mc::test([&] { return mc::fmt("strings of %s%d over %zu places", k < 3 ? "" : "all but ", k % 3, m); }, [&] { mc::nontrivial(), strings(m, k < 3 ? k : m - k % 3); });
    for(int n = 0; n <= (mc::thorough ? 6 : 5); ++n) for(int a = 0; a <= n; ++a) for(int b = 0; b <= n; ++b)
      mc::test([&] { return mc::fmt("space of %d + %d electrons in %d orbitals", a, b, n); }, [&] {
        mc::nontrivial(), mc::executions(1);
        std::set<u64> got, want;
        for(u64 d : ref::space(n, a, b)) want.insert(d);
        for(auto& d : dbwy::build_hilbert_space<N>(n, a, b)) if(!got.insert(back<N>(d, n)).second) mc::fail("a determinant is listed twice");
        if(got != want) mc::fail("%zu determinants, expected %zu", got.size(), want.size());
      });
  });
}
// ---- contributions of one determinant
template <size_t N> void contributions_of(const Ints& I, Gen<N>& G, u64 d, double tol, bool den, double E0) {
  const int n = I.n;
  const double c = 0.625;
  auto full = bits<N>(d, n);
  B<N / 2> sa, sb;
  for(int i = 0; i < n; ++i) sa[i] = d >> i & 1, sb[i] = d >> (i + n) & 1;
  std::vector<uint32_t> oa, va, ob, vb;
  dbwy::bitset_to_occ_vir<N / 2>(n, sa, oa, va), dbwy::bitset_to_occ_vir<N / 2>(n, sb, ob, vb);
  const double hd = diagonal(I, d);
  auto& H = G.H;
  const double *T = H.T_pq_, *Gr = H.G_red_.data(), *Vr = H.V_red_.data(), *Gp = H.G_pqrs_.data(), *Vp = H.V_pqrs_;
  const auto col = ref::column(I, d);
  for(int what = 0; what < 5; ++what) {
    mc::executions(1);
    Pairs<N> out{{B<N>(3), 0.25}, {B<N>(5), -1.}};
    guarded([&] {
      if(what == 0) den ? dbwy::append_singles_asci_contributions<N / 2, 0>(c, full, sa, oa, va, ob, T, Gr, Vr, n, tol, hd, E0, H, out)
                        : dbwy::append_singles_asci_contributions<N / 2, 0>(c, full, sa, oa, va, ob, T, Gr, Vr, n, tol, out);
      if(what == 1) den ? dbwy::append_singles_asci_contributions<N / 2, N / 2>(c, full, sb, ob, vb, oa, T, Gr, Vr, n, tol, hd, E0, H, out)
                        : dbwy::append_singles_asci_contributions<N / 2, N / 2>(c, full, sb, ob, vb, oa, T, Gr, Vr, n, tol, out);
      if(what == 2) den ? dbwy::append_ss_doubles_asci_contributions<N / 2, 0>(c, full, sa, oa, va, oa, ob, Gp, n, tol, hd, E0, H, out)
                        : dbwy::append_ss_doubles_asci_contributions<N / 2, 0>(c, full, sa, oa, va, Gp, n, tol, out);
      if(what == 3) den ? dbwy::append_ss_doubles_asci_contributions<N / 2, N / 2>(c, full, sb, ob, vb, ob, oa, Gp, n, tol, hd, E0, H, out)
                        : dbwy::append_ss_doubles_asci_contributions<N / 2, N / 2>(c, full, sb, ob, vb, Gp, n, tol, out);
      if(what == 4) den ? dbwy::append_os_doubles_asci_contributions<N / 2>(c, full, sa, sb, oa, ob, va, vb, oa, ob, Vp, n, tol, hd, E0, H, out)
                        : dbwy::append_os_doubles_asci_contributions<N / 2>(c, full, sa, sb, oa, ob, va, vb, Vp, n, tol, out);
    });
    static const char* names[] = {"alpha singles", "beta singles", "alpha doubles", "beta doubles", "alpha-beta doubles"};
    if(out.size() < 2 || out[0].state != B<N>(3) || out[0].rv != 0.25 || out[1].state != B<N>(5) || out[1].rv != -1.) mc::fail("%s: entries that were there changed", names[what]);
    std::map<u64, double> got;
    for(size_t i = 2; i < out.size(); ++i) if(!got.emplace(back<N>(out[i].state, n), out[i].rv).second) mc::fail("%s: a determinant is reached twice", names[what]);
    static const int la[] = {1, 0, 2, 0, 1}, lb[] = {0, 1, 0, 2, 1};
    for(u64 e : ref::space(n, ref::pc(up(d, n)), ref::pc(down(d, n)))) {
      if(ref::pc(up(d ^ e, n)) != 2 * la[what] || ref::pc(down(d ^ e, n)) != 2 * lb[what]) continue;
      auto it = col.find(e);
      const double h = it == col.end() ? 0. : it->second;
      auto g = got.find(e);
      if(g == got.end()) {
        if(std::abs(h) > tol + 1e-12) mc::fail("%s of %s: %s with element %g is missing", names[what], det(d, n).c_str(), det(e, n).c_str(), h);
        continue;
      }
      if(std::abs(h) < tol - 1e-12) mc::fail("%s of %s: %s with element %g is there, the threshold is %g", names[what], det(d, n).c_str(), det(e, n).c_str(), h, tol);
      const double w = den ? c * h / (E0 - diagonal(I, e)) : c * h;
      if(!(std::abs(g->second - w) <= 1e-11 * (1 + std::abs(w)))) mc::fail("%s of %s: %s has %.15g, expected %.15g", names[what], det(d, n).c_str(), det(e, n).c_str(), g->second, w);
      got.erase(g);
    }
    if(!got.empty()) mc::fail("%s of %s: %s does not belong there", names[what], det(d, n).c_str(), det(got.begin()->first, n).c_str());
  }
}
template <size_t N> void contributions() {
  for(int n = 1; n <= (mc::thorough ? 5 : 4); ++n) mc::suite(mc::fmt("contributions-%zu-%d", N, n).c_str(), [&] {
    for(int kind = 0; kind < 3; ++kind) for(int a = 0; a <= n; ++a) for(int b = 0; b <= n; ++b)
      mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, integrals %d", n, a, b, kind); }, [&] {
        mc::nontrivial();
        const Ints I = kind == 2 ? ref::hubbard(n, 1., 2.5, true) : ref::generic(n, kind);
        Gen<N> G(I);
        double lo = 1e300;
        for(u64 d : ref::space(n, a, b)) lo = std::min(lo, diagonal(I, d));
        for(u64 d : ref::space(n, a, b)) for(double tol : {0., 1e-8, 0.15}) for(int den = 0; den < 2; ++den) contributions_of<N>(I, G, d, tol, den, lo - 0.7);
      });
  });
}
// ---- lists of candidates
template <size_t N> void same(const char* who, const Pairs<N>& got, const Table<N>& want) {
  if(got.size() != want.size()) mc::fail("%s leaves %zu entries, expected %zu", who, got.size(), want.size());
  Table<N> g;
  for(auto& p : got) if(!g.emplace(p.state, p.rv).second) mc::fail("%s leaves a determinant twice", who);
  for(auto& w : want) {
    auto it = g.find(w.first);
    if(it == g.end()) mc::fail("%s loses a determinant", who);
    if(it->second != w.second) mc::fail("%s gives the score %.17g, expected %.17g", who, it->second, w.second);
  }
}
template <size_t N> void judge(const Pairs<N>& in) {
  mc::executions(2);
  Table<N> sum, big;
  for(auto& p : in) {
    sum[p.state] += p.rv;
    auto it = big.emplace(p.state, p.rv).first;
    it->second = std::max(it->second, p.rv);
  }
  auto a = in, b = in;
  dbwy::sort_and_accumulate_asci_pairs(a);
  same<N>("accumulating", a, sum);
  dbwy::keep_only_largest_copy_asci_pairs(b);
  same<N>("keeping the largest copies", b, big);
}
template <size_t N> void lists() {
  mc::suite(mc::fmt("lists-%zu", N).c_str(), [&] {
    B<N> x, y, z, w;
    x[0] = 1, y[N - 1] = 1, z[N / 2] = 1, z[0] = 1, w[N / 2 - 1] = 1, w[N - 1] = 1, w[0] = 1;
    const B<N> st[] = {x, y, z, w};
    const double val[] = {1, -1, std::ldexp(1.0, -45)};
    for(int len = 0; len <= (mc::thorough ? 6 : 5); ++len) {
      u64 tot = 1;
      for(int i = 0; i < len; ++i) tot *= 9;
      for(u64 b = 0; b < tot; b += 729)
        mc::test([&] { return mc::fmt("candidate sequences %llu.. of length %d", (unsigned long long)b, len); }, [&] {
          if(len > 1) mc::nontrivial();
          for(u64 k = b; k < std::min(tot, b + 729); ++k) {
            Pairs<N> in;
            u64 q = k;
            for(int i = 0; i < len; ++i, q /= 9) in.push_back({st[q % 3 + (k % 7 == 0)], val[q % 9 / 3]});
            judge<N>(in);
          }
        });
    }
    for(int len = 7; len <= 4000; len += len < 40 ? 1 : len < 200 ? 23 : 947) for(int uniq : {1, 2, 3, 10, 100000}) for(int order = 0; order < 4; ++order)
      mc::test([&] { return mc::fmt("%d candidates, %d determinants, order %d", len, uniq, order); }, [&] {
        mc::nontrivial();
        std::vector<B<N>> s;
        for(int i = 0; i < std::min(uniq, len); ++i) {
          B<N> b;
          for(int k = 0; k < 20; ++k) b[(k * 37 + i % 3 * 11) % N] = i >> k & 1;
          b[N - 1 - i % 5] = 1, b[i * 7 % N] = b[i * 7 % N] ^ 1;
          s.push_back(b);
        }
        Pairs<N> in;
        for(int i = 0; i < len; ++i) in.push_back({s[(order == 0 ? i : order == 1 ? i * 7 + i / 3 : order == 2 ? i * i : i / 5) % s.size()], std::ldexp(double(i * 29 % 101) - 50, -(i % 5))});
        judge<N>(in);
      });
    auto one = [&](const vec& C) {
      mc::executions(1);
      std::vector<B<N>> d;
      for(size_t i = 0; i < C.size(); ++i) { B<N> b(i + 1); b[N - 1 - i % 3] = 1; d.push_back(b); }
      auto d2 = d;
      auto C2 = C;
      dbwy::reorder_ci_on_coeff(d2, C2, mc::comm());
      if(d2.size() != d.size() || C2.size() != C.size()) mc::fail("sizes %zu, %zu after ordering %zu", d2.size(), C2.size(), d.size());
      Table<N> at;
      for(size_t i = 0; i < d.size(); ++i) at[d[i]] = C[i];
      for(size_t i = 0; i < d2.size(); ++i) {
        auto it = at.find(d2[i]);
        if(it == at.end()) mc::fail("position %zu holds a determinant twice or an unknown one", i);
        if(it->second != C2[i]) mc::fail("coefficient %zu is parted from its determinant", i);
        at.erase(it);
        if(i && std::abs(C2[i]) > std::abs(C2[i - 1])) mc::fail("coefficients are not in descending order");
      }
    };
    const double cv[] = {0, 1, -1, 0.5, -2};
    for(int len = 0; len <= (mc::thorough ? 6 : 5); ++len)
      mc::test([&] { return mc::fmt("coefficient sequences of length %d", len); }, [&] {
        if(len > 1) mc::nontrivial();
        int tot = 1;
        for(int i = 0; i < len; ++i) tot *= 5;
        for(int k = 0; k < tot; ++k) {
          vec C;
          for(int i = 0, q = k; i < len; ++i, q /= 5) C.push_back(cv[q % 5]);
          one(C);
          for(auto& c : C) c = std::ldexp(c, -70);
          one(C);
        }
      });
    for(int len = 8; len < 4000; len += len < 60 ? 3 : 611) mc::test([&] { return mc::fmt("%d coefficients", len); }, [&] {
      mc::nontrivial();
      vec C;
      for(int i = 0; i < len; ++i) C.push_back(double(i * 31 % 17) - 8 + (len % 2 ? 0. : 0.01 * i));
      one(C);
    });
  });
}
// ---- search
struct Cand { double w = 0, slack = 0; bool must = false; };  // weight, what screening may change, whether it has to be a candidate
static bool within(u64 x, int n, int nimp) {  // are all these orbitals impurity orbitals?
  for(int i = nimp; i < n; ++i) if((x >> i & 1) || (x >> (i + n) & 1)) return false;
  return true;
}
static std::map<u64, Cand> candidates(const Ints& I, const std::vector<u64>& core, const vec& C, double E0, bool singles, bool& degenerate, int nimp = 64) {
  std::map<u64, Cand> m;
  std::map<u64, double> sum, diag;
  const int n = I.n;
  for(size_t k = 0; k < core.size(); ++k) for(auto& x : ref::column(I, core[k])) {
    const int l = ref::pc(x.first ^ core[k]) / 2;
    if(l == 0 || (singles && l > 1) || (l > 1 && !within(x.first ^ core[k], n, nimp)) || std::abs(x.second) < 1e-13) continue;
    auto it = diag.find(x.first);
    if(it == diag.end()) it = diag.emplace(x.first, diagonal(I, x.first)).first;
    const double den = E0 - it->second;
    if(std::abs(den) < 1e-4) { degenerate = true; continue; }
    const double t = C[k] * x.second / den;
    auto& c = m[x.first];
    sum[x.first] += t;
    if(std::abs(x.second) < 1.0001e-8) c.slack += std::abs(t);
    if(std::abs(x.second) > 0.9999e-8) c.must = true;
  }
  for(auto& x : m) x.second.w = std::abs(sum[x.first]);
  for(size_t k = 0; k < core.size(); ++k) m[core[k]] = {std::abs(C[k]), 0, true};
  return m;
}
template <size_t N> void selected(const std::map<u64, Cand>& W, int n, size_t max, const std::vector<B<N>>& got) {
  std::set<u64> S;
  for(auto& b : got) {
    const u64 d = back<N>(b, n);
    if(!S.insert(d).second) mc::fail("%s is selected twice", det(d, n).c_str());
    if(!W.count(d)) mc::fail("%s is selected, it is not connected to the core", det(d, n).c_str());
  }
  size_t must = 0;
  for(auto& x : W) must += x.second.must;
  if(got.size() > max) mc::fail("%zu determinants are returned, at most %zu were asked for", got.size(), max);
  if(got.size() < std::min(max, must)) mc::fail("%zu determinants are returned, %zu are due", got.size(), std::min(max, must));
  double least = 1e300, most = -1;
  u64 dl = 0, dm = 0;
  for(auto& x : W) {
    const double hi = x.second.w + x.second.slack, lo = x.second.w - x.second.slack;
    if(S.count(x.first)) { if(hi < least) least = hi, dl = x.first; }
    else if(lo > most) most = lo, dm = x.first;
  }
  if(most > least + 1e-10) mc::fail("%s with weight %.12g is left out, %s with weight %.12g is taken", det(dm, n).c_str(), most, det(dl, n).c_str(), least);
}
struct Sector { int n, a, b; };
static Ints integrals(int n, int kind) {
  if(kind == 2) return ref::hubbard(n, 1., 3., true);
  if(kind == 3) return ref::graded(n, 0);
  if(kind == 4) {  // orbitals that do not couple
    Ints I(n);
    for(int i = 0; i < n; ++i) I.set_t(i, i, i + 0.25), I.set_v(i, i, i, i, 1.);
    return I;
  }
  return ref::generic(n, kind);
}
static vec coeffs(size_t n, int kind) {
  vec C(n);
  double s = 0;
  for(size_t i = 0; i < n; ++i) C[i] = kind == 0 ? (i % 2 ? -1 : 1) / (1. + i) : kind == 1 ? std::cos(1.3 * i + 0.4) : 0.3 + 0.05 * double((i * 7) % 5), s += C[i] * C[i];
  for(auto& x : C) x /= std::sqrt(s);
  return C;
}
template <size_t N> std::vector<B<N>> many(const std::vector<u64>& d, int n) {
  std::vector<B<N>> v;
  for(u64 x : d) v.push_back(bits<N>(x, n));
  return v;
}
template <size_t N> void searches() {
  const std::vector<Sector> sectors{{1, 0, 0}, {1, 1, 0}, {1, 1, 1}, {2, 1, 0}, {2, 1, 1}, {2, 2, 2}, {3, 1, 1}, {3, 2, 1}, {3, 2, 2}, {4, 2, 1}, {4, 2, 2}, {4, 0, 3}, {5, 3, 2}};
  for(auto s : sectors) mc::suite(mc::fmt("search-%zu-%d-%d-%d", N, s.n, s.a, s.b).c_str(), [&] {
    auto sp = ref::space(s.n, s.a, s.b);
    auto go = [&](const std::vector<u64>& core, int kind, bool few) {
      mc::test([&] { return mc::fmt("integrals %d, core of %zu from %s", kind, core.size(), det(core[0], s.n).c_str()); }, [&] {
        if(sp.size() > 1) mc::nontrivial();
        const Ints I = integrals(s.n, kind);
        double lo = 1e300;
        for(u64 d : sp) lo = std::min(lo, diagonal(I, d));
        Gen<N> G(I);
        for(int ck = 0; ck < (few ? 1 : 3); ++ck) for(int js = -s.n; js < 2; ++js) {  // below zero: doubles in that many orbitals less one
          auto C = coeffs(core.size(), ck);
          C.resize(core.size() + ck, 0.125);  // the coefficients of determinants that are not in the core follow
          bool deg = false;
          auto W = candidates(I, core, C, lo - 0.4, js > 0, deg, js < 0 ? -js - 1 : 64);
          G.H.nimp = js < 0 ? -js - 1 : N / 2;
          if(deg) mc::fail("harness: degenerate");
          G.H.SetJustSingles(js > 0);
          std::set<size_t> limits{1, 2, core.size(), core.size() + 1, W.size() / 2 + 1, W.size() - 1, W.size(), W.size() + 1, 5 * W.size() + 7};
          for(size_t max : limits) if(max) {
            mc::executions(1);
            auto d = many<N>(core, s.n);
            auto copy = d;
            std::vector<B<N>> got;
            Quiet q;
            guarded([&] { got = dbwy::asci_search<N>(max, d.begin(), d.end(), lo - 0.4, C, s.n, G.H.T_pq_, G.H.G_red_.data(), G.H.V_red_.data(), G.H.G_pqrs_.data(), G.H.V_pqrs_, G.H, max % 2); });
            if(d != copy) mc::fail("the search changed the core");
            selected<N>(W, s.n, max, got);
          }
        }
      });
    };
    for(int kind = 0; kind < 5; ++kind) {
      for(u64 d : sp) go({d}, kind, false);
      if(sp.size() <= 9) for(u64 d : sp) for(u64 e : sp) if(d != e) go({d, e}, kind, true);
      for(size_t k = 3; k <= sp.size(); k += k < 8 ? 1 : 7) {
        std::vector<u64> core;
        for(size_t i = 0; i < k; ++i) core.push_back(sp[(i * 5 + k) % sp.size()]);
        if(std::set<u64>(core.begin(), core.end()).size() == k) go(core, kind, false);
      }
    }
  });
}
// ---- eigenpairs
template <size_t N> void eigenpair(const Ints& I, const std::vector<B<N>>& list, double E, const vec& X, bool lowest) {
  std::vector<u64> d;
  for(auto& b : list) d.push_back(back<N>(b, I.n));
  if(std::set<u64>(d.begin(), d.end()).size() != d.size()) mc::fail("a determinant is listed twice");
  if(X.size() != d.size()) mc::fail("%zu coefficients for %zu determinants", X.size(), d.size());
  const auto A = ref::matrix(I, d);
  double nn = 0, res = 0;
  for(double x : X) nn += x * x;
  if(!(std::abs(nn - 1) <= 1e-7)) mc::fail("the coefficients have norm %g", std::sqrt(nn));
  for(size_t i = 0; i < d.size(); ++i) {
    double r = -E * X[i];
    for(size_t j = 0; j < d.size(); ++j) r += A(i, j) * X[j];
    res += r * r;
  }
  if(!(std::sqrt(res) <= 1e-6)) mc::fail("energy %.12g and coefficients leave a residual of %g", E, std::sqrt(res));
  if(lowest && d.size() <= 150) {
    vec w;
    std::vector<vec> v;
    lin::jacobi(A, w, v);
    if(!(std::abs(w[0] - E) <= 1e-6)) mc::fail("energy %.12g, the lowest eigenvalue is %.12g", E, w[0]);
  }
}
template <size_t N> void diag() {
  mc::suite(mc::fmt("diagonalise-%zu", N).c_str(), [&] {
    for(auto s : std::vector<Sector>{{1, 1, 0}, {2, 1, 1}, {2, 1, 0}, {3, 1, 1}, {3, 2, 1}, {4, 2, 2}, {5, 3, 2}}) {
      auto sp = ref::space(s.n, s.a, s.b);
      const bool small = sp.size() <= 9;
      for(int kind = 0; kind < 5; ++kind) for(u64 set = 1; set < (small ? u64(1) << sp.size() : 40); set += mc::thorough || !small || sp.size() < 5 ? 1 : 3) {
        std::vector<u64> list;
        if(small) { for(size_t i = 0; i < sp.size(); ++i) if(set >> i & 1) list.push_back(sp[i]); }
        else for(size_t i = 0; i < std::min<size_t>(set * 3, sp.size()); ++i) list.push_back(sp[(i * 7 + set) % sp.size()]);
        if(set % 2) std::reverse(list.begin(), list.end());
        if(std::set<u64>(list.begin(), list.end()).size() != list.size()) continue;
        mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, integrals %d, %zu determinants (%llu)", s.n, s.a, s.b, kind, list.size(), (unsigned long long)set); }, [&] {
          mc::nontrivial(), mc::executions(1);
          const Ints I = integrals(s.n, kind);
          Gen<N> G(I);
          alone([&] {
            auto d = many<N>(list, s.n);
            vec X(set % 3 * 5, 0.5);
            const double E = dbwy::selected_ci_diag<N>(d.begin(), d.end(), G.H, 1e-12, 100, 1e-8, X, mc::comm(), set % 2);
            if(d != many<N>(list, s.n)) mc::fail("the list changed");
            eigenpair<N>(I, d, E, X, kind != 3 || list.size() < 10);  // couplings of 1e-9: an eigenpair, not always the lowest
          }, true);
        });
      }
    }
  });
}
template <size_t N> void serial() {
  mc::suite(mc::fmt("davidson-%zu", N).c_str(), [&] {
    for(auto s : std::vector<Sector>{{1, 1, 0}, {2, 1, 1}, {2, 1, 0}, {3, 1, 1}, {3, 2, 1}, {4, 2, 2}, {5, 3, 2}}) {
      auto sp = ref::space(s.n, s.a, s.b);
      const bool small = sp.size() <= 9;
      for(int kind = 0; kind < 5; ++kind) for(u64 set = 1; set < (small ? u64(1) << sp.size() : 40); set += mc::thorough || !small || sp.size() < 5 ? 1 : 3) {
        std::vector<u64> list;
        if(small) { for(size_t i = 0; i < sp.size(); ++i) if(set >> i & 1) list.push_back(sp[i]); }
        else for(size_t i = 0; i < std::min<size_t>(set * 3, sp.size()); ++i) list.push_back(sp[(i * 7 + set) % sp.size()]);
        if(set % 2) std::reverse(list.begin(), list.end());
        if(std::set<u64>(list.begin(), list.end()).size() != list.size()) continue;
        mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, integrals %d, %zu determinants (%llu)", s.n, s.a, s.b, kind, list.size(), (unsigned long long)set); }, [&] {
          mc::nontrivial(), mc::executions(1);
          const Ints I = integrals(s.n, kind);
          Gen<N> G(I);
          auto d = many<N>(list, s.n);
          double E = 0;
          {
            Quiet q;
            guarded([&] {
              auto H = dbwy::make_csr_hamiltonian_block<int32_t, N>(d.begin(), d.end(), d.begin(), d.end(), G.H, 1e-14);
              E = davidson(int64_t(list.size()) + 10, H, 1e-8);
            });
          }
          const auto A = ref::matrix(I, list);
          vec w;
          std::vector<vec> v;
          lin::jacobi(A, w, v);
          size_t lo = 0;
          for(size_t i = 1; i < list.size(); ++i) if(A(i, i) < A(lo, lo)) lo = i;
          double off = 1e300;
          for(double x : w) off = std::min(off, std::abs(x - E));
          if(!(off <= 1e-7)) mc::fail("%.12g is not an eigenvalue (%g away)", E, off);
          if(E > A(lo, lo) + 1e-7) mc::fail("energy %.12g, above the lowest diagonal element %.12g", E, A(lo, lo));
          if(std::abs(v[0][lo]) > 0.5 && std::abs(w[0] - E) > 1e-7) mc::fail("energy %.12g, the lowest eigenvalue is %.12g", E, w[0]);
        });
      }
    }
  });
}
// ---- iterations, growth, refinement
template <size_t N> struct Wave { double E; std::vector<B<N>> d; vec X; };
template <size_t N> Wave<N> start(const Ints& I, const std::vector<u64>& list) {
  Wave<N> w;
  vec e;
  std::vector<vec> v;
  lin::jacobi(ref::matrix(I, list), e, v);
  w.E = e[0], w.d = many<N>(list, I.n), w.X = v[0];
  return w;
}
static std::vector<u64> pick(const std::vector<u64>& sp, size_t k, size_t by) {
  std::vector<u64> l;
  for(size_t i = 0; l.size() < k && i < 50 * sp.size(); ++i) { u64 d = sp[(i * by + i / sp.size()) % sp.size()]; if(std::find(l.begin(), l.end(), d) == l.end()) l.push_back(d); }
  return l;
}
template <size_t N> void iterations() {
  mc::suite(mc::fmt("iterations-%zu", N).c_str(), [&] {
    for(auto s : std::vector<Sector>{{1, 1, 1}, {2, 2, 2}, {2, 1, 1}, {3, 2, 1}, {4, 2, 2}, {4, 3, 1}, {5, 2, 3}}) for(int kind = 0; kind < 5; ++kind) {
      auto sp = ref::space(s.n, s.a, s.b);
      for(size_t k : {1, 2, 3, 5, 9}) if(k <= sp.size()) for(size_t by : {1, 5})
        mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, integrals %d, from %zu determinants (%zu)", s.n, s.a, s.b, kind, k, by); }, [&] {
          if(sp.size() > 1) mc::nontrivial();
          const Ints I = integrals(s.n, kind);
          const auto W0 = start<N>(I, pick(sp, k, by));
          for(size_t nc : {size_t(1), k / 2 + 1, k, k + 3}) for(size_t max : {size_t(1), size_t(3), k, k + 4, sp.size(), 2 * sp.size() + 1}) {
            mc::executions(1);
            // the core: the determinants of largest coefficient, if these are beyond doubt
            std::vector<size_t> o(k);
            std::iota(o.begin(), o.end(), 0);
            std::sort(o.begin(), o.end(), [&](size_t a, size_t b) { return std::abs(W0.X[a]) > std::abs(W0.X[b]); });
            const size_t keep = std::min(nc, k);
            bool clear = keep == k || std::abs(W0.X[o[keep - 1]]) > std::abs(W0.X[o[keep]]) + 1e-9, deg = false;
            std::vector<u64> core;
            vec C;
            for(size_t i = 0; i < keep; ++i) core.push_back(back<N>(W0.d[o[i]], s.n)), C.push_back(W0.X[o[i]]);
            auto W = candidates(I, core, C, W0.E, false, deg);
            Gen<N> G(I);
            alone([&] {
              auto [E, d, X] = dbwy::asci_iter<N>(max, nc, W0.E, W0.d, W0.X, G.H, s.n, 1e-12, 100, 1e-8, true);
              if(clear && !deg) selected<N>(W, s.n, max, d);
              if(!deg) eigenpair<N>(I, d, E, X, true);
            });
          }
        });
    }
  });
}
template <size_t N> void equal(const char* who, double E, const std::vector<B<N>>& d, const vec& X, const Wave<N>& w) {
  if(std::abs(E - w.E) > 1e-12) mc::fail("%s: energy %.14g, one by one %.14g", who, E, w.E);
  if(d != w.d) mc::fail("%s: %zu determinants, one by one %zu, or others", who, d.size(), w.d.size());
  if(X != w.X) mc::fail("%s: other coefficients than one by one", who);
}
template <size_t N> Wave<N> step(const Wave<N>& w, size_t max, size_t nc, dbwy::HamiltonianGenerator<N>& H, int n) {
  auto [E, d, X] = dbwy::asci_iter<N>(max, nc, w.E, w.d, w.X, H, n, 1e-12, 100, 1e-8, true);
  return {E, d, X};
}
template <size_t N> void sequences() {
  mc::suite(mc::fmt("growth-%zu", N).c_str(), [&] {
    for(auto s : std::vector<Sector>{{2, 1, 1}, {3, 2, 1}, {4, 2, 2}, {5, 2, 3}, {6, 3, 3}}) for(int kind = 0; kind < 3; ++kind) {
      auto sp = ref::space(s.n, s.a, s.b);
      for(size_t k : {1, 2, 20}) if(k <= sp.size()) for(size_t nc : {size_t(1), size_t(7), size_t(1000)})
        mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, integrals %d, from %zu determinants, core %zu", s.n, s.a, s.b, kind, k, nc); }, [&] {
          mc::nontrivial();
          const Ints I = integrals(s.n, kind);
          const auto W0 = start<N>(I, pick(sp, k, 5));
          for(size_t f : {2, 8}) for(size_t max : {size_t(1), size_t(2), size_t(17), sp.size() / 2 + 1, sp.size() - 1, sp.size(), sp.size() + 9}) {
            if(s.n == 6 && !(f == 2 && (max == 17 || max == sp.size() / 2 + 1)) && !mc::thorough) continue;
            mc::executions(1);
            Gen<N> G(I);
            alone([&] {
              std::vector<double> seen;
              auto [E, d, X] = dbwy::asci_grow<N>(max, nc, f, W0.E, W0.d, W0.X, G.H, s.n, 1e-12, 100, 1e-8, [&](double e) { seen.push_back(e); }, false);
              // one by one: by the factor, by at least a hundred, until the size is reached or the list does not grow any more
              auto w = W0;
              vec want;
              while(w.d.size() < max) {
                const size_t before = w.d.size();
                w = step<N>(w, std::min(std::max<size_t>(100, f * before), max), nc, G.H, s.n);
                want.push_back(w.E);
                if(w.d.size() == before) break;
              }
              equal<N>("growth", E, d, X, w);
              if(seen != want) mc::fail("%zu energies reported, expected %zu, or others", seen.size(), want.size());
            });
          }
        });
    }
  });
  mc::suite(mc::fmt("refinement-%zu", N).c_str(), [&] {
    for(auto s : std::vector<Sector>{{2, 1, 1}, {3, 2, 1}, {4, 2, 2}, {5, 2, 3}}) for(int kind = 0; kind < 3; ++kind) {
      auto sp = ref::space(s.n, s.a, s.b);
      for(size_t k : {1, 2, 4, 7, 20}) if(k <= sp.size()) for(size_t nc : {size_t(1), size_t(3), size_t(1000)})
        mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, integrals %d, %zu determinants, core %zu", s.n, s.a, s.b, kind, k, nc); }, [&] {
          mc::nontrivial();
          const Ints I = integrals(s.n, kind);
          const auto W0 = start<N>(I, pick(sp, k, 3));
          for(double tol : {1e-6, 1e-2}) for(size_t its : {0, 1, 2, 10}) {
            mc::executions(1);
            Gen<N> G(I);
            alone([&] {
              vec seen, want;
              auto [E, d, X] = dbwy::asci_refine<N>(nc, tol, its, W0.E, W0.d, W0.X, G.H, s.n, 1e-12, 100, 1e-8, [&](double e) { seen.push_back(e); }, its % 2);
              auto w = W0;
              for(size_t i = 0; i < its; ++i) {
                const double before = w.E;
                w = step<N>(w, k, nc, G.H, s.n);
                want.push_back(w.E);
                if(std::abs(w.E - before) < tol) break;
              }
              equal<N>("refinement", E, d, X, w);
              if(seen != want) mc::fail("%zu energies reported, expected %zu, or others", seen.size(), want.size());
            });
          }
        });
    }
  });
  mc::suite(mc::fmt("rotations-%zu", N).c_str(), [&] {
    for(auto s : std::vector<Sector>{{2, 1, 1}, {3, 2, 1}, {3, 1, 1}, {4, 2, 2}, {5, 2, 3}}) for(int kind = 0; kind < 2; ++kind) {
      auto sp = ref::space(s.n, s.a, s.b);
      for(size_t k : {1, 3}) for(int rots : {1, 4, 5, 6, 8}) for(size_t max : {size_t(4), sp.size() / 2, sp.size()})
        mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, integrals %d, from %zu determinants to %zu with %d rotations", s.n, s.a, s.b, kind, k, max, rots); }, [&] {
          mc::nontrivial(), mc::executions(1);
          const Ints I = integrals(s.n, kind);
          const auto W0 = start<N>(I, pick(sp, k, 5));
          Gen<N> G(I);
          alone([&] {
            size_t calls = 0;
            auto [E, d, X] = dbwy::asci_grow_with_rot<N>(max, 1000, 8, W0.E, W0.d, W0.X, G.H, s.n, 1e-12, 100, 1e-8, [&](double) { ++calls; }, rots, false);
            if(calls < size_t(rots)) mc::fail("%zu iterations, expected %d", calls, rots);
            if(d.size() > max) mc::fail("%zu determinants, at most %zu were asked for", d.size(), max);
            if(G.J.T != I.T ? rots <= 5 : rots > 5 && max == sp.size()) mc::fail("the orbitals were %srotated", rots > 5 ? "not " : "");
            eigenpair<N>(G.J, d, E, X, true);  // in the orbitals the generator is left with
            if(sp.size() <= 60) {
              vec a, b;
              std::vector<vec> v;
              lin::jacobi(ref::matrix(I, sp), a, v), lin::jacobi(ref::matrix(G.J, sp), b, v);
              for(size_t i = 0; i < a.size(); ++i) if(!(std::abs(a[i] - b[i]) <= 1e-8)) mc::fail("the rotated integrals belong to another Hamiltonian");
            }
          });
        });
    }
  });
}
// ---- drivers
static void integral_file(const Ints& I, double core, const std::string& f) {
  std::ofstream o(f);
  o.precision(17);
  for(auto& l : ref::unique(I.n)) if(l.r >= 0 && I.v(l.p, l.q, l.r, l.s) != 0.) o << l.p + 1 << " " << l.q + 1 << " " << l.r + 1 << " " << l.s + 1 << " " << I.v(l.p, l.q, l.r, l.s) << "\n";
  for(auto& l : ref::unique(I.n)) if(l.r < 0) o << l.p + 1 << " " << l.q + 1 << " 0 0 " << I.t(l.p, l.q) << "\n";
  o << "0 0 0 0 " << core << "\n";
}
static ed::Input_t input(const Sector& s, const std::string& f, size_t max, size_t nc, size_t its, int rots) {
  ed::Input_t in;
  in["norbs"] = std::to_string(s.n), in["nups"] = std::to_string(s.a), in["ndos"] = std::to_string(s.b);
  in["quiet"] = "T", in["real_ints"] = "T", in["fcidump_file"] = f, in["read_wfn"] = "F";
  in["ntdets_max"] = std::to_string(max), in["ncdets_max"] = std::to_string(nc), in["niter_max"] = std::to_string(its), in["coeff_thresh"] = "0";
  if(rots >= 0) in["n_orb_rots"] = std::to_string(rots);
  return in;
}
static void near(const vec& a, const vec& b, const char* what, double tol) {
  if(a.size() != b.size()) mc::fail("%s: %zu elements, expected %zu", what, a.size(), b.size());
  for(size_t i = 0; i < a.size(); ++i) if(!(std::abs(a[i] - b[i]) <= tol)) mc::fail("%s: element %zu is %.10g, expected %.10g", what, i, a[i], b[i]);
}
// ground state of the complete space; gap to the next
static void ground(const Ints& I, const std::vector<u64>& sp, double& E, vec& X, double& gap) {
  vec w;
  std::vector<vec> v;
  lin::jacobi(ref::matrix(I, sp), w, v);
  E = w[0], X = v[0], gap = w.size() > 1 ? w[1] - w[0] : 1e9;
}
template <size_t N> void wave_file(const std::string& f, const Ints& I, const std::vector<u64>& sp, const vec& X, bool sorted) {
  std::ifstream in(f);
  size_t n = 0;
  if(!(in >> n) || n != sp.size()) mc::fail("the file announces %zu determinants, expected %zu", n, sp.size());
  std::map<u64, double> got;
  double last = 1e9, sign = 0;
  std::string c, d;
  while(in >> c >> d) {
    const double x = std::stod(c);
    if((int)d.size() > (int)N / 2) mc::fail("a determinant of %zu places", d.size());
    u64 b = 0;
    for(size_t i = 0; i < d.size(); ++i) {
      const bool a = d[i] == '2' || d[i] == 'u', e = d[i] == '2' || d[i] == 'd';
      if((a || e) && (int)i >= I.n) mc::fail("the file names an orbital that does not exist");
      if(a) b |= u64(1) << i;
      if(e) b |= u64(1) << (i + I.n);
    }
    if(!got.emplace(b, x).second) mc::fail("the file holds a determinant twice");
    if(sorted && std::abs(x) > last) mc::fail("the coefficients in the file are not in descending order");
    last = std::abs(x);
  }
  if(got.size() != sp.size()) mc::fail("the file holds %zu determinants, expected %zu", got.size(), sp.size());
  for(size_t i = 0; i < sp.size(); ++i) {
    if(!got.count(sp[i])) mc::fail("the file lacks %s", det(sp[i], I.n).c_str());
    if(sign == 0 && std::abs(X[i]) > 1e-3) sign = got[sp[i]] * X[i] > 0 ? 1 : -1;
  }
  for(size_t i = 0; i < sp.size(); ++i) if(!(std::abs(sign * got[sp[i]] - X[i]) <= 2e-5)) mc::fail("the file gives %s the coefficient %g, expected %g", det(sp[i], I.n).c_str(), got[sp[i]], sign * X[i]);
}
template <size_t N> void drivers() {
  mc::suite(mc::fmt("drivers-%zu", N).c_str(), [&] {
    for(auto s : std::vector<Sector>{{1, 1, 0}, {1, 1, 1}, {2, 1, 1}, {2, 2, 1}, {2, 2, 2}, {3, 1, 1}, {3, 2, 1}, {3, 2, 2}, {4, 2, 2}, {4, 1, 2}}) for(int kind = 0; kind < 3; ++kind)
      mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, integrals %d", s.n, s.a, s.b, kind); }, [&] {
        mc::nontrivial();
        const Ints I = integrals(s.n, kind);
        const double core = -3.75;
        if(chdir(mc::scratch().c_str())) mc::fail("no scratch directory");
        const std::string f = mc::scratch() + "/ints";
        integral_file(I, core, f);
        std::filesystem::remove("final_ed_wf.dat"), std::filesystem::remove("final_asci_wf.dat");
        auto sp = ref::space(s.n, s.a, s.b);
        double E, gap;
        vec X, g, G;
        ground(I, sp, E, X, gap);
        ref::rdms(s.n, sp, X, X, g, G);
        auto check = [&](double e, vec d, const char* who, bool orbs) {
          mc::executions(1);
          if(!(std::abs(e - E - core) <= 1e-6)) mc::fail("%s: energy %.12g, expected %.12g", who, e, E + core);
          if(gap < 1e-3) return;
          if(orbs) near(d, g, who, 1e-4);
        };
        for(int wf = 0; wf < 2; ++wf) {
          auto in = input(s, f, 2 * sp.size() + 3, 1000, 5, -1);
          if(wf) in["print_wf"] = "T";
          alone([&] {
            auto [e, d] = dbwy::run_ed_w_1rdm<N>(in);
            check(e, d, "exact diagonalisation", true);
            if(wf && gap > 1e-3) wave_file<N>("final_ed_wf.dat", I, sp, X, true);
            if(std::filesystem::remove("final_ed_wf.dat") != bool(wf)) mc::fail("the wave function was %s", wf ? "not written" : "written");
          });
        }
        // symmetric lattices hide determinants from the reference determinant: those of the generic sets are all reached
        if(kind == 2) return;
        for(int rots : {-1, 0, 3, 7}) for(size_t its : {0, 4}) {
          auto in = input(s, f, 2 * sp.size() + 3, 1000, its, rots);
          const bool wf = its && rots < 0;
          if(wf) in["print_wf"] = "T";
          alone([&] {
            auto [e, d] = dbwy::run_asci_w_1rdm<N>(in);
            check(e, d, "selected CI", rots < 6);
            if(wf && gap > 1e-3) wave_file<N>("final_asci_wf.dat", I, sp, X, false);
            if(std::filesystem::remove("final_asci_wf.dat") != wf) mc::fail("the wave function was %s", wf ? "not written" : "written");
            double tr = 0;
            for(int i = 0; i < s.n; ++i) tr += d[i * (s.n + 1)];
            if(!(std::abs(tr - s.a - s.b) < 1e-6)) mc::fail("the density has %g electrons", tr);
          });
        }
      });
  });
}
static std::vector<cd> solve(std::vector<std::vector<cd>> a, std::vector<cd> b) {
  const int n = b.size();
  for(int k = 0; k < n; ++k) {
    int p = k;
    for(int i = k; i < n; ++i) if(std::abs(a[i][k]) > std::abs(a[p][k])) p = i;
    std::swap(a[k], a[p]), std::swap(b[k], b[p]);
    for(int i = k + 1; i < n; ++i) {
      cd f = a[i][k] / a[k][k];
      for(int j = k; j < n; ++j) a[i][j] -= f * a[k][j];
      b[i] -= f * b[k];
    }
  }
  for(int k = n; k--;) {
    for(int j = k + 1; j < n; ++j) b[k] -= a[k][j] * b[j];
    b[k] /= a[k][k];
  }
  return b;
}
// <a_k (z - H + E)^-1 a+_l> + <a+_l (z + H - E)^-1 a_k> over complete spaces
static std::vector<std::vector<cd>> greens(const Ints& I, const Sector& s, double E, const vec& X, const std::vector<int>& orbs, cd z) {
  const int n = I.n, m = orbs.size();
  std::vector<std::vector<cd>> G(m, std::vector<cd>(m));
  auto sp = ref::space(n, s.a, s.b);
  for(int part = 0; part < 2; ++part) {
    const bool al = orbs[0] < n;
    const int a = s.a + (al ? part ? 1 : -1 : 0), b = s.b + (al ? 0 : part ? 1 : -1);
    if(a < 0 || b < 0 || a > n || b > n) continue;
    auto t = ref::space(n, a, b);
    std::vector<vec> V;
    for(int o : orbs) {
      std::map<u64, double> w;
      for(size_t i = 0; i < sp.size(); ++i) { u64 d = sp[i]; if(int g = part ? ref::cre(d, o) : ref::ann(d, o)) w[d] += g * X[i]; }
      vec v;
      for(u64 d : t) v.push_back(w.count(d) ? w[d] : 0.);
      V.push_back(v);
    }
    const auto A = ref::matrix(I, t);
    const int N = t.size();
    for(int l = 0; l < m; ++l) {
      std::vector<std::vector<cd>> M(N, std::vector<cd>(N));
      for(int i = 0; i < N; ++i) {
        for(int j = 0; j < N; ++j) M[i][j] = (part ? -1. : 1.) * (A(i, j) - (i == j ? E : 0));
        M[i][i] += z;
      }
      auto x = solve(M, std::vector<cd>(V[l].begin(), V[l].end()));
      for(int k = 0; k < m; ++k) for(int i = 0; i < N; ++i) G[k][l] += V[k][i] * x[i];
    }
  }
  return G;
}
template <size_t N> void green_driver() {
  mc::suite(mc::fmt("green-driver-%zu", N).c_str(), [&] {
    for(auto s : std::vector<Sector>{{1, 1, 1}, {1, 1, 0}, {2, 1, 1}, {2, 2, 1}, {2, 2, 2}, {2, 1, 2}, {3, 1, 1}, {3, 2, 1}, {3, 2, 2}, {3, 3, 1}}) for(int kind : {0, 1, 5}) for(int sz = 0; sz < 2; ++sz) for(int one = 0; one < 2; ++one)
      mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, integrals %d, spin %d, %s", s.n, s.a, s.b, kind, sz, one ? "last orbital" : "all orbitals"); }, [&] {
        mc::nontrivial();
        Ints I = integrals(s.n, kind == 5 ? 0 : kind);
        if(kind == 5) for(auto& l : ref::unique(s.n)) {  // the first orbital does not couple to the others, is full or empty
          const int c = (l.p == 0) + (l.q == 0), d = l.r < 0 ? c : c + (l.r == 0) + (l.s == 0), full = l.r < 0 ? 2 : 4;
          if(d && d != full) put(I, l, 0.);
          if(l.r < 0 && full == d) put(I, l, s.a > s.b ? 4. : -6.);
        }
        auto sp = ref::space(s.n, s.a, s.b);
        double E, gap;
        vec X;
        ground(I, sp, E, X, gap);
        if(gap < 1e-3) return;
        if(chdir(mc::scratch().c_str())) mc::fail("no scratch directory");
        const std::string f = mc::scratch() + "/ints";
        integral_file(I, 2.5, f);
        std::vector<int> orbs;
        for(int i = one ? s.n - 1 : 0; i < s.n; ++i) orbs.push_back(i + sz * s.n);
        for(int band = 0; band < 2; ++band) {
          mc::executions(1);
          auto in = input(s, f, 2 * sp.size() + 3, 1000, 4, -1);
          std::string os, us;
          for(int o : orbs) os += (os.empty() ? "" : " ") + std::to_string(o % s.n), us += (us.empty() ? "" : " ") + std::string(sz ? "F" : "T");
          in["trunc_size"] = "100000", in["tot_SD"] = "4", in["GFseedThresh"] = "0", in["asThresh"] = "-1", in["use_bandLan"] = band ? "T" : "F";
          in["GF_orbs_basis"] = in["GF_orbs_comp"] = os, in["is_up_basis"] = in["is_up_comp"] = us;
          in["nws"] = "3", in["wmin"] = "-2", in["wmax"] = "4", in["broad"] = "0.5";
          alone([&] {
            auto [e, G] = dbwy::run_asci_w_GF<N>(in);
            if(!(std::abs(e - E - 2.5) <= 1e-6)) mc::fail("energy %.12g, expected %.12g", e, E + 2.5);
            if(G.size() != 3) mc::fail("%zu frequencies, expected 3", G.size());
            for(int w = 0; w < 3; ++w) {
              auto want = greens(I, s, E, X, orbs, cd(-2 + 3 * w, 0.5));
              if(G[w].size() != orbs.size()) mc::fail("%zu rows, expected %zu", G[w].size(), orbs.size());
              for(size_t k = 0; k < orbs.size(); ++k) {
                if(G[w][k].size() != orbs.size()) mc::fail("%zu columns, expected %zu", G[w][k].size(), orbs.size());
                for(size_t l = 0; l < orbs.size(); ++l) if(!(std::abs(G[w][k][l] - want[k][l]) <= 1e-4))
                  mc::fail("element (%zu,%zu) at %d+0.5i is %g%+gi, expected %g%+gi", k, l, -2 + 3 * w, G[w][k][l].real(), G[w][k][l].imag(), want[k][l].real(), want[k][l].imag());
              }
            }
          });
        }
      });
  });
}
void mc_main() {
  somp::set(somp::Config{});
  spaces<64>(), spaces<128>();
  contributions<64>(), contributions<128>();
  lists<64>(), lists<128>();
  searches<64>(), searches<128>();
  diag<64>(), serial<64>(), diag<128>();
  iterations<64>(), iterations<128>();
  sequences<64>();
  drivers<64>(), drivers<128>();
  green_driver<64>();
}
