// A03: accumulation of scored candidates, pruning.
#include "asci.hpp"
using namespace fock;
namespace {
template <size_t N> using bits = std::bitset<N>;
template <size_t N> using pairs = macis::asci_contrib_container<bits<N>>;
template <size_t N> std::vector<bits<N>> states() {  // differing in the lowest, a middle and the highest bit
  bits<N> a, b, c, d;
  a[0] = 1, b[N - 1] = 1, c[N / 2] = 1, c[0] = 1, d[N / 2 - 1] = 1, d[N - 1] = 1, d[0] = 1;
  return {a, b, c, d};
}
template <size_t N> struct Less {
  bool operator()(const bits<N>& a, const bits<N>& b) const {
    for(int i = N - 1; i >= 0; --i) if(a[i] != b[i]) return b[i];
    return false;
  }
};
template <size_t N> using table = std::map<bits<N>, double, Less<N>>;
template <size_t N> void same(const char* who, const pairs<N>& got, const table<N>& want, double tol) {
  if(got.size() != want.size()) mc::fail("%s leaves %zu entries, expected %zu", who, got.size(), want.size());
  table<N> g;
  for(auto& p : got) if(!g.emplace(p.state, p.rv).second) mc::fail("%s leaves a determinant twice", who);
  for(auto& w : want) {
    auto it = g.find(w.first);
    if(it == g.end()) mc::fail("%s loses a determinant", who);
    if(!(std::abs(it->second - w.second) <= tol)) mc::fail("%s gives the score %.17g, expected %.17g", who, it->second, w.second);
  }
}
template <size_t N> void judge(const pairs<N>& in, double tol = 0) {
  table<N> sum, big;
  for(auto& p : in) {
    sum[p.state] += p.rv;
    auto it = big.emplace(p.state, p.rv).first;
    it->second = std::max(it->second, p.rv);
  }
  auto a = in;
  macis::sort_and_accumulate_asci_pairs(a);
  same<N>("accumulating a list", a, sum, tol);
  // a range: what is in front of it stays
  auto c = in;
  c.insert(c.begin(), 2, {bits<N>(5), 0.25});
  auto e = macis::sort_and_accumulate_asci_pairs(c.begin() + 2, c.end());
  for(int i = 0; i < 2; ++i) if(c[i].state != bits<N>(5) || c[i].rv != 0.25) mc::fail("accumulating a range changed an entry in front of it");
  if(c.size() != in.size() + 2) mc::fail("accumulating a range changed the length of the list");
  same<N>("accumulating a range", pairs<N>(c.begin() + 2, e), sum, tol);
  auto d = in;
  macis::keep_only_largest_copy_asci_pairs(d);
  same<N>("keeping the largest copies", d, big, 0);
  mc::executions(3);
}
template <size_t N> void sequences(int maxlen) {
  mc::suite(mc::fmt("sequences-%zu", N).c_str(), [&] {
    const double val[] = {1, -1, std::ldexp(1.0, -45)};  // every sum of them is exact
    auto st = states<N>();
    for(int len = 0; len <= maxlen; ++len) {
      u64 tot = 1;
      for(int i = 0; i < len; ++i) tot *= 9;
      for(u64 b = 0; b < tot; b += 81)
        mc::test([&] { return mc::fmt("candidate sequences %llu.. of length %d", (unsigned long long)b, len); }, [&] {
          if(len > 1) mc::nontrivial();
          for(u64 k = b; k < std::min(tot, b + 81); ++k) {
            pairs<N> in;
            u64 x = k;
            for(int i = 0; i < len; ++i, x /= 9) in.push_back({st[x % 3 + (k % 7 == 0)], val[x % 9 / 3]});
            judge<N>(in);
          }
        });
    }
  });
}
// determinants that differ in one or two bits only, whichever these are
template <size_t N> void neighbours() {
  mc::suite(mc::fmt("neighbours-%zu", N).c_str(), [&] {
    for(size_t b = 0; b < N; ++b)
      mc::test([&] { return mc::fmt("determinants differing in bit %zu and another", b); }, [&] {
        mc::nontrivial();
        for(size_t c = b % (N / 64); c < N; c += N / 64) for(int base = 0; base < 3; ++base) {
          bits<N> x;
          if(base) for(size_t i = 0; i < N; ++i) x[i] = base == 1 ? i % 3 == 0 : (i * i + 3) % 7 < 4;
          auto y = x, z = x;
          y.flip(b), z.flip(c);
          judge<N>({{x, 1}, {y, 2}, {z, 4}, {x, 8}, {y, 16}});
          judge<N>({{z, 1}, {y, 2}, {x, 4}, {z, 8}, {x, 16}});
        }
      });
  });
}
template <size_t N> void lists() {
  mc::suite(mc::fmt("lists-%zu", N).c_str(), [&] {
    for(int len = 7; len <= (mc::thorough ? 6000 : 4500); len += len > 380 ? (mc::thorough ? 397 : 1031) : len < 40 ? 1 : len < 150 ? 7 : 41)
      for(int uniq : {1, 2, 3, 10, 100000}) for(int order = 0; order < 5; ++order)
        mc::test([&] { return mc::fmt("%d candidates, %d determinants, order %d", len, uniq, order); }, [&] {
          mc::nontrivial();
          std::vector<bits<N>> s;
          for(int i = 0; i < std::min(uniq, len); ++i) {
            bits<N> b;
            for(int k = 0; k < 20; ++k) b[(k * 37 + i % 3 * 11) % N] = i >> k & 1;
            b[N - 1 - i % 5] = 1, b[i * 7 % N] = b[i * 7 % N] ^ 1;
            s.push_back(b);
          }
          pairs<N> in;
          for(int i = 0; i < len; ++i) in.push_back({s[(order == 0 ? i : order == 1 ? i * 7 + i / 3 : order == 2 ? i * i : order == 3 ? i / 5 : i * 13 + 1) % s.size()], std::ldexp(double(i * 29 % 101) - 50, -(i % 5))});
          std::sort(in.begin(), in.end(), [&](auto& a, auto& b) { return order == 3 ? Less<N>()(a.state, b.state) : order == 4 ? Less<N>()(b.state, a.state) : false; });
          judge<N>(in);
        });
  });
}
template <size_t N> void reorder() {
  mc::suite(mc::fmt("reorder-%zu", N).c_str(), [&] {
    auto one = [&](const vec& C) {
      std::vector<bits<N>> d;
      for(size_t i = 0; i < C.size(); ++i) { bits<N> b(i + 1); b[N - 1 - i % 3] = 1; d.push_back(b); }
      auto d2 = d;
      auto C2 = C;
      macis::reorder_ci_on_coeff(d2, C2);
      mc::executions(1);
      if(d2.size() != d.size() || C2.size() != C.size()) mc::fail("sizes %zu, %zu after ordering %zu", d2.size(), C2.size(), d.size());
      std::set<size_t> seen;
      for(size_t i = 0; i < d2.size(); ++i) {
        const size_t k = std::find(d.begin(), d.end(), d2[i]) - d.begin();
        if(k == d.size() || !seen.insert(k).second) mc::fail("position %zu of %s holds a determinant twice or an unknown one", i, mc::str(C).c_str());
        if(C2[i] != C[k]) mc::fail("coefficient %zu of %s is parted from its determinant", i, mc::str(C).c_str());
        if(i && std::abs(C2[i]) > std::abs(C2[i - 1])) mc::fail("coefficients of %s are not in descending order", mc::str(C).c_str());
      }
    };
    const double val[] = {0, 1, -1, 0.5, -2};
    for(int len = 0; len <= (mc::thorough ? 7 : 6); ++len) {
      int tot = 1;
      for(int i = 0; i < len; ++i) tot *= 5;
      for(int b = 0; b < tot; b += 125)
        mc::test([&] { return mc::fmt("coefficient sequences %d.. of length %d", b, len); }, [&] {
          if(len > 1) mc::nontrivial();
          for(int k = b; k < std::min(tot, b + 125); ++k) {
            vec C;
            for(int i = 0, x = k; i < len; ++i, x /= 5) C.push_back(val[x % 5]);
            one(C);
            for(auto& c : C) c = std::ldexp(c, -70);
            one(C);
          }
        });
    }
    for(int len = 8; len < 5000; len += len < 200 ? 3 : 611)
      mc::test([&] { return mc::fmt("%d coefficients", len); }, [&] {
        mc::nontrivial();
        vec C;
        for(int i = 0; i < len; ++i) C.push_back(double(i * 31 % 17) - 8 + (len % 2 ? 0. : 0.01 * i));
        one(C);
      });
  });
}
// Pruning: every pruning event may drop only contributions up to the tolerance (all of them once the size limit is passed), never more.
template <size_t N> void judge_pruned(const asci::Scores& S, const std::vector<macis::asci_contrib<bits<N>>>& got, int n, double tol, int nprune, const char* who) {
  std::map<u64, double> g;
  for(auto& p : got) g[ham::undet<N>(p.state, n)] += p.rv;
  for(auto& x : g) if(!S.m.count(x.first) && std::abs(x.second) > 1e-11) mc::fail("%s: %s has the score %g, but is not connected to the core", who, det(x.first, n).c_str(), x.second);
  for(auto& x : S.m) {
    const double v = g.count(x.first) ? g[x.first] : 0.;
    // partial sums are dropped at most once per contribution, and hold at most the tolerance each
    const double room = 1e-11 + x.second.small + x.second.n * tol;
    if(!(std::abs(v - x.second.s) <= room)) mc::fail("%s: %s has the score %.12g, expected %.12g +- %.3g", who, det(x.first, n).c_str(), v, x.second.s, room);
  }
}
struct Sector { int n, a, b; };
template <size_t N> void pruning() {
  mc::suite(mc::fmt("pruning-%zu", N).c_str(), [&] {
    for(auto s : std::vector<Sector>{{3, 1, 1}, {3, 2, 1}, {4, 3, 1}, {4, 3, 2}, {5, 3, 2}})
      for(int kind = 0; kind < 3; ++kind) for(int nc : {1, 3, 6}) for(double tol : {0., 1e-3, 0.02, 0.3}) for(size_t max : {1, 3, 8, 20, 60, 100000})
        mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, integrals %d, core of %d, prune below %g above %zu", s.n, s.a, s.b, kind, nc, tol, max); }, [&] {
          mc::nontrivial();
          asci::silence();
          auto I = kind == 2 ? hubbard(s.n, 1., 3., true) : generic(s.n, kind);
          auto sp = space(s.n, s.a, s.b);
          std::vector<u64> core;
          for(int i = 0; i < nc && i < (int)sp.size(); ++i) core.push_back(sp[i * 5 % sp.size()]);
          if(std::set<u64>(core.begin(), core.end()).size() < core.size()) core.resize(1);
          auto C = asci::coeffs(core.size(), kind);
          auto S = asci::scores(I, core, C, -7.3, 1e-13, false);
          auto st = asci::settings(max);
          st.rv_prune_tol = tol;
          {
            asci::Args<N> A(I, core, C);
            judge_pruned<N>(S, A.standard(st, -7.3), s.n, tol, 0, "one process");
          }
          for(int nr : {1, 2, 3, 6}) for(int lev = 0; lev <= 1; ++lev) {
            if(!mc::thorough && nr > 2 && (nr == 3 || lev != nc / 2 % 2 || tol < 0.01)) continue;
            std::vector<macis::asci_contrib<bits<N>>> all;
            auto o = mc::few_schedules();
            o.modes = {0}, o.all_prios = false;
            mc::mpi(nr, [&]() { all.clear(); return [&](int r) {
              asci::Args<N> A(I, core, C);
              auto t = st;
              t.constraint_level = lev;
              auto p = A.constraint(t, -7.3);
              std::set<u64> seen;
              for(auto& x : p) if(!seen.insert(ham::undet<N>(x.state, s.n)).second) mc::fail("constraint search leaves %s twice", det(ham::undet<N>(x.state, s.n), s.n).c_str());
              for(auto& x : p) all.push_back(x);
            }; }, [&](const smpi::Result& R) {
              asci::no_error(R);
              judge_pruned<N>(S, all, s.n, tol, 0, mc::fmt("%d processes", nr).c_str());
            }, o);
          }
        });
  });
}
}  // namespace
void part1();
#if PART == 0
void mc_main() {
  somp::set(somp::Config{});
  sequences<64>(mc::thorough ? 6 : 5), sequences<128>(mc::thorough ? 6 : 5), sequences<256>(mc::thorough ? 5 : 4);
  neighbours<64>(), neighbours<128>(), neighbours<256>();
  lists<64>(), lists<128>(), reorder<64>(), reorder<128>();
  part1();
}
#else
void part1() { pruning<64>(), pruning<128>(); }
#endif
