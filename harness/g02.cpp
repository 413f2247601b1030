// G02: Green's functions of the legacy library: the determinants they are expanded in, the vectors, the resolvents, the files.
#include "fock.hpp"
#include <complex>
#include <unistd.h>
#include <fstream>
#include <set>
#include <optional>
#if PART == 0
#include <../src/dbwy/gf.c++>
#else
#include <dbwy/gf.h++>
#endif
#include <dbwy/double_loop.hpp>
using namespace fock;
namespace ed = cmz::ed;
using cd = std::complex<double>;
using GFs = std::vector<std::vector<std::vector<cd>>>;
template <class F> void guarded(const F& f) {
  try { f(); }
  catch(const std::string& s) { mc::fail("threw \"%s\"", s.c_str()); }
  catch(const char* s) { mc::fail("threw \"%s\"", s); }
}
template <size_t N> using B = std::bitset<N>;
template <size_t N> B<N> bits(u64 d, int n) {
  B<N> b;
  for(int i = 0; i < n; ++i) b[i] = d >> i & 1, b[i + N / 2] = d >> (i + n) & 1;
  return b;
}
template <size_t N> u64 back(const B<N>& b, int n) {
  u64 d = 0;
  for(int i = 0; i < n; ++i) d |= u64(b[i]) << i | u64(b[i + N / 2]) << (i + n);
  if(bits<N>(d, n) != b) mc::fail("a determinant occupies orbitals that do not exist");
  return d;
}
static std::vector<cd> solve(std::vector<std::vector<cd>> a, std::vector<cd> b) {
  const int n = b.size();
  for(int k = 0; k < n; ++k) {
    int p = k;
    for(int i = k; i < n; ++i) if(std::abs(a[i][k]) > std::abs(a[p][k])) p = i;
    std::swap(a[k], a[p]), std::swap(b[k], b[p]);
    for(int i = k + 1; i < n; ++i) {
      cd f = a[i][k] / a[k][k];
      for(int j = k; j < n; ++j) a[i][j] -= f * a[k][j];
      b[i] -= f * b[k];
    }
  }
  for(int k = n; k--;) {
    for(int j = k + 1; j < n; ++j) b[k] -= a[k][j] * b[j];
    b[k] /= a[k][k];
  }
  return b;
}
struct Set {  // what the calculation is asked to do
  int layers = 0;
  double seed = 0, thresh = 0;
  size_t trunc = 100000;
  vec occs;
};
struct State { int n; std::vector<u64> dets; vec C; };
static ed::Input_t input(const State& s, const Set& g) {
  ed::Input_t in;
  in["norbs"] = std::to_string(s.n), in["trunc_size"] = std::to_string(g.trunc), in["tot_SD"] = std::to_string(g.layers);
  in["GFseedThresh"] = mc::fmt("%.17g", g.seed), in["asThresh"] = mc::fmt("%.17g", g.thresh);
  return in;
}
static u64 active(const Set& g) {
  u64 as = 0;
  for(size_t i = 0; i < g.occs.size(); ++i) if(g.occs[i] >= g.thresh && g.occs[i] <= 1. - g.thresh) as |= u64(1) << i;
  return as;
}
static std::vector<u64> singles(u64 d, int n, u64 as) {
  std::vector<u64> v;
  for(int s = 0; s < 2; ++s) for(int i = 0; i < n; ++i) for(int a = 0; a < n; ++a) {
    const int p = i + s * n, q = a + s * n;
    if((as >> i & 1) && (as >> a & 1) && (d >> p & 1) && !(d >> q & 1)) v.push_back(d ^ u64(1) << p ^ u64(1) << q);
  }
  return v;
}
// determinants: `o` = spin orbital
static std::set<u64> seeds(const State& s, int o, bool part) {
  std::set<u64> r;
  for(u64 d : s.dets) if(bool(d >> o & 1) != part) r.insert(d ^ u64(1) << o);
  return r;
}
static std::set<u64> closure(const State& s, int o, bool part, const Set& g) {
  auto all = seeds(s, o, part);
  std::set<u64> last;
  for(size_t i = 0; i < s.dets.size(); ++i) if(all.count(s.dets[i] ^ u64(1) << o) && bool(s.dets[i] >> o & 1) != part && std::abs(s.C[i]) >= g.seed) last.insert(s.dets[i] ^ u64(1) << o);
  const u64 as = active(g);
  for(int l = 0; l < g.layers; ++l) {
    std::set<u64> next;
    for(u64 d : last) for(u64 e : singles(d, s.n, as)) if(all.insert(e).second) next.insert(e);
    last = next;
  }
  return all;
}
static Eigen::VectorXd wave(const State& s) {
  Eigen::VectorXd w(s.C.size());
  for(size_t i = 0; i < s.C.size(); ++i) w(i) = s.C[i];
  return w;
}
template <size_t N> std::vector<B<N>> many(const std::vector<u64>& d, int n) {
  std::vector<B<N>> v;
  for(u64 x : d) v.push_back(bits<N>(x, n));
  return v;
}
template <size_t N> void basis_of(const State& s, int o, bool part, const Set& g) {
  mc::executions(1);
  std::vector<B<N>> out{B<N>(5)};
  guarded([&] { ed::get_GF_basis_AS_1El<N>(o % s.n, o < s.n, part, wave(s), many<N>(s.dets, s.n), out, g.occs, input(s, g)); });
  const auto all = closure(s, o, part, g), first = seeds(s, o, part);
  std::set<u64> got;
  for(auto& b : out) if(!got.insert(back<N>(b, s.n)).second) mc::fail("a determinant is listed twice");
  for(u64 d : first) if(!got.count(d)) mc::fail("the determinant %s of the vector itself is missing", det(d, s.n).c_str());
  for(u64 d : got) if(!all.count(d)) mc::fail("determinant %s is not in the closure", det(d, s.n).c_str());
  const size_t most = size_t(s.n) * s.n;
  if(got.size() < std::min(all.size(), g.trunc)) mc::fail("%zu determinants of %zu, the limit is %zu", got.size(), all.size(), g.trunc);
  if(got.size() > std::max(first.size(), g.trunc + 1 + most)) mc::fail("%zu determinants, the limit is %zu", got.size(), g.trunc);
}
// projection of a(+)_o psi
static vec ladder(const State& s, int o, bool part, const std::vector<u64>& dets) {
  std::map<u64, double> m;
  for(size_t i = 0; i < s.dets.size(); ++i) {
    u64 d = s.dets[i];
    if(int g = part ? cre(d, o) : ann(d, o)) m[d] += g * s.C[i];
  }
  vec v;
  for(u64 d : dets) v.push_back(m.count(d) ? m[d] : 0.);
  return v;
}
static bool vanishes(const vec& v) {
  double x = 0;
  for(double e : v) x += e * e;
  return x <= 1e-7;
}
template <size_t N> void vectors(const State& s, const std::vector<int>& orbs, bool part, const std::vector<u64>& dets) {
  mc::executions(1);
  ed::VecInt o, gone{7};
  std::vector<bool> up;
  for(int x : orbs) o.push_back(x % s.n), up.push_back(x < s.n);
  auto got = ed::BuildWfn4Lanczos<N>(wave(s), o, up, many<N>(s.dets, s.n), many<N>(dets, s.n), part, gone);
  std::vector<vec> want;
  std::vector<int> zero;
  for(size_t i = 0; i < orbs.size(); ++i) {
    auto v = ladder(s, orbs[i], part, dets);
    vanishes(v) ? zero.push_back(i) : want.push_back(v);
  }
  if(std::vector<int>(gone.begin(), gone.end()) != zero) mc::fail("left out: %s, expected %s", mc::str(gone).c_str(), mc::str(zero).c_str());
  if(got.size() != want.size()) mc::fail("%zu vectors, expected %zu", got.size(), want.size());
  for(size_t i = 0; i < want.size(); ++i) if(got[i] != want[i]) mc::fail("vector %zu is %s, expected %s", i, mc::str(got[i]).c_str(), mc::str(want[i]).c_str());
}
static const std::vector<cd> freq{{0.3, 0.5}, {-2, 1}, {5, 0.25}, {0, -2}};
static GFs dense(const Ints& I, const State& s, double E0, const std::vector<int>& orbs, bool part, const std::vector<u64>& dets, std::vector<int>& zero) {
  std::vector<vec> V;
  zero.clear();
  for(size_t i = 0; i < orbs.size(); ++i) {
    auto v = ladder(s, orbs[i], part, dets);
    vanishes(v) ? zero.push_back(i) : V.push_back(v);
  }
  const int n = dets.size(), nv = V.size();
  GFs G(freq.size(), std::vector<std::vector<cd>>(nv, std::vector<cd>(nv)));
  if(!nv) return G;
  const auto A = matrix(I, dets);
  for(size_t iw = 0; iw < freq.size(); ++iw) for(int l = 0; l < nv; ++l) {
    std::vector<std::vector<cd>> M(n, std::vector<cd>(n));
    for(int i = 0; i < n; ++i) {
      for(int j = 0; j < n; ++j) M[i][j] = (part ? -1. : 1.) * (A(i, j) - (i == j ? E0 : 0));
      M[i][i] += freq[iw];
    }
    auto x = solve(M, std::vector<cd>(V[l].begin(), V[l].end()));
    for(int k = 0; k < nv; ++k) for(int i = 0; i < n; ++i) G[iw][k][l] += V[k][i] * x[i];
  }
  return G;
}
static void same(const GFs& a, const GFs& b, const char* what, double tol) {
  if(a.size() != b.size()) mc::fail("%s: %zu frequencies, expected %zu", what, a.size(), b.size());
  for(size_t w = 0; w < b.size(); ++w) {
    if(a[w].size() != b[w].size()) mc::fail("%s: %zu rows, expected %zu", what, a[w].size(), b[w].size());
    for(size_t k = 0; k < b[w].size(); ++k) {
      if(a[w][k].size() != b[w][k].size()) mc::fail("%s: %zu columns, expected %zu", what, a[w][k].size(), b[w][k].size());
      for(size_t l = 0; l < b[w][k].size(); ++l)
        if(!(std::abs(a[w][k][l] - b[w][k][l]) <= tol * (1 + std::abs(b[w][k][l])))) mc::fail("%s: element (%zu,%zu) at %g%+gi is %.12g%+.12gi, expected %.12g%+.12gi", what, k, l, freq[w].real(), freq[w].imag(), a[w][k][l].real(), a[w][k][l].imag(), b[w][k][l].real(), b[w][k][l].imag());
    }
  }
}
static std::string words(const std::vector<int>& v, int n, bool spin) {
  std::string s;
  for(int x : v) s += (s.empty() ? "" : " ") + (spin ? std::string(x < n ? "T" : "F") : std::to_string(x % n));
  return s;
}
static void files(const GFs& G, const std::vector<int>& orbs, const std::vector<int>& zero, int n, bool part) {
  auto numbers = [](const std::string& f) {
    std::ifstream in(f);
    if(!in) mc::fail("%s was not written", f.c_str());
    std::vector<double> v;
    std::string t;
    while(in >> t) v.push_back(std::stod(t));
    in.close();
    std::remove(f.c_str());
    return v;
  };
  const std::string tag = part ? "ADD" : "SUB";
  std::vector<double> want, got;
  for(size_t w = 0; w < G.size(); ++w) {
    want.push_back(freq[w].real()), want.push_back(freq[w].imag());
    for(auto& r : G[w]) for(auto& x : r) want.push_back(x.real()), want.push_back(x.imag());
  }
  if(orbs.size() > 1) {
    got = numbers("LanGFMatrix_" + tag + ".dat");
    std::vector<double> idx;
    for(size_t i = 0; i < orbs.size(); ++i) if(std::find(zero.begin(), zero.end(), int(i)) == zero.end()) idx.push_back(orbs[i] % n);
    if(numbers("GFMatrix_OrbitalIndices_" + tag + ".dat") != idx) mc::fail("the file of orbital indices is wrong");
  } else got = numbers("LanGF_" + tag + "_" + std::to_string(orbs[0] % n + 1) + "_" + std::to_string(orbs[0] % n + 1) + ".dat");
  if(got != want) mc::fail("the file holds other numbers than the Green's function (%zu, expected %zu)", got.size(), want.size());
}
template <size_t N> void run(const Ints& I, const State& s, double E0, const std::vector<int>& in_basis, const std::vector<int>& orbs, bool part, const Set& g, bool write) {
  std::set<u64> all;
  for(int o : in_basis) { auto c = closure(s, o, part, g); all.insert(c.begin(), c.end()); }
  // the library's order: by value of the long string
  std::vector<u64> dets(all.begin(), all.end());
  std::vector<int> zero;
  const GFs want = dense(I, s, E0, orbs, part, dets, zero);
  if(chdir(mc::scratch().c_str())) mc::fail("no scratch directory");
  auto o = mc::few_schedules();
  o.modes = {0};
  o.sub_phase = -1;  // the legacy code uses the world communicator
  mc::mpi(1, [&] { return std::function<void(int)>([&](int) {
    Ints J = I;
    dbwy::DoubleLoopHamiltonianGenerator<N> H(size_t(J.n), J.V.data(), J.T.data());
    for(int band = 0; band < 2; ++band) {
      mc::executions(1);
      auto in = input(s, g);
      in["use_bandLan"] = band ? "T" : "F";
      in["GF_orbs_basis"] = words(in_basis, s.n, false), in["is_up_basis"] = words(in_basis, s.n, true);
      in["GF_orbs_comp"] = words(orbs, s.n, false), in["is_up_comp"] = words(orbs, s.n, true);
      if(write) in["writeGF"] = "T";
      if(dets.size() > 2 && !write) in["nLanIts"] = std::to_string(orbs.size() * dets.size() + 1);
      GFs G;
      guarded([&] { ed::RunGFCalc<N>(G, wave(s), H, many<N>(s.dets, s.n), E0, part, freq, g.occs, in); });
      same(G, want, band ? "band Lanczos" : "Lanczos", 2e-5);
      if(write) files(G, orbs, zero, s.n, part);
      // cut short: the overlaps of the vectors remain
      for(int steps = 1; steps <= 2 && write; ++steps) {
        in["nLanIts"] = std::to_string(steps), in["writeGF"] = "F";
        const std::vector<cd> far{{0, 1e6}};
        guarded([&] { G.clear(), ed::RunGFCalc<N>(G, wave(s), H, many<N>(s.dets, s.n), E0, part, far, g.occs, in); });
        std::vector<vec> V;
        for(size_t i = 0; i < orbs.size(); ++i) if(std::find(zero.begin(), zero.end(), int(i)) == zero.end()) V.push_back(ladder(s, orbs[i], part, dets));
        if(G.size() != 1 || G[0].size() != V.size()) mc::fail("%d steps: wrong shape", steps);
        for(size_t k = 0; k < V.size(); ++k) for(size_t l = 0; l < V.size(); ++l) {
          double x = 0;
          for(size_t i = 0; i < dets.size(); ++i) x += V[k][i] * V[l][i];
          if(!(std::abs(G[0][k][l] * far[0] - x) <= 1e-4)) mc::fail("%s, %d steps: weight of element (%zu,%zu) is %g, expected %g", band ? "band Lanczos" : "Lanczos", steps, k, l, (G[0][k][l] * far[0]).real(), x);
        }
      }
    }
  }); }, [](const smpi::Result& r) { if(!r.error.empty()) mc::fail("%s", r.error.c_str()); }, o);
}
static std::vector<State> states(int n, int na, int nb, const Ints& I, vec& E) {
  std::vector<State> v;
  auto sp = space(n, na, nb);
  auto add = [&](const std::vector<u64>& d, vec c) {
    double x = 0;
    for(double e : c) x += e * e;
    if(x == 0) return;
    for(double& e : c) e /= std::sqrt(x);
    const auto A = matrix(I, d);
    double e = 0;
    for(size_t i = 0; i < d.size(); ++i) for(size_t j = 0; j < d.size(); ++j) e += c[i] * A(i, j) * c[j];
    v.push_back({n, d, c}), E.push_back(e);
  };
  vec w;
  std::vector<vec> x;
  lin::jacobi(matrix(I, sp), w, x);
  add(sp, x[0]);
  if(sp.size() > 1) {
    vec c(sp.size()), ones(sp.size(), 1.);
    for(size_t i = 0; i < c.size(); ++i) c[i] = int(i * 3 % 5) - 2;
    add(sp, c), add(sp, ones);
    std::vector<u64> part;
    vec pc;
    for(size_t i = sp.size(); i--;) if(i % 3 != 1) part.push_back(sp[i]), pc.push_back(c[i] + 0.5);
    add(part, pc);
  }
  if(sp.size() > 1) for(size_t i = 0; i < sp.size(); i += (sp.size() > 4 ? 3 : 1)) add({sp[i]}, {i % 2 ? -1. : 1.});
  return v;
}
template <size_t N> void everything() {
  mc::suite(mc::fmt("wide-%zu", N).c_str(), [&] {  // many orbitals, few determinants
    for(int n : {5, 6, 9, 17, 31}) for(int kind = 0; kind < 3; ++kind) for(int part = 0; part < 2; ++part)
      mc::test([&] { return mc::fmt("%d orbitals, list %d, %s in every spin orbital", n, kind, part ? "electron" : "hole"); }, [&] {
        mc::nontrivial();
        State s{n, {}, {}};
        const u64 lo = (u64(1) << n) - 1;
        for(int i = 0; i < 4; ++i) {  // electrons at both ends and in between
          u64 a = kind == 0 ? u64(1) << i | u64(1) << (n - 1) : kind == 1 ? lo & ~(u64(1) << i | u64(1) << (n / 2)) : u64(5) << (n - 3) | u64(i % 2);
          u64 b = kind == 0 ? u64(3) << (n - 2 - i % 2) : kind == 1 ? u64(1) << (n - 1 - i) : lo & ~(u64(1) << (n - 1 - i));
          s.dets.push_back(a | b << n), s.C.push_back(0.5 - 0.3 * (i % 2) - (i == 3));
        }
        std::vector<int> orbs, back;
        for(int o = 0; o < 2 * n; ++o) {
          if(n > 9 && o % n > 3 && o % n < n - 4 && o % 5) continue;
          for(u64 as : {lo, u64(7) << (n - 3), u64(1) | u64(1) << (n - 1) | u64(1) << (n / 2)}) for(int L = 0; L <= (n > 9 && as == lo ? 1 : 2); ++L) for(double sd : {0., 0.3}) for(size_t tr : {size_t(3), size_t(30), size_t(100000)}) {
            Set g;
            g.layers = L, g.seed = sd, g.trunc = tr, g.thresh = 0.1;
            for(int i = 0; i < n; ++i) g.occs.push_back(as >> i & 1 ? 0.5 : i % 2 ? 0.05 : 0.95);
            basis_of<N>(s, o, part, g);
          }
          Set g;
          g.occs.assign(n, 0.5), g.layers = 1;
          auto c = closure(s, o, part, g);
          vectors<N>(s, {o}, part, std::vector<u64>(c.begin(), c.end()));
        }
      });
    struct { int n, a, b; } z[] = {{4, 2, 1}, {4, 3, 3}, {5, 1, 1}, {5, 4, 2}};
    for(auto q : z) for(int part = 0; part < 2; ++part) for(int spin = 0; spin < 2; ++spin)
      mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, %s of spin %d", q.n, q.a, q.b, part ? "electrons" : "holes", spin); }, [&] {
        mc::nontrivial();
        const Ints I = generic(q.n, spin);
        vec E;
        auto S = states(q.n, q.a, q.b, I, E);
        std::vector<int> all, one{(q.n - 1) + spin * q.n}, two{1 + spin * q.n, spin * q.n};
        for(int o = 0; o < q.n; ++o) all.push_back(o + spin * q.n);
        for(int L = 0; L < 3; ++L) {
          Set g;
          g.layers = L, g.seed = 0.1 * (L % 2), g.thresh = 0.1, g.occs.assign(q.n, 0.5);
          if(L == 1) g.occs[1] = 0.95;
          run<N>(I, S[0], E[0], all, all, part, g, L == 2), run<N>(I, S[3], E[3], one, one, part, g, true), run<N>(I, S[1], E[1], all, two, part, g, false);
        }
      });
  });
  const int m = mc::thorough ? 4 : 3;
  for(int n = 1; n <= m; ++n) {
    std::vector<Ints> H{generic(n), generic(n, 1)};
    if(n > 1) H.push_back(hubbard(n, 1., 2., true)), H.push_back(hubbard(n, 1., 0., false));
    if(n > 1) {  // an orbital of its own
      Ints I = generic(n, 1);
      for(auto& l : unique(n)) {
        const int c = (l.p == 0) + (l.q == 0), d = l.r < 0 ? c : c + (l.r == 0) + (l.s == 0), full = l.r < 0 ? 2 : 4;
        if(d && d != full) put(I, l, 0.);
      }
      H.push_back(I);
    }
    mc::suite(mc::fmt("basis-%zu-%d", N, n).c_str(), [&] {
      for(int na = 0; na <= n; ++na) for(int nb = 0; nb <= n; ++nb) {
        vec E;
        auto S = states(n, na, nb, H[0], E);
        for(size_t k = 0; k < S.size(); ++k) for(int o = 0; o < 2 * n; ++o) for(int part = 0; part < 2; ++part)
          mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, state %zu, %s in spin orbital %d", n, na, nb, k, part ? "electron" : "hole", o); }, [&] {
            mc::nontrivial();
            for(u64 as = 0; as < u64(1) << n; ++as) for(int L = 0; L <= 3; ++L) for(double sd : {0., 0.3, 0.6, 2.}) for(size_t tr : {size_t(0), size_t(1), size_t(2), size_t(4), size_t(7), size_t(1000)}) {
              Set g;
              g.layers = L, g.seed = sd, g.trunc = tr, g.thresh = 0.1;
              // inside: also exactly at the ends of the window
              for(int i = 0; i < n; ++i) g.occs.push_back(as >> i & 1 ? (i % 3 == 0 ? 0.1 : i % 3 == 1 ? 0.9 : 0.5) : (i % 2 ? 0.05 : 0.95));
              basis_of<N>(S[k], o, part, g);
            }
          });
      }
    });
    mc::suite(mc::fmt("vectors-%zu-%d", N, n).c_str(), [&] {
      for(int na = 0; na <= n; ++na) for(int nb = 0; nb <= n; ++nb) {
        vec E;
        auto S = states(n, na, nb, H[0], E);
        for(size_t k = 0; k < S.size(); ++k) for(int part = 0; part < 2; ++part)
          mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, state %zu, %s", n, na, nb, k, part ? "electrons" : "holes"); }, [&] {
            mc::nontrivial();
            for(int sz = 0; sz < 2; ++sz) {
              const int a = na + (sz ? 0 : part ? 1 : -1), b = nb + (sz ? part ? 1 : -1 : 0);
              if(a < 0 || b < 0 || a > n || b > n) continue;
              auto all = space(n, a, b);
              std::vector<u64> some;
              for(size_t i = all.size(); i--;) if(i % 3 != 1) some.push_back(all[i]);
              for(u64 set = 1; set < u64(1) << (2 * n); ++set) {
                std::vector<int> orbs;
                for(int o = 0; o < 2 * n; ++o) if(set >> o & 1) orbs.push_back(o);
                vectors<N>(S[k], orbs, part, all);
                std::reverse(orbs.begin(), orbs.end());
                vectors<N>(S[k], orbs, part, some);
              }
            }
          });
      }
    });
    mc::suite(mc::fmt("functions-%zu-%d", N, n).c_str(), [&] {
      for(size_t h = 0; h < H.size(); ++h) for(int na = 0; na <= n; ++na) for(int nb = 0; nb <= n; ++nb) {
        if(n == 4 && (h % 2 || na < nb)) continue;
        vec E;
        auto S = states(n, na, nb, H[h], E);
        for(size_t k = 0; k < S.size(); ++k) for(int part = 0; part < 2; ++part) {
          auto go = [&](const std::vector<int>& b, const std::vector<int>& c, int L, double sd, u64 as, bool write) {
            mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, Hamiltonian %zu, state %zu, %s in spin orbitals %s, basis from %s, %d layers above %g, active %llx", n, na, nb, h, k, part ? "electrons" : "holes", mc::str(c).c_str(), mc::str(b).c_str(), L, sd, (unsigned long long)as); }, [&] {
              mc::nontrivial();
              Set g;
              g.layers = L, g.seed = sd, g.thresh = 0.1;
              for(int i = 0; i < n; ++i) g.occs.push_back(as >> i & 1 ? 0.5 : 0.95);
              run<N>(H[h], S[k], E[k], b, c, part, g, write);
            });
          };
          const u64 full = (u64(1) << n) - 1;
          for(int o = 0; o < 2 * n; ++o) for(int L = 0; L <= 2; L += n > 1 ? 1 : 2) go({o}, {o}, L, 0.1, full, true);
          for(int s = 0; s < 2; ++s) {
            std::vector<int> v, r;
            for(int o = 0; o < n; ++o) v.push_back(o + s * n), r.push_back(2 * n - 1 - o - s * n);
            if(n > 1) {
              go(v, v, 0, 0., full, true), go(v, v, 2, 0., full, false), go(v, v, 1, 0.4, full & 3, false);
              go({v[0]}, v, 1, 0., full, false), go(r, {v[0], v[n - 1]}, 2, 0., full, false);
              for(int o = 1; o < n; ++o) go({v[0], v[o]}, {v[o], v[0]}, 2, 0., full, false);
            }
          }
        }
      }
    });
  }
}
void part1();
#if PART == 0
void mc_main() {
  everything<64>();
  part1();
}
#else
void part1() { everything<128>(); }
#endif
