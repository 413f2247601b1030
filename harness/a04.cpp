// A04: iterations, growth, refinement.
#include "asci.hpp"
#include <macis/asci/refine.hpp>
#include <macis/asci/grow.hpp>
using namespace fock;
using namespace asci;
namespace {
template <size_t N> using bits = std::bitset<N>;
struct Result { std::vector<u64> list; vec X; double E = 0; std::string threw; Ints I; };
template <size_t N> std::vector<u64> back(const std::vector<bits<N>>& w, int n) {
  std::vector<u64> v;
  for(auto& b : w) {
    v.push_back(ham::undet<N>(b, n));
    if(ham::det<N>(v.back(), n) != b) mc::fail("a determinant outside the orbitals");
  }
  return v;
}
// the ground state of the list is due if a start from the lowest diagonal overlaps it
bool due(const lin::Sym& H, const std::vector<vec>& v, const vec& w) {
  double m = 1e300;
  for(int i = 0; i < H.n; ++i) m = std::min(m, H(i, i));
  for(int i = 0; i < H.n; ++i) if(H(i, i) < m + 1e-9) {
    double c = 0;
    for(size_t k = 0; k < w.size() && w[k] < w[0] + 1e-9; ++k) c += v[k][i] * v[k][i];
    if(c < 1e-6) return false;
  }
  return true;
}
// E, X against the Hamiltonian of the list
void eigenpair(const Ints& I, const Result& R, double tol) {
  auto H = matrix(I, R.list);
  if(R.X.size() != R.list.size()) mc::fail("%zu coefficients of %zu determinants", R.X.size(), R.list.size());
  judge_pair(H, R.E, R.X, tol, "result");
  vec w;
  std::vector<vec> v;
  lin::jacobi(H, w, v);
  if(R.E < w[0] - 10 * tol) mc::fail("energy %.12g is below the lowest eigenvalue %.12g", R.E, w[0]);
  if(due(H, v, w) && !mc::near(R.E, w[0], 10 * tol)) mc::fail("energy %.12g, the lowest eigenvalue of the list is %.12g", R.E, w[0]);
}
void distinct(const std::vector<u64>& l, int n, int na, int nb) {
  std::set<u64> s;
  for(u64 d : l) {
    if(!s.insert(d).second) mc::fail("%s is in the list twice", det(d, n).c_str());
    if(pc(d & ((u64(1) << n) - 1)) != na || pc(d >> n) != nb) mc::fail("%s has the wrong number of electrons", det(d, n).c_str());
  }
}
void agree(const std::vector<Result>& R) {
  for(size_t r = 1; r < R.size(); ++r) {
    if(R[r].threw != R[0].threw) mc::fail("process %zu: '%s', process 0: '%s'", r, R[r].threw.c_str(), R[0].threw.c_str());
    if(R[r].list != R[0].list) mc::fail("processes 0 and %zu hold different lists", r);
    if(R[r].X != R[0].X) mc::fail("processes 0 and %zu hold different coefficients", r);
    if(R[r].E != R[0].E) mc::fail("processes 0 and %zu hold different energies", r);
    if(R[r].I.T != R[0].I.T || R[r].I.V != R[0].I.V) mc::fail("processes 0 and %zu hold different integrals", r);
  }
}
smpi::Opts one() {
  auto o = mc::few_schedules();
  o.modes = {0}, o.all_prios = false;
  return o;
}
struct Start { Ints I; int na, nb; std::vector<u64> list; vec X; double E; };
enum Kind { ITER, GROW, REFINE };
template <size_t N> void run(Kind kind, const Start& s, const macis::ASCISettings& st, size_t max, int nr, const smpi::Opts& o, const std::function<void(const Result&)>& judge) {
  std::vector<Result> out;
  macis::MCSCFSettings m;
  m.ci_max_subspace = 80, m.ci_res_tol = 1e-8;
  mc::mpi(nr, [&]() { out.assign(nr, {}); return [&](int r) {
    ham::Ham<N> H(s.I);
    auto w = ham::dets<N>(s.list, s.I.n);
    std::vector<bits<N>> wo;
    auto& R = out[r];
    try {
      if(kind == ITER) std::tie(R.E, wo, R.X) = macis::asci_iter<N>(st, m, max, s.E, w, s.X, H.gen, s.I.n, mc::comm());
      else if(kind == GROW) std::tie(R.E, wo, R.X) = macis::asci_grow<N>(st, m, s.E, w, s.X, H.gen, s.I.n, mc::comm());
      else std::tie(R.E, wo, R.X) = macis::asci_refine<N>(st, m, s.E, w, s.X, H.gen, s.I.n, mc::comm());
      R.list = back<N>(wo, s.I.n);
    } catch(const mc::Failure&) { throw; } catch(const std::runtime_error& e) { R.threw = e.what(); }
    R.I = H.I;
    // the intermediates belong to the integrals
    if(R.threw.empty()) {
      auto c = column(H.I, R.list[0]);
      for(size_t i = 0; i < std::min<size_t>(R.list.size(), 12); ++i) {
        const double x = H.gen.matrix_element(ham::det<N>(R.list[i], s.I.n), ham::det<N>(R.list[0], s.I.n)), want = c.count(R.list[i]) ? c[R.list[i]] : 0;
        if(!mc::near(x, want, 1e-9)) mc::fail("the generator gives the element %.12g, its integrals %.12g", x, want);
      }
    }
  }; }, [&](const smpi::Result& R) {
    no_error(R);
    agree(out);
    judge(out[0]);
  }, o);
}
struct Sector { int n, na, nb; };
const std::vector<Sector> all{{2, 1, 1}, {3, 1, 1}, {3, 2, 1}, {3, 1, 0}, {4, 2, 2}, {4, 1, 3}, {4, 3, 1}, {5, 2, 1}, {5, 3, 3}, {6, 2, 2}};
Ints ints(int n, int kind) { return kind < 2 ? generic(n, kind) : hubbard(n, 1, 4, false); }
std::vector<u64> some(const std::vector<u64>& sp, size_t k, int how) {
  std::vector<u64> v;
  for(size_t i = 0; v.size() < std::min(k, sp.size()); ++i) {
    const u64 d = sp[how == 0 ? i : how == 1 ? sp.size() - 1 - i : i * 5 % sp.size()];
    if(std::find(v.begin(), v.end(), d) == v.end()) v.push_back(d);
    else if(how == 2) how = 0, i = size_t(-1);
  }
  return v;
}
size_t reach(const Ints& I, u64 d) {
  size_t n = 0;
  for(auto& x : column(I, d)) n += std::abs(x.second) > 1e-6 && x.first != d;
  return n;
}
// one iteration: core = largest coefficients
template <size_t N> void iterations() {
  mc::suite(mc::fmt("iteration-%zu", N).c_str(), [&] {
    for(auto& x : all) for(int kind = 0; kind < 3; ++kind) for(int how = 0; how < 3; ++how) for(size_t len : {1, 2, 3, 5, 8}) for(int order = 0; order < 3; ++order) {
      auto sp = space(x.n, x.na, x.nb);
      if(len > sp.size() || (len == 1 && order)) continue;
      mc::test([&] { return mc::fmt("integrals %d, %d orbitals, %d+%d electrons, list %d of %zu in order %d", kind, x.n, x.na, x.nb, how, len, order); }, [&] {
        mc::nontrivial();
        Start s{ints(x.n, kind), x.na, x.nb, some(sp, len, how), {}, 0};
        s.X.resize(len);
        for(size_t i = 0; i < len; ++i) {
          const int k = order == 0 ? i : order == 1 ? len - 1 - i : (i * 3 + 1) % len == i ? i : (i % 2 ? i - 1 : i + 1 < len ? i + 1 : i);
          s.X[i] = (i % 2 ? -1 : 1) / (1. + k);
        }
        double nn = 0;
        for(double c : s.X) nn += c * c;
        for(double& c : s.X) c /= std::sqrt(nn);
        int k = mc::index();
        for(size_t keep : {size_t(1), size_t(2), len, len + 3}) for(int nr : {1, 2, 3, 7}) {
          if(nr > 3 && (mc::index() + keep) % 4) continue;
          ++k;
          // what the iteration has to do
          std::vector<size_t> o(len);
          std::iota(o.begin(), o.end(), 0);
          std::sort(o.begin(), o.end(), [&](size_t a, size_t b) { return std::abs(s.X[a]) > std::abs(s.X[b]); });
          std::vector<u64> core;
          vec C;
          for(size_t i = 0; i < std::min(keep, len); ++i) core.push_back(s.list[o[i]]), C.push_back(s.X[o[i]]);
          s.E = lowest(s.I, s.list) - (kind == 2 ? 0.37 : 0.01);
          auto st = settings();
          st.ncdets_max = keep, st.constraint_level = k % 4, st.just_singles = k % 5 == 0;
          auto W = estimates(s.I, core, C, s.E, st, false);
          if(W.degenerate) { mc::count("degenerate"); continue; }
          const size_t max = std::max(core.size(), std::min<size_t>(mc::thorough ? 230 : 60, k % 3 == 0 ? sp.size() + 1 : k % 3 == 1 ? (core.size() + sp.size()) / 2 : core.size() + 2));
          run<N>(ITER, s, st, max, nr, one(), [&](const Result& R) {
            if(!R.threw.empty()) mc::fail("iteration fails: %s", R.threw.c_str());
            selected<N>(W, s.I, core, max, ham::dets<N>(R.list, x.n));
            eigenpair(s.I, R, 1e-8);
          });
        }
      });
    }
  });
}
template <size_t N> void grow_case(const Start& s, const macis::ASCISettings& st, int nr, const smpi::Opts& o) {
  const size_t total = space(s.I.n, s.na, s.nb).size();
  size_t least = total;
  for(u64 d : space(s.I.n, s.na, s.nb)) least = std::min(least, 1 + reach(s.I, d));
  const bool stuck = st.grow_factor < 2 && std::max(st.ntdets_min, s.list.size() * st.grow_factor) < st.ntdets_max;
  run<N>(GROW, s, st, 0, nr, o, [&](const Result& R) {
    if(s.list.size() >= st.ntdets_max) {
      if(!R.threw.empty()) mc::fail("growing a list of sufficient size fails: %s", R.threw.c_str());
      if(R.list != s.list || R.X != s.X || R.E != s.E) mc::fail("a list of sufficient size was changed");
      return;
    }
    if(!R.threw.empty()) {
      mc::count("reported");
      if(R.threw.find("grow") == std::string::npos) mc::fail("growing fails: %s", R.threw.c_str());
      if(st.ntdets_max <= least && !stuck && !st.just_singles) mc::fail("growing to %zu of %zu reachable determinants is refused", st.ntdets_max, least);
      return;
    }
    mc::count("grown");
    if(R.list.size() != st.ntdets_max) mc::fail("%zu determinants after growing to %zu", R.list.size(), st.ntdets_max);
    distinct(R.list, s.I.n, s.na, s.nb);
    eigenpair(R.I, R, 1e-8);
    if(!st.grow_with_rot && (R.I.T != s.I.T || R.I.V != s.I.V)) mc::fail("the integrals were changed");
    if(st.grow_with_rot) {  // an orthogonal transform keeps the spectra
      vec w, z;
      std::vector<vec> v;
      lin::Sym A(s.I.n), B(s.I.n);
      for(int p = 0; p < s.I.n; ++p) for(int q = 0; q < s.I.n; ++q) A(p, q) = s.I.t(p, q), B(p, q) = R.I.t(p, q);
      lin::jacobi(A, w, v), lin::jacobi(B, z, v);
      for(int p = 0; p < s.I.n; ++p) if(!mc::near(w[p], z[p], 1e-8)) mc::fail("the rotated one-body integrals have the eigenvalue %.12g for %.12g", z[p], w[p]);
      auto sp = space(s.I.n, s.na, s.nb);
      if(sp.size() <= (mc::thorough ? 40 : 25)) {
        lin::jacobi(matrix(s.I, sp), w, v), lin::jacobi(matrix(R.I, sp), z, v);
        for(size_t p = 0; p < w.size(); ++p) if(!mc::near(w[p], z[p], 1e-8)) mc::fail("the rotated integrals give the full spectrum %.12g for %.12g", z[p], w[p]);
      }
      // first step reached the size: natural orbitals of the ground state of the list
      if(std::max(st.ntdets_min, s.list.size() * st.grow_factor) >= st.ntdets_max && st.rot_size_start <= st.ntdets_max) {
        lin::jacobi(matrix(s.I, R.list), w, v);
        if(w.size() > 1 && w[1] - w[0] < 1e-3) return;
        vec g, G;
        rdms(s.I.n, R.list, v[0], v[0], g, G);
        const int n = s.I.n;
        for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) A(p, q) = -0.5 * (g[p + n * q] + g[q + n * p]);
        vec occ;
        std::vector<vec> U;
        lin::jacobi(A, occ, U);
        for(int p = 1; p < n; ++p) if(occ[p] - occ[p - 1] < 1e-3) return;
        mc::count("natural orbitals");
        auto tr = [&](const vec& a, const vec& b) { double x = 0; for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) x += a[p] * s.I.t(p, q) * b[q]; return x; };
        for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) {
          if(!mc::near(std::abs(tr(U[p], U[q])), std::abs(R.I.t(p, q)), 1e-5)) mc::fail("rotated one-body integral (%d,%d) is +-%.9g, expected +-%.9g", p, q, R.I.t(p, q), tr(U[p], U[q]));
          double x = 0;
          for(int a = 0; a < n; ++a) for(int b = 0; b < n; ++b) for(int c = 0; c < n; ++c) for(int d = 0; d < n; ++d) x += U[p][a] * U[p][b] * U[q][c] * U[q][d] * s.I.v(a, b, c, d);
          if(!mc::near(x, R.I.v(p, p, q, q), 1e-5)) mc::fail("rotated integral (%d%d|%d%d) is %.9g, expected %.9g", p, p, q, q, R.I.v(p, p, q, q), x);
        }
      }
    }
  });
}
Start begin(const Sector& x, int kind, size_t len, int how) {
  Start s{ints(x.n, kind), x.na, x.nb, some(space(x.n, x.na, x.nb), len, how), coeffs(len, 0), 0};
  s.E = lowest(s.I, s.list) - 0.013;  // no denominator vanishes
  return s;
}
template <size_t N> void growth() {
  mc::suite(mc::fmt("growth-%zu", N).c_str(), [&] {
    for(auto& x : all) for(int kind = 0; kind < 3; ++kind) for(size_t len : {1, 2, 4}) for(size_t keep : {1, 3, 100}) for(size_t factor : {0, 1, 2, 8}) for(size_t least : {1, 4, 100}) {
      const size_t total = space(x.n, x.na, x.nb).size();
      if(len > total) continue;
      mc::test([&] { return mc::fmt("integrals %d, %d orbitals, %d+%d electrons, %zu determinants, keep %zu, factor %zu, least %zu", kind, x.n, x.na, x.nb, len, keep, factor, least); }, [&] {
        mc::nontrivial();
        auto s = begin(x, kind, len, kind == 0 ? 0 : 2);
        int k = mc::index();
        for(size_t max : {len - 1, len, len + 1, (len + total) / 2, total - 1, total, total + 1}) {
          if(max > 60) max = 60;
          auto st = settings();
          st.ntdets_max = max, st.ntdets_min = least, st.grow_factor = factor, st.ncdets_max = keep, st.constraint_level = k % 4, st.just_singles = k % 11 == 10;
          ++k;
          grow_case<N>(s, st, k % 9 == 5 ? 6 + k % 2 * 3 : 1 + k % 3, one());
        }
      });
    }
  });
}
template <size_t N> void rotations() {
  mc::suite(mc::fmt("rotation-%zu", N).c_str(), [&] {
    for(auto& x : all) for(int kind = 0; kind < 3; ++kind) for(size_t len : {1, 3}) for(size_t from : {1, 4, 9, 100}) for(size_t factor : {2, 8}) for(size_t least : {1, 6, 100}) {
      const size_t total = space(x.n, x.na, x.nb).size();
      if(len > total) continue;
      mc::test([&] { return mc::fmt("integrals %d, %d orbitals, %d+%d electrons, %zu determinants, rotations from %zu, factor %zu, least %zu", kind, x.n, x.na, x.nb, len, from, factor, least); }, [&] {
        mc::nontrivial();
        auto s = begin(x, kind, len, 0);
        int k = mc::index();
        for(size_t max : {len + 1, (len + total) / 2, total}) for(int nr : {1, 2, 3, 6, 9}) {
          if(nr > 3 && (mc::index() + nr / 9) % 6) continue;
          if(max > 40) max = 40;
          auto st = settings();
          st.ntdets_max = max, st.ntdets_min = least, st.grow_factor = factor, st.constraint_level = k++ % 4, st.grow_with_rot = true, st.rot_size_start = from;
          grow_case<N>(s, st, nr, one());
        }
      });
    }
  });
}
template <size_t N> void refinement() {
  mc::suite(mc::fmt("refinement-%zu", N).c_str(), [&] {
    for(auto& x : all) for(int kind = 0; kind < 3; ++kind) for(size_t len : {1, 2, 3, 5, 8, 13}) for(int how = 0; how < 3; ++how) for(size_t keep : {1, 3, 100}) {
      const size_t total = space(x.n, x.na, x.nb).size();
      if(len > total) continue;
      mc::test([&] { return mc::fmt("integrals %d, %d orbitals, %d+%d electrons, %zu determinants, list %d, keep %zu", kind, x.n, x.na, x.nb, len, how, keep); }, [&] {
        mc::nontrivial();
        auto s = begin(x, kind, len, how);
        int k = mc::index();
        for(size_t iter : {0, 1, 2, 8}) for(int nr : {1, 2, 3, 7}) {
          if(nr > 3 && (mc::index() + iter) % 6) continue;
          auto st = settings();
          st.max_refine_iter = iter, st.ncdets_max = keep, st.constraint_level = k++ % 4, st.refine_energy_tol = k % 2 ? 1e-6 : 1e3;
          run<N>(REFINE, s, st, 0, nr, one(), [&](const Result& R) {
            if(!R.threw.empty()) {
              mc::count("reported");
              const bool size = R.threw.find("size") != std::string::npos;
              if(!size && R.threw.find("converge") == std::string::npos) mc::fail("refinement fails: %s", R.threw.c_str());
              if(!size && iter && st.refine_energy_tol > 1) mc::fail("refinement does not converge with any change of the energy allowed");
              return;
            }
            mc::count("refined");
            if(iter == 0) mc::fail("converged without an iteration");
            if(R.list.size() != len) mc::fail("%zu determinants were refined to %zu", len, R.list.size());
            distinct(R.list, x.n, x.na, x.nb);
            eigenpair(s.I, R, 1e-8);
            if(R.I.T != s.I.T || R.I.V != s.I.V) mc::fail("the integrals were changed");
          });
        }
      });
    }
  });
}
// growth and refinement are the iterations their settings describe, one after another
template <size_t N> Result chain(Kind kind, const Start& s, const macis::ASCISettings& st) {
  macis::MCSCFSettings m;
  m.ci_max_subspace = 80, m.ci_res_tol = 1e-8;
  ham::Ham<N> H(s.I);
  auto w = ham::dets<N>(s.list, s.I.n);
  Result R;
  R.X = s.X, R.E = s.E, R.I = s.I;
  bool done = kind == GROW;
  try {
    for(size_t it = 0; kind == GROW ? w.size() < st.ntdets_max : it < st.max_refine_iter; ++it) {
      const size_t max = kind == GROW ? std::min(std::max(st.ntdets_min, w.size() * st.grow_factor), st.ntdets_max) : w.size();
      if(kind == GROW && max <= w.size()) { R.threw = "stuck"; break; }
      const double e = R.E;
      std::tie(R.E, w, R.X) = macis::asci_iter<N>(st, m, max, e, w, R.X, H.gen, s.I.n, mc::comm());
      if(w.size() < max) { R.threw = "stuck"; break; }
      if(kind == REFINE) {
        const double d = std::abs(R.E - e);
        if(std::abs(d - st.refine_energy_tol) < 1e-9) { R.threw = "close"; return R; }
        if(d < st.refine_energy_tol) { done = true; break; }
      }
    }
  } catch(const std::runtime_error& x) { R.threw = x.what(); }
  if(R.threw.empty() && !done) R.threw = "unconverged";
  R.list = back<N>(w, s.I.n);
  return R;
}
template <size_t N> void sequence() {
  mc::suite(mc::fmt("sequence-%zu", N).c_str(), [&] {
    for(auto& x : all) for(int kind = 0; kind < 2; ++kind) for(size_t len : {1, 3, 6, 10}) for(size_t keep : {1, 4, 100}) for(int grow = 0; grow < 2; ++grow) {
      const size_t total = space(x.n, x.na, x.nb).size();
      if(len > total) continue;
      mc::test([&] { return mc::fmt("integrals %d, %d orbitals, %d+%d electrons, %zu determinants, keep %zu, %s", kind, x.n, x.na, x.nb, len, keep, grow ? "growth" : "refinement"); }, [&] {
        mc::nontrivial();
        int k = mc::index();
        for(int v = 0; v < 8; ++v, ++k) {
          auto s = begin(x, kind, len, v % 3);
          auto st = settings();
          st.ncdets_max = keep, st.constraint_level = k % 4;
          if(grow) st.grow_factor = 2 + v % 3, st.ntdets_min = v < 4 ? 1 : len + 1, st.ntdets_max = std::min<size_t>(60, v % 2 ? total : (len + total) / 2);
          else st.max_refine_iter = v < 2 ? 1 : v < 4 ? 3 : 9, st.refine_energy_tol = v % 2 ? 1e-6 : v % 4 == 2 ? 0.01 : 0.3;
          if(!grow) s.E += v < 4 ? 0. : 0.006;
          Result W;
          auto o = one();
          mc::mpi(1, [&]() { return [&](int) { W = chain<N>(grow ? GROW : REFINE, s, st); }; }, [&](const smpi::Result& R) { no_error(R); }, o);
          if(W.threw == "close") { mc::count("undecided"); continue; }
          run<N>(grow ? GROW : REFINE, s, st, 0, 1, o, [&](const Result& R) {
            mc::count(W.threw.empty() ? "followed" : "followed to a failure");
            if(R.threw.empty() != W.threw.empty()) mc::fail("ends with '%s', the iterations one by one with '%s'", R.threw.c_str(), W.threw.c_str());
            if(R.threw.size()) return;
            if(!mc::near(R.E, W.E, 1e-6)) mc::fail("energy %.10g, the iterations one by one give %.10g", R.E, W.E);
            std::set<u64> a(R.list.begin(), R.list.end()), b(W.list.begin(), W.list.end());
            if(a != b) mc::fail("the iterations one by one give another list");
          });
        }
      });
    }
  });
}
template <size_t N> void schedules() {
  mc::suite(mc::fmt("growth-schedules-%zu", N).c_str(), [&] {
    for(int x = 1; x < 5; ++x) for(int rot = 0; rot < 2; ++rot) for(size_t max : {3, 5, 7})
      mc::test([&] { return mc::fmt("%d orbitals, %d+%d electrons, rotations %d, up to %zu", all[x].n, all[x].na, all[x].nb, rot, max); }, [&] {
        mc::nontrivial();
        auto s = begin(all[x], 0, 1, 0);
        for(int nr = 2; nr <= (mc::thorough ? 4 : 3); ++nr) {
          auto st = settings();
          st.ntdets_max = max, st.ntdets_min = 3, st.grow_factor = 2, st.grow_with_rot = rot, st.rot_size_start = 3;
          grow_case<N>(s, st, nr, nr == 2 || mc::thorough ? mc::full_schedules() : mc::few_schedules());
        }
      });
  });
}
}  // namespace
void part1();
#if PART == 0
void mc_main() {
  somp::set(somp::Config{});
  asci::silence();
  iterations<64>(), growth<64>(), schedules<64>();
  part1();
}
#else
void part1() {
  rotations<64>(), refinement<64>(), sequence<64>();
}
#endif
