// O04: orbital optimisation.
#include "orb.hpp"
#include "dav.hpp"
#include <macis/util/mcscf.hpp>
#include <spdlog/sinks/null_sink.h>
#include <spdlog/sinks/ostream_sink.h>
#include <sstream>
using namespace orb;
// the orbitals of the last transformation each process asked for
namespace {
std::vector<vec> last_u;
}
extern "C" {
__attribute__((weak)) void __real__ZN5macis19two_index_transformEmmPKdmS1_mPdm(size_t, size_t, const double*, size_t, const double*, size_t, double*, size_t);
void __wrap__ZN5macis19two_index_transformEmmPKdmS1_mPdm(size_t o, size_t n, const double* X, size_t LX, const double* C, size_t LC, double* Y, size_t LY) {
  const int r = smpi::current_rank();
  if(r >= 0 && r < (int)last_u.size()) {
    last_u[r].assign(o * n, 0.);
    for(size_t j = 0; j < n; ++j) for(size_t i = 0; i < o; ++i) last_u[r][i + o * j] = C[i + LC * j];
  }
  __real__ZN5macis19two_index_transformEmmPKdmS1_mPdm(o, n, X, LX, C, LC, Y, LY);
}
}
namespace {
std::ostringstream log_;
void loggers() {
  quiet();
  for(const char* l : {"ci_solver", "diis"}) if(!spdlog::get(l)) spdlog::null_logger_mt(l);
  if(!spdlog::get("mcscf")) {
    auto l = std::make_shared<spdlog::logger>("mcscf", std::make_shared<spdlog::sinks::ostream_sink_mt>(log_));
    spdlog::register_logger(l);
  }
  log_.str("");
}
int said(const char* what) {
  int n = 0;
  const std::string s = log_.str();
  for(size_t p = 0; (p = s.find(what, p)) != std::string::npos; ++p) ++n;
  return n;
}
smpi::Opts cheap() {
  auto o = mc::few_schedules();
  o.modes = {0};
  return o;
}
struct Setup { Split s; int a, b; Ints I; double core; bool lowest = true; };  // lowest: no symmetry can hide the ground state from the solver
// ground state of the active space in given orbitals
struct Ground { double e, gap, curv; vec g, G; };  // curv: least approximate curvature along a rotation
Ground ground(const Ints& I, const Setup& S) {
  std::vector<u64> full;
  auto sp = space(S.s.na, S.a, S.b);
  for(u64 d : sp) full.push_back(embed(d, S.s));
  auto H = matrix(I, full);
  vec w;
  std::vector<vec> v;
  lin::jacobi(H, w, v);
  Ground r;
  r.e = w[0] + S.core, r.gap = w.size() > 1 ? w[1] - w[0] : 1e9;
  rdms(S.s.na, sp, v[0], v[0], r.g, r.G);
  const int n = I.n, ni = S.s.ni, na = S.s.na;
  vec f(n), F(n, 0.);  // inactive + active, and generalised Fock matrix, diagonal
  for(int p = 0; p < n; ++p) {
    f[p] = I.t(p, p);
    for(int i = 0; i < ni; ++i) f[p] += 2 * I.v(p, p, i, i) - I.v(p, i, i, p);
    if(p >= ni && p < ni + na) for(int w = 0; w < na; ++w) {
      double x = I.t(p, w + ni);
      for(int i = 0; i < ni; ++i) x += 2 * I.v(p, w + ni, i, i) - I.v(p, i, i, w + ni);
      F[p] += r.g[p - ni + na * w] * x;
      for(int x2 = 0; x2 < na; ++x2) for(int y = 0; y < na; ++y) F[p] += 2 * r.G[p - ni + na * (w + na * (x2 + na * y))] * I.v(p, w + ni, x2 + ni, y + ni);
    }
    for(int v1 = 0; v1 < na; ++v1) for(int w = 0; w < na; ++w) f[p] += r.g[v1 + na * w] * (I.v(p, p, v1 + ni, w + ni) - 0.5 * I.v(p, v1 + ni, w + ni, p));
  }
  r.curv = 1e9;
  for(int a = 0; a < n; ++a) for(int i = 0; i < a; ++i) {
    auto act = [&](int p) { return p >= ni && p < ni + na; };
    if((a < ni) || (act(a) && act(i)) || i >= ni + na) continue;
    auto gam = [&](int p) { return r.g[(p - ni) * (na + 1)]; };
    double h = act(i) ? 2 * gam(i) * f[a] - 2 * F[i] : act(a) ? 2 * gam(a) * f[i] + 4 * (f[a] - f[i]) - 2 * F[a] : 4 * (f[a] - f[i]);
    if(std::abs(h) > 1e-9) r.curv = std::min(r.curv, h);  // the others are redundant
  }
  return r;
}
double gradnorm(const Ints& I, const Split& s, const vec& g, const vec& G, int& z) {
  double x = 0;
  z = 0;
  const int o = s.ni + s.na;
  auto shifted = [&](int a, int i) {
    Ints R(I.n);
    const int n = I.n;
    vec X(n * n, 0.);
    X[a + n * i] = 1, X[i + n * a] = -1;
    for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) { double y = 0; for(int k = 0; k < n; ++k) y += X[p + n * k] * I.t(k, q) + X[q + n * k] * I.t(p, k); R.t(p, q) = y; }
    for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) for(int r = 0; r < n; ++r) for(int t = 0; t < n; ++t) {
      double y = 0;
      for(int k = 0; k < n; ++k) y += X[p + n * k] * I.v(k, q, r, t) + X[q + n * k] * I.v(p, k, r, t) + X[r + n * k] * I.v(p, q, k, t) + X[t + n * k] * I.v(p, q, r, k);
      R.v(p, q, r, t) = y;
    }
    return orb::energy(R, s, g, G);
  };
  for(int a = 0; a < I.n; ++a) for(int i = 0; i < a; ++i) {
    auto kind = [&](int p) { return p < s.ni ? 0 : p < o ? 1 : 2; };
    if(kind(a) == kind(i)) continue;
    ++z;
    const double d = shifted(a, i);
    x += d * d;
  }
  return std::sqrt(x);
}
struct Opt { int nr = 1, start = 0, pad = 0; bool diis = true; double step = 0.5, tol = 5e-6; int iters = 100; };
// start: 0 zero density matrices, 1 those of the ground state, 2 of a wave function with the right number of electrons, 3 with a wrong trace
void optimise(const Setup& S, const Opt& o, const smpi::Opts& sch) {
  const int n = S.s.n, na = S.s.na;
  const auto who = mc::fmt("%d processes, start %d, %s, largest step %g, at most %d iterations, padding %d", o.nr, o.start, o.diis ? "extrapolated" : "plain", o.step, o.iters, o.pad);
  const Ground g0 = ground(S.I, S);
  vec g, G;
  auto sp = space(na, S.a, S.b);
  if(o.start == 1) g = g0.g, G = g0.G;
  else if(o.start == 2) { vec C = wave(sp.size(), 1); rdms(na, sp, C, C, g, G); }
  else { vec C(sp.size(), 0.); rdms(na, sp, C, C, g, G); if(o.start == 3) for(double& x : g) x = 0.3; }
  if(o.start == 3 && na) { double tr = 0.3 * na; if(std::abs(tr - S.a - S.b) < 1e-3) return; }
  struct R { bool ok = false; std::string err; double e = 0; vec g, G; };
  std::vector<R> out;
  mc::mpi(o.nr, [&]() {
    out.assign(o.nr, R()), last_u.assign(o.nr, vec());
    loggers();
    return [&](int r) {
      const int x = o.pad;
      Pad T(S.I.T, n, 2, x), V(S.I.V, n, 4, x ? x + 1 : 0), D1(g, na, 2, x), D2(G, na, 4, x ? 3 - x : 0);
      auto T0 = T.a, V0 = V.a;
      macis::MCSCFSettings st;
      st.max_macro_iter = o.iters, st.max_orbital_step = o.step, st.enable_diis = o.diis, st.orb_grad_tol_mcscf = o.tol;
      st.ci_res_tol = 1e-9, st.ci_max_subspace = 60;
      try {
        out[r].e = macis::casscf_diis(st, macis::NumElectron(S.a), macis::NumElectron(S.b), macis::NumOrbital(n), macis::NumInactive(S.s.ni), macis::NumActive(na), macis::NumVirtual(S.s.nv()), S.core, T.data(), T.ld,
                                      V.data(), V.ld, D1.data(), D1.ld, D2.data(), D2.ld, mc::comm());
        out[r].ok = true;
      } catch(const std::exception& e) {
        if(dynamic_cast<const mc::Failure*>(&e)) throw;
        out[r].err = e.what();
        return;
      }
      if(T.a != T0 || V.a != V0) mc::fail("%s: the integrals were changed", who.c_str());
      out[r].g = D1.get("one-body density matrix"), out[r].G = D2.get("two-body density matrix");
    };
  }, [&](const smpi::Result& res) {
    if(!res.error.empty()) mc::fail("%s: %s", who.c_str(), res.error.c_str());
    for(auto& t : res.threw) if(!t.empty()) mc::fail("%s: %s", who.c_str(), t.c_str());
    for(int r = 1; r < o.nr; ++r) if(out[r].ok != out[0].ok || out[r].e != out[0].e || out[r].g != out[0].g || out[r].G != out[0].G) mc::fail("%s: process %d gives %d/%.15g (%s), process 0 %d/%.15g (%s), or the density matrices differ", who.c_str(), r, out[r].ok, out[r].e, out[r].err.c_str(), out[0].ok, out[0].e, out[0].err.c_str());
    if(!out[0].ok) {
      mc::count("reported_failure");
      if(S.lowest) mc::fail("%s: gives up (%s)", who.c_str(), out[0].err.c_str());
      return;
    }
    const int c = said("MCSCF Converged");
    if(c != 0 && c != o.nr) mc::fail("%s: %d processes report convergence", who.c_str(), c);
    mc::count(c ? "converged" : "not_converged");
    if(!c && S.lowest && g0.curv > 0.1 && o.diis && o.step >= 0.5 && o.start != 2 && o.iters >= 100) mc::fail("%s: no convergence", who.c_str());
    vec U(n * n, 0.);
    for(int i = 0; i < n; ++i) U[i + n * i] = 1;
    const bool moved = last_u[0].size() == size_t(n) * n;
    if(moved) U = last_u[0];
    for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) {
      double x = 0;
      for(int k = 0; k < n; ++k) x += U[k + n * i] * U[k + n * j];
      if(!mc::near(x, i == j, 1e-10)) mc::fail("%s: the orbitals are not orthonormal (%.3g)", who.c_str(), x - (i == j));
    }
    const Ints J = rotate(S.I, U);
    if(o.iters == 0 && moved) mc::fail("%s: the orbitals were transformed", who.c_str());
    if(o.iters == 1 && o.step <= 0.05 && moved) {  // the generator of the first step
      vec X = U, P, L(n * n, 0.);
      for(int i = 0; i < n; ++i) X[i + n * i] -= 1;
      P = X;
      for(int k = 1; k < 60; ++k) {
        vec Q(n * n, 0.);
        for(int i = 0; i < n * n; ++i) L[i] += (k % 2 ? 1. : -1.) / k * P[i];
        for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) for(int m = 0; m < n; ++m) Q[i + n * j] += P[i + n * m] * X[m + n * j];
        P = Q;
      }
      for(double x : L) if(std::abs(x) > o.step + 1e-9) mc::fail("%s: the first step is %.12g", who.c_str(), x);
    }
    const double e = out[0].e;
    const double er = orb::energy(J, S.s, out[0].g, out[0].G) + S.core;
    if(!mc::near(e, er, 1e-8)) mc::fail("%s: the energy is %.12g, that of the density matrices in the final orbitals %.12g", who.c_str(), e, er);
    double tr = 0;
    for(int p = 0; p < na; ++p) tr += out[0].g[p * (na + 1)];
    if(!mc::near(tr, S.a + S.b, 1e-8)) mc::fail("%s: the density matrix has trace %.12g", who.c_str(), tr);
    const bool given = !moved && (o.start == 1 || o.start == 2);
    if(given) {
      same(out[0].g, g, 0, "given one-body density matrix"), same(out[0].G, G, 0, "given two-body density matrix");
    } else {
      const Ground q = ground(J, S);
      if(e < q.e - 1e-7 || (S.lowest && e > q.e + 1e-7)) mc::fail("%s: the energy is %.12g, the lowest in the final orbitals %.12g", who.c_str(), e, q.e);
    }
    if(c) {
      int z;
      const double x = gradnorm(J, S.s, out[0].g, out[0].G, z);
      if(z && x > o.tol * std::sqrt(double(z)) * 1.01 + 1e-9) mc::fail("%s: converged with a gradient of %.3g, tolerance %.3g x sqrt(%d)", who.c_str(), x, o.tol, z);
      if(g0.curv > 0.1) mc::count("started_convex");
      if(g0.curv > 0.1 && e > g0.e + 1e-7 && o.start != 2) mc::fail("%s: converged to %.12g, the starting orbitals give %.12g", who.c_str(), e, g0.e);
    }
  }, sch);
}
Ints model(int n, int kind) {
  if(kind == 0) { Ints I = hubbard(n, 1., 2., false); for(int i = 0; i < n; ++i) I.t(i, i) = -4. + 1.1 * i; return I; }
  if(kind == 4) { Ints I = hubbard(n, 0.4, 3., false); for(int i = 0; i < n; ++i) I.t(i, i) = -8. + 3. * i; return I; }
  Ints I = generic(n, kind);
  const double u = kind == 1 ? 0.3 : kind == 2 ? 0.1 : 0.6;
  for(double& x : I.V) x *= u;
  for(double& x : I.T) x *= 0.5;
  for(int p = 0; p < n; ++p) I.t(p, p) = -6. + 2.5 * p;
  return I;
}
std::string text(const Split& s, int a, int b, int kind) { return mc::fmt("%d orbitals, %d inactive, %d active, %d+%d active electrons, integrals %d", s.n, s.ni, s.na, a, b, kind); }
bool moves(const Split& s) { return s.na * s.ni + s.nv() * (s.ni + s.na); }
}  // namespace
void mc_main() {
  somp::set(somp::Config{});
  mc::suite("optimise", [] {
    for(int n = 1; n <= (mc::thorough ? 5 : 4); ++n) for(auto& s : splits(n)) for(int a = 0; a <= s.na; ++a) for(int b = 0; b <= s.na; ++b) for(int kind = 0; kind < 5; ++kind)
      mc::test([&] { return text(s, a, b, kind); }, [&] {
        if(moves(s)) mc::nontrivial();
        Setup S{s, a, b, model(n, kind), -1.25, kind % 4 != 0};
        int c = mc::index();
        for(int start = 0; start < 4; ++start) for(bool diis : {true, false}) for(double step : {0.5, 0.1}) {
          Opt o;
          o.start = start, o.diis = diis, o.step = step, o.pad = c++ % 3;
          if(c % 5 == 0) o.tol = 1e-4;
          optimise(S, o, cheap());
        }
      });
  });
  mc::suite("cut-short", [] {  // every number of iterations
    for(int n = 2; n <= (mc::thorough ? 4 : 3); ++n) for(auto& s : splits(n)) for(int a = 0; a <= s.na; ++a) for(int b = 0; b <= s.na; ++b) for(int kind = 0; kind < 5; ++kind)
      if(moves(s)) mc::test([&] { return text(s, a, b, kind) + ", every number of iterations"; }, [&] {
        mc::nontrivial();
        Setup S{s, a, b, model(n, kind), 0.5, kind % 4 != 0};
        for(int it = 0; it < 9; ++it) for(int start = 0; start < 3; ++start) {
          Opt o;
          o.iters = it, o.start = start, o.step = it % 2 ? 0.05 : 0.3;
          optimise(S, o, cheap());
        }
      });
  });
  mc::suite("processes", [] {
    for(int n = 1; n <= (mc::thorough ? 4 : 3); ++n) for(auto& s : splits(n)) for(int a = 0; a <= s.na; ++a) for(int b = 0; b <= s.na; ++b) for(int kind = 0; kind < 3; ++kind) for(int nr = 2; nr <= (mc::thorough ? 4 : 3); ++nr)
      mc::test([&] { return text(s, a, b, kind) + mc::fmt(", %d processes", nr); }, [&] {
        mc::nontrivial();
        Opt o;
        o.nr = nr, o.start = mc::index() % 4, o.pad = mc::index() % 2, o.diis = mc::index() % 3;
        optimise(Setup{s, a, b, model(n, kind), 2., kind != 0}, o, mc::few_schedules());
      });
  });
  mc::suite("larger", [] {
    struct { Split s; int a, b; } z[] = {{{5, 1, 2}, 1, 1}, {{5, 2, 2}, 2, 1}, {{6, 2, 2}, 1, 1}, {{6, 1, 4}, 2, 2}, {{6, 0, 3}, 1, 2}, {{7, 2, 3}, 2, 2}, {{7, 5, 1}, 1, 0}, {{8, 3, 2}, 1, 1}, {{8, 1, 3}, 1, 1}, {{9, 4, 0}, 0, 0}};
    for(auto& c : z) for(int kind = 0; kind < 5; ++kind) for(int start = 0; start < 2; ++start)
      mc::test([&] { return text(c.s, c.a, c.b, kind) + mc::fmt(", start %d", start); }, [&] {
        mc::nontrivial();
        Opt o;
        o.start = start, o.diis = mc::index() % 3, o.pad = mc::index() % 2, o.nr = kind == 3 ? 3 : 1;
        o.iters = c.s.n > 7 ? 12 : 70;  // convergence is not demanded
        optimise(Setup{c.s, c.a, c.b, model(c.s.n, kind), 2., kind % 4 != 0}, o, cheap());
      });
  });
  mc::suite("schedules", [] {
    for(auto s : std::vector<Split>{{2, 0, 1}, {2, 1, 1}, {3, 1, 1}, {3, 0, 2}}) for(int start = 0; start < 3; ++start) for(int nr = 2; nr <= 3; ++nr)
      mc::test([&] { return text(s, 1, 1, 1) + mc::fmt(", start %d, %d processes, all completion modes and priorities", start, nr); }, [&] {
        mc::nontrivial();
        Opt o;
        o.nr = nr, o.start = start;
        optimise(Setup{s, 1, 1, model(s.n, 1), 0.}, o, mc::full_schedules());
      });
  });
}
