// Q06: ground states in a list of determinants, and the active-space driver.
#include "ham.hpp"
#include "dav.hpp"
#include <spdlog/sinks/null_sink.h>
#include <macis/solvers/selected_ci_diag.hpp>
#include <macis/util/cas.hpp>
using namespace fock;
namespace {
void silence() {
  quiet();
  if(!spdlog::get("ci_solver")) spdlog::null_logger_mt("ci_solver");
}
struct Spec { std::vector<double> w; std::vector<vec> v; };
// may the value differ from the lowest one? (the start has to overlap the ground space)
bool overlaps(const Spec& s, const vec& x) {
  double c = 0, nn = 0;
  for(double y : x) nn += y * y;
  for(size_t k = 0; k < s.w.size() && s.w[k] < s.w[0] + 1e-9; ++k) {
    double d = 0;
    for(size_t i = 0; i < x.size(); ++i) d += s.v[k][i] * x[i];
    c += d * d / nn;
  }
  return nn > 0 && c > 1e-8;
}
struct Out { bool ok = false; std::string err; double e = 0; int rows = 0; };
void agree(const std::vector<Out>& o, const char* who) {
  for(size_t r = 1; r < o.size(); ++r)
    if(o[r].ok != o[0].ok || o[r].e != o[0].e) mc::fail("%s: process %zu gives %d/%.17g (%s), process 0 %d/%.17g (%s)", who, r, o[r].ok, o[r].e, o[r].err.c_str(), o[0].ok, o[0].e, o[0].err.c_str());
}
void no_error(const smpi::Result& R, const char* who) {
  if(!R.error.empty()) mc::fail("%s: %s", who, R.error.c_str());
  for(auto& t : R.threw) if(!t.empty()) mc::fail("%s: %s", who, t.c_str());
}
void judge(const lin::Sym& H, const Spec& s, double e, const vec& X, double tol, bool lowest, const char* who) {
  judge_pair(H, e, X, tol, who);
  if(e < s.w[0] - 10 * tol) mc::fail("%s: energy %.12g is below the lowest, %.12g", who, e, s.w[0]);
  if(lowest && !mc::near(e, s.w[0], 10 * tol)) mc::fail("%s: energy %.12g, the lowest is %.12g", who, e, s.w[0]);
}
// candidates the solver may start from: the given vector, and the determinants of lowest diagonal
bool lowest_due(const lin::Sym& H, const Spec& s, const vec& x0) {
  double m = 1e300, big = 0;
  for(int i = 0; i < H.n; ++i) m = std::min(m, H(i, i));
  for(double x : x0) big = std::max(big, std::abs(x));
  if(x0.size() && big > 1e-3 && !overlaps(s, x0)) return false;
  for(int i = 0; i < H.n; ++i) if(H(i, i) < m + 1e-9) {
    vec u(x0.size() == (size_t)H.n ? x0 : vec(H.n, 0.));
    // the serial code keeps what it was given besides the unit vector
    if(!overlaps(s, [&] { vec e(H.n, 0.); e[i] = 1; return e; }())) return false;
    u[i] = 1;
    if(!overlaps(s, u)) return false;
  }
  return true;
}
// guess: length 0 (absent) or one value per determinant
template <size_t N, class I> void parallel(const Ints& in, const std::vector<u64>& list, const vec& x0, int max_m, double tol, int nr, bool must, const smpi::Opts& o) {
  auto H = fock::matrix(in, list);
  Spec s;
  lin::jacobi(H, s.w, s.v);
  const int n = list.size();
  auto who = mc::fmt("%d processes, subspace %d, start %s", nr, max_m, mc::str(x0).c_str());
  std::vector<Out> out;
  vec X;
  const bool due = max_m >= n && lowest_due(H, s, x0);
  mc::mpi(nr, [&]() {
    out.assign(nr, Out()), X.assign(n, 0.);
    return [&](int r) {
      silence();
      ham::Ham<N> G(in);
      auto d = ham::dets<N>(list, in.n), d0 = d;
      const int lo = n / nr * r, m = r + 1 == nr ? n - lo : n / nr;
      vec C;
      if(x0.size()) C.assign(x0.begin() + lo, x0.begin() + lo + m);
      if(x0.size() && max_m % 3 == 0) C.resize(m + 1 + r, 0.5);  // longer than the rows: the rest is dropped
      try {
        out[r].e = macis::selected_ci_diag<N, I>(d.begin(), d.end(), G.gen, 1e-14, max_m, tol, C, mc::comm(), true);
        out[r].ok = true;
      } catch(const std::exception& e) {
        if(dynamic_cast<const mc::Failure*>(&e)) throw;
        out[r].err = e.what();
      }
      if(d != d0) mc::fail("the list of determinants was changed");
      if((int)C.size() != m) mc::fail("%s: process %d holds %zu coefficients, %d rows", who.c_str(), r, C.size(), m);
      std::copy(C.begin(), C.end(), X.begin() + lo);
    };
  }, [&](const smpi::Result& R) {
    no_error(R, who.c_str());
    agree(out, who.c_str());
    if(!out[0].ok) {
      mc::count("reported_failure");
      if(must) mc::fail("%s: gives up (%s)", who.c_str(), out[0].err.c_str());
      return;
    }
    mc::count("returned");
    judge(H, s, out[0].e, X, tol, due, who.c_str());
  }, o);
}
template <size_t N, class I> void serial(const Ints& in, const std::vector<u64>& list, const vec& x0, int max_m, double tol, bool must) {
  silence();
  auto H = fock::matrix(in, list);
  Spec s;
  lin::jacobi(H, s.w, s.v);
  auto who = mc::fmt("serial, subspace %d, start %s", max_m, mc::str(x0).c_str());
  ham::Ham<N> G(in);
  auto d = ham::dets<N>(list, in.n);
  auto M = macis::make_csr_hamiltonian<I>(d.begin(), d.end(), G.gen, 1e-14);
  vec C = x0;
  double e;
  mc::executions(1);
  try {
    e = macis::serial_selected_ci_diag(M, max_m, tol, C);
  } catch(const mc::Failure&) { throw; } catch(const std::exception& x) {
    mc::count("reported_failure");
    if(must) mc::fail("%s: gives up (%s)", who.c_str(), x.what());
    return;
  }
  mc::count("returned");
  judge(H, s, e, C, tol, max_m >= H.n && lowest_due(H, s, x0), who.c_str());
}
// given starts: absent, lowest unit vectors, uneven ones, ones confined to the rows of single processes
std::vector<vec> starts(int n) {
  std::vector<vec> g{{}};
  vec a(n), b(n, 0.), c(n, 0.), d(n, 0.), e(n);
  for(int i = 0; i < n; ++i) a[i] = 0.9 - 0.37 * ((i * 5) % 7), e[i] = 0.4 / (n + 1) * (i % 3 + 1);
  b[0] = 1, c[n - 1] = -1, d[n / 2] = 0.6;
  for(auto& x : {a, b, c, d, e}) g.push_back(x);
  return g;
}
std::vector<u64> pick(const std::vector<u64>& sp, u64 mask) {
  std::vector<u64> v;
  for(size_t i = 0; i < sp.size(); ++i) if(mask >> i & 1) v.push_back(sp[i]);
  return v;
}
Ints ints(int n, int kind) { return kind == 0 ? hubbard(n, 1., 4., false) : kind == 1 ? hubbard(n, 1., 2., true) : generic(n, kind); }
smpi::Opts cheap() {
  auto o = mc::few_schedules();
  o.modes = {0};
  return o;
}
struct Sector { int n, a, b; };
template <size_t N> void cas(const Ints& in, int a, int b, int nr, const vec& x0, int max_m, bool must, const smpi::Opts& o) {
  const int n = in.n;
  auto list = std::vector<u64>();
  {
    auto d = macis::generate_hilbert_space<N>(n, a, b);
    for(auto& x : d) list.push_back(ham::undet<N>(x, n));
  }
  auto H = fock::matrix(in, list);
  Spec s;
  lin::jacobi(H, s.w, s.v);
  const int nd = list.size();
  auto who = mc::fmt("active space, %d processes, start %s", nr, mc::str(x0).c_str());
  const bool due = max_m >= nd && lowest_due(H, s, x0);
  const double tol = 1e-9;
  std::vector<Out> out;
  std::vector<vec> D, G;
  vec X;
  mc::mpi(nr, [&]() {
    out.assign(nr, Out()), X.assign(nd, 0.), D.assign(nr, vec()), G.assign(nr, vec());
    return [&](int r) {
      silence();
      Ints I = in;
      const int lo = nd / nr * r, m = r + 1 == nr ? nd - lo : nd / nr;
      vec C;
      if(x0.size()) C.assign(x0.begin() + lo, x0.begin() + lo + m);
      D[r].assign(n * n, 0.), G[r].assign(size_t(n) * n * n * n, 0.);
      macis::MCSCFSettings st;
      st.ci_res_tol = tol, st.ci_max_subspace = max_m, st.ci_matel_tol = 1e-14;
      try {
        out[r].e = macis::CASRDMFunctor<ham::Gen<N>>::rdms(st, macis::NumOrbital(n), a, b, I.T.data(), I.V.data(), D[r].data(), G[r].data(), C, mc::comm());
        out[r].ok = true;
      } catch(const std::exception& e) {
        if(dynamic_cast<const mc::Failure*>(&e)) throw;
        out[r].err = e.what();
        return;
      }
      if((int)C.size() != m) mc::fail("%s: process %d holds %zu coefficients, %d rows", who.c_str(), r, C.size(), m);
      std::copy(C.begin(), C.end(), X.begin() + lo);
    };
  }, [&](const smpi::Result& R) {
    no_error(R, who.c_str());
    agree(out, who.c_str());
    if(!out[0].ok) {
      mc::count("reported_failure");
      if(must) mc::fail("%s: gives up (%s)", who.c_str(), out[0].err.c_str());
      return;
    }
    mc::count("returned");
    judge(H, s, out[0].e, X, tol, due, who.c_str());
    vec D0, G0;
    rdms(n, list, X, X, D0, G0);
    for(int r = 0; r < nr; ++r) {
      double tr = 0;
      for(int p = 0; p < n; ++p) tr += D[r][p + n * p];
      if(!mc::near(tr, a + b, 1e-8)) mc::fail("%s: process %d: the density matrix has trace %.12g, expected %d", who.c_str(), r, tr, a + b);
      for(int p = 0; p < n * n; ++p) if(!mc::near(D[r][p], D0[p], 1e-8)) mc::fail("%s: process %d: density matrix element (%d,%d) is %.12g, the wave function gives %.12g", who.c_str(), r, p % n, p / n, D[r][p], D0[p]);
      const double e = energy(in, D[r], G[r]);
      if(!mc::near(e, out[0].e, 1e-7)) mc::fail("%s: process %d: the density matrices give the energy %.12g, the solve %.12g", who.c_str(), r, e, out[0].e);
    }
  }, o);
}
}  // namespace
void part1();
#if PART == 0
void mc_main() {
  somp::set(somp::Config{});
  part1();
  const int P = mc::thorough ? 4 : 3;
  mc::suite("lists", [&] {  // every sub-list of small spaces
    for(auto s : std::vector<Sector>{{2, 1, 0}, {2, 1, 1}, {3, 1, 0}, {3, 2, 1}, {3, 1, 1}})
      for(int kind = 0; kind < 4; ++kind) {
        auto sp = space(s.n, s.a, s.b);
        for(u64 m = 1; m < (u64(1) << sp.size()); ++m)
          mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, integrals %d, subset %llx", s.n, s.a, s.b, kind, (unsigned long long)m); }, [&] {
            auto l = pick(sp, m);
            if(l.size() > 1) mc::nontrivial();
            if(m % 2) std::reverse(l.begin(), l.end());
            auto I = ints(s.n, kind);
            auto g = starts(l.size());
            const int n = l.size();
            int c = mc::index();
            for(int nr = 1; nr <= P; ++nr, ++c) {
              if(c % 2) parallel<64, int32_t>(I, l, g[c % g.size()], n + c % 3, 1e-8, nr, kind >= 2 && c % g.size() == 0, cheap());
              else parallel<128, int64_t>(I, l, g[c % g.size()], n + c % 3, 1e-8, nr, kind >= 2 && c % g.size() == 0, cheap());
              parallel<64, int32_t>(I, l, g[(c + 1) % g.size()], std::max(1, n - 1 - c % 3), 1e-6, nr, false, cheap());
            }
            serial<64, int32_t>(I, l, g[c % g.size()], n, 1e-8, kind >= 2 && c % g.size() == 0);
            serial<128, int64_t>(I, l, g[(c + 2) % g.size()], n + 2, 1e-8, false);
          });
      }
  });
  mc::suite("starts", [&] {  // every start on every number of processes
    for(auto s : std::vector<Sector>{{1, 1, 1}, {2, 1, 0}, {2, 1, 1}, {3, 2, 1}, {4, 1, 2}})
      for(int kind = 0; kind < 4; ++kind) for(int nr = 1; nr <= P + 1; ++nr) for(int k = 0; k < 6; ++k)
        mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, integrals %d, %d processes, start %d", s.n, s.a, s.b, kind, nr, k); }, [&] {
          if(nr > 1) mc::nontrivial();
          auto sp = space(s.n, s.a, s.b);
          const int n = sp.size();
          parallel<64, int32_t>(ints(s.n, kind), sp, starts(n)[k], n, 1e-8, nr, kind >= 2 && k < 2, mc::few_schedules());
          if(nr == 1) serial<64, int64_t>(ints(s.n, kind), sp, starts(n)[k], n, 1e-8, kind >= 2 && k < 2);
        });
  });
  mc::suite("many-processes", [&] {
    for(auto s : std::vector<Sector>{{2, 1, 1}, {3, 2, 1}, {4, 2, 1}, {4, 2, 2}}) for(int kind : {1, 2}) for(int nr : {5, 6, 8, 9, 12, 17}) for(int k : {0, 1, 3})
      mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, integrals %d, %d processes, start %d", s.n, s.a, s.b, kind, nr, k); }, [&] {
        mc::nontrivial();
        auto sp = space(s.n, s.a, s.b);
        const int n = sp.size();
        parallel<64, int32_t>(ints(s.n, kind), sp, starts(n)[k], n, 1e-8, nr, kind >= 2 && k < 2, cheap());
      });
  });
  mc::suite("large", [&] {
    for(auto s : std::vector<Sector>{{6, 2, 2}, {5, 3, 2}, {8, 1, 2}, {11, 1, 1}}) for(int kind : {1, 2}) for(int nr : {1, 2, 5}) for(int m : {3, 20, 60})
      mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, integrals %d, %d processes, subspace %d", s.n, s.a, s.b, kind, nr, m); }, [&] {
        mc::nontrivial();
        auto sp = space(s.n, s.a, s.b);
        auto I = ints(s.n, kind);
        parallel<64, int32_t>(I, sp, {}, m, 1e-7, nr, false, cheap());
        if(nr == 1) serial<64, int64_t>(I, sp, {}, m, 1e-7, false);
      });
  });
  mc::suite("schedules", [&] {
    for(auto s : std::vector<Sector>{{1, 1, 0}, {2, 1, 0}, {2, 1, 1}, {3, 1, 0}}) for(int nr = 2; nr <= 3; ++nr) for(int k = 0; k < 4; ++k)
      mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, %d processes, start %d, all schedules", s.n, s.a, s.b, nr, k); }, [&] {
        mc::nontrivial();
        auto sp = space(s.n, s.a, s.b);
        parallel<64, int32_t>(generic(s.n, k), sp, starts(sp.size())[k], sp.size(), 1e-8, nr, false, mc::full_schedules());
      });
  });
}
#endif
#if PART == 1
void part1() {
  mc::suite("active-space", [&] {
    for(int n = 1; n <= (mc::thorough ? 4 : 4); ++n) for(int a = 0; a <= n; ++a) for(int b = 0; b <= n; ++b) for(int kind = 0; kind < 5; ++kind) for(int nr : {1, 2, 3, 4, 6, 9}) if(nr < (mc::thorough ? 5 : 4) || (nr > 4 && n > 2 && kind == (a + b + nr) % 5))
      mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, integrals %d, %d processes", n, a, b, kind, nr); }, [&] {
        if(nr > 1) mc::nontrivial();
        auto I = ints(n, kind);
        const int nd = space(n, a, b).size();
        auto g = starts(nd);
        cas<64>(I, a, b, nr, {}, std::min(nd, 30), kind >= 2, cheap());
        cas<128>(I, a, b, nr, g[mc::index() % g.size()], std::min(nd, 30), false, cheap());
      });
  });
}
#endif
