// H01: results depend on the arguments alone, not on what was called before.
#include "h01.hpp"
#include "ham.hpp"
#include "sx.hpp"
#include "dav.hpp"
#include <cmath>
#include <limits>
#include <memory>
#include <optional>
#include <bfgs/bfgs.hpp>
#include <lobpcgxx/lobpcg.hpp>
#include <macis/types.hpp>
#include <spdlog/sinks/null_sink.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace hist;
void part0(), part1(), part2();
void objects();
#if PART == 0
#include <macis/util/diis.hpp>
#include <macis/util/fcidump.hpp>
#include <macis/util/fock_matrices.hpp>
#include <macis/util/moller_plesset.hpp>
#include <macis/util/orbital_energies.hpp>
#include <macis/util/orbital_gradient.hpp>
#include <macis/util/orbital_hessian.hpp>
#include <macis/util/orbital_rotation_utilities.hpp>
#include <macis/util/orbital_steps.hpp>
#include <macis/util/transform.hpp>
#include <macis/util/detail/rdm_files.hpp>
using namespace orb;
using macis::NumActive; using macis::NumInactive; using macis::NumOrbital; using macis::NumVirtual;
namespace {
// everything the orbital routines take
// an array that lies at the same address in every call
struct Fix : Pad {
  int slot;
  template <class... A> explicit Fix(int slot, A&&... a) : Pad(std::forward<A>(a)...), slot(slot) {}
  double* data() {
    static std::vector<vec> mem(8, vec(20000));
    std::copy(a.begin(), a.end(), mem[slot].begin());
    return mem[slot].data();
  }
};
struct Data {
  const In& x;
  int n, ni, na, nv;
  Fix T, V, D1, D2;
  NumOrbital o; NumInactive i; NumActive a; NumVirtual e;
  static std::pair<vec, vec> dens(const In& x) {
    auto sp = fock::space(x.na, x.a, x.b);
    vec C = orb::wave(sp.size(), x.kind), g, G;
    fock::rdms(x.na, sp, C, C, g, G);
    return {g, G};
  }
  explicit Data(int v) : x(in(v)), n(x.n), ni(x.ni), na(x.na), nv(x.nv()), T(0, ints(v).T, n, 2, x.pad), V(1, ints(v).V, n, 4, x.pad), D1(2, dens(x).first, na, 2, x.pad), D2(3, dens(x).second, na, 4, x.pad), o(n), i(ni), a(na), e(nv) {}
};
struct Focks {
  Pad Fi, Fa, F;
  Rect Q;
  explicit Focks(Data& d) : Fi(d.n, 2, d.x.pad, 3.), Fa(d.n, 2, d.x.pad, 4.), F(d.n, 2, d.x.pad, 0.), Q(d.na, d.n, d.x.pad, 5.) {
    macis::inactive_fock_matrix(d.o, d.i, d.T.data(), d.T.ld, d.V.data(), d.V.ld, Fi.data(), Fi.ld);
    macis::active_fock_matrix(d.o, d.i, d.a, d.V.data(), d.V.ld, d.D1.data(), d.D1.ld, Fa.data(), Fa.ld);
    macis::aux_q_matrix(d.a, d.o, d.i, d.V.data(), d.V.ld, d.D2.data(), d.D2.ld, Q.data(), Q.ld);
    macis::generalized_fock_matrix(d.o, d.i, d.a, Fi.data(), Fi.ld, Fa.data(), Fa.ld, d.D1.data(), d.D1.ld, Q.data(), Q.ld, F.data(), F.ld);
  }
};
size_t rots(const Data& d) { return d.nv * d.ni + d.nv * d.na + d.na * d.ni; }
struct Quad {  // bounded below, not quadratic
  using argument_type = vec;
  using return_type = double;
  vec d, b;
  double eval(const vec& x) { double s = 0; for(size_t i = 0; i < x.size(); ++i) s += d[i] * x[i] * x[i] / 2 - b[i] * x[i] + 0.02 * x[i] * x[i] * x[i] * x[i]; return s + 0.1 * x[0] * x.back(); }
  vec grad(const vec& x) { vec g(x.size()); for(size_t i = 0; i < x.size(); ++i) g[i] = d[i] * x[i] - b[i] + 0.08 * x[i] * x[i] * x[i]; g[0] += 0.1 * x.back(), g.back() += 0.1 * x[0]; return g; }
  bool converged(const vec&, const vec& g) { return norm(g) < 1e-5; }
  static double dot(const vec& a, const vec& b) { double s = 0; for(size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
  static double norm(const vec& a) { return std::sqrt(dot(a, a)); }
  static void scal(double a, vec& x) { for(auto& v : x) v *= a; }
  static void axpy(double a, const vec& x, vec& y) { for(size_t i = 0; i < x.size(); ++i) y[i] += a * x[i]; }
  static vec subtract(const vec& a, const vec& b) { vec r(a); for(size_t i = 0; i < b.size(); ++i) r[i] -= b[i]; return r; }
};
}  // namespace
void part0() {
  op("two_index_transform", 1e-10, [](int v) {
    Data d(v);
    const int m = d.n - v % 2;
    Rect Y(m, m, d.x.pad, 9.);
    Fix C(4, wavy(d.n * d.n, v), d.n, 2, d.x.pad);
    macis::two_index_transform(d.n, m, d.T.data(), d.T.ld, C.data(), C.ld, Y.data(), Y.ld);
    return Y.get("one-body");
  });
  op("four_index_transform", 1e-10, [](int v) {
    Data d(v);
    const int m = d.n - v % 2;
    Pad Y(m, 4, d.x.pad, 9.);
    Fix C(4, wavy(d.n * d.n, v), d.n, 2, d.x.pad);
    macis::four_index_transform(d.n, m, d.V.data(), d.V.ld, C.data(), C.ld, Y.data(), Y.ld);
    return Y.get("two-body");
  });
  op("fock_matrices", 1e-10, [](int v) {
    Data d(v);
    Focks f(d);
    vec r;
    put(r, f.Fi.get("F")), put(r, f.Fa.get("F")), put(r, f.F.get("F")), put(r, f.Q.get("Q"));
    r.push_back(macis::inactive_energy(d.i, d.T.data(), d.T.ld, f.Fi.data(), f.Fi.ld));
    r.push_back(macis::energy_from_generalized_fock(d.i, d.a, d.T.data(), d.T.ld, d.D1.data(), d.D1.ld, f.F.data(), f.F.ld));
    Pad A(d.na, 2, d.x.pad, 1.), B(d.na, 4, d.x.pad, 1.), F2(d.n, 2, d.x.pad, 0.), F1(d.n, 2, d.x.pad, 0.);
    macis::active_hamiltonian(d.o, d.a, d.i, d.T.data(), d.T.ld, d.V.data(), d.V.ld, f.Fi.data(), f.Fi.ld, A.data(), A.ld, B.data(), B.ld);
    put(r, A.get("T")), put(r, B.get("V"));
    macis::generalized_fock_matrix_comp_mat1(d.o, d.i, d.a, f.Fi.data(), f.Fi.ld, d.V.data(), d.V.ld, d.D1.data(), d.D1.ld, d.D2.data(), d.D2.ld, F1.data(), F1.ld);
    macis::generalized_fock_matrix_comp_mat2(d.o, d.i, d.a, d.T.data(), d.T.ld, d.V.data(), d.V.ld, d.D1.data(), d.D1.ld, d.D2.data(), d.D2.ld, F2.data(), F2.ld);
    put(r, F1.get("F")), put(r, F2.get("F"));
    return r;
  });
  op("rotation", 1e-9, [](int v) {
    Data d(v);
    Pad K(d.n, 2, d.x.pad), U(d.n, 2, d.x.pad, 2.);
    auto k = wavy(rots(d), v);
    for(auto& x : k) x *= 0.2;
    macis::linear_orb_rot_to_matrix(d.i, d.a, d.e, k.data(), K.data(), K.ld);
    macis::compute_orbital_rotation(d.o, 0.8, K.data(), K.ld, U.data(), U.ld);
    vec r;
    put(r, K.get("K")), put(r, U.get("U"));
    vec back(k.size(), 7.);
    macis::matrix_to_linear_orb_rot(d.i, d.a, d.e, K.data(), K.ld, back.data());
    put(r, back);
    Pad T2(d.n, 2, 0, 1.), V2(d.n, 4, 0, 1.), F(d.n, 2, 0, 0.);
    r.push_back(macis::orbital_rotated_energy(d.o, d.i, d.a, d.T.data(), d.T.ld, d.V.data(), d.V.ld, d.D1.data(), d.D1.ld, d.D2.data(), d.D2.ld, U.data(), U.ld, T2.data(), T2.ld, V2.data(), V2.ld, F.data(), F.ld));
    r.push_back(macis::orbital_rotated_energy(d.o, d.i, d.a, d.T.data(), d.T.ld, d.V.data(), d.V.ld, d.D1.data(), d.D1.ld, d.D2.data(), d.D2.ld, U.data(), U.ld));
    put(r, F.get("F")), put(r, V2.get("V"));
    return r;
  });
  op("gradient", 1e-9, [](int v) {
    Data d(v);
    Focks f(d);
    vec r, g(rots(d), 4.);
    Pad G(d.n, 2, d.x.pad, 0.);
    macis::fock_to_linear_orb_grad(d.i, d.a, d.e, f.F.data(), f.F.ld, g.data());
    macis::fock_to_gradient(d.o, d.i, d.a, d.e, f.F.data(), f.F.ld, G.data(), G.ld);
    put(r, g), put(r, G.get("G"));
    return r;
  });
  op("numerical gradient", 1e-7, [](int v) {
    Data d(v);
    Pad G(d.n, 2, d.x.pad, 0.);
    macis::numerical_orbital_gradient(d.o, d.i, d.a, d.T.data(), d.T.ld, d.V.data(), d.V.ld, d.D1.data(), d.D1.ld, d.D2.data(), d.D2.ld, G.data(), G.ld);
    return G.get("G");
  });
  op("second derivatives", 1e-9, [](int v) {
    Data d(v);
    Focks f(d);
    const size_t z = rots(d);
    vec g(z, 4.), h(z, 5.), h2(z, 6.), s(z, 7.), hk(z, 8.), r;
    macis::fock_to_linear_orb_grad(d.i, d.a, d.e, f.F.data(), f.F.ld, g.data());
    macis::approx_diag_hessian(d.i, d.a, d.e, f.Fi.data(), f.Fi.ld, f.Fa.data(), f.Fa.ld, d.D1.data(), d.D1.ld, f.F.data(), f.F.ld, h.data());
    macis::approx_diag_hessian(d.o, d.i, d.a, d.e, d.T.data(), d.T.ld, d.V.data(), d.V.ld, d.D1.data(), d.D1.ld, d.D2.data(), d.D2.ld, h2.data());
    macis::precond_cg_orbital_step(d.o, d.i, d.a, d.e, f.Fi.data(), f.Fi.ld, f.Fa.data(), f.Fa.ld, f.F.data(), f.F.ld, d.D1.data(), d.D1.ld, g.data(), s.data());
    auto k = wavy(z, v);
    macis::orb_orb_hessian_contract(d.o, d.i, d.a, d.e, d.T.data(), d.T.ld, d.V.data(), d.V.ld, d.D1.data(), d.D1.ld, d.D2.data(), d.D2.ld, g.data(), k.data(), hk.data());
    put(r, h), put(r, h2), put(r, s), put(r, hk);
    return r;
  });
  op("mp2", 1e-9, [](int v) {
    Data d(v);
    const int no = 2, nv = d.n - 2;
    vec e(d.n, 1.), t(size_t(no) * no * nv * nv, 2.), on(d.n, 3.), r;
    Pad R(d.n, 2, d.x.pad, 0.), C(d.n, 2, d.x.pad, 1.);
    macis::canonical_orbital_energies(d.o, NumInactive(no), d.T.data(), d.T.ld, d.V.data(), d.V.ld, e.data());
    std::sort(e.begin(), e.end());
    for(int i = no; i < d.n; ++i) e[i] += 1;
    macis::mp2_t2(macis::NumCanonicalOccupied(no), macis::NumCanonicalVirtual(nv), d.V.data(), d.V.ld, e.data(), t.data());
    macis::mp2_1rdm(d.o, macis::NumCanonicalOccupied(no), macis::NumCanonicalVirtual(nv), d.T.data(), d.T.ld, d.V.data(), d.V.ld, R.data(), R.ld);
    macis::mp2_natural_orbitals(d.o, macis::NumCanonicalOccupied(no), macis::NumCanonicalVirtual(nv), d.T.data(), d.T.ld, d.V.data(), d.V.ld, on.data(), C.data(), C.ld);
    put(r, e), put(r, t), put(r, R.get("R")), put(r, on), put(r, C.get("C"));
    return r;
  });
  op("bfgs", 1e-4, [](int v) {
    for(auto n : {"bfgs", "line_search"}) if(!spdlog::get(n)) spdlog::null_logger_mt(n);
    const int n = v == 3 ? 5 : 3;
    Quad q{wavy(n, v), wavy(n, 2 * v + 1)};
    for(auto& x : q.d) x = std::abs(x) + 0.5;
    vec d = q.d, r;
    auto B = v == 0 ? bfgs::make_identity_hessian<Quad>() : v == 1 ? bfgs::make_updated_scaled_hessian<Quad>() : v == 2 ? bfgs::make_static_scaled_hessian<Quad>() : std::unique_ptr<bfgs::BFGSHessian<Quad>>(std::make_unique<bfgs::DiagInitializedBFGSHessian<Quad>>(n, d.data()));
    put(r, bfgs::bfgs(q, wavy(n, v + 3), *B, bfgs::BFGSSettings{40}));
    put(r, bfgs::bfgs(q, wavy(n, v + 4), bfgs::BFGSSettings{40}));
    return r;
  });
  op("diis", 1e-9, [](int v) {
    if(!spdlog::get("diis")) spdlog::null_logger_mt("diis");
    macis::DIIS<vec> acc(v == 3 ? 3 : 4);
    vec r;
    const int n = v == 3 ? 7 : 6;
    for(int k = 0; k < 5; ++k) {
      auto x = wavy(n, v + k), e = wavy(n, 3 * v + 2 * k * k);
      acc.add_vector(x, e);
      if(k > 1) put(r, acc.extrapolate());
    }
    return r;
  });
  op("integral files", 1e-12, [](int v) {
    const int n = v == 3 ? 3 : 2;  // reading takes long
    auto I = fock::generic(n, v);
    if(v == 2) I.set_v(0, 0, 1, 1, 0.);  // absent from the file
    const auto f = mc::scratch() + mc::fmt("/h-%d", v / 2);  // two files, overwritten in turn
    Pad T0(I.T, n, 2, v & 1), V0(I.V, n, 4, v & 1), T(n, 2, 0, 0.), V(n, 4, 0, 0.);
    macis::write_fcidump(f, n, T0.data(), T0.ld, V0.data(), V0.ld, 0.25 * v - 1);
    vec r{double(macis::read_fcidump_norb(f)), macis::read_fcidump_core(f)};
    macis::read_fcidump_1body(f, T.data(), T.ld), macis::read_fcidump_2body(f, V.data(), V.ld);
    put(r, T.get("T")), put(r, V.get("V"));
    return r;
  });
  op("density files", 1e-12, [](int v) {
    Data d(v);
    const auto f = mc::scratch() + "/rdm";
    Pad A(d.na, 2, 0, 0.), B(d.na, 4, 0, 0.);
    macis::write_rdms_binary(f, d.na, d.D1.data(), d.D1.ld, d.D2.data(), d.D2.ld);
    macis::read_rdms_binary(f, d.na, A.data(), A.ld, B.data(), B.ld);
    vec r;
    put(r, A.get("D")), put(r, B.get("D"));
    return r;
  });
}
namespace {
// runs the operations in a child process: per operation a list of numbers, or what went wrong
struct Answer { bool ok = false; vec x; std::string err; };
std::vector<Answer> history(const std::vector<std::pair<int, int>>& seq) {
  int p[2];
  if(pipe(p)) mc::fail("no pipe");
  const pid_t c = fork();
  if(c < 0) mc::fail("no child process");
  if(!c) {
    close(p[0]);
    alarm(200);
    auto send = [&](const void* d, size_t n) { for(auto* b = (const char*)d; n;) { ssize_t k = write(p[1], b, n); if(k <= 0) _exit(3); b += k, n -= k; } };
    for(auto& s : seq) {
      Answer a;
      try { a.x = ops()[s.first].run(s.second), a.ok = true; }
      catch(const std::exception& e) { a.err = e.what(); }
      catch(...) { a.err = "unknown exception"; }
      const uint64_t h[2] = {a.ok, a.ok ? a.x.size() : a.err.size()};
      send(h, sizeof h);
      if(a.ok) send(a.x.data(), a.x.size() * 8); else send(a.err.data(), a.err.size());
    }
    _exit(0);
  }
  close(p[1]);
  std::vector<Answer> out;
  auto get = [&](void* d, size_t n) { for(auto* b = (char*)d; n;) { ssize_t k = read(p[0], b, n); if(k <= 0) return false; b += k, n -= k; } return true; };
  uint64_t h[2];
  while(get(h, sizeof h)) {
    Answer a;
    a.ok = h[0];
    if(a.ok) { a.x.resize(h[1]); if(!get(a.x.data(), h[1] * 8)) break; }
    else { a.err.resize(h[1]); if(!get(a.err.data(), h[1])) break; }
    out.push_back(a);
  }
  close(p[0]);
  int st = 0;
  waitpid(c, &st, 0);
  if(out.size() != seq.size() || st) mc::fail("call %zu (%s, input %d) ends the process (status %d)", out.size() + 1, out.size() < seq.size() ? ops()[seq[out.size()].first].name : "-", out.size() < seq.size() ? seq[out.size()].second : 0, st);
  return out;
}
const Answer& fresh(int o, int v) {
  static std::map<std::pair<int, int>, Answer> known;
  auto it = known.find({o, v});
  if(it == known.end()) it = known.emplace(std::make_pair(o, v), history({{o, v}})[0]).first;
  return it->second;
}
std::string text(const std::vector<std::pair<int, int>>& seq) {
  std::string s;
  for(auto& x : seq) s += mc::fmt("%s%s(%d)", s.empty() ? "" : ", ", ops()[x.first].name, x.second);
  return s;
}
void judge(const std::vector<std::pair<int, int>>& seq) {
  auto got = history(seq);
  mc::executions(seq.size()), mc::transitions(seq.size());
  for(size_t k = 0; k < seq.size(); ++k) {
    const auto &o = ops()[seq[k].first], *p = &o;
    const Answer &a = got[k], &w = fresh(seq[k].first, seq[k].second);
    auto who = [&] { return mc::fmt("call %zu of %s", k + 1, text(seq).c_str()); };
    if(!w.ok) mc::fail("%s(%d) in a fresh process: %s", p->name, seq[k].second, w.err.c_str());
    if(!a.ok) mc::fail("%s: %s", who().c_str(), a.err.c_str());
    if(a.x.size() != w.x.size()) mc::fail("%s: %zu numbers, %zu in a fresh process", who().c_str(), a.x.size(), w.x.size());
    for(size_t i = 0; i < a.x.size(); ++i)
      if(!mc::near(a.x[i], w.x[i], p->tol)) mc::fail("%s: number %zu is %.15g, %.15g in a fresh process", who().c_str(), i, a.x[i], w.x[i]);
  }
}
}  // namespace
void mc_main() {
  part0(), part1(), part2();
  const int n = ops().size();
  // every call after every other one, twice
  mc::suite("pairs", [&] {
    for(int a = 0; a < n; ++a) for(int b = 0; b < n; ++b) for(int v = 0; v < INPUTS; ++v) {
      std::vector<std::pair<int, int>> seq;
      for(int w = 0; w < INPUTS; ++w) {
        if(a == b && v == w) continue;
        seq.push_back({a, v}), seq.push_back({b, w});
      }
      mc::test([&] { return text(seq); }, [&] { mc::nontrivial(), judge(seq); });
    }
  });
  // every sequence of calls of one operation
  mc::suite("repeats", [&] {
    const int len = mc::thorough ? 5 : 4;
    for(int a = 0; a < n; ++a) {
      int tot = 1;
      for(int i = 0; i < len; ++i) tot *= INPUTS;
      for(int k = 0; k < tot; ++k) {
        std::vector<std::pair<int, int>> seq;
        for(int i = 0, x = k; i < len; ++i, x /= INPUTS) seq.push_back({a, x % INPUTS});
        mc::test([&] { return text(seq); }, [&] { mc::nontrivial(), judge(seq); });
      }
    }
  });
  // every operation once, in both orders and from every starting point
  mc::suite("rounds", [&] {
    for(int a = 0; a < n; ++a) for(int dir = 0; dir < 2; ++dir) for(int v = 0; v < INPUTS; ++v) {
      std::vector<std::pair<int, int>> seq;
      for(int k = 0; k < n; ++k) seq.push_back({(dir ? a + n - k : a + k) % n, (v + k / 7) % INPUTS});
      mc::test([&] { return text(seq); }, [&] { mc::nontrivial(), judge(seq); });
    }
  });
  objects();
}
#endif
#if PART == 1
#include <macis/solvers/davidson.hpp>
#include <macis/util/dist_quickselect.hpp>
#include <macis/util/mpi.hpp>
#include <macis/wavefunction_io.hpp>
#include <sparsexx/io/read_binary_triplets.hpp>
#include <sparsexx/io/read_mm.hpp>
#include <sparsexx/io/write_binary_triplets.hpp>
#include <sparsexx/io/write_dist_mm.hpp>
#include <sparsexx/io/write_mm.hpp>
#include <sparsexx/matrix_types/dist_sparse_matrix.hpp>
#include <sparsexx/spblas/pspmbv.hpp>
#include <sparsexx/spblas/spmbv.hpp>
#include <sparsexx/util/graph.hpp>
#include <sparsexx/util/permute.hpp>
#include <sparsexx/util/submatrix.hpp>
namespace {
using csr_t = sparsexx::csr_matrix<double, int32_t>;
using coo_t = sparsexx::coo_matrix<double, int32_t>;
using csc_t = sparsexx::csc_matrix<double, int32_t>;
using dist_t = sparsexx::dist_sparse_matrix<csr_t>;
// inputs 0 and 1: same pattern; 2: same size and number of entries
lin::Sym sym(int v) {
  const int n = v == 3 ? 8 : 6;
  lin::Sym A(n);
  for(int i = 0; i < n; ++i) for(int j = 0; j <= i; ++j) {
    if(i == j) A(i, i) = -2 + 0.9 * i + 0.3 * std::sin(1. * v + i);
    else if(v == 2 ? (i + 2 * j) % 3 == 1 : (2 * i + j) % 3 == 1) A(i, j) = A(j, i) = 0.3 * std::cos(0.7 * i * j + v) + 0.2;
  }
  return A;
}
vec diag(const lin::Sym& A) { vec d; for(int i = 0; i < A.n; ++i) d.push_back(A(i, i)); return d; }
std::unique_ptr<dist_t> spread(const lin::Sym& A, int cut) { return std::make_unique<dist_t>(mc::comm(), to_csr(A, 0), std::vector<std::pair<int32_t, int32_t>>{{0, cut}, {cut, A.n}}); }
int cut(int v) { return v == 2 ? 2 : 3; }
}  // namespace
void part1() {
  op("davidson", 1e-7, [](int v) {
    quiet();
    auto A = sym(v);
    auto M = to_csr(A, 0);
    auto d = diag(A);
    vec x(A.n, 0.1), r;
    x[0] = 1;
    macis::SparseMatrixOperator op(M);
    auto [it, l] = macis::davidson(A.n, 9, op, d.data(), 1e-9, x.data());
    r = {l};
    put(r, x);
    vec y(A.n, 3.), V = wavy(2 * A.n, v);
    macis::diagonal_guess(A.n, M, y.data());
    put(r, y);
    return r;
  });
  op("lobpcg", 1e-6, [](int v) {
    const int n = v == 3 ? 24 : 20, k = 2;
    lin::Sym A(n);
    for(int i = 0; i < n; ++i) for(int j = 0; j <= i; ++j) A(i, j) = A(j, i) = i == j ? 1 + i + (v == 2) * 0.3 * i : i == j + 1 ? 0.2 + 0.1 * v : 0;
    vec X(n * k, 0.);
    for(int q = 0; q < k; ++q) for(int i = 0; i < n; ++i) X[i + n * q] = std::cos(1.3 * (i + 1) * (q + 1) + 0.7 * v * (i + 2)) + (i == q);
    lobpcgxx::cholqr(n, k, X.data(), n);
    lobpcgxx::operator_action_type<double> mul = [&](int64_t, int64_t m, const double* x, int64_t lx, double* y, int64_t ly) {
      for(int q = 0; q < m; ++q) for(int i = 0; i < n; ++i) { double s = 0; for(int j = 0; j < n; ++j) s += A(i, j) * x[j + q * lx]; y[i + q * ly] = s; }
    };
    lobpcgxx::lobpcg_operator<double> op(mul);
    lobpcgxx::lobpcg_settings st;
    st.conv_tol = 1e-4, st.maxiter = 500, st.print_iter = false, st.track_convergence = true;
    vec lam(k, 5.), res(k, 6.), r;
    lobpcgxx::lobpcg_convergence<double> conv;
    lobpcgxx::lobpcg(st, n, k, 1, op, lam.data(), X.data(), n, res.data(), conv);
    return vec{lam[0], double(conv.conv_data.size())};
  });
  op("p_davidson", 1e-7, [](int v) { return two([v](int p, vec& r) {
    quiet();
    auto A = sym(v);
    auto M = spread(A, cut(v));
    const int lo = p ? cut(v) : 0, m = p ? A.n - cut(v) : cut(v);
    auto d = diag(A);
    vec x(m, 0.1);
    if(!p) x[0] = 1;
    macis::SparseMatrixOperator op(*M);
    auto [it, l] = macis::p_davidson(m, 9, op, d.data() + lo, 1e-9, x.data(), mc::comm());
    r = {l};
    put(r, x);
    vec g(m, 3.);
    macis::p_diagonal_guess(m, *M, g.data());
    put(r, g);
  }); });
  op("distributed product", 1e-12, [](int v) { return two([v](int p, vec& r) {
    auto A = sym(v);
    auto M = spread(A, cut(v));
    const int lo = p ? cut(v) : 0, m = p ? A.n - cut(v) : cut(v);
    auto info = sparsexx::spblas::generate_spmv_comm_info(*M);
    auto x = wavy(A.n, v);
    vec y(m, 1.);
    sparsexx::spblas::pgespmv(2., *M, x.data() + lo, -1., y.data(), info);
    put(r, y);
    auto z = wavy(A.n, v + 5);
    sparsexx::spblas::pgespmv(1., *M, z.data() + lo, 0., y.data(), info);
    put(r, y);
    r.push_back(info.communication_volume());
  }); });
  op("collectives", 1e-12, [](int v) { return two([v](int p, vec& r) {
    auto x = wavy(v == 3 ? 9 : 7, v + 2 * p);
    r.push_back(macis::dist_quickselect(x.begin(), x.end(), 3 + v, mc::comm(), std::less<double>(), std::equal_to<double>()));
    vec s(x.size(), 4.);
    macis::allreduce(x.data(), s.data(), x.size(), MPI_SUM, mc::comm());
    put(r, s);
    std::vector<double> q(v + 1, 10 * p + v);
    macis::bcast(q.data(), q.size(), v & 1, mc::comm());
    put(r, q);
    r.push_back(macis::allreduce(p + v, MPI_MAX, mc::comm()));
  }); });
  op("distributed file", 1e-12, [](int v) {
    const auto f = mc::scratch() + "/dist.mtx";
    std::remove(f.c_str());
    auto r = two([&](int, vec&) { sparsexx::write_dist_mm(f, *spread(sym(v), cut(v)), 1); });
    r.clear();
    put_sparse(r, sparsexx::read_mm<csr_t>(f));
    return r;
  });
  op("matrix files", 1e-12, [](int v) {
    auto M = to_csr(sym(v), v & 1);
    const auto f = mc::scratch() + "/m";
    vec r;
    sparsexx::write_mm(f, M, false);
    put_sparse(r, sparsexx::read_mm<csr_t>(f));
    sparsexx::write_binary_triplet(M, f);
    put_sparse(r, sparsexx::read_binary_triplet<csr_t>(f));
    return r;
  });
  op("products and conversions", 1e-12, [](int v) {
    auto M = to_csr(sym(v), v & 1);
    const int n = M.m();
    auto x = wavy(2 * n, v);
    vec r, y(2 * n, 1.), d(n * n, 0.), y2(2 * n, 1.);
    sparsexx::spblas::gespmbv(2, 1.5, M, x.data(), n, -0.5, y.data(), n);
    coo_t C(M);
    sparsexx::spblas::gespmbv(2, 1., C, x.data(), n, 2., y2.data(), n);
    put(r, y), put(r, y2);
    C.sort_by_col_index();
    csc_t L(C);
    sparsexx::convert_to_dense(M, d.data(), n);
    put(r, d);
    for(auto q : L.rowind()) r.push_back(q);
    for(auto q : L.colptr()) r.push_back(q);
    for(auto q : L.nzval()) r.push_back(q);
    return r;
  });
  op("permutations and slices", 1e-12, [](int v) {
    auto M = to_csr(sym(v), 0);
    const int n = M.m();
    std::vector<int32_t> p(n), q(n);
    for(int i = 0; i < n; ++i) p[i] = (i * 5 + v) % n, q[i] = (i + 1 + v) % n;
    if(n == 8) for(int i = 0; i < n; ++i) p[i] = (i * 5 + v) % 8;
    vec r;
    put_sparse(r, sparsexx::permute_rows(M, p)), put_sparse(r, sparsexx::permute_cols(M, q)), put_sparse(r, sparsexx::permute_rows_cols(M, p, q));
    put_sparse(r, sparsexx::extract_submatrix(M, {1, 1}, {n - 1, n - v % 2})), put_sparse(r, sparsexx::extract_upper_triangle(M));
    put(r, sparsexx::extract_diagonal_elements(M));
    r.push_back(sparsexx::trace(M));
    return r;
  });
  op("wave function files", 1e-12, [](int v) {
    const int n = v == 3 ? 5 : 4;
    auto sp = fock::space(n, 2, v == 2 ? 1 : 2);
    auto s = ham::dets<64>(sp, n);
    vec c = wavy(s.size(), v), d, r;
    const auto f = mc::scratch() + "/wf";
    macis::write_wavefunction<64>(f, n, s, c);
    std::vector<std::bitset<64>> t;
    macis::read_wavefunction<64>(f, t, d);
    put(r, d);
    for(auto& b : t) r.push_back(ham::undet<64>(b, n));
    return r;
  });
}
#endif
#if PART == 2
#include "asci.hpp"
#include <macis/asci/grow.hpp>
#include <macis/asci/refine.hpp>
#include <macis/csr_hamiltonian.hpp>
#include <macis/solvers/selected_ci_diag.hpp>
#include <macis/util/cas.hpp>
#include <macis/util/mcscf.hpp>
using namespace fock;
using orb::wave;
namespace {
using Bits = std::bitset<64>;
void loggers() {
  asci::silence();
  for(auto l : {"mcscf", "diis", "davidson"}) if(!spdlog::get(l)) spdlog::null_logger_mt(l);
}
struct Sys {
  ham::Ham<64> H;
  std::vector<u64> sp;  // no spin symmetry that would make estimates tie
  int n;
  explicit Sys(int v) : H(ints(v)), sp(space(in(v).n, v == 2 ? 3 : 2, 1)), n(in(v).n) {}
  std::vector<Bits> some(size_t k, int off) const { std::vector<u64> l; for(size_t i = 0; i < k; ++i) l.push_back(sp[(off + i) % sp.size()]); return ham::dets<64>(l, n); }
};
void put_dets(vec& r, const std::vector<Bits>& d, int n) { r.push_back(d.size()); for(auto& b : d) r.push_back(ham::undet<64>(b, n)); }
vec spectrum(const Sys& s, const std::vector<Bits>& d) {
  std::vector<u64> l;
  for(auto& b : d) l.push_back(ham::undet<64>(b, s.n));
  vec w;
  std::vector<vec> v;
  lin::jacobi(matrix(s.H.I, l), w, v);
  w.resize(1), w.insert(w.end(), v[0].begin(), v[0].end());
  return w;  // energy and coefficients
}
macis::ASCISettings settings(size_t cap) { auto s = asci::settings(); s.ntdets_max = cap, s.ntdets_min = 3, s.ncdets_max = 4, s.grow_factor = 2, s.max_refine_iter = 2; return s; }
macis::MCSCFSettings msettings() { macis::MCSCFSettings m; m.ci_max_subspace = 60, m.ci_res_tol = 1e-9; return m; }
vec search(int kind, int v) { return two([&](int, vec& r) {
  loggers();
  Sys s(v);
  auto d = s.some(3, v % 2);
  auto w = spectrum(s, d);
  vec C(w.begin() + 1, w.end()), X;
  std::vector<Bits> o;
  double E = w[0];
  auto st = settings(kind == 1 ? 6 : 9);
  if(kind == 0) o = macis::asci_search<64>(st, 8, d.begin(), d.end(), E, C, s.n, s.H.gen.T(), s.H.gen.G_red(), s.H.gen.V_red(), s.H.gen.G(), s.H.gen.V(), s.H.gen, mc::comm());
  if(kind == 1) { st.ncdets_max = 3, std::tie(E, o, X) = macis::asci_iter<64>(st, msettings(), 7, E, d, C, s.H.gen, s.n, mc::comm()); }
  if(kind == 2) st.grow_with_rot = v == 2, st.rot_size_start = 3, std::tie(E, o, X) = macis::asci_grow<64>(st, msettings(), E, d, C, s.H.gen, s.n, mc::comm());
  if(kind == 3) std::tie(E, o, X) = macis::asci_refine<64>(st, msettings(), E, d, C, s.H.gen, s.n, mc::comm());
  r.push_back(E);
  std::sort(o.begin(), o.end(), macis::bitset_less_comparator<64>());
  put_dets(r, o, s.n);
}); }
}  // namespace
void part2() {
  op("determinants", 1e-12, [](int v) {
    const auto& x = in(v);
    Sys s(v);
    vec r;
    auto all = macis::generate_hilbert_space<64>(x.n, x.a, x.b);
    put_dets(r, all, x.n);
    auto d = all[all.size() / 2];
    std::vector<Bits> a, b;
    macis::generate_singles_spin<64>(x.n, d, a), macis::generate_singles_doubles_spin<64>(x.n, d, a, b);
    put_dets(r, a, x.n), put_dets(r, b, x.n);
    std::vector<uint32_t> o, e;
    macis::bitset_to_occ_vir(x.n, macis::bitset_lo_word(d), o, e);
    for(auto k : o) r.push_back(k);
    for(auto k : e) r.push_back(k);
    return r;
  });
  op("matrix elements", 1e-11, [](int v) {
    Sys s(v);
    auto d = s.some(s.sp.size(), 0);
    vec r;
    for(size_t i = 0; i < d.size(); i += 3) for(size_t j = 0; j < d.size(); j += 2) r.push_back(s.H.gen.matrix_element(d[i], d[j]));
    const std::vector<uint32_t> a{0, 1}, b{1};
    r.push_back(s.H.gen.matrix_element_diag(a, b)), r.push_back(s.H.gen.fast_diag_single(a, b, 1, 2, 0.5)), r.push_back(s.H.gen.fast_diag_os_double(a, b, 0, 1, 2, 3, 0.5));
    put(r, s.H.gen.single_orbital_ens(s.n, a, b));
    return r;
  });
  op("hamiltonian matrix", 1e-11, [](int v) {
    Sys s(v);
    auto b = s.some(8, v), k = s.some(9, 2);
    vec r;
    put_sparse(r, macis::make_csr_hamiltonian_block<int32_t>(b.begin(), b.end(), k.begin(), k.end(), s.H.gen, v == 2 ? 0.05 : 1e-12));
    put_sparse(r, macis::make_csr_hamiltonian<int64_t>(b.begin(), b.end(), s.H.gen, 1e-12));
    return r;
  });
  op("density matrices", 1e-10, [](int v) {
    Sys s(v);
    auto d = s.some(s.sp.size(), 0);
    auto C = wave(d.size(), v);
    vec D(s.n * s.n, 0.), G(s.n * s.n * s.n * s.n, 0.), r;
    s.H.gen.form_rdms(d.begin(), d.end(), d.begin(), d.end(), C.data(), macis::matrix_span<double>(D.data(), s.n, s.n), macis::rank4_span<double>(G.data(), s.n, s.n, s.n, s.n));
    put(r, D), put(r, G);
    return r;
  });
  op("natural orbitals", 1e-8, [](int v) {
    Sys s(v);
    auto C = wave(s.sp.size(), v);
    vec D, G, r;
    rdms(s.n, s.sp, C, C, D, G);
    s.H.gen.rotate_hamiltonian_ordm(D.data());
    for(int i = 0; i < s.n; ++i) r.push_back(s.H.gen.T()[i * (s.n + 1)]), r.push_back(s.H.gen.G_red()[i]), r.push_back(std::abs(s.H.gen.T()[(i + 1) % s.n + i * s.n]));
    return r;
  });
  op("selected_ci_diag", 1e-7, [](int v) { return two([v](int p, vec& r) {
    loggers();
    Sys s(v);
    auto d = s.some(9, v % 2);
    vec C;
    if(v == 1) C = wavy(p ? 5 : 4, 1.);
    r.push_back(macis::selected_ci_diag<64, int32_t>(d.begin(), d.end(), s.H.gen, 1e-14, 30, 1e-9, C, mc::comm(), true));
    for(double& x : C) x = std::abs(x);
    put(r, C);
  }); });
  op("search", 1e-9, [](int v) { return search(0, v); });
  op("iteration", 1e-7, [](int v) { return search(1, v); });
  op("growth", 1e-6, [](int v) { return search(2, v); });
  op("refinement", 1e-7, [](int v) { return search(3, v); });
  op("contributions", 1e-10, [](int v) {
    loggers();
    Sys s(v);
    auto d = s.some(3, v % 2);
    auto w = spectrum(s, d);
    vec C(w.begin() + 1, w.end()), r;
    auto st = settings(9);
    st.just_singles = v == 2;
    auto p = macis::asci_contributions_standard<64>(st, d.begin(), d.end(), w[0], C, s.n, s.H.gen.T(), s.H.gen.G_red(), s.H.gen.V_red(), s.H.gen.G(), s.H.gen.V(), s.H.gen);
    macis::sort_and_accumulate_asci_pairs(p);
    for(auto& x : p) r.push_back(ham::undet<64>(x.state, s.n)), r.push_back(x.rv);
    return r;
  });
  op("active space", 1e-7, [](int v) { return two([v](int, vec& r) {
    loggers();
    const auto& x = in(v);
    auto I = generic(x.na, x.kind);
    vec D(x.na * x.na, 0.), G(x.na * x.na * x.na * x.na, 0.), C;
    r.push_back(macis::CASRDMFunctor<ham::Gen<64>>::rdms(msettings(), macis::NumOrbital(x.na), x.a, x.b, I.T.data(), I.V.data(), D.data(), G.data(), C, mc::comm()));
    put(r, D), put(r, G);
  }); });
  op("orbital optimisation", 1e-5, [](int v) { return two([v](int, vec& r) {
    loggers();
    const auto& x = in(v);
    auto I = ints(v);
    orb::Pad T(I.T, x.n, 2, x.pad), V(I.V, x.n, 4, x.pad), D1(x.na, 2, x.pad, 0.), D2(x.na, 4, x.pad, 0.);
    auto st = msettings();
    st.max_macro_iter = 5, st.diis_start_iter = 2, st.orb_grad_tol_mcscf = 1e-9;
    // not converged within so few steps: the history of the steps is what counts
    double e = 0;
    try { e = macis::casscf_diis(st, macis::NumElectron(x.a), macis::NumElectron(x.b), macis::NumOrbital(x.n), macis::NumInactive(x.ni), macis::NumActive(x.na), macis::NumVirtual(x.nv()), 0.1 * v, T.data(), T.ld, V.data(), V.ld, D1.data(), D1.ld, D2.data(), D2.ld, mc::comm()); }
    catch(const std::runtime_error&) {}
    r.push_back(e);
    put(r, D1.get("D1")), put(r, D2.get("D2"));
  }); });
}
// every sequence of questions to one generator; the fresh one is built from the present integrals
void objects() {
  using Q = std::function<vec(ham::Ham<64>&, int)>;
  static const std::vector<std::pair<const char*, Q>> qs{
    {"elements 0", [](ham::Ham<64>& H, int n) { vec r; auto d = ham::dets<64>(space(n, 1, 1), n); for(auto& a : d) for(auto& b : d) r.push_back(H.gen.matrix_element(a, b)); return r; }},
    {"elements 1", [](ham::Ham<64>& H, int n) { vec r; auto d = ham::dets<64>(space(n, 2, 1), n); for(auto& a : d) for(auto& b : d) r.push_back(H.gen.matrix_element(a, b)); return r; }},
    {"energies", [](ham::Ham<64>& H, int n) { vec r; for(uint32_t k = 0; k < 3; ++k) { std::vector<uint32_t> a{k}, b{0, 2}; put(r, H.gen.single_orbital_ens(n, a, b)), put(r, H.gen.single_orbital_ens(n, b, a)), r.push_back(H.gen.matrix_element_diag(a, b)); r.push_back(H.gen.fast_diag_single(b, a, 2, 1, 0.)); } return r; }},
    {"matrix 32", [](ham::Ham<64>& H, int n) { vec r; auto d = ham::dets<64>(space(n, 1, 1), n); put_sparse(r, macis::make_csr_hamiltonian_block<int32_t>(d.begin(), d.begin() + 4, d.begin() + 1, d.end(), H.gen, 1e-3)); return r; }},
    {"matrix 64", [](ham::Ham<64>& H, int n) { vec r; auto d = ham::dets<64>(space(n, 2, 1), n); put_sparse(r, macis::make_csr_hamiltonian_block<int64_t>(d.begin(), d.end(), d.begin(), d.end(), H.gen, 0.)); return r; }},
    {"densities 0", [](ham::Ham<64>& H, int n) { vec D(n * n, 0.), G(n * n * n * n, 0.), r; auto d = ham::dets<64>(space(n, 1, 1), n); auto C = wave(d.size(), 0);
      H.gen.form_rdms(d.begin(), d.end(), d.begin(), d.end(), C.data(), macis::matrix_span<double>(D.data(), n, n), macis::rank4_span<double>(G.data(), n, n, n, n)); put(r, D), put(r, G); return r; }},
    {"densities 1", [](ham::Ham<64>& H, int n) { vec D(n * n, 0.), r; auto d = ham::dets<64>(space(n, 2, 1), n); auto C = wave(d.size(), 1);
      H.gen.form_rdms(d.begin(), d.begin() + 3, d.begin(), d.begin() + 3, C.data(), macis::matrix_span<double>(D.data(), n, n), macis::rank4_span<double>(nullptr, 0, 0, 0, 0)); put(r, D); return r; }},
    {"contributions", [](ham::Ham<64>& H, int n) { loggers(); vec r; auto d = ham::dets<64>({space(n, 1, 1)[0], space(n, 1, 1)[3]}, n); auto s = settings(9);
      auto p = macis::asci_contributions_standard<64>(s, d.begin(), d.end(), -3., {0.8, 0.6}, n, H.gen.T(), H.gen.G_red(), H.gen.V_red(), H.gen.G(), H.gen.V(), H.gen);
      macis::sort_and_accumulate_asci_pairs(p); for(auto& x : p) r.push_back(ham::undet<64>(x.state, n)), r.push_back(x.rv); return r; }},
    {"new integrals", [](ham::Ham<64>& H, int n) { auto I = generic(n, int(std::abs(H.I.T[0]) * 100) % 5 + 3); std::copy(I.T.begin(), I.T.end(), H.gen.T()), std::copy(I.V.begin(), I.V.end(), H.gen.V()); H.gen.generate_integral_intermediates(H.gen.V_pqrs_); return vec(); }},
    {"rotation", [](ham::Ham<64>& H, int n) { vec D, G; auto sp = space(n, 2, 1); auto C = wave(sp.size(), 1); rdms(n, sp, C, C, D, G); H.gen.rotate_hamiltonian_ordm(D.data()); return vec(); }},
  };
  mc::suite("generator", [&] {
    const int len = mc::thorough ? 5 : 4, k = qs.size();
    for(int n = 3; n <= 4; ++n) {
      int tot = 1;
      for(int i = 0; i < len; ++i) tot *= k;
      for(int c = 0; c < tot; ++c) mc::test([&] {
        std::string s = mc::fmt("%d orbitals", n);
        for(int i = 0, x = c; i < len; ++i, x /= k) s += std::string(", ") + qs[x % k].first;
        return s;
      }, [&] {
        mc::nontrivial();
        mc::executions(1), mc::transitions(len);
        ham::Ham<64> H(generic(n, 0));
        for(int i = 0, x = c; i < len; ++i, x /= k) {
          auto got = qs[x % k].second(H, n);
          if(got.empty()) continue;
          // the last answers of longer sequences only; the earlier ones belong to shorter sequences
          if(i + 1 < len && i + 2 < len) continue;
          ham::Ham<64> F(H.I);
          auto want = qs[x % k].second(F, n);
          if(got.size() != want.size()) mc::fail("%s (question %d): %zu numbers, %zu from a fresh generator", qs[x % k].first, i + 1, got.size(), want.size());
          for(size_t j = 0; j < got.size(); ++j) if(!mc::near(got[j], want[j], 1e-10)) mc::fail("%s (question %d): number %zu is %.15g, %.15g from a fresh generator", qs[x % k].first, i + 1, j, got[j], want[j]);
        }
      });
    }
  });
}
#endif
