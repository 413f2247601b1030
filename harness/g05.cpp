// G05: threaded loops of the legacy library: no data race, the one-thread result under every schedule.
// Compiled with -fsanitize=thread instrumentation whose callbacks are mc/omp's monitor.
#include "fock.hpp"
#include <complex>
#include <fstream>
#include <optional>
#include <set>
#include <unistd.h>
#include <cmz_ed/bandlan.h++>
#include <cmz_ed/hamil.h++>
#include <cmz_ed/lanczos.h++>
#include <cmz_ed/slaterdet.h++>
#include <cmz_ed/utils.h++>
#include <dbwy/gf.h++>
namespace ed = cmz::ed;
using fock::u64;
using vecd = std::vector<double>;
using cd = std::complex<double>;
static int dev() { return mc::thorough ? 2 : 1; }
template <class F>
void guarded(const F& f) {
  try { f(); }
  catch(const std::string& s) { mc::fail("threw \"%s\"", s.c_str()); }
  catch(const char* s) { mc::fail("threw \"%s\"", s); }
}
// expected value from one thread
template <class F>
void threads(int nt, int d, const F& f) {
  somp::set(somp::Config{});
  decltype(f()) one;
  guarded([&] { one = f(); });
  mc::omp(nt, d, [&] {
    guarded([&] {
      auto r = f();
      if(r.size() != one.size()) mc::fail("%zu numbers, %zu on one thread", r.size(), one.size());
      for(size_t i = 0; i < r.size(); ++i)
        if(!(std::abs(r[i] - one[i]) <= 1e-9 * (1 + std::abs(one[i])))) mc::fail("number %zu differs from the result of one thread", i);
    });
  });
}
static vecd flat(const ed::SpMatD& M) {
  vecd v{double(M.rows()), double(M.cols()), double(M.nonZeros())};
  for(int i = 0; i < M.rows(); ++i) for(int j = 0; j < M.cols(); ++j) v.push_back(M.coeff(i, j));
  return v;
}
static lin::Sym sym(int n, int kind) {
  lin::Sym A(n);
  for(int i = 0; i < n; ++i) for(int j = 0; j <= i; ++j) A(i, j) = A(j, i) = i == j ? 2 * i - kind : (i * 2 + j + kind) % 3 ? 0.5 * ((i + j + kind) % 4) - 0.75 : 0.;
  return A;
}
template <class F>
void process(const F& f) {
  auto o = mc::few_schedules();
  o.modes = {0};
  o.sub_phase = -1;
  mc::mpi(1, [&] { return std::function<void(int)>([&](int) { guarded(f); }); }, [](const smpi::Result& r) { if(!r.error.empty()) mc::fail("%s", r.error.c_str()); }, o);
}
static const std::vector<cd> omegas{{0.3, 0.5}, {-2, 1}, {5, 0.25}, {0, -2}, {1, 3}};

void mc_main() {
  std::cout.setstate(std::ios::failbit), std::cerr.setstate(std::ios::failbit);
  mc::suite("products", [] {
    for(int n = 0; n <= 7; ++n) for(int nt : {2, 3, 8}) for(int kind = 0; kind < 3; ++kind)
      mc::test([&] { return mc::fmt("%d elements, %d threads, values %d", n, nt, kind); }, [&] {
        if(n > 1) mc::nontrivial();
        vecd a(n), b(n);
        ed::VecCompD c(n), d(n);
        for(int i = 0; i < n; ++i) a[i] = (i * 5 + kind) % 7 - 3, b[i] = (i * 3 + kind) % 5 - 1, c[i] = cd(a[i], b[i] * kind), d[i] = cd(i - 2, a[i]);
        threads(nt, nt < 8, [&] { return ed::VecCompD{ed::MyInnProd(a, b), ed::MyInnProd(c, d), ed::MyInnProd(c, b)}; });
        threads(nt, nt < 8, [&] { vecd r(n, 9.); ed::MyAdd(2., a, -1.5, b, r); return r; });
        threads(nt, nt < 8, [&] { ed::VecCompD r(n, 9.); ed::MyAdd(cd(2, 1), c, cd(0, -1), d, r); return r; });
      });
  });
  mc::suite("assembly", [] {
    for(int n = 1; n <= 3; ++n) for(int a = 0; a <= n; ++a) for(int b = 0; b <= n; ++b) for(int nt : {2, 3, 5})
      mc::test([&] { return mc::fmt("%d orbitals, %d up, %d down, %d threads", n, a, b, nt); }, [&] {
        auto dets = fock::space(n, a, b);
        if(dets.size() > 1) mc::nontrivial();
        auto I = fock::generic(n, a);
        ed::intgrls::integrals P(I.n, I.T, I.V);
        ed::FermionHamil H(P);
        ed::SetSlaterDets S;
        for(u64 d : dets) S.insert(ed::slater_det(d, n, a, b));
        const int dv = nt < 5 && dets.size() < 4 ? dev() : 0;
        threads(nt, dv, [&] { return flat(ed::GetHmat(&H, S)); });
        auto p = H.GetHpairs(S);
        threads(nt, dv, [&] { return flat(ed::GetHmat_FromPairs(&H, S, p)); });
      });
  });
  mc::suite("lanczos", [] {
    for(int n = 1; n <= 5; ++n) for(int kind = 0; kind < 4; ++kind) for(int nt : {2, 3, 6}) for(int part = 0; part < 2; ++part)
      mc::test([&] { return mc::fmt("dimension %d, matrix %d, %d threads, %s", n, kind, nt, part ? "particle" : "hole"); }, [&] {
        if(n > 1) mc::nontrivial();
        auto A = sym(n, kind);
        ed::SpMatD M(n, n);
        std::vector<Eigen::Triplet<double>> t;
        for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) if(A(i, j)) t.emplace_back(i, j, A(i, j));
        M.setFromTriplets(t.begin(), t.end());
        Eigen::VectorXd x(n);
        for(int i = 0; i < n; ++i) x(i) = 1 + 0.5 * i;
        ed::SpMatDOp op(M);
        threads(nt, nt < 6, [&] { ed::VecCompD g; ed::GF_Diag(x, op, omegas, g, 0.25, part, n + 1); return g; });
      });
  });
  mc::suite("band", [] {
    for(int n = 1; n <= 4; ++n) for(int nv = 1; nv <= std::min(n, 3); ++nv) for(int kind = 0; kind < 3; ++kind) for(int nt : {2, 3, 6}) for(int part = 0; part < 2; ++part)
      mc::test([&] { return mc::fmt("dimension %d, %d vectors, matrix %d, %d threads, %s", n, nv, kind, nt, part ? "particle" : "hole"); }, [&] {
        if(n > 1) mc::nontrivial();
        auto A = sym(n, kind);
        std::vector<int> ptr{0}, col;
        vecd nz;
        for(int i = 0; i < n; ++i) {
          for(int j = 0; j < n; ++j) if(A(i, j)) col.push_back(j), nz.push_back(A(i, j));
          ptr.push_back(nz.size());
        }
        sparsexx::csr_matrix<double, int32_t> L(n, n, nz.size(), 0);
        L.rowptr() = ptr, L.colind() = col, L.nzval() = nz;
        std::vector<vecd> V(nv, vecd(n));
        for(int k = 0; k < nv; ++k) for(int i = 0; i < n; ++i) V[k][i] = (i + 2 * k + kind) % 3 - (i == k) * 2. + 0.5;
        threads(nt, nt == 2 && n < 4, [&] {
          ed::VecCompD out;
          process([&] {
            sparsexx::dist_sparse_matrix<sparsexx::csr_matrix<double, int32_t>> H(mc::comm(), L);
            auto W = V;
            std::vector<std::vector<std::vector<cd>>> res;
            ed::BandResolvent(H, W, omegas, res, nv * n, 0.25, part, false);
            for(auto& w : res) for(auto& r : w) out.insert(out.end(), r.begin(), r.end());
          });
          return out;
        });
      });
  });
  mc::suite("vectors", [] {
    for(int n = 1; n <= 3; ++n) for(int a = 0; a <= n; ++a) for(int b = 0; b <= n; ++b) for(int part = 0; part < 2; ++part) for(int spin = 0; spin < 2; ++spin) for(int nt : {2, 3, 5})
      mc::test([&] { return mc::fmt("%d orbitals, %d up, %d down, %s of spin %d, %d threads", n, a, b, part ? "electron" : "hole", spin, nt); }, [&] {
        const int a2 = a + (spin ? 0 : part ? 1 : -1), b2 = b + (spin ? part ? 1 : -1 : 0);
        if(a2 < 0 || a2 > n || b2 < 0 || b2 > n) return;
        mc::nontrivial();
        auto bits = [&](const std::vector<u64>& v) {
          std::vector<std::bitset<64>> r;
          for(u64 d : v) r.push_back((d & ((u64(1) << n) - 1)) | (d >> n) << 32);
          return r;
        };
        auto from = bits(fock::space(n, a, b)), to = bits(fock::space(n, a2, b2));
        Eigen::VectorXd w(from.size());
        for(size_t i = 0; i < from.size(); ++i) w(i) = (i * 3 + a) % 5 - 1.5;
        ed::VecInt o;
        std::vector<bool> up;
        for(int i = 0; i < n; ++i) o.push_back(i), up.push_back(!spin);
        threads(nt, nt < 5 && to.size() < 4, [&] {
          ed::VecInt gone;
          auto v = ed::BuildWfn4Lanczos<64>(w, o, up, from, to, part, gone);
          vecd r;
          for(auto& x : v) r.insert(r.end(), x.begin(), x.end());
          for(int g : gone) r.push_back(1000 + g);
          return r;
        });
      });
  });
}
