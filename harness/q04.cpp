// Q04: assembled Hamiltonians.
#include "ham.hpp"
#include "sx.hpp"
#include <macis/csr_hamiltonian.hpp>
#include <sparsexx/spblas/pspmbv.hpp>
using namespace fock;
inline Ints integers(int n, int kind) {  // small whole numbers with ties and zeros
  Ints I(n);
  int c = 5 + 11 * kind;
  for(auto& l : unique(n)) c = (c * 29 + 7) % 211, put(I, l, kind == 2 ? (c % 3 ? 0 : 2) : double(2 * (c % 9) - 8));
  return I;
}
std::vector<u64> pick(const std::vector<u64>& sp, u64 mask) {
  std::vector<u64> v;
  for(size_t i = 0; i < sp.size(); ++i) if(mask >> i & 1) v.push_back(sp[i]);
  return v;
}
std::vector<double> thresholds(const lin::Sym& H) {
  std::set<double> s{0., 1e-12};
  for(double x : H.a) if(x != 0) s.insert(std::abs(x)), s.insert(std::nextafter(std::abs(x), 0.));
  std::vector<double> v(s.begin(), s.end());
  if(v.size() > 6) v = {v[0], v[1], v[2], v[3], v[v.size() / 2], v.back()};
  return v;
}
// element (i,j) of bra x ket lists
struct Block { int m, n; std::vector<double> a; double operator()(int i, int j) const { return a[i * n + j]; } };
Block block(const Ints& I, const std::vector<u64>& b, const std::vector<u64>& k) {
  Block B{(int)b.size(), (int)k.size(), std::vector<double>(b.size() * k.size(), 0.)};
  for(int j = 0; j < B.n; ++j) {
    auto c = column(I, k[j]);
    for(int i = 0; i < B.m; ++i) { auto it = c.find(b[i]); if(it != c.end()) B.a[i * B.n + j] = it->second; }
  }
  return B;
}
template <class I> void judge(const sparsexx::csr_matrix<double, I>& A, const Block& B, double th, const char* what) {
  int want = 0;
  for(double x : B.a) want += std::abs(x) > th;
  auto d = sx::meaning(A, B.m, B.n, want, 0, what);
  for(long k = 0; k < (long)A.nnz(); ++k) if(!(std::abs(A.nzval()[k]) > th)) mc::fail("%s: an element of size %g is stored, threshold %g", what, A.nzval()[k], th);
  for(int i = 0; i < B.m; ++i) for(int j = 0; j < B.n; ++j) {
    const double w = std::abs(B(i, j)) > th ? B(i, j) : 0.;
    if(d(i, j) != w) mc::fail("%s: element (%d,%d) is %g, expected %g, threshold %g", what, i, j, d(i, j), w, th);
  }
}
template <size_t N, class I> void serial(const Ints& in, const std::vector<u64>& bra, const std::vector<u64>& ket, double th) {
  ham::Ham<N> H(in);
  auto b = ham::dets<N>(bra, in.n), k = ham::dets<N>(ket, in.n), b0 = b, k0 = k;
  auto B = block(in, bra, ket);
  judge(macis::make_csr_hamiltonian_block<I>(b.begin(), b.end(), k.begin(), k.end(), H.gen, th), B, th, "block");
  mc::executions(1);
  if(bra == ket) judge(macis::make_csr_hamiltonian<I>(b.begin(), b.end(), H.gen, th), B, th, "matrix"), mc::executions(1);
  if(b != b0 || k != k0) mc::fail("a list of determinants was changed");
}
template <size_t N, class I> void dist(const Ints& in, const std::vector<u64>& list, double th, int nr, const smpi::Opts& o) {
  auto B = block(in, list, list);
  const int n = list.size();
  mc::mpi(nr, [&]() { return [&](int r) {
    ham::Ham<N> H(in);
    auto d = ham::dets<N>(list, in.n), d0 = d;
    auto M = macis::make_dist_csr_hamiltonian<I>(mc::comm(), d.begin(), d.end(), H.gen, th);
    if(d != d0) mc::fail("the list of determinants was changed");
    if((int)M.m() != n || (int)M.n() != n) mc::fail("shape %ldx%ld of %d determinants", (long)M.m(), (long)M.n(), n);
    long at = 0;
    for(int q = 0; q < nr; ++q) {
      if((long)M.row_bounds(q).first != at || M.row_bounds(q).second < M.row_bounds(q).first) mc::fail("rows of process %d do not continue at %ld", q, at);
      at = M.row_bounds(q).second;
    }
    if(at != n) mc::fail("rows end at %ld of %d", at, n);
    const int lo = M.row_bounds(r).first, m = M.row_bounds(r).second - lo;
    Block D{m, m, std::vector<double>(m * m)}, O{m, n, std::vector<double>(m * n)};
    for(int i = 0; i < m; ++i) for(int j = 0; j < n; ++j) {
      const bool l = j >= lo && j < lo + m;
      if(l) D.a[i * m + j - lo] = B(lo + i, j);
      else O.a[i * n + j] = B(lo + i, j);
    }
    judge(M.diagonal_tile(), D, th, "diagonal tile");
    long off = 0;
    for(double x : O.a) off += std::abs(x) > th;
    if(M.off_diagonal_tile_ptr()) judge(M.off_diagonal_tile(), O, th, "off-diagonal tile");
    else if(off) mc::fail("process %d has no off-diagonal tile", r);
    // the distributed matrix acts as the serial one
    auto info = sparsexx::spblas::generate_spmv_comm_info(M);
    std::vector<double> X(m), Y(m, 7.);
    for(int i = 0; i < m; ++i) X[i] = 1 + 3 * (lo + i);
    sparsexx::spblas::pgespmv(1., M, X.data(), 0., Y.data(), info);
    for(int i = 0; i < m; ++i) {
      double y = 0;
      for(int j = 0; j < n; ++j) if(std::abs(B(lo + i, j)) > th) y += B(lo + i, j) * (1 + 3 * j);
      if(Y[i] != y) mc::fail("row %d of the product is %g, expected %g", lo + i, Y[i], y);
    }
  }; }, [](const smpi::Result& r) {
    if(!r.error.empty()) mc::fail("%s", r.error.c_str());
    for(auto& t : r.threw) if(!t.empty()) mc::fail("%s", t.c_str());
  }, o);
}
struct Sector { int n, a, b; };
void mc_main() {
  somp::set(somp::Config{});
  const std::vector<Sector> small = {{1, 1, 1}, {2, 1, 0}, {2, 1, 1}, {2, 2, 1}, {3, 1, 0}, {3, 2, 1}, {3, 1, 1}, {3, 3, 2}, {4, 2, 4}, {4, 3, 4}};
  // one list, every subset of the space in two orders
  mc::suite("lists", [&] {
    for(auto s : small) for(int kind = 0; kind < 3; ++kind) {
      auto sp = space(s.n, s.a, s.b);
      auto I = integers(s.n, kind);
      for(u64 m = 0; m < (u64(1) << std::min<size_t>(sp.size(), mc::thorough ? 9 : 9)); ++m)
        mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, integrals %d, subset %llx", s.n, s.a, s.b, kind, (unsigned long long)m); }, [&] {
          auto l = pick(sp, m), r = l;
          if(l.size() > 1) mc::nontrivial();
          std::reverse(r.begin(), r.end());
          if(r.size() > 2) std::swap(r[0], r[r.size() / 2]);
          for(double t : thresholds(fock::matrix(I, l))) {
            serial<64, int32_t>(I, l, l, t), serial<128, int64_t>(I, r, r, t);
            if(mc::thorough) serial<64, int64_t>(I, r, r, t), serial<128, int32_t>(I, l, l, t);
          }
        });
    }
  });
  // two lists
  mc::suite("blocks", [&] {
    for(auto s : std::vector<Sector>{{3, 1, 1}, {3, 2, 2}, {4, 2, 1}, {4, 2, 2}}) {
      auto all = space(s.n, s.a, s.b);
      const int w = mc::thorough ? 6 : 5;
      for(int st = 1; st <= 3; ++st) {
        std::vector<u64> sp;
        for(size_t i = 0; (int)sp.size() < w; i += st) sp.push_back(all[i % all.size()]);
        if(std::set<u64>(sp.begin(), sp.end()).size() < sp.size()) continue;
        auto I = integers(s.n, st % 3);
        for(u64 a = 0; a < (u64(1) << w); ++a)
          mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, every %d. determinant, bra %llx", s.n, s.a, s.b, st, (unsigned long long)a); }, [&] {
            if(a) mc::nontrivial();
            auto l = pick(sp, a);
            for(u64 b = 0; b < (u64(1) << w); ++b) {
              auto k = pick(sp, b);
              if(b % 2) std::reverse(k.begin(), k.end());
              serial<64, int32_t>(I, l, k, b % 3 ? 0. : 2.), serial<128, int64_t>(I, l, k, b % 3 ? 2. : 4.);
            }
          });
      }
    }
  });
  mc::suite("spaces", [&] {  // complete spaces of more orbitals
    for(int n = 2; n <= (mc::thorough ? 5 : 4); ++n) for(int a = 0; a <= n; ++a) for(int b = 0; b <= n; ++b) for(int kind = 0; kind < 3; ++kind)
      mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, integrals %d", n, a, b, kind); }, [&] {
        if(a + b) mc::nontrivial();
        auto sp = space(n, a, b);
        auto I = integers(n, kind);
        serial<64, int32_t>(I, sp, sp, 0.), serial<64, int64_t>(I, sp, sp, 2.), serial<128, int32_t>(I, sp, sp, 4.);
      });
    for(auto s : std::vector<Sector>{{8, 2, 1}, {6, 2, 2}, {7, 1, 3}, {12, 1, 1}, {10, 3, 0}}) for(int kind = 0; kind < 3; ++kind)
      mc::test([&] { return mc::fmt("%d orbitals, all %d + %d electrons, integrals %d", s.n, s.a, s.b, kind); }, [&] {
        mc::nontrivial();
        auto sp = space(s.n, s.a, s.b), r = sp;
        for(size_t i = 0; i < r.size(); ++i) std::swap(r[i], r[i * 37 % r.size()]);
        auto I = integers(s.n, kind);
        serial<64, int32_t>(I, sp, sp, 0.), serial<128, int64_t>(I, r, sp, 2.);
        if(kind == 2) dist<64, int32_t>(I, r, 2., 2 + s.a, mc::few_schedules());
        if(kind == 1) dist<64, int32_t>(I, sp, 0., 6, mc::few_schedules()), dist<128, int64_t>(I, r, 4., 9, mc::few_schedules());
      });
  });
  // distributed
  mc::suite("distributed", [&] {
    smpi::Opts one = mc::few_schedules();
    one.modes = {0};
    one.all_prios = false;
    for(auto s : small) {
      auto sp = space(s.n, s.a, s.b);
      for(u64 m = 0; m < (u64(1) << std::min<size_t>(sp.size(), 9)); ++m)
        for(int nr = 1; nr <= (mc::thorough ? 5 : 4); ++nr)
          mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, subset %llx, %d processes", s.n, s.a, s.b, (unsigned long long)m, nr); }, [&] {
            auto l = pick(sp, m);
            if(l.size() && nr > 1) mc::nontrivial();
            const int kind = mc::index() % 3;
            auto I = integers(s.n, kind);
            const double t = thresholds(fock::matrix(I, l))[mc::index() / 3 % 2];
            if(m % 2) std::reverse(l.begin(), l.end());
            if(m % 3) dist<64, int32_t>(I, l, t, nr, one);
            else dist<128, int64_t>(I, l, t, nr, one);
          });
    }
    for(int n = 2; n <= 4; ++n) for(int a = 0; a <= n; ++a) for(int b = 0; b <= n; ++b) for(int nr = 2; nr <= 4; ++nr)
      mc::test([&] { return mc::fmt("%d orbitals, all %d + %d electrons, %d processes", n, a, b, nr); }, [&] {
        if(a + b) mc::nontrivial();
        dist<64, int32_t>(integers(n, (a + b) % 3), space(n, a, b), (a + nr) % 2 ? 0. : 2., nr, mc::few_schedules());
      });
  });
}
