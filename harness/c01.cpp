// C01: the legacy exact-diagonalisation library.
#include "fock.hpp"
#include <cmz_ed/ed.h++>
#include <cmz_ed/hamil.h++>
#include <cmz_ed/lanczos.h++>
#include <cmz_ed/rdms.h++>
#include <cmz_ed/slaterdet.h++>
namespace ed = cmz::ed;
using fock::u64;
using vecd = std::vector<double>;
static size_t pw(size_t b, int e) { size_t r = 1; while(e--) r *= b; return r; }
template <class F>
void guarded(const F& f) {
  try { f(); }
  catch(const std::string& s) { mc::fail("threw \"%s\"", s.c_str()); }
  catch(const char* s) { mc::fail("threw \"%s\"", s); }
}
template <class F>
bool throws(const F& f) {
  try { f(); } catch(...) { return true; }
  return false;
}
ed::slater_det mk(u64 d, int n) { return ed::slater_det(d, n, fock::pc(d & ((u64(1) << n) - 1)), fock::pc(d >> n)); }
ed::SetSlaterDets mkset(const std::vector<u64>& v, int n) {
  ed::SetSlaterDets s;
  for(u64 d : v) s.insert(mk(d, n));
  return s;
}
ed::intgrls::integrals mkints(const fock::Ints& I) { return ed::intgrls::integrals(I.n, I.T, I.V); }
std::vector<uint64_t> bits(u64 x) {
  std::vector<uint64_t> v;
  for(int i = 0; i < 64; ++i) if(x >> i & 1) v.push_back(i);
  return v;
}
void one_det(u64 d, int n) {
  mc::executions(1);
  const u64 m = (u64(1) << n) - 1;
  auto D = mk(d, n);
  auto s = fock::det(d, n);
  if(D.ToStr() != "|" + s + ">" || D.ToStrBra() != "<" + s + "|") mc::fail("printed as %s / %s", D.ToStr().c_str(), D.ToStrBra().c_str());
  auto ou = bits(d & m), od = bits(d >> n), vu = bits(~d & m), vd = bits(~(d >> n) & m);
  if(D.GetOccOrbsUp() != ou || D.GetOccOrbsDo() != od) mc::fail("wrong occupied orbitals");
  std::vector<uint64_t> a(3, 9), b(1, 9);
  D.GetOccsAndVirtsUp(a, b);
  if(a != ou || b != vu) mc::fail("wrong occupied/empty up orbitals");
  D.GetOccsAndVirtsDo(a, b);
  if(a != od || b != vd) mc::fail("wrong occupied/empty down orbitals");
  for(int sp = 0; sp < 2; ++sp)
    for(auto o : sp ? od : ou) for(auto v : sp ? vd : vu) {
      u64 r;
      int g = fock::exc1(d, v + sp * n, o + sp * n, r);
      double sg = 9;
      auto E = sp ? D.GetSingExDoSt(v, o, sg) : D.GetSingExUpSt(v, o, sg);
      if(E.GetState() != r || sg != g) mc::fail("%s excitation %d to %d: state %llx sign %g, expected %llx %d", sp ? "down" : "up", (int)o, (int)v, (unsigned long long)E.GetState(), sg, (unsigned long long)r, g);
      if(E.GetNorbs() != n || E.GetNup() != D.GetNup() || E.GetNdo() != D.GetNdo()) mc::fail("excited determinant lost its sizes");
      double back = sp ? E.SingleExcDo(o, v) : E.SingleExcUp(o, v);
      if(back != g || E.GetState() != d) mc::fail("excitation and its inverse differ");
    }
  if(D.GetState() != d) mc::fail("determinant modified");
}
void two_dets(u64 a, u64 b, int n) {
  const u64 m = (u64(1) << n) - 1;
  auto A = mk(a, n), B = mk(b, n);
  if(A.CountExc(B) != fock::pc(a ^ b) || A.CountExcUp(B) != fock::pc((a ^ b) & m) || A.CountExcDo(B) != fock::pc((a ^ b) >> n)) mc::fail("wrong number of differences to %s", fock::det(b, n).c_str());
  u64 x = a & ~b;
  if(x && A.GetFlippedOccIndx(B) != __builtin_ctzll(x) % n) mc::fail("first differing orbital to %s is %d", fock::det(b, n).c_str(), (int)A.GetFlippedOccIndx(B));
  if((x & m) && A.GetFlippedOccIndxUp(B) != __builtin_ctzll(x & m)) mc::fail("first differing up orbital to %s is %d", fock::det(b, n).c_str(), (int)A.GetFlippedOccIndxUp(B));
  if((x >> n) && A.GetFlippedOccIndxDo(B) != __builtin_ctzll(x >> n)) mc::fail("first differing down orbital to %s is %d", fock::det(b, n).c_str(), (int)A.GetFlippedOccIndxDo(B));
  if((A < B) != (a < b) || (A == B) != (a == b)) mc::fail("wrong order against %s", fock::det(b, n).c_str());
}
std::vector<u64> states(const std::vector<ed::slater_det>& v) {
  std::vector<u64> s;
  for(auto& d : v) s.push_back(d.GetState());
  return s;
}
using pairs = std::vector<std::pair<size_t, size_t>>;
void check_H(const fock::Ints& I, const std::vector<u64>& dets, double tol) {
  mc::executions(1);
  auto S = mkset(dets, I.n);
  auto P = mkints(I);
  ed::FermionHamil H(P);
  auto R = fock::matrix(I, dets);
  const int N = dets.size();
  auto cmp = [&](const ed::SpMatD& M, const char* who) {
    if(M.rows() != N || M.cols() != N) mc::fail("%s has shape %ldx%ld", who, (long)M.rows(), (long)M.cols());
    for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j)
      if(!(std::abs(M.coeff(i, j) - R(i, j)) <= tol)) mc::fail("%s(%d,%d) = %.15g between %s and %s, expected %.15g", who, i, j, M.coeff(i, j), fock::det(dets[i], I.n).c_str(), fock::det(dets[j], I.n).c_str(), R(i, j));
  };
  cmp(ed::GetHmat(&H, S), "Hamiltonian");
  auto p = H.GetHpairs(S);
  pairs q = p;
  std::sort(q.begin(), q.end());
  if(std::adjacent_find(q.begin(), q.end()) != q.end()) mc::fail("a pair is listed twice");
  for(auto& x : q) if(x.first >= N || x.second >= N || x.first == x.second || fock::pc(dets[x.first] ^ dets[x.second]) > 4) mc::fail("pair (%zu,%zu) is not an excitation", x.first, x.second);
  for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j)
    if(i != j && std::abs(R(i, j)) > 2e-9 && !std::binary_search(q.begin(), q.end(), std::pair<size_t, size_t>(i, j))) mc::fail("pair %s, %s with element %.9g is not listed", fock::det(dets[i], I.n).c_str(), fock::det(dets[j], I.n).c_str(), R(i, j));
  cmp(ed::GetHmat_FromPairs(&H, S, p), "Hamiltonian from pairs");
}
void check_rdm(int n, const std::vector<u64>& dets, const vecd& c, double tol) {
  mc::executions(1);
  Eigen::VectorXd v(c.size());
  for(size_t i = 0; i < c.size(); ++i) v(i) = c[i];
  ed::rdm::rdms R(n, v, mkset(dets, n));
  vecd g, G;
  fock::rdms(n, dets, c, c, g, G);
  auto name = [&] { std::string s; for(size_t i = 0; i < c.size(); ++i) if(c[i]) s += mc::fmt("%+g|%s>", c[i], fock::det(dets[i], n).c_str()); return s; };
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q)
    if(!(std::abs(R.get(p, q) - g[p + n * q]) <= tol)) mc::fail("%s: density (%d,%d) = %.15g, expected %.15g", name().c_str(), p, q, R.get(p, q), g[p + n * q]);
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) for(int r = 0; r < n; ++r) for(int s = 0; s < n; ++s) {
    double e = G[p + n * (q + n * (r + n * s))];
    if(!(std::abs(R.getChem(p, q, r, s) - e) <= tol) || R.getPhys(p, r, q, s) != R.getChem(p, q, r, s)) mc::fail("%s: two-body density (%d%d|%d%d) = %.15g, expected %.15g", name().c_str(), p, q, r, s, R.getChem(p, q, r, s), e);
  }
  ed::rdm::rdms C(R);
  if(C.rdm1 != R.rdm1 || C.rdm2 != R.rdm2 || C.norbitals != n) mc::fail("the copy differs");
  if(R.rdm1.size() != n * n || R.rdm2.size() != pw(n, 4)) mc::fail("wrong sizes");
}
template <class F>
void sectors(int n, const F& f) { for(int a = 0; a <= n; ++a) for(int b = 0; b <= n; ++b) f(a, b); }
vecd coef(size_t N, int kind) {
  vecd c(N);
  double s = 0;
  for(size_t i = 0; i < N; ++i) c[i] = (int((i * 37 + kind * 11) % 19) - 8) / 7., s += c[i] * c[i];
  for(auto& x : c) x /= std::sqrt(s);
  return c;
}
void same_ints(const ed::intgrls::integrals& P, const fock::Ints& I, double core, const char* who) {
  auto ne = [](double a, double b) { return !(std::abs(a - b) <= 2e-11 * std::abs(b)); };
  if(ne(P.get_core_energy(), core)) mc::fail("%s: core energy %.15g, expected %.15g", who, P.get_core_energy(), core);
  for(int p = 0; p < I.n; ++p) for(int q = 0; q < I.n; ++q) if(ne(P.get(p, q), I.t(p, q))) mc::fail("%s: one-body (%d,%d) = %.15g, expected %.15g", who, p, q, P.get(p, q), I.t(p, q));
  for(int p = 0; p < I.n; ++p) for(int q = 0; q < I.n; ++q) for(int r = 0; r < I.n; ++r) for(int s = 0; s < I.n; ++s)
    if(ne(P.getChem(p, q, r, s), I.v(p, q, r, s)) || ne(P.getPhys(p, r, q, s), I.v(p, q, r, s))) mc::fail("%s: two-body (%d%d|%d%d) = %.15g, expected %.15g", who, p, q, r, s, P.getChem(p, q, r, s), I.v(p, q, r, s));
}
void mc_main() {
  std::cout.setstate(std::ios::failbit), std::cerr.setstate(std::ios::failbit);
  somp::set(somp::Config{});
  mc::suite("determinant", [] {
    for(int n = 1; n <= (mc::thorough ? 6 : 5); ++n)
      for(u64 d = 0; d < (u64(1) << 2 * n); ++d)
        mc::test([&] { return mc::fmt("%d orbitals, %s", n, fock::det(d, n).c_str()); }, [&] {
          if(d) mc::nontrivial();
          guarded([&] {
            one_det(d, n);
            if(n <= 4) for(u64 e = 0; e < (u64(1) << 2 * n); ++e) two_dets(d, e, n);
          });
        });
    // patterns sliding over both halves of the widest supported determinants
    for(int n : {8, 11, 15, 16, 17, 24, 31, 32})
      for(int at = 0; at + 6 <= 2 * n; ++at)
        mc::test([&] { return mc::fmt("%d orbitals, window at %d", n, at); }, [&] {
          mc::nontrivial();
          const u64 all = n < 32 ? (u64(1) << 2 * n) - 1 : ~u64(0);
          guarded([&] {
            for(int bg = 0; bg < 3; ++bg)
              for(u64 w = 0; w < 64; ++w) {
                u64 back = bg == 0 ? 0 : bg == 1 ? all : 0x5a5a5a5a5a5a5a5aull & all;
                u64 d = (back & ~(u64(63) << at)) | w << at;
                one_det(d, n);
                for(int i = 0; i < 2 * n; ++i) two_dets(d, d ^ (u64(1) << i), n), two_dets(d, d ^ (u64(1) << i) ^ (u64(3) << at), n);
              }
          });
        });
  });
  mc::suite("space", [] {
    for(int n = 1; n <= (mc::thorough ? 14 : 12); ++n)
      for(int k = 0; k <= n; ++k)
        mc::test([&] { return mc::fmt("%d of %d", k, n); }, [&] {
          if(k) mc::nontrivial();
          auto c = ed::BuildCombs(n, k);
          std::sort(c.begin(), c.end());
          auto e = fock::strings(n, k);
          if(!std::equal(c.begin(), c.end(), e.begin(), e.end())) mc::fail("%zu combinations, expected %zu", c.size(), e.size());
        });
    for(int n = 13; n <= 64; ++n)
      for(int k : {0, 1, 2, n - 1, n})
        mc::test([&] { return mc::fmt("%d of %d", k, n); }, [&] {
          if(k) mc::nontrivial();
          const u64 all = n < 64 ? (u64(1) << n) - 1 : ~u64(0);
          std::vector<u64> e;
          if(k == 0 || k == n) e = {k ? all : 0};
          else for(int i = 0; i < n; ++i) { const u64 b = u64(1) << i; if(k == 2) for(int j = 0; j < i; ++j) e.push_back(b | u64(1) << j); else e.push_back(k == 1 ? b : all ^ b); }
          auto c = ed::BuildCombs(n, k);
          std::sort(c.begin(), c.end()), std::sort(e.begin(), e.end());
          if(!std::equal(c.begin(), c.end(), e.begin(), e.end())) mc::fail("%zu combinations, expected %zu (or others)", c.size(), e.size());
        });
    for(int n = 1; n <= 6; ++n)
      sectors(n, [&](int a, int b) {
        mc::test([&] { return mc::fmt("%d orbitals, %d up, %d down", n, a, b); }, [&] {
          if(a || b) mc::nontrivial();
          guarded([&] {
            auto chk = [&](const ed::SetSlaterDets& S, const std::vector<u64>& e, const char* w) {
              std::vector<u64> got;
              for(auto& d : S) {
                got.push_back(d.GetState());
                if(d.GetNorbs() != n || d.GetNup() != a || d.GetNdo() != b) mc::fail("%s: determinant with wrong sizes", w);
              }
              if(got != e) mc::fail("%s: %zu determinants, expected %zu", w, got.size(), e.size());
            };
            mc::executions(1);
            auto sp = fock::space(n, a, b);
            chk(ed::BuildFullHilbertSpace(n, a, b), sp, "full space");
            for(int m = std::max({1, a, b}); m <= n; ++m) {
              std::vector<u64> e;
              for(u64 x : fock::strings(m, b)) for(u64 y : fock::strings(m, a)) e.push_back(x << n | y);
              chk(ed::BuildShiftHilbertSpace(n, m, a, b), e, "restricted space");
            }
            if(n > (mc::thorough ? 6 : 5)) return;
            for(u64 d : sp) {
              std::vector<u64> e;
              for(u64 x : sp) if(x != d && fock::pc(x ^ d) <= 4) e.push_back(x);
              if(states(mk(d, n).GetSinglesAndDoubles()) != e) mc::fail("wrong list of excitations of %s", fock::det(d, n).c_str());
            }
          });
        });
      });
  });
  mc::suite("elements", [] {
    for(int n = 1; n <= (mc::thorough ? 5 : 4); ++n)
      sectors(n, [&](int a, int b) {
        auto B = fock::basis(n);
        auto sp = fock::space(n, a, b);
        for(size_t k = 0; k < B.size(); ++k)
          mc::test([&] { return mc::fmt("%d orbitals, %d up, %d down, integral set %zu", n, a, b, k); }, [&] {
            if(a || b) mc::nontrivial();
            guarded([&] {
              mc::executions(sp.size());
              auto P = mkints(B[k]);
              ed::FermionHamil H(P);
              for(u64 x : sp) {
                auto c = fock::column(B[k], x);
                auto X = mk(x, n);
                for(u64 y : sp) {
                  double e = c.count(y) ? c[y] : 0, g = H.GetHmatel(mk(y, n), X);
                  if(g != e) mc::fail("<%s|H|%s> = %.17g, expected %.17g", fock::det(y, n).c_str(), fock::det(x, n).c_str(), g, e);
                }
              }
            });
          });
      });
  });
  mc::suite("assembly", [] {
    for(int n = 1; n <= (mc::thorough ? 4 : 3); ++n)
      sectors(n, [&](int a, int b) {
        auto sp = fock::space(n, a, b);
        auto L = fock::unique(n);
        for(size_t k = 0; k <= L.size(); ++k)
          mc::test([&] { return mc::fmt("%d orbitals, %d up, %d down, %s", n, a, b, k < L.size() ? mc::fmt("integral %d %d %d %d", L[k].p, L[k].q, L[k].r, L[k].s).c_str() : "generic"); }, [&] {
            if(sp.size() > 1) mc::nontrivial();
            guarded([&] {
              fock::Ints I(n);
              for(double w : {-1e-3, 1e-5, 1e-7, 0.75}) {  // weak couplings count, down to 1e-9
                if(k < L.size()) fock::put(I, L[k], w);
                else I = fock::generic(n);
                check_H(I, sp, 1e-14);
              }
              somp::Config c;
              c.threads = 2 + k % 2;
              somp::set(c);
              check_H(I, sp, 1e-12);
              somp::set(somp::Config{});
            });
          });
        // every list of determinants
        if(sp.size() <= (mc::thorough ? 12 : 9))
          for(u64 sub = 1; sub < (u64(1) << sp.size()); ++sub)
            mc::test([&] { return mc::fmt("%d orbitals, %d up, %d down, list %llx", n, a, b, (unsigned long long)sub); }, [&] {
              if(fock::pc(sub) > 1) mc::nontrivial();
              std::vector<u64> d;
              for(size_t i = 0; i < sp.size(); ++i) if(sub >> i & 1) d.push_back(sp[i]);
              guarded([&] {
                check_H(fock::generic(n, 1), d, 1e-12);
                auto p = ed::GetSingDoublPairs(mkset(d, n));
                std::sort(p.begin(), p.end());
                pairs e;
                for(size_t i = 0; i < d.size(); ++i) for(size_t j = 0; j < d.size(); ++j) if(i != j && fock::pc(d[i] ^ d[j]) <= 4) e.emplace_back(i, j);
                if(p != e) mc::fail("%zu connected pairs, expected %zu", p.size(), e.size());
                check_rdm(n, d, coef(d.size(), sub % 5), 1e-13);
              });
            });
      });
    for(int n = 4; n <= (mc::thorough ? 6 : 5); ++n)
      for(int a = 1; a < n; ++a)
        mc::test([&] { return mc::fmt("%d orbitals, %d up and %d down, generic", n, a, n / 2); }, [&] {
          mc::nontrivial();
          guarded([&] {
            auto sp = fock::space(n, a, n / 2);
            check_H(fock::generic(n, 2), sp, 1e-12);
            check_rdm(n, sp, coef(sp.size(), a), 1e-12);
          });
        });
  });
  mc::suite("larger", [] {
    struct { int n, a, b; } z[] = {{6, 3, 3}, {7, 2, 2}, {7, 6, 5}, {8, 1, 2}, {8, 7, 6}, {10, 1, 1}, {12, 0, 2}, {12, 1, 1}, {16, 15, 0}, {17, 0, 17}, {17, 1, 16}, {20, 1, 1}, {24, 0, 23}, {32, 1, 0}, {32, 31, 32}};
    for(auto s : z) for(int kind = 0; kind < 2; ++kind)
      mc::test([&] { return mc::fmt("%d orbitals, %d up, %d down, integrals %d", s.n, s.a, s.b, kind); }, [&] {
        mc::nontrivial();
        guarded([&] {
          auto sp = fock::space(s.n, s.a, s.b);
          std::vector<u64> got;
          for(auto& d : ed::BuildFullHilbertSpace(s.n, s.a, s.b)) got.push_back(d.GetState());
          if(got != sp) mc::fail("full space: %zu determinants, expected %zu (or others)", got.size(), sp.size());
          if(sp.size() <= 500) for(size_t i = 0; i < sp.size(); i += 1 + sp.size() / 5) {
            std::vector<u64> e;
            for(u64 x : sp) if(x != sp[i] && fock::pc(x ^ sp[i]) <= 4) e.push_back(x);
            if(states(mk(sp[i], s.n).GetSinglesAndDoubles()) != e) mc::fail("wrong list of excitations of %s", fock::det(sp[i], s.n).c_str());
          }
          if(kind && sp.size() > 40) {  // part of the space
            std::vector<u64> d;
            for(size_t i = 0; i < sp.size(); ++i) if(i * i % 7 < 3) d.push_back(sp[i]);
            sp = d;
          }
          check_H(fock::generic(s.n, kind), sp, 1e-11);
          check_rdm(s.n, sp, coef(sp.size(), kind), 1e-11);
        });
      });
    for(int n : {6, 9, 11}) for(int kind = 0; kind < 2; ++kind)
      mc::test([&] { return mc::fmt("integrals of %d orbitals, kind %d", n, kind); }, [&] {
        mc::nontrivial();
        guarded([&] {
          mc::executions(2);
          auto f = mc::scratch() + "/ints", f2 = f + "2";
          auto I = fock::generic(n, kind);
          {
            std::ofstream o(f);
            auto L = fock::unique(n);
            if(kind) std::reverse(L.begin(), L.end());
            for(auto& l : L) o << mc::fmt("%d %d %d %d %.16e\n", l.p + 1, l.q + 1, l.r + 1, l.s + 1, l.r < 0 ? I.t(l.p, l.q) : I.v(l.p, l.q, l.r, l.s));
            o << "0 0 0 0 1.5\n";
          }
          ed::intgrls::integrals P(n, f);
          same_ints(P, I, 1.5, "read");
          P.write_FCIdump(f2);
          ed::intgrls::integrals Q(n, f2);
          same_ints(Q, I, 1.5, "written and read");
          Eigen::MatrixXd U(n, n);
          for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) U(i, j) = (i * 3 + j * 5 + i * j + kind) % 4 - 1;
          vecd X = I.V, T(n * n, 0.);
          for(int k = 0; k < 4; ++k) {
            vecd Y(X.size(), 0.);
            for(size_t r = 0; r < pw(n, 3); ++r) for(int p = 0; p < n; ++p) for(int i = 0; i < n; ++i) Y[r + pw(n, 3) * p] += U(i, p) * X[i + n * r];
            X = Y;
          }
          for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) T[p + n * q] += U(i, p) * U(j, q) * I.t(i, j);
          auto R = mkints(I);
          R.rotate_orbitals(U);
          auto near = [&](const vecd& a, const vecd& b, const char* w) { for(size_t i = 0; i < b.size(); ++i) if(a.size() != b.size() || !(std::abs(a[i] - b[i]) <= 1e-10)) mc::fail("%s: entry %zu is %.15g, expected %.15g", w, i, a[i], b[i]); };
          near(R.t, T, "rotated one-body integrals");
          near(R.u, X, "rotated two-body integrals");
        });
      });
  });
  mc::suite("densities", [] {
    for(int n = 1; n <= 4; ++n)
      sectors(n, [&](int a, int b) {
        auto sp = fock::space(n, a, b);
        for(size_t i = 0; i < sp.size(); ++i)
          mc::test([&] { return mc::fmt("%d orbitals, all pairs with %s", n, fock::det(sp[i], n).c_str()); }, [&] {
            if(a || b) mc::nontrivial();
            guarded([&] {
              for(size_t j = i; j < sp.size(); ++j) {
                std::vector<u64> d{sp[i]};
                if(j != i) d.push_back(sp[j]);
                check_rdm(n, d, j == i ? vecd{1.} : vecd{3., 5.}, 0);
              }
            });
          });
      });
    // active-space part
    for(int n = 1; n <= 4; ++n)
      for(int ni = 0; ni <= n; ++ni) for(int na = 0; ni + na <= n; ++na)
        mc::test([&] { return mc::fmt("%d orbitals, %d inactive, %d active", n, ni, na); }, [&] {
          if(na) mc::nontrivial();
          mc::executions(1);
          guarded([&] {
            vecd g(n * n), G(pw(n, 4));
            std::iota(g.begin(), g.end(), 1.), std::iota(G.begin(), G.end(), 100.);
            auto P = mkints(fock::generic(n));
            P.UpdateActiveSpace(ni, na, n - ni - na);
            auto A = ed::rdm::rdms(n, g, G).GetASrdms(P);
            if(A.norbitals != na || A.rdm1.size() != na * na || A.rdm2.size() != pw(na, 4)) mc::fail("wrong sizes");
            for(int p = 0; p < na; ++p) for(int q = 0; q < na; ++q) {
              if(A.get(p, q) != g[p + ni + n * (q + ni)]) mc::fail("wrong active density");
              for(int r = 0; r < na; ++r) for(int s = 0; s < na; ++s) if(A.getChem(p, q, r, s) != G[p + ni + n * (q + ni + n * (r + ni + n * (s + ni)))]) mc::fail("wrong active two-body density");
            }
            if(!throws([&] { P.UpdateActiveSpace(ni, na + 1, n - ni - na); })) mc::fail("an active space of the wrong size is accepted");
          });
        });
    // saved densities, every length of the file
    for(int n = 1; n <= 3; ++n)
      mc::test([&] { return mc::fmt("density file of %d orbitals", n); }, [&] {
        mc::nontrivial();
        vecd g(n * n), G(pw(n, 4));
        std::iota(g.begin(), g.end(), 1.), std::iota(G.begin(), G.end(), 100.);
        auto f = mc::scratch() + "/rdm";
        std::string data((const char*)&n, 4);
        data.append((const char*)g.data(), g.size() * 8).append((const char*)G.data(), G.size() * 8);
        for(size_t len = 0; len <= data.size(); ++len) {
          mc::executions(1);
          { std::ofstream o(f, std::ios::binary); o.write(data.data(), len); }
          char stack[256];
          memset(stack, 0xa5, sizeof stack);
          asm volatile("" ::"r"(stack) : "memory");
          bool ok = true;
          ed::rdm::rdms R(n);
          try { R.read_RDMs(f); } catch(...) { ok = false; }
          if(ok != (len == data.size())) mc::fail("%zu of %zu bytes: %s", len, data.size(), ok ? "accepted" : "rejected");
          if(ok && (R.rdm1 != g || R.rdm2 != G)) mc::fail("other numbers read");
        }
        for(int m = 1; m <= 4; ++m) if(m != n && !throws([&] { ed::rdm::rdms R(m, f); })) mc::fail("read for %d orbitals", m);
        if(!throws([&] { ed::rdm::rdms R(n, mc::scratch() + "/none"); })) mc::fail("a missing file is accepted");
      });
  });
  mc::suite("integrals", [] {
    // one (pair of) entries in a file, any equivalent order of indices
    for(int n = 1; n <= 3; ++n) {
      auto L = fock::unique(n);
      for(size_t k = 0; k < L.size(); ++k)
        mc::test([&] { return mc::fmt("%d orbitals, integral %d %d %d %d", n, L[k].p, L[k].q, L[k].r, L[k].s); }, [&] {
          mc::nontrivial();
          guarded([&] {
            auto f = mc::scratch() + "/ints";
            for(int w = 0; w < (L[k].r < 0 ? 2 : 8); ++w)
              for(int core = 0; core < 2; ++core) {
                mc::executions(1);
                int x[4] = {L[k].p + 1, L[k].q + 1, L[k].r + 1, L[k].s + 1};
                if(w & 1) std::swap(x[0], x[1]);
                if(w & 2) std::swap(x[2], x[3]);
                if(w & 4) std::swap(x[0], x[2]), std::swap(x[1], x[3]);
                {
                  std::ofstream o(f);
                  if(core) o << "0 0 0 0 -3.25\n 1 0 0 0 7.5\n";
                  o << mc::fmt("%4d %4d %4d %4d %.16e\n", x[0], x[1], x[2], x[3], -0.625);
                }
                fock::Ints I(n);
                fock::put(I, L[k], -0.625);
                ed::intgrls::integrals P(n, f);
                same_ints(P, I, core ? -3.25 : 0, "read");
              }
          });
        });
    }
    for(int n = 1; n <= 4; ++n)
      for(int kind = 0; kind < 6; ++kind)
        mc::test([&] { return mc::fmt("complete file of %d orbitals, kind %d", n, kind); }, [&] {
          mc::nontrivial();
          guarded([&] {
            auto f = mc::scratch() + "/ints", f2 = f + "2";
            auto I = kind % 2 ? fock::hubbard(n, 1, 4, true) : fock::generic(n, kind);
            double core = kind % 3 ? 1. / 3 : 0;
            {
              std::ofstream o(f);
              for(auto& l : fock::unique(n)) {
                double x = l.r < 0 ? I.t(l.p, l.q) : I.v(l.p, l.q, l.r, l.s);
                o << mc::fmt("%d %d %d %d %.16e\n", l.p + 1, l.q + 1, l.r + 1, l.s + 1, x);
              }
              o << mc::fmt("0 0 0 0 %.16e\n", core);
            }
            ed::intgrls::integrals P(n, f);
            same_ints(P, I, core, "read");
            P.write_FCIdump(f2);
            ed::intgrls::integrals Q(n, f2);
            same_ints(Q, I, core, "written and read");
            auto R = mkints(I);
            R.core_energy = core;
            R.write_FCIdump(f2);
            bool single;
            ed::intgrls::integrals S(n, f2, single, true);
            same_ints(S, I, core, "taken from arrays, written and read");
            mc::executions(3);
            // rotation by an integer matrix
            Eigen::MatrixXd U(n, n);
            for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) U(i, j) = (i * 3 + j * 5 + kind) % 4 - 1;
            fock::Ints W(n);
            for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) {
              W.t(p, q) += U(i, p) * U(j, q) * I.t(i, j);
              for(int r = 0; r < n; ++r) for(int s = 0; s < n; ++s) for(int k = 0; k < n; ++k) for(int l = 0; l < n; ++l) W.v(p, q, r, s) += U(i, p) * U(j, q) * U(k, r) * U(l, s) * I.v(i, j, k, l);
            }
            auto near = [&](const vecd& a, const vecd& b, const char* w) { for(size_t i = 0; i < b.size(); ++i) if(a.size() != b.size() || !(std::abs(a[i] - b[i]) <= 1e-11)) mc::fail("%s: entry %zu is %.15g, expected %.15g", w, i, a[i], b[i]); };
            near(R.rotate1AS(U, R.t), W.T, "rotated one-body integrals");
            for(int ni = 0; ni <= n; ++ni) for(int na = 0; ni + na <= n; ++na) {
              R.UpdateActiveSpace(ni, na, n - ni - na);
              auto X = W.V;
              for(size_t i = 0; i < X.size(); ++i) if(i / pw(n, 3) >= ni + na) X[i] = 0;
              near(R.rotate2AS(U, R.u), X, "rotated two-body integrals with occupied last index");
            }
            R.rotate_orbitals(U);
            near(R.t, W.T, "rotated one-body integrals");
            near(R.u, W.V, "rotated two-body integrals");
            ed::rdm::rdms D(n, I.T, I.V);
            D.rotate_orbitals(U);
            near(D.rdm1, W.T, "rotated density");
            near(D.rdm2, W.V, "rotated two-body density");
            R.updateInts(I.T, I.V);
            near(R.t, I.T, "updated"), near(R.u, I.V, "updated");
          });
          if(!throws([&] { ed::intgrls::integrals P(n, mc::scratch() + "/none"); })) mc::fail("a missing file is accepted");
          auto I = fock::generic(n);
          if(!throws([&] { ed::intgrls::integrals P(n + 1, I.T, I.V); })) mc::fail("arrays of the wrong size are accepted");
        });
  });
  mc::suite("ground-state", [] {
    for(int n = 1; n <= (mc::thorough ? 5 : 4) + 3; ++n)
      for(int kind = 0; kind < 8; ++kind)
        sectors(n, [&](int a, int b) {
          if(n > (mc::thorough ? 5 : 4) && !(kind < 2 && (n == 5 ? a == 2 && b == 3 : n == 6 ? a == 2 && b > 0 && b < 3 : a == 6 && b == 5 - kind))) return;
          mc::test([&] { return mc::fmt("%d orbitals, %d up, %d down, Hamiltonian %d", n, a, b, kind); }, [&] {
            auto sp = fock::space(n, a, b);
            if(sp.size() > 1) mc::nontrivial();
            mc::executions(1);
            auto I = kind < 4 ? fock::generic(n, kind) : fock::hubbard(n, kind % 2 ? 1 : -1, kind & 2 ? 4 : -1, kind > 5);
            auto H = fock::matrix(I, sp);
            vecd w;
            std::vector<vecd> v;
            lin::jacobi(H, w, v);
            // the lowest state within the starting vector's Krylov space
            double e0 = 0;
            bool found = false;
            for(size_t i = 0; i < w.size() && !found; ++i) {
              double s = 0;
              for(size_t j = i; j < w.size() && w[j] - w[i] < 1e-9; ++j) s = std::hypot(s, std::accumulate(v[j].begin(), v[j].end(), 0.));
              if(s > 1e-6) found = true, e0 = w[i];
            }
            guarded([&] {
              auto P = mkints(I);
              P.core_energy = 0.75;
              ed::Input_t in;
              in["norbs"] = std::to_string(n), in["nups"] = std::to_string(a), in["ndos"] = std::to_string(b);
              if(kind % 2) in["Lantol"] = "1e-7", in["E0tol"] = "1e-10", in["print"] = "F";
              double E = 99;
              vecd g, G;
              ed::RunED(in, P, E, g, G);
              if(!(std::abs(E - e0 - 0.75) <= 1e-6)) mc::fail("ground-state energy %.12g, expected %.12g", E, e0 + 0.75);
              double tr = 0;
              for(int p = 0; p < n; ++p) tr += g[p + n * p];
              if(!(std::abs(tr - a - b) <= 1e-6)) mc::fail("the density holds %.12g electrons", tr);
              if(!(std::abs(fock::energy(I, g, G) - e0) <= 1e-6)) mc::fail("the densities give the energy %.12g, expected %.12g", fock::energy(I, g, G), e0);
            });
          });
        });
  });
}
