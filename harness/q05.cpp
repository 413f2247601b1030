// Q05: reduced density matrices.
#include "ham.hpp"
using namespace fock;
template <size_t N> void form(ham::Gen<N>& g, int n, const std::vector<u64>& ds, vec C, bool one, bool two, vec& D, vec& G) {
  auto d = ham::dets<N>(ds, n);
  auto d0 = d;
  auto C0 = C;
  D.assign(n * n, 0.), G.assign(size_t(n) * n * n * n, 0.);
  g.form_rdms(d.begin(), d.end(), d.begin(), d.end(), C.data(), macis::matrix_span<double>(D.data(), n, n),
              two ? macis::rank4_span<double>(G.data(), n, n, n, n) : macis::rank4_span<double>(nullptr, 0, 0, 0, 0));
  mc::executions(1);
  if(d != d0 || C != C0) mc::fail("an input was changed");
}
template <size_t N> void judge(ham::Gen<N>& g, int n, const std::vector<u64>& ds, const vec& C, double tol = 0) {
  vec D, G, D0, G0, D1, G1;
  rdms(n, ds, C, C, D0, G0);
  form(g, n, ds, C, true, true, D, G);
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q)
    if(!(std::abs(D[p + n * q] - D0[p + n * q]) <= tol)) mc::fail("one-body element (%d,%d) is %.15g, expected %.15g", p, q, D[p + n * q], D0[p + n * q]);
  // the two-body matrix is defined up to the permutational symmetry of the integrals (the HF section of tests/double_loop.cxx fixes one choice)
  auto sym = [&](const vec& x, int p, int q, int r, int s) {
    auto a = [&](int p, int q, int r, int s) { return x[p + n * (q + n * (r + n * s))]; };
    return a(p, q, r, s) + a(q, p, r, s) + a(p, q, s, r) + a(q, p, s, r) + a(r, s, p, q) + a(s, r, p, q) + a(r, s, q, p) + a(s, r, q, p);
  };
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) for(int r = 0; r < n; ++r) for(int s = 0; s < n; ++s) {
    auto a = [&](int p, int q, int r, int s) { return G[p + n * (q + n * (r + n * s))]; };
    const double got = sym(G, p, q, r, s), want = sym(G0, p, q, r, s);
    if(!(std::abs(got - want) <= 8 * tol)) mc::fail("two-body elements equivalent to (%d,%d,%d,%d) add up to %.15g, expected %.15g", p, q, r, s, got, want);
    if(!(std::abs(a(p, q, r, s) - a(r, s, p, q)) <= tol) || !(std::abs(a(p, q, r, s) - a(q, p, s, r)) <= tol)) mc::fail("two-body element (%d,%d,%d,%d) is %.15g, its partners %.15g and %.15g", p, q, r, s, a(p, q, r, s), a(r, s, p, q), a(q, p, s, r));
  }
  form(g, n, ds, C, true, false, D1, G1);
  for(size_t i = 0; i < D.size(); ++i) if(!(std::abs(D1[i] - D0[i]) <= tol)) mc::fail("one-body element (%d,%d) is %.15g without the two-body matrix, expected %.15g", int(i % n), int(i / n), D1[i], D0[i]);
}
template <size_t N> void all() {
  const int m = mc::thorough ? 5 : 4;
  // all pairs of determinants of a sector: matrices are quadratic forms in the coefficients
  for(int n = 1; n <= m; ++n)
    mc::suite(mc::fmt("pairs-%zu-%d", N, n).c_str(), [&] {
      for(int a = 0; a <= n; ++a) for(int b = 0; b <= n; ++b) {
        auto sp = space(n, a, b);
        for(size_t i = 0; i < sp.size(); ++i)
          mc::test([&] { return mc::fmt("%d orbitals: %s with every determinant of its sector", n, det(sp[i], n).c_str()); }, [&] {
            if(a + b) mc::nontrivial();
            ham::Ham<N> H{Ints(n)};
            judge<N>(H.gen, n, {sp[i]}, {3.});
            for(size_t j = 0; j < sp.size(); ++j) if(i != j) {
              try { judge<N>(H.gen, n, {sp[i], sp[j]}, {1., -2.}); } catch(const mc::Failure& e) { mc::fail("%s | with %s", e.what(), det(sp[j], n).c_str()); }
            }
          });
      }
    });
  // whole spaces: traces, symmetry, energy
  mc::suite(mc::fmt("spaces-%zu", N).c_str(), [&] {
    for(int n = 1; n <= (mc::thorough ? 5 : 4); ++n) for(int a = 0; a <= n; ++a) for(int b = 0; b <= n; ++b) for(int kind = 0; kind < 4; ++kind)
      mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, coefficients %d", n, a, b, kind); }, [&] {
        if(a + b) mc::nontrivial();
        auto sp = space(n, a, b);
        if(kind == 3) std::reverse(sp.begin(), sp.end());
        vec C(sp.size());
        for(size_t i = 0; i < C.size(); ++i) C[i] = kind == 0 ? double(int(i * 5 % 7) - 3) : kind == 1 ? (i % 3 ? 0. : 1.) : std::ldexp(1., -int(i % 20)) * (i % 2 ? -1 : 1);
        auto I = generic(n, kind);
        ham::Ham<N> H(I);
        judge<N>(H.gen, n, sp, C, 1e-11);
        vec D, G;
        form<N>(H.gen, n, sp, C, true, true, D, G);
        double nn = 0, tr = 0, e = 0;
        for(double c : C) nn += c * c;
        for(int p = 0; p < n; ++p) tr += D[p + n * p];
        if(!mc::near(tr, (a + b) * nn)) mc::fail("trace %.12g, expected %.12g", tr, (a + b) * nn);
        for(size_t j = 0; j < sp.size(); ++j) { auto c = column(I, sp[j]); for(size_t i = 0; i < sp.size(); ++i) if(c.count(sp[i])) e += C[i] * C[j] * c[sp[i]]; }
        if(!mc::near(energy(I, D, G), e)) mc::fail("the matrices give the energy %.12g, the wave function %.12g", energy(I, D, G), e);
      });
  });
  mc::suite(mc::fmt("long-%zu", N).c_str(), [&] {  // lists of some hundred determinants
    struct S { int n, a, b; };
    for(auto s : std::vector<S>{{5, 2, 2}, {6, 3, 1}, {6, 2, 3}, {7, 4, 1}})
      for(int cut : {0, 36}) mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, without the first %d", s.n, s.a, s.b, cut); }, [&] {
        mc::nontrivial();
        auto sp = space(s.n, s.a, s.b);
        sp.erase(sp.begin(), sp.begin() + cut);
        vec C(sp.size());
        for(size_t i = 0; i < C.size(); ++i) C[i] = double(int(i * 5 % 11) - 3);
        ham::Ham<N> H{Ints(s.n)};
        judge<N>(H.gen, s.n, sp, C, 1e-9);
      });
    if(N == 64) for(int n = 8; n <= 14; ++n) for(int k : {n - 2, n / 2})
      mc::test([&] { return mc::fmt("%d orbitals, %d electrons of each spin, neighbours of one determinant", n, k); }, [&] {  // many electrons
        mc::nontrivial();
        const u64 s = (u64(1) << k) - 1, d = s << n | s;
        std::vector<u64> l{d};
        u64 b;
        for(int p = 0; p < 2 * n; p += 2) for(int q = 1; q < 2 * n; q += 2) if(p / n == q / n) {
          if(exc1(d, q, p, b) && b != d) l.push_back(b);
          if(exc2(d, p, (p + n) % (2 * n) / n * n + k - 1 - p % 2, q, q / n * n, b) && b != d) l.push_back(b);
        }
        std::sort(l.begin(), l.end()), l.erase(std::unique(l.begin(), l.end()), l.end());
        l.erase(std::remove_if(l.begin(), l.end(), [&](u64 x) { return pc(x & ((u64(1) << n) - 1)) != k || pc(x >> n) != k; }), l.end());
        vec C(l.size());
        for(size_t i = 0; i < C.size(); ++i) C[i] = double(int(i * 5 % 11) - 3);
        ham::Ham<N> H{Ints(n)};
        judge<N>(H.gen, n, l, C, 1e-9);
      });
  });
  // sub-lists
  mc::suite(mc::fmt("sublists-%zu", N).c_str(), [&] {
    struct S { int n, a, b; };
    for(auto s : std::vector<S>{{3, 1, 1}, {3, 2, 1}, {4, 1, 2}, {4, 2, 2}}) {
      auto sp = space(s.n, s.a, s.b);
      for(u64 mask = 0; mask < 512; ++mask)
        mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, subset %llx", s.n, s.a, s.b, (unsigned long long)mask); }, [&] {
          std::vector<u64> l;
          vec C;
          for(int i = 0; i < 9; ++i) if(mask >> i & 1) l.push_back(sp[i * sp.size() / 9]), C.push_back(double(i * 3 % 5) - 2.5);
          if(l.size() > 1) mc::nontrivial();
          ham::Ham<N> H{Ints(s.n)};
          judge<N>(H.gen, s.n, l, C, 1e-12);
        });
    }
  });
  // rotation into natural orbitals
  mc::suite(mc::fmt("natural-%zu", N).c_str(), [&] {
    for(int n = 1; n <= (mc::thorough ? 4 : 3); ++n) for(int a = 0; a <= n; ++a) for(int b = 0; b <= n; ++b) for(int kind = 0; kind < 6; ++kind)
      mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, integrals %d", n, a, b, kind); }, [&] {
        if(!(a + b)) return;
        mc::nontrivial();
        auto I = kind == 5 ? hubbard(n, 1., 3., false) : generic(n, kind);
        auto sp = space(n, a, b);
        std::vector<double> w, w2;
        std::vector<vec> v, v2;
        lin::jacobi(fock::matrix(I, sp), w, v);
        vec D, G;
        rdms(n, sp, v[0], v[0], D, G);
        ham::Ham<N> H(I);
        auto D0 = D;
        H.gen.rotate_hamiltonian_ordm(D.data());
        mc::executions(1);
        if(D != D0) mc::fail("the density matrix was changed");
        Ints J(n);
        J.T.assign(H.gen.T(), H.gen.T() + n * n), J.V.assign(H.gen.V(), H.gen.V() + n * n * n * n);
        for(int s1 = 0; s1 <= n; ++s1) for(int s2 = 0; s2 <= n; ++s2) {  // spectra unchanged, elements follow
          auto sq = space(n, s1, s2);
          lin::jacobi(fock::matrix(I, sq), w, v);
          auto M = fock::matrix(J, sq);
          lin::jacobi(M, w2, v2);
          for(size_t k = 0; k < w.size(); ++k) if(!mc::near(w[k], w2[k], 1e-9)) mc::fail("eigenvalue %zu of %d + %d electrons moves from %.12g to %.12g", k, s1, s2, w[k], w2[k]);
          for(size_t i = 0; i < sq.size(); ++i) for(size_t j = 0; j < sq.size(); ++j) {
            const double x = H.gen.matrix_element(ham::det<N>(sq[i], n), ham::det<N>(sq[j], n));
            if(!mc::near(x, M(i, j), 1e-10)) mc::fail("<%s|H|%s> is %.12g after the rotation, the integrals give %.12g", det(sq[i], n).c_str(), det(sq[j], n).c_str(), x, M(i, j));
          }
        }
        lin::jacobi(fock::matrix(J, sp), w2, v2);
        if(w2.size() > 1 && w2[1] - w2[0] < 1e-6) return;
        mc::count("density matrices diagonalised");
        rdms(n, sp, v2[0], v2[0], D, G);
        for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) {
          if(p != q && std::abs(D[p + n * q]) > 1e-7) mc::fail("the density matrix is not diagonal after the rotation: (%d,%d) is %g", p, q, D[p + n * q]);
          if(p < q && D[p * (n + 1)] < D[q * (n + 1)] - 1e-7) mc::fail("occupations ascend: %g before %g", D[p * (n + 1)], D[q * (n + 1)]);
        }
      });
  });
}
void part1();
#if PART == 0
void mc_main() { all<64>(), part1(); }
#else
void part1() { all<128>(); }
#endif
