// O01: Fock matrices and energies.
#include "orb.hpp"
#include <array>
#include <macis/util/fock_matrices.hpp>
#include <macis/util/orbital_energies.hpp>
using namespace orb;
using macis::NumActive; using macis::NumInactive; using macis::NumOrbital; using macis::NumVirtual;
namespace {
// leading dimensions beyond the size, differing between arrays in the last patterns
int extra(int pattern, int array) { return pattern == 0 ? 0 : pattern == 1 ? 1 + array % 2 : (array * 5 + pattern) % 4; }
vec inactive(const Ints& I, int ni) {
  vec F(I.n * I.n);
  for(int p = 0; p < I.n; ++p) for(int q = 0; q < I.n; ++q) {
    double x = I.t(p, q);
    for(int i = 0; i < ni; ++i) x += 2 * I.v(p, q, i, i) - I.v(p, i, i, q);
    F[p + I.n * q] = x;
  }
  return F;
}
vec active(const Ints& I, const Split& s, const vec& g) {
  vec F(I.n * I.n);
  for(int p = 0; p < I.n; ++p) for(int q = 0; q < I.n; ++q) for(int v = 0; v < s.na; ++v) for(int w = 0; w < s.na; ++w)
    F[p + I.n * q] += g[v + s.na * w] * (I.v(p, q, v + s.ni, w + s.ni) - 0.5 * I.v(p, v + s.ni, w + s.ni, q));
  return F;
}
vec qmatrix(const Ints& I, const Split& s, const vec& G) {
  vec Q(s.na * I.n);
  const int na = s.na, o = s.ni;
  for(int v = 0; v < na; ++v) for(int p = 0; p < I.n; ++p) for(int w = 0; w < na; ++w) for(int x = 0; x < na; ++x) for(int y = 0; y < na; ++y)
    Q[v + na * p] += 2 * G[v + na * (w + na * (x + na * y))] * I.v(p, w + o, x + o, y + o);
  return Q;
}
vec general(const Split& s, const vec& Fi, const vec& Fa, const vec& g, const vec& Q) {
  const int n = s.n;
  vec F(n * n);
  for(int p = 0; p < n; ++p) {
    for(int i = 0; i < s.ni; ++i) F[i + n * p] = 2 * (Fi[p + n * i] + Fa[p + n * i]);
    for(int v = 0; v < s.na; ++v) {
      double x = Q[v + s.na * p];
      for(int w = 0; w < s.na; ++w) x += g[v + s.na * w] * Fi[p + n * (w + s.ni)];
      F[v + s.ni + n * p] = x;
    }
  }
  return F;
}
// every routine on one set of integrals and density matrices
void all(const Ints& I, const Split& s, const vec& g, const vec& G, int pat, double tol) {
  const NumOrbital no(I.n);
  const NumInactive ni(s.ni);
  const NumActive na(s.na);
  const int n = I.n;
  Pad T(I.T, n, 2, extra(pat, 0)), V(I.V, n, 4, extra(pat, 1)), Fi(n, 2, extra(pat, 2), 99), Fa(n, 2, extra(pat, 3), 98), F(n, 2, extra(pat, 4), 97), F1(n, 2, extra(pat, 5), 96), F2(n, 2, extra(pat, 6), 95);
  Pad D1(g, s.na, 2, extra(pat, 7)), D2(G, s.na, 4, extra(pat, 8)), Ta(s.na, 2, extra(pat, 9), 94), Va(s.na, 4, extra(pat, 10), 93), Fi2(n, 2, extra(pat, 11), 92);
  Rect Q(s.na, n, extra(pat, 12), 91);
  auto T0 = T.a, V0 = V.a, D10 = D1.a, D20 = D2.a;
  mc::executions(9);
  macis::inactive_fock_matrix(no, ni, T.data(), T.ld, V.data(), V.ld, Fi.data(), Fi.ld);
  const vec fi = inactive(I, s.ni);
  same(Fi.get("inactive Fock matrix"), fi, tol, "inactive Fock matrix");
  double ei = 0;
  for(int i = 0; i < s.ni; ++i) ei += I.t(i, i) + fi[i + n * i];
  same({macis::inactive_energy(ni, T.data(), T.ld, Fi.data(), Fi.ld)}, {ei}, tol, "inactive energy");
  macis::active_hamiltonian(no, na, ni, T.data(), T.ld, V.data(), V.ld, Fi2.data(), Fi2.ld, Ta.data(), Ta.ld, Va.data(), Va.ld);
  same(Fi2.get("inactive Fock matrix"), fi, tol, "inactive Fock matrix with the active Hamiltonian");
  vec ta, va;
  for(int y = 0; y < s.na; ++y) for(int x = 0; x < s.na; ++x) ta.push_back(fi[x + s.ni + n * (y + s.ni)]);
  for(int w = 0; w < s.na; ++w) for(int z = 0; z < s.na; ++z) for(int y = 0; y < s.na; ++y) for(int x = 0; x < s.na; ++x) va.push_back(I.v(x + s.ni, y + s.ni, z + s.ni, w + s.ni));
  same(Ta.get("active one-body part"), ta, tol, "active one-body part");
  same(Va.get("active two-body part"), va, tol, "active two-body part");
  macis::active_fock_matrix(no, ni, na, V.data(), V.ld, D1.data(), D1.ld, Fa.data(), Fa.ld);
  const vec fa = active(I, s, g);
  same(Fa.get("active Fock matrix"), fa, tol, "active Fock matrix");
  macis::aux_q_matrix(na, no, ni, V.data(), V.ld, D2.data(), D2.ld, Q.data(), Q.ld);
  const vec q = qmatrix(I, s, G);
  same(Q.get("Q matrix"), q, tol, "Q matrix");
  macis::generalized_fock_matrix(no, ni, na, Fi.data(), Fi.ld, Fa.data(), Fa.ld, D1.data(), D1.ld, Q.data(), Q.ld, F.data(), F.ld);
  const vec f = general(s, fi, fa, g, q);
  same(F.get("generalized Fock matrix"), f, tol, "generalized Fock matrix");
  macis::generalized_fock_matrix_comp_mat1(no, ni, na, Fi.data(), Fi.ld, V.data(), V.ld, D1.data(), D1.ld, D2.data(), D2.ld, F1.data(), F1.ld);
  same(F1.get("generalized Fock matrix (1)"), f, tol, "generalized Fock matrix from the inactive one");
  macis::generalized_fock_matrix_comp_mat2(no, ni, na, T.data(), T.ld, V.data(), V.ld, D1.data(), D1.ld, D2.data(), D2.ld, F2.data(), F2.ld);
  same(F2.get("generalized Fock matrix (2)"), f, tol, "generalized Fock matrix from integrals");
  same({macis::energy_from_generalized_fock(ni, na, T.data(), T.ld, D1.data(), D1.ld, F.data(), F.ld)}, {energy(I, s, g, G)}, tol, "energy of the generalized Fock matrix");
  vec eps(n + 1, GUARD), want;
  macis::canonical_orbital_energies(no, ni, T.data(), T.ld, V.data(), V.ld, eps.data());
  for(int p = 0; p < n; ++p) want.push_back(fi[p + n * p]);
  if(eps[n] != GUARD) mc::fail("orbital energies: written past the end");
  eps.pop_back();
  same(eps, want, tol, "orbital energies");
  if(T.a != T0 || V.a != V0 || D1.a != D10 || D2.a != D20) mc::fail("an input was changed");
}
// symmetric one-body and (pq)(rs) / bra-ket symmetric two-body density elements
vec one(int n, int p, int q) {
  vec g(n * n, 0.);
  if(n) g[p + n * q] = g[q + n * p] = 1;
  return g;
}
vec two(int n, int p, int q, int r, int s) {
  vec G(n * n * n * n, 0.);
  auto at = [&](int a, int b, int c, int d) -> double& { return G[a + n * (b + n * (c + n * d))]; };
  if(n) at(p, q, r, s) = at(r, s, p, q) = at(q, p, s, r) = at(s, r, q, p) = 1;
  return G;
}
vec fill(int n, int kind) {  // small integers with the symmetry of a density matrix
  vec g(n * n);
  for(int p = 0; p < n; ++p) for(int q = 0; q <= p; ++q) g[p + n * q] = g[q + n * p] = (p * 5 + q * 3 + p * q + kind) % 7 - 3;
  return g;
}
vec fill2(int n, int kind) {
  vec G(n * n * n * n);
  int c = kind;
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) for(int r = 0; r < n; ++r) for(int s = 0; s < n; ++s) {
    c = (c * 73 + 41) % 1009;
    for(auto x : {std::array{p, q, r, s}, {r, s, p, q}, {q, p, s, r}, {s, r, q, p}}) G[x[0] + n * (x[1] + n * (x[2] + n * x[3]))] = c % 7 - 3;
  }
  return G;
}
}  // namespace
void mc_main() {
  somp::set(somp::Config{});
  mc::suite("larger", [] {
    for(auto s : {Split{7, 2, 3}, Split{8, 0, 8}, Split{8, 5, 1}, Split{9, 4, 4}, Split{10, 6, 2}, Split{10, 1, 9}, Split{12, 0, 5}, Split{12, 9, 3}, Split{13, 1, 10}, Split{16, 9, 4}, Split{17, 3, 6}, Split{17, 16, 0}})
      for(int pat = 0; pat < 4; ++pat) for(int kind = 0; kind < 2; ++kind)
        mc::test([&] { return mc::fmt("%d orbitals, %d inactive, %d active, padding %d, integrals %d", s.n, s.ni, s.na, pat, kind); }, [&] {
          if(s.na) mc::nontrivial();
          all(generic(s.n, kind), s, fill(s.na, kind), fill2(s.na, kind), pat, 1e-10);
        });
    // more than sixteen orbitals of each kind
    for(auto s : {Split{19, 18, 1}, Split{20, 1, 18}, Split{35, 33, 1}, Split{36, 2, 3}})
      mc::test([&] { return mc::fmt("%d orbitals, %d inactive, %d active", s.n, s.ni, s.na); }, [&] {
        mc::nontrivial();
        all(generic(s.n, s.n % 2), s, fill(s.na, s.n % 2), fill2(s.na, s.n % 2), s.n % 4, 1e-10);
      });
  });
  // bilinear in (integrals; 1, one-body, two-body density): all pairs of basis elements
  mc::suite("basis", [] {
    for(int n = 1; n <= (mc::thorough ? 5 : 4); ++n) for(auto& s : splits(n)) for(int pat = 0; pat < 4; ++pat) {
      const int B = basis(n).size();
      for(int b = 0; b < B; ++b)
        mc::test([&] { return mc::fmt("%d orbitals, %d inactive, %d active, padding %d, integral set %d", n, s.ni, s.na, pat, b); }, [&] {
          if(s.na) mc::nontrivial();
          const Ints I = basis(n)[b];
          const int na = s.na;
          all(I, s, vec(na * na, 0.), vec(na * na * na * na, 0.), pat, 0);
          int c = 0;
          for(int p = 0; p < na; ++p) for(int q = 0; q <= p; ++q) all(I, s, one(na, p, q), vec(na * na * na * na, 0.), pat, 0);
          for(int p = 0; p < na; ++p) for(int q = 0; q < na; ++q) for(int r = 0; r < na; ++r) for(int t = 0; t < na; ++t, ++c)
            if((mc::thorough || n < 4 || c % 4 == pat) && std::make_pair(p, q) <= std::make_pair(r, t)) all(I, s, vec(na * na, 0.), two(na, p, q, r, t), pat, 0);
        });
    }
  });
  // frozen-core states: energies, and the Hamiltonian between determinants
  mc::suite("states", [] {
    for(int n = 1; n <= (mc::thorough ? 6 : 5); ++n) for(auto& s : splits(n)) for(int a = 0; a <= s.na; ++a) for(int b = 0; b <= s.na; ++b) for(int kind = 0; kind < 2; ++kind)
      mc::test([&] { return mc::fmt("%d orbitals, %d inactive, %d active, %d+%d active electrons, integrals %d", n, s.ni, s.na, a, b, kind); }, [&] {
        if(s.na && s.ni) mc::nontrivial();
        const Ints I = generic(n, kind);
        auto sp = space(s.na, a, b);
        std::vector<u64> full;
        for(u64 d : sp) full.push_back(embed(d, s));
        vec C = wave(sp.size(), kind), g, G, gf, Gf;
        rdms(s.na, sp, C, C, g, G);
        rdms(n, full, C, C, gf, Gf);
        const double e = fock::energy(I, gf, Gf);
        if(!mc::near(e, energy(I, s, g, G), 1e-10)) mc::fail("oracle: %.15g and %.15g", e, energy(I, s, g, G));
        for(int pat = 0; pat < 4; ++pat) all(I, s, g, G, pat, 1e-10);
        // matrix elements
        if(sp.size() > 40 || !s.na) return;
        Pad T(I.T, n, 2, 0), V(I.V, n, 4, 0), F(n, 2, 0);
        Ints A(s.na);
        macis::active_hamiltonian(NumOrbital(n), NumActive(s.na), NumInactive(s.ni), T.data(), n, V.data(), n, F.data(), n, A.T.data(), s.na, A.V.data(), s.na);
        const double ei = macis::inactive_energy(NumInactive(s.ni), T.data(), n, F.data(), n);
        auto H = matrix(I, full), K = matrix(A, sp);
        for(int i = 0; i < H.n; ++i) K(i, i) += ei;
        for(int i = 0; i < H.n; ++i) for(int j = 0; j < H.n; ++j)
          if(!mc::near(H(i, j), K(i, j), 1e-10)) mc::fail("element %s, %s of the active Hamiltonian is %.12g, of the full one %.12g", det(sp[i], s.na).c_str(), det(sp[j], s.na).c_str(), K(i, j), H(i, j));
      });
  });
}
