// O02: orbital rotations, gradients and Hessian products.
#include "orb.hpp"
#include <macis/util/orbital_gradient.hpp>
#include <macis/util/orbital_hessian.hpp>
#include <macis/util/orbital_rotation_utilities.hpp>
#include <macis/util/orbital_steps.hpp>
// declared in no header
namespace macis {
void one_index_transformed_hamiltonian(NumOrbital norb, const double* T, size_t LDT, const double* V, size_t LDV, const double* X, size_t LDX, double* Tx, size_t LDTx, double* Vx, size_t LDVx);
}
using namespace orb;
using macis::NumActive; using macis::NumInactive; using macis::NumOrbital; using macis::NumVirtual;
namespace {
int extra(int pattern, int array) { return pattern == 0 ? 0 : pattern == 1 ? 1 + array % 2 : (array * 5 + pattern) % 4; }
vec mul(const vec& A, const vec& B, int n) {
  vec C(n * n, 0.);
  for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) for(int k = 0; k < n; ++k) C[i + n * j] += A[i + n * k] * B[k + n * j];
  return C;
}
// rotations between the three kinds of orbitals, in packed order
struct Rot { int a, i; };
std::vector<Rot> rotations(const Split& s) {
  std::vector<Rot> r;
  const int o = s.ni + s.na;
  for(int i = 0; i < s.ni; ++i) for(int a = o; a < s.n; ++a) r.push_back({a, i});
  for(int i = s.ni; i < o; ++i) for(int a = o; a < s.n; ++a) r.push_back({a, i});
  for(int i = 0; i < s.ni; ++i) for(int a = s.ni; a < o; ++a) r.push_back({a, i});
  return r;
}
vec unit(int n, int a, int i, double x = 1) {
  vec K(n * n, 0.);
  K[a + n * i] = x, K[i + n * a] = -x;
  return K;
}
vec unpack(const Split& s, const vec& k) {
  vec K(s.n * s.n, 0.);
  auto R = rotations(s);
  for(size_t x = 0; x < R.size(); ++x) K[R[x].a + s.n * R[x].i] = k[x], K[R[x].i + s.n * R[x].a] = -k[x];
  return K;
}
// first change of the integrals under the transformation 1 + e X on every index
Ints shift(const Ints& I, const vec& X) {
  const int n = I.n;
  Ints R(n);
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) {
    double x = 0;
    for(int o = 0; o < n; ++o) x += X[p + n * o] * I.t(o, q) + X[q + n * o] * I.t(p, o);
    R.t(p, q) = x;
  }
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) for(int r = 0; r < n; ++r) for(int s = 0; s < n; ++s) {
    double x = 0;
    for(int o = 0; o < n; ++o) x += X[p + n * o] * I.v(o, q, r, s) + X[q + n * o] * I.v(p, o, r, s) + X[r + n * o] * I.v(p, q, o, s) + X[s + n * o] * I.v(p, q, r, o);
    R.v(p, q, r, s) = x;
  }
  return R;
}
double wavy(int i) { return std::sin(1.3 * i + 0.4) + 0.1 * i; }
vec generic_anti(int n, int kind) {
  vec K(n * n, 0.);
  for(int i = 0; i < n; ++i) for(int a = i + 1; a < n; ++a) K[a + n * i] = 0.6 * std::sin(2.1 * a + 3.7 * i + kind), K[i + n * a] = -K[a + n * i];
  return K;
}
void rotation(int n, const vec& K, double al, int pat) {
  Pad Kp(K, n, 2, extra(pat, 0)), U(n, 2, extra(pat, 1), 5), W(n, 2, extra(pat, 2), 5);
  auto K0 = Kp.a;
  vec E = K;
  for(double& x : E) x *= -al;
  mc::executions(2);
  macis::compute_orbital_rotation(NumOrbital(n), al, Kp.data(), Kp.ld, U.data(), U.ld);
  macis::compute_orbital_rotation(NumOrbital(n), -al, Kp.data(), Kp.ld, W.data(), W.ld);
  auto u = U.get("rotation"), w = W.get("rotation");
  same(u, expm(E, n), 1e-11, "rotation");
  vec one(n * n, 0.), t(n * n);
  for(int i = 0; i < n; ++i) { one[i + n * i] = 1; for(int j = 0; j < n; ++j) t[i + n * j] = u[j + n * i]; }
  same(mul(u, w, n), one, 1e-12, "rotation times the opposite one");
  same(mul(t, u, n), one, 1e-12, "transposed rotation times the rotation");
  if(Kp.a != K0) mc::fail("the generator was changed");
}
struct State { Ints I; vec g, G; };
State state(const Split& s, int a, int b, int kind) {
  State S{generic(s.n, kind), {}, {}};
  auto sp = space(s.na, a, b);
  vec C = wave(sp.size(), kind);
  rdms(s.na, sp, C, C, S.g, S.G);
  return S;
}
vec gradient(const Split& s, const State& S) {  // all pairs, antisymmetric: derivative along K_ai = 1 of the energy in the orbitals exp(-K)
  vec g(s.n * s.n, 0.);
  for(int i = 0; i < s.n; ++i) for(int a = i + 1; a < s.n; ++a) {
    g[a + s.n * i] = orb::energy(shift(S.I, unit(s.n, a, i)), s, S.g, S.G);
    g[i + s.n * a] = -g[a + s.n * i];
  }
  return g;
}
double second(const Split& s, const State& S, const vec& X, const vec& Y) {
  return 0.5 * (orb::energy(shift(shift(S.I, X), Y), s, S.g, S.G) + orb::energy(shift(shift(S.I, Y), X), s, S.g, S.G));
}
const std::vector<Split> wide{{6, 2, 2}, {7, 2, 3}, {8, 3, 3}, {8, 1, 5}, {9, 4, 2}, {10, 5, 3}, {10, 0, 4}, {10, 8, 0}, {9, 2, 4}};
template <class F>
void states(int nmax, const F& f) {
  for(int n = 1; n <= nmax; ++n) for(auto& s : splits(n)) for(int a = 0; a <= s.na; ++a) for(int b = 0; b <= s.na; ++b) for(int kind = 0; kind < 2; ++kind)
    mc::test([&] { return mc::fmt("%d orbitals, %d inactive, %d active, %d+%d active electrons, integrals %d", n, s.ni, s.na, a, b, kind); }, [&] {
      if(rotations(s).size()) mc::nontrivial();
      f(s, state(s, a, b, kind));
    });
}
void one_index(int n, int x, int pat) {
        vec X(n * n, 0.);
        if(x < n * n) X[x] = 1; else for(int i = 0; i < n * n; ++i) X[i] = i * i - 3;
        const int n4 = n * n * n * n;
        for(int e = n > 3 ? n * n + n4 : 0; e <= n * n + n4; ++e) {
          Ints I(n);
          if(e < n * n) I.T[e] = 1; else if(e < n * n + n4) I.V[e - n * n] = 1;
          else { for(int i = 0; i < n * n; ++i) I.T[i] = 5 * i % 7 - 2; for(int i = 0; i < n4; ++i) I.V[i] = 5 * i % 11 - 2; }
          Pad T(I.T, n, 2, extra(pat, 0)), V(I.V, n, 4, extra(pat, 1)), Xp(X, n, 2, extra(pat, 2)), Tx(n, 2, extra(pat, 3), 9), Vx(n, 4, extra(pat, 4), 9);
          mc::executions(1);
          macis::one_index_transformed_hamiltonian(NumOrbital(n), T.data(), T.ld, V.data(), V.ld, Xp.data(), Xp.ld, Tx.data(), Tx.ld, Vx.data(), Vx.ld);
          auto W = shift(I, X);
          same(Tx.get("one-body part"), W.T, 0, "transformed one-body part");
          same(Vx.get("two-body part"), W.V, 0, "transformed two-body part");
        }
}
template <class F>
void larger(const F& f) {
  for(auto& s : wide) for(int kind = 0; kind < 2; ++kind)
    mc::test([&] { return mc::fmt("%d orbitals, %d inactive, %d active, integrals %d", s.n, s.ni, s.na, kind); }, [&] {
      mc::nontrivial();
      f(s, state(s, (s.na + 1) / 2, s.na / 2, kind));
    });
}
}  // namespace
void mc_main() {
  somp::set(somp::Config{});
  mc::suite("rotation", [] {
    for(int n = 1; n <= 4; ++n) {
      const int m = n * (n - 1) / 2;
      int tot = 1;
      for(int i = 0; i < m; ++i) tot *= 3;
      for(int c = 0; c < tot; ++c) for(double al : {1.0, -0.3, 2.5})
        mc::test([&] { return mc::fmt("%d orbitals, generator %d, scale %g", n, c, al); }, [&] {
          if(n > 1) mc::nontrivial();
          vec K(n * n, 0.);
          int x = c;
          for(int i = 0; i < n; ++i) for(int a = i + 1; a < n; ++a, x /= 3) K[a + n * i] = x % 3 - 1, K[i + n * a] = -K[a + n * i];
          for(int pat = 0; pat < 3; ++pat) rotation(n, K, al, pat);
        });
    }
    for(int n : {2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 30}) for(int kind = 0; kind < 4; ++kind) for(double al : {0., 1e-9, 1e-4, 0.01, 0.2, 1., 4., 25.})
      mc::test([&] { return mc::fmt("%d orbitals, generic generator %d, scale %g", n, kind, al); }, [&] {
        mc::nontrivial();
        for(int pat = 0; pat < 3; ++pat) rotation(n, generic_anti(n, kind), al, pat);
      });
  });
  mc::suite("packing", [] {
    std::vector<Split> all;
    for(int n = 1; n <= (mc::thorough ? 8 : 6); ++n) for(auto& s : splits(n)) all.push_back(s);
    all.insert(all.end(), {{12, 5, 3}, {13, 4, 0}, {17, 1, 9}, {18, 9, 8}, {20, 3, 3}, {21, 1, 1}, {24, 4, 19}, {40, 19, 18}});
    for(auto& s : all) for(int pat = 0; pat < 4; ++pat) {
      const int n = s.n;
      mc::test([&] { return mc::fmt("%d orbitals, %d inactive, %d active, padding %d", n, s.ni, s.na, pat); }, [&] {
        const auto R = rotations(s);
        const size_t z = R.size();
        if(z) mc::nontrivial();
        const NumInactive ni(s.ni); const NumActive na(s.na); const NumVirtual nv(s.nv()); const NumOrbital no(n);
        vec k(z + 1, GUARD);
        for(size_t x = 0; x < z; ++x) k[x] = 1.5 * x + 1;
        const vec lin(k.begin(), k.begin() + z);
        Pad K(n, 2, extra(pat, 0)), K3(n, 2, extra(pat, 1));
        mc::executions(6);
        macis::linear_orb_rot_to_matrix(ni, na, nv, k.data(), K.data(), K.ld);
        same(K.get("unpacked"), unpack(s, lin), 0, "unpacked rotation");
        vec vi(s.ni * s.nv() + 1, GUARD), va(s.na * s.nv() + 1, GUARD), ai(s.ni * s.na + 1, GUARD);
        std::copy_n(k.begin(), s.ni * s.nv(), vi.begin());
        std::copy_n(k.begin() + s.ni * s.nv(), s.na * s.nv(), va.begin());
        std::copy_n(k.begin() + s.ni * s.nv() + s.na * s.nv(), s.ni * s.na, ai.begin());
        macis::linear_orb_rot_to_matrix(ni, na, nv, vi.data(), va.data(), ai.data(), K3.data(), K3.ld);
        same(K3.get("unpacked"), unpack(s, lin), 0, "unpacked rotation in blocks");
        auto cat = [&] {
          if(vi.back() != GUARD || va.back() != GUARD || ai.back() != GUARD) mc::fail("written past the end of a block");
          vec r(vi.begin(), vi.end() - 1);
          r.insert(r.end(), va.begin(), va.end() - 1), r.insert(r.end(), ai.begin(), ai.end() - 1);
          return r;
        };
        // arbitrary matrices: packing and gradient of every unit matrix, and of a full one
        for(int e = 0; e <= n * n; ++e) {
          vec F(n * n, 0.), want, grad;
          if(e < n * n) F[e] = 1; else for(int x = 0; x < n * n; ++x) F[x] = wavy(x);
          for(auto& r : R) want.push_back(F[r.a + n * r.i]), grad.push_back(2 * (F[r.a + n * r.i] - F[r.i + n * r.a]));
          Pad P(F, n, 2, extra(pat, 2)), O(n, 2, extra(pat, 3));
          vec out(z + 1, GUARD);
          auto lout = [&] { if(out.back() != GUARD) mc::fail("written past the end"); return vec(out.begin(), out.end() - 1); };
          mc::executions(5);
          macis::matrix_to_linear_orb_rot(ni, na, nv, P.data(), P.ld, out.data());
          same(lout(), want, 0, "packed matrix");
          std::fill(out.begin(), out.end(), GUARD);
          macis::fock_to_linear_orb_grad(ni, na, nv, P.data(), P.ld, out.data());
          same(lout(), grad, 1e-14, "packed gradient");
          macis::matrix_to_linear_orb_rot(ni, na, nv, P.data(), P.ld, vi.data(), va.data(), ai.data());
          same(cat(), want, 0, "packed matrix in blocks");
          macis::fock_to_linear_orb_grad(ni, na, nv, P.data(), P.ld, vi.data(), va.data(), ai.data());
          same(cat(), grad, 1e-14, "packed gradient in blocks");
          macis::fock_to_gradient(no, ni, na, nv, P.data(), P.ld, O.data(), O.ld);
          same(O.get("gradient"), unpack(s, grad), 1e-14, "gradient matrix");
        }
      });
    }
  });
  mc::suite("one-index", [] {
    for(int n = 1; n <= 3; ++n) for(int x = 0; x <= n * n; ++x) for(int pat = 0; pat < 4; ++pat)
      mc::test([&] { return mc::fmt("%d orbitals, transformation %d, padding %d", n, x, pat); }, [&] {
        mc::nontrivial();
        one_index(n, x, pat);
      });
    for(int n : {4, 5, 9, 12, 18}) for(int pat = 0; pat < 4; ++pat)
      mc::test([&] { return mc::fmt("%d orbitals, full, padding %d", n, pat); }, [&] {
        mc::nontrivial();
        one_index(n, n * n, pat);
      });
  });
  mc::suite("rotated", [] {
    auto f = [](const Split& s, const State& S) {
      const int n = s.n;
      const NumOrbital no(n); const NumInactive ni(s.ni); const NumActive na(s.na); const NumVirtual nv(s.nv());
      for(int pat = 0; pat < 4; ++pat) for(int kind = 0; kind < 3; ++kind) {
        vec U = expm(kind ? generic_anti(n, kind) : vec(n * n, 0.), n);
        if(kind == 2) for(int i = 0; i < n * n; ++i) U[i] += 0.2 * wavy(i);  // not orthogonal
        Pad T(S.I.T, n, 2, extra(pat, 0)), V(S.I.V, n, 4, extra(pat, 1)), D1(S.g, s.na, 2, extra(pat, 2)), D2(S.G, s.na, 4, extra(pat, 3)), Up(U, n, 2, extra(pat, 4));
        Pad Tt(n, 2, extra(pat, 5), 3), Vt(n, 4, extra(pat, 6), 3), F(n, 2, extra(pat, 7), 3);
        State R{rotate(S.I, U), S.g, S.G};
        const double e = orb::energy(R.I, s, S.g, S.G);
        auto T0 = T.a, V0 = V.a, U0 = Up.a, A0 = D1.a, B0 = D2.a;
        mc::executions(3);
        same({macis::orbital_rotated_energy(no, ni, na, T.data(), T.ld, V.data(), V.ld, D1.data(), D1.ld, D2.data(), D2.ld, Up.data(), Up.ld)}, {e}, 1e-10, "rotated energy");
        same({macis::orbital_rotated_energy(no, ni, na, T.data(), T.ld, V.data(), V.ld, D1.data(), D1.ld, D2.data(), D2.ld, Up.data(), Up.ld, Tt.data(), Tt.ld, Vt.data(), Vt.ld, F.data(), F.ld)}, {e}, 1e-10, "rotated energy");
        auto check = [&] {
          same(Tt.get("rotated integrals"), R.I.T, 1e-10, "rotated one-body integrals");
          same(Vt.get("rotated integrals"), R.I.V, 1e-10, "rotated two-body integrals");
          auto g = gradient(s, R);
          auto f = F.get("Fock matrix");
          for(auto& r : rotations(s)) same({2 * (f[r.a + n * r.i] - f[r.i + n * r.a])}, {g[r.a + n * r.i]}, 1e-9, "gradient of the rotated Fock matrix");
          vec lin(rotations(s).size());
          macis::fock_to_linear_orb_grad(ni, na, nv, F.data(), F.ld, lin.data());
          size_t x = 0;
          for(auto& r : rotations(s)) same({lin[x++]}, {g[r.a + n * r.i]}, 1e-9, "gradient");
        };
        check();
        Tt = Pad(n, 2, extra(pat, 8), 4), Vt = Pad(n, 4, extra(pat, 9), 4), F = Pad(n, 2, extra(pat, 10), 4);
        macis::orbital_rotated_generalized_fock(no, ni, na, T.data(), T.ld, V.data(), V.ld, D1.data(), D1.ld, D2.data(), D2.ld, Up.data(), Up.ld, Tt.data(), Tt.ld, Vt.data(), Vt.ld, F.data(), F.ld);
        check();
        if(T.a != T0 || V.a != V0 || Up.a != U0 || D1.a != A0 || D2.a != B0) mc::fail("an input was changed");
      }
    };
    states(mc::thorough ? 5 : 4, f);
    larger(f);
  });
  mc::suite("numerical", [] {
    states(mc::thorough ? 4 : 3, [](const Split& s, const State& S) {
      const int n = s.n;
      const NumOrbital no(n); const NumInactive ni(s.ni); const NumActive na(s.na);
      for(int pat = 0; pat < 3; ++pat) {
        Pad T(S.I.T, n, 2, extra(pat, 0)), V(S.I.V, n, 4, extra(pat, 1)), D1(S.g, s.na, 2, extra(pat, 2)), D2(S.G, s.na, 4, extra(pat, 3));
        Pad G(n, 2, extra(pat, 5)), H(n, 4, extra(pat, 4));
        mc::executions(2);
        macis::numerical_orbital_gradient(no, ni, na, T.data(), T.ld, V.data(), V.ld, D1.data(), D1.ld, D2.data(), D2.ld, G.data(), G.ld);
        auto want = gradient(s, S), got = G.get("numerical gradient");
        for(int i = 0; i < n; ++i) for(int a = i + 1; a < n; ++a)
          if(!mc::near(got[a + n * i], want[a + n * i], 1e-7)) mc::fail("numerical gradient of rotation (%d,%d) is %.12g, expected %.12g", a, i, got[a + n * i], want[a + n * i]);
        if(n > 3 && pat) continue;
        macis::numerical_orbital_hessian(no, ni, na, T.data(), T.ld, V.data(), V.ld, D1.data(), D1.ld, D2.data(), D2.ld, H.data(), H.ld);
        auto h = H.get("numerical Hessian");
        for(int i = 0; i < n; ++i) for(int a = i + 1; a < n; ++a) for(int j = 0; j < n; ++j) for(int b = j + 1; b < n; ++b) {
          const double x = h[a + n * (i + n * (b + n * j))], y = second(s, S, unit(n, a, i), unit(n, b, j));
          if(!mc::near(x, y, 1e-6)) mc::fail("numerical Hessian of rotations (%d,%d) and (%d,%d) is %.12g, expected %.12g", a, i, b, j, x, y);
        }
      }
    });
  });
  mc::suite("hessian", [] {
    auto f = [](const Split& s, const State& S) {
      const int n = s.n;
      const NumOrbital no(n); const NumInactive ni(s.ni); const NumActive na(s.na); const NumVirtual nv(s.nv());
      const auto R = rotations(s);
      const size_t z = R.size();
      const vec full = gradient(s, S);
      vec g, other;
      for(auto& r : R) g.push_back(full[r.a + n * r.i]), other.push_back(wavy(other.size()));
      const vec Gn = unpack(s, g);
      vec rest = full;  // gradient among orbitals of one kind; it vanishes for a stationary state
      for(int i = 0; i < n * n; ++i) rest[i] -= Gn[i];
      // half the commutator of an antisymmetric matrix with the generator
      auto comm = [&](const vec& A, const vec& K, const Rot& r) {
        auto P = mul(A, K, n), Q = mul(K, A, n);
        return 0.5 * (P[r.a + n * r.i] - Q[r.a + n * r.i]);
      };
      for(int pat = 0; pat < 4; ++pat) {
        Pad T(S.I.T, n, 2, extra(pat, 0)), V(S.I.V, n, 4, extra(pat, 1)), D1(S.g, s.na, 2, extra(pat, 2)), D2(S.G, s.na, 4, extra(pat, 3));
        for(size_t x = 0; x <= z; ++x) {
          if(s.n > 5 && x < z && (x + pat) % 11) continue;
          if(pat && x < z && x % 3 != size_t(pat) - 1) continue;
          vec k(z, 0.);
          if(x < z) k[x] = 1; else for(size_t y = 0; y < z; ++y) k[y] = wavy(y + 3);
          const vec K = unpack(s, k), dG = unpack(s, other);
          for(int w = 0; w < 2; ++w) {
            vec hk(z + 1, GUARD), k1 = k, g1 = w ? other : g;
            mc::executions(1);
            macis::orb_orb_hessian_contract(no, ni, na, nv, T.data(), T.ld, V.data(), V.ld, D1.data(), D1.ld, D2.data(), D2.ld, g1.data(), k1.data(), hk.data());
            if(hk[z] != GUARD) mc::fail("written past the end");
            for(size_t y = 0; y < z; ++y) {
              double want = second(s, S, unit(n, R[y].a, R[y].i), K) - comm(rest, K, R[y]);
              if(w) want += comm(dG, K, R[y]) - comm(Gn, K, R[y]);
              if(!mc::near(hk[y], want, 1e-9)) mc::fail("element %zu of the Hessian product with rotation %zu is %.12g, expected %.12g", y, x, hk[y], want);
            }
          }
        }
        // diagonal approximation and the step
        Pad Fi(n, 2, extra(pat, 4)), Fa(n, 2, extra(pat, 5)), F(n, 2, extra(pat, 6));
        macis::inactive_fock_matrix(no, ni, T.data(), T.ld, V.data(), V.ld, Fi.data(), Fi.ld);
        macis::active_fock_matrix(no, ni, na, V.data(), V.ld, D1.data(), D1.ld, Fa.data(), Fa.ld);
        macis::generalized_fock_matrix_comp_mat2(no, ni, na, T.data(), T.ld, V.data(), V.ld, D1.data(), D1.ld, D2.data(), D2.ld, F.data(), F.ld);
        const vec fi = Fi.get(""), fa = Fa.get(""), f = F.get("");
        vec want;
        for(auto& r : R) {
          auto ff = [&](int p) { return fi[p + n * p] + fa[p + n * p]; };
          auto act = [&](int p) { return p >= s.ni && p < s.ni + s.na; };
          auto gam = [&](int p) { return S.g[(p - s.ni) * (s.na + 1)]; };
          if(act(r.i)) want.push_back(2 * gam(r.i) * ff(r.a) - 2 * f[r.i + n * r.i]);
          else if(act(r.a)) want.push_back(2 * gam(r.a) * ff(r.i) + 4 * (ff(r.a) - ff(r.i)) - 2 * f[r.a + n * r.a]);
          else want.push_back(4 * (ff(r.a) - ff(r.i)));
        }
        auto cut = [&](vec v) { if(v.back() != GUARD) mc::fail("written past the end"); v.pop_back(); return v; };
        vec h1(z + 1, GUARD), h2 = h1, h3 = h1, st = h1, st1;
        mc::executions(4);
        macis::approx_diag_hessian(ni, na, nv, Fi.data(), Fi.ld, Fa.data(), Fa.ld, D1.data(), D1.ld, F.data(), F.ld, h1.data());
        same(cut(h1), want, 1e-10, "approximate diagonal");
        macis::approx_diag_hessian(no, ni, na, nv, T.data(), T.ld, V.data(), V.ld, D1.data(), D1.ld, D2.data(), D2.ld, h2.data());
        same(cut(h2), want, 1e-10, "approximate diagonal from integrals");
        macis::approx_diag_hessian(ni, na, nv, Fi.data(), Fi.ld, Fa.data(), Fa.ld, D1.data(), D1.ld, F.data(), F.ld, h3.data(), h3.data() + s.nv() * s.ni, h3.data() + s.nv() * (s.ni + s.na));
        same(cut(h3), want, 1e-10, "approximate diagonal in blocks");
        macis::precond_cg_orbital_step(no, ni, na, nv, Fi.data(), Fi.ld, Fa.data(), Fa.ld, F.data(), F.ld, D1.data(), D1.ld, other.data(), st.data());
        for(size_t x = 0; x < z; ++x) st1.push_back(-other[x] / h1[x]);
        st = cut(st);
        for(size_t x = 0; x < z; ++x) if(std::abs(want[x]) > 1e-8 && !mc::near(st[x], st1[x], 1e-10)) mc::fail("element %zu of the preconditioned step is %.12g, expected %.12g", x, st[x], st1[x]);
      }
    };
    states(mc::thorough ? 5 : 4, f);
    larger(f);
  });
}
