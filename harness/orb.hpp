// Padded arrays and rotated integrals for the orbital checks.
#pragma once
#include "fock.hpp"
#include <macis/types.hpp>
namespace orb {
using namespace fock;
constexpr double GUARD = -7.0e77;
// square array of the given rank (2 or 4) with a leading dimension; the rest of the storage must stay as it is
struct Pad {
  int n, ld, rank, rows;
  vec a;
  Pad(int n, int rank, int extra, double fill = 0) : n(n), ld(std::max(1, n + extra)), rank(rank), rows(n), a(size(), GUARD) { each([&](int, size_t at) { a[at] = fill; }); }
  Pad(const vec& x, int n, int rank, int extra) : Pad(n, rank, extra) { each([&](int i, size_t at) { a[at] = x[i]; }); }
  size_t size() const { size_t s = 1; for(int i = 0; i < rank; ++i) s *= ld; return s; }
  double* data() { return a.data(); }
  template <class F> void each(const F& f) const {
    size_t tot = 1;
    for(int i = 0; i < rank; ++i) tot *= n;
    for(size_t k = 0; k < tot; ++k) {
      size_t x = k, at = 0, s = 1;
      for(int i = 0; i < rank; ++i, x /= n, s *= ld) at += x % n * s;
      f(k, at);
    }
  }
  vec get(const char* what) const {  // the contents; the padding is unchanged
    vec x;
    std::vector<char> in(a.size(), 0);
    each([&](int, size_t at) { x.push_back(a[at]), in[at] = 1; });
    for(size_t i = 0; i < a.size(); ++i) if(!in[i] && a[i] != GUARD) mc::fail("%s: the padding of an array with leading dimension %d for %d was written", what, ld, n);
    return x;
  }
};
// rectangular m x n
struct Rect {
  int m, n, ld;
  vec a;
  Rect(int m, int n, int extra, double fill = 0) : m(m), n(n), ld(std::max(1, m + extra)), a(size_t(ld) * n + 1, GUARD) { for(int j = 0; j < n; ++j) for(int i = 0; i < m; ++i) a[i + size_t(ld) * j] = fill; }
  double* data() { return a.data(); }
  vec get(const char* what) const {
    vec x;
    for(int j = 0; j < n; ++j) for(int i = 0; i < ld; ++i)
      if(i < m) x.push_back(a[i + size_t(ld) * j]);
      else if(a[i + size_t(ld) * j] != GUARD) mc::fail("%s: the padding was written", what);
    if(a.back() != GUARD) mc::fail("%s: written past the end", what);
    return x;
  }
};
inline void same(const vec& got, const vec& want, double tol, const char* what) {
  if(got.size() != want.size()) mc::fail("%s: %zu values, expected %zu", what, got.size(), want.size());
  for(size_t i = 0; i < got.size(); ++i)
    if(tol == 0 ? got[i] != want[i] : !mc::near(got[i], want[i], tol)) mc::fail("%s: value %zu is %.17g, expected %.17g", what, i, got[i], want[i]);
}
struct Split { int n, ni, na; int nv() const { return n - ni - na; } };
inline std::vector<Split> splits(int n) {
  std::vector<Split> s;
  for(int i = 0; i <= n; ++i) for(int a = 0; a + i <= n; ++a) s.push_back({n, i, a});
  return s;
}
// Xt(p,q) = sum X(a,p) X(b,q) T(a,b) etc.
inline Ints rotate(const Ints& I, const vec& U) {
  const int n = I.n;
  Ints R(n);
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) {
    double x = 0;
    for(int a = 0; a < n; ++a) for(int b = 0; b < n; ++b) x += U[a + n * p] * U[b + n * q] * I.t(a, b);
    R.t(p, q) = x;
  }
  vec A = I.V, B(A.size());
  for(int k = 0; k < 4; ++k) {  // transform the first index and cycle
    std::fill(B.begin(), B.end(), 0.);
    const int n3 = n * n * n;
    for(int r = 0; r < n3; ++r) for(int p = 0; p < n; ++p) {
      double x = 0;
      for(int a = 0; a < n; ++a) x += U[a + n * p] * A[a + n * r];
      B[r + n3 * p] = x;
    }
    A = B;
  }
  R.V = A;
  return R;
}
// exp of a small matrix by scaling and squaring
inline vec expm(const vec& A, int n) {
  double nn = 0;
  for(double x : A) nn += std::abs(x);
  int s = 0;
  while(nn > 0.25) nn /= 2, ++s;
  vec B = A, E(n * n, 0.), P(n * n, 0.);
  for(double& x : B) x = std::ldexp(x, -s);
  auto mul = [&](const vec& X, const vec& Y) { vec Z(n * n, 0.); for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) for(int k = 0; k < n; ++k) Z[i + n * j] += X[i + n * k] * Y[k + n * j]; return Z; };
  for(int i = 0; i < n; ++i) E[i + n * i] = P[i + n * i] = 1;
  for(int k = 1; k < 25; ++k) {
    P = mul(P, B);
    for(double& x : P) x /= k;
    for(int i = 0; i < n * n; ++i) E[i] += P[i];
  }
  for(; s > 0; --s) E = mul(E, E);
  return E;
}
// density matrices of the frozen core with the given active ones: as energies of the full system
inline double energy(const Ints& I, const Split& s, const vec& g, const vec& G) {
  // E = 2 sum T_ii + 2 (ii|jj) - (ij|ji) + sum g (T + 2 (vw|ii) - (vi|iw)) + sum G (vw|xy)
  double e = 0;
  for(int i = 0; i < s.ni; ++i) {
    e += 2 * I.t(i, i);
    for(int j = 0; j < s.ni; ++j) e += 2 * I.v(i, i, j, j) - I.v(i, j, j, i);
  }
  const int na = s.na, o = s.ni;
  for(int v = 0; v < na; ++v) for(int w = 0; w < na; ++w) {
    double f = I.t(v + o, w + o);
    for(int i = 0; i < s.ni; ++i) f += 2 * I.v(v + o, w + o, i, i) - I.v(v + o, i, i, w + o);
    e += g[v + na * w] * f;
    for(int x = 0; x < na; ++x) for(int y = 0; y < na; ++y) e += G[v + na * (w + na * (x + na * y))] * I.v(v + o, w + o, x + o, y + o);
  }
  return e;
}
inline u64 embed(u64 d, const Split& s) {  // active determinant to the full space with a doubly occupied core
  const u64 m = (u64(1) << s.na) - 1, c = (u64(1) << s.ni) - 1;
  return (c | (d & m) << s.ni) | (c | (d >> s.na & m) << s.ni) << s.n;
}
inline vec wave(size_t n, int kind) {
  vec C(n);
  double s = 0;
  for(size_t i = 0; i < n; ++i) C[i] = std::sin(1.7 * i + 0.6 + kind) + 0.3 / (1 + i), s += C[i] * C[i];
  for(double& x : C) x /= std::sqrt(s);
  return C;
}
}  // namespace orb
