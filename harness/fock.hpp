// Second-quantised reference: determinants are bit masks, alpha orbitals at bits 0..n-1, beta at bits n..2n-1; operators act in that order.
#pragma once
#include "lin.hpp"
namespace fock {
using vec = std::vector<double>;
using u64 = uint64_t;
struct Ints {
  int n = 0;
  vec T, V;  // T[p+n*q], V[p+n*(q+n*(r+n*s))] = (pq|rs)
  explicit Ints(int n = 0) : n(n), T(size_t(n) * n, 0.), V(size_t(n) * n * n * n, 0.) {}
  double& t(int p, int q) { return T[p + n * q]; }
  double& v(int p, int q, int r, int s) { return V[p + n * (q + n * (r + n * s))]; }
  double t(int p, int q) const { return T[p + n * q]; }
  double v(int p, int q, int r, int s) const { return V[p + n * (q + n * (r + n * s))]; }
  void set_t(int p, int q, double x) { t(p, q) = t(q, p) = x; }
  void set_v(int p, int q, int r, int s, double x) {
    v(p, q, r, s) = v(q, p, r, s) = v(p, q, s, r) = v(q, p, s, r) = x;
    v(r, s, p, q) = v(s, r, p, q) = v(r, s, q, p) = v(s, r, q, p) = x;
  }
};
// the distinct integrals under the usual symmetry
struct Label { int p, q, r, s; };  // r < 0: one-body
inline std::vector<Label> unique(int n) {
  std::vector<Label> L;
  for(int p = 0; p < n; ++p) for(int q = 0; q <= p; ++q) L.push_back({p, q, -1, -1});
  for(int p = 0; p < n; ++p) for(int q = 0; q <= p; ++q) for(int r = 0; r <= p; ++r) for(int s = 0; s <= (r == p ? q : r); ++s) L.push_back({p, q, r, s});
  return L;
}
inline void put(Ints& I, const Label& l, double x) { l.r < 0 ? I.set_t(l.p, l.q, x) : I.set_v(l.p, l.q, l.r, l.s, x); }
// Every linear form with half-integer coefficients |c| < 2^(b-2) in the integrals is decided by these sets: each set holds k = 48/b
// consecutive distinct integrals with the values 1, 2^b, 2^2b, ... and zero elsewhere.
inline std::vector<Ints> basis(int n, int b = 8) {
  std::vector<Ints> out;
  auto L = unique(n);
  const size_t k = 48 / b;
  for(size_t i = 0; i < L.size(); i += k) {
    Ints I(n);
    for(size_t j = i; j < std::min(L.size(), i + k); ++j) put(I, L[j], std::ldexp(1., b * int(j - i)));
    out.push_back(I);
  }
  return out;
}
// a generic set of integrals (fixed, no randomness)
inline Ints generic(int n, int kind = 0) {
  Ints I(n);
  int c = 3 + kind * 17;
  for(auto& l : unique(n)) {
    c = (c * 73 + 41) % 1009;
    double x = (c - 504) / 1009.;
    if(l.r < 0) x *= 2;
    else if(l.p == l.q && l.r == l.s) x = 0.3 + std::abs(x);
    else x *= 0.5;
    put(I, l, x);
  }
  return I;
}
// the same with integrals of very different size between the orbitals
inline Ints graded(int n, int kind = 0) {
  Ints I = generic(n, kind);
  int c = 5;
  for(auto& l : unique(n)) {
    ++c;
    if(l.r < 0 ? l.p == l.q : l.p == l.q && l.r == l.s) continue;
    put(I, l, std::pow(10., -(c * 7 % 10)) * (l.r < 0 ? c % 3 ? 0 : I.t(l.p, l.q) : I.v(l.p, l.q, l.r, l.s)));
  }
  return I;
}
inline Ints hubbard(int n, double t, double U, bool periodic) {
  Ints I(n);
  for(int i = 0; i + 1 < n; ++i) I.set_t(i, i + 1, -t);
  if(periodic && n > 2) I.set_t(0, n - 1, -t);
  for(int i = 0; i < n; ++i) I.set_v(i, i, i, i, U);
  return I;
}
inline int pc(u64 x) { return __builtin_popcountll(x); }
// operators: apply annihilation/creation of spin orbital o; returns the sign or 0
inline int ann(u64& d, int o) {
  if(!(d >> o & 1)) return 0;
  int s = pc(d & ((u64(1) << o) - 1)) & 1 ? -1 : 1;
  d &= ~(u64(1) << o);
  return s;
}
inline int cre(u64& d, int o) {
  if(d >> o & 1) return 0;
  int s = pc(d & ((u64(1) << o) - 1)) & 1 ? -1 : 1;
  d |= u64(1) << o;
  return s;
}
// sign of a+_p a_q |d>, and the determinant reached
inline int exc1(u64 d, int p, int q, u64& r) {
  r = d;
  int s = ann(r, q);
  return s ? s * cre(r, p) : 0;
}
// a+_p a+_r a_s a_q |d>
inline int exc2(u64 d, int p, int q, int r, int s, u64& out) {
  out = d;
  int g = ann(out, q);
  if(g) g *= ann(out, s);
  if(g) g *= cre(out, r);
  if(g) g *= cre(out, p);
  return g;
}
template <class F>
void one_body(int n, u64 d, const F& f) {  // f(p, q, sign, bra)
  u64 b;
  for(int s = 0; s < 2; ++s) for(int q = 0; q < n; ++q) if(d >> (q + s * n) & 1) for(int p = 0; p < n; ++p)
    if(int g = exc1(d, p + s * n, q + s * n, b)) f(p, q, g, b);
}
template <class F>
void two_body(int n, u64 d, const F& f) {  // f(p, q, r, s, sign, bra) for E = 1/2 sum (pq|rs)
  u64 b;
  for(int s1 = 0; s1 < 2; ++s1) for(int q = 0; q < n; ++q) if(d >> (q + s1 * n) & 1)
    for(int s2 = 0; s2 < 2; ++s2) for(int s = 0; s < n; ++s) if(d >> (s + s2 * n) & 1)
      for(int p = 0; p < n; ++p) for(int r = 0; r < n; ++r)
        if(int g = exc2(d, p + s1 * n, q + s1 * n, r + s2 * n, s + s2 * n, b)) f(p, q, r, s, g, b);
}
// H|d>
inline std::map<u64, double> column(const Ints& I, u64 d) {
  std::map<u64, double> c;
  one_body(I.n, d, [&](int p, int q, int g, u64 b) { c[b] += g * I.t(p, q); });
  two_body(I.n, d, [&](int p, int q, int r, int s, int g, u64 b) { c[b] += 0.5 * g * I.v(p, q, r, s); });
  return c;
}
inline std::vector<u64> strings(int n, int k) {
  std::vector<u64> v;
  for(u64 x = 0; x < (u64(1) << n); ++x) if(pc(x) == k) v.push_back(x);
  return v;
}
inline std::vector<u64> space(int n, int na, int nb) {  // ascending
  std::vector<u64> v;
  for(u64 b : strings(n, nb)) for(u64 a : strings(n, na)) v.push_back(b << n | a);
  return v;
}
inline lin::Sym matrix(const Ints& I, const std::vector<u64>& dets) {
  lin::Sym H(dets.size());
  std::map<u64, int> at;
  for(size_t i = 0; i < dets.size(); ++i) at[dets[i]] = i;
  for(size_t j = 0; j < dets.size(); ++j)
    for(auto& x : column(I, dets[j])) {
      auto it = at.find(x.first);
      if(it != at.end()) H(it->second, j) = x.second;
    }
  return H;
}
// density matrices of sum_i bra_i |d_i> and sum ket_i |d_i>: g(p,q) = <a+_p a_q>, G(p,q,r,s) = 1/2 <a+_p a+_r a_s a_q>
inline void rdms(int n, const std::vector<u64>& dets, const vec& bra, const vec& ket, vec& g, vec& G) {
  g.assign(size_t(n) * n, 0.), G.assign(size_t(n) * n * n * n, 0.);
  std::map<u64, double> c;
  for(size_t i = 0; i < dets.size(); ++i) c[dets[i]] += bra[i];
  for(size_t i = 0; i < dets.size(); ++i) {
    if(ket[i] == 0) continue;
    auto at = [&](u64 b) { auto it = c.find(b); return it == c.end() ? 0. : it->second; };
    one_body(n, dets[i], [&](int p, int q, int s, u64 b) { g[p + n * q] += s * at(b) * ket[i]; });
    two_body(n, dets[i], [&](int p, int q, int r, int s, int sg, u64 b) { G[p + n * (q + n * (r + n * s))] += 0.5 * sg * at(b) * ket[i]; });
  }
}
inline double energy(const Ints& I, const vec& g, const vec& G) {
  double e = 0;
  for(size_t i = 0; i < g.size(); ++i) e += g[i] * I.T[i];
  for(size_t i = 0; i < G.size(); ++i) e += G[i] * I.V[i];
  return e;
}
inline std::string det(u64 d, int n) {
  std::string s;
  for(int i = 0; i < n; ++i) s += "0ud2"[(d >> i & 1) | (d >> (i + n) & 1) << 1];
  return s;
}
}  // namespace fock
