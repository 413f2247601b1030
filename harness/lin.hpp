// Small dense symmetric reference algebra.
#pragma once
#include "pre.hpp"
namespace lin {
struct Sym {
  int n;
  std::vector<double> a;  // row major
  explicit Sym(int n = 0) : n(n), a(size_t(n) * n, 0.) {}
  double& operator()(int i, int j) { return a[size_t(i) * n + j]; }
  double operator()(int i, int j) const { return a[size_t(i) * n + j]; }
};
// cyclic Jacobi: eigenvalues ascending, vectors v[k][i]
inline void jacobi(Sym A, std::vector<double>& w, std::vector<std::vector<double>>& v) {
  const int n = A.n;
  std::vector<std::vector<double>> V(n, std::vector<double>(n, 0.));
  for(int i = 0; i < n; ++i) V[i][i] = 1;
  for(int sweep = 0; sweep < 100; ++sweep) {
    double off = 0;
    for(int i = 0; i < n; ++i) for(int j = i + 1; j < n; ++j) off += A(i, j) * A(i, j);
    if(off < 1e-30) break;
    for(int p = 0; p < n; ++p)
      for(int q = p + 1; q < n; ++q) {
        if(std::abs(A(p, q)) < 1e-300) continue;
        double th = (A(q, q) - A(p, p)) / (2 * A(p, q));
        double t = (th >= 0 ? 1 : -1) / (std::abs(th) + std::sqrt(th * th + 1));
        double c = 1 / std::sqrt(t * t + 1), s = t * c;
        for(int k = 0; k < n; ++k) {
          double x = A(k, p), y = A(k, q);
          A(k, p) = c * x - s * y, A(k, q) = s * x + c * y;
        }
        for(int k = 0; k < n; ++k) {
          double x = A(p, k), y = A(q, k);
          A(p, k) = c * x - s * y, A(q, k) = s * x + c * y;
        }
        for(int k = 0; k < n; ++k) {
          double x = V[p][k], y = V[q][k];
          V[p][k] = c * x - s * y, V[q][k] = s * x + c * y;
        }
      }
  }
  std::vector<int> o(n);
  std::iota(o.begin(), o.end(), 0);
  std::sort(o.begin(), o.end(), [&](int i, int j) { return A(i, i) < A(j, j); });
  w.clear(), v.clear();
  for(int i : o) w.push_back(A(i, i)), v.push_back(V[i]);
}
inline std::string str(const Sym& A) {
  std::string s;
  for(int i = 0; i < A.n; ++i) {
    s += i ? "/" : "";
    for(int j = 0; j < A.n; ++j) s += mc::fmt("%s%g", j ? " " : "", A(i, j));
  }
  return s;
}
// all symmetric matrices with diagonal entries from d and off-diagonal ones from o
template <class F>
void all_sym(int n, const std::vector<double>& d, const std::vector<double>& o, const F& f) {
  const int no = n * (n - 1) / 2;
  size_t tot = 1;
  for(int i = 0; i < n; ++i) tot *= d.size();
  for(int i = 0; i < no; ++i) tot *= o.size();
  for(size_t c = 0; c < tot; ++c) {
    Sym A(n);
    size_t x = c;
    for(int i = 0; i < n; ++i) A(i, i) = d[x % d.size()], x /= d.size();
    for(int i = 0; i < n; ++i) for(int j = i + 1; j < n; ++j) A(i, j) = A(j, i) = o[x % o.size()], x /= o.size();
    f(A);
  }
}
}  // namespace lin
