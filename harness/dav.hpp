#pragma once
#include "lin.hpp"
#include <chrono>
#include <macis/solvers/davidson.hpp>
#include <sparsexx/util/submatrix.hpp>
inline void quiet() {
  if(!spdlog::get("davidson")) spdlog::null_logger_mt("davidson");
}
inline sparsexx::csr_matrix<double, int32_t> to_csr(const lin::Sym& A, int base = 0) {
  int nnz = 0;
  for(double x : A.a) nnz += x != 0;
  sparsexx::csr_matrix<double, int32_t> M(A.n, A.n, nnz, base);
  int k = 0;
  M.rowptr()[0] = base;
  for(int i = 0; i < A.n; ++i) {
    for(int j = 0; j < A.n; ++j)
      if(A(i, j) != 0) M.colind()[k] = j + base, M.nzval()[k++] = A(i, j);
    M.rowptr()[i + 1] = k + base;
  }
  return M;
}
struct DenseOp {
  const lin::Sym& A;
  void operator_action(size_t m, double alpha, const double* V, size_t ldv, double beta, double* AV, size_t ldav) const {
    for(size_t k = 0; k < m; ++k)
      for(int i = 0; i < A.n; ++i) {
        double s = 0;
        for(int j = 0; j < A.n; ++j) s += A(i, j) * V[j + k * ldv];
        AV[i + k * ldav] = alpha * s + (beta == 0 ? 0 : beta * AV[i + k * ldav]);
      }
  }
};
// starting vectors: unit vectors, all ones, and uneven unnormalised ones
inline std::vector<std::vector<double>> guesses(int n) {
  std::vector<std::vector<double>> g;
  for(int i = 0; i < n; ++i) {
    std::vector<double> x(n, 0.);
    x[i] = 1;
    g.push_back(x);
  }
  g.push_back(std::vector<double>(n, 1.));
  std::vector<double> x(n), y(n), z(n);
  for(int i = 0; i < n; ++i) x[i] = 0.01 * (i + 1), y[i] = (i % 2 ? -1 : 1) * (5. - i), z[i] = 1. / (1 + 3 * i) - 0.2;
  g.push_back(x), g.push_back(y), g.push_back(z);
  return g;
}
// residual, norm, lowest eigenvalue checks of a returned pair
inline void judge_pair(const lin::Sym& A, double lam, const std::vector<double>& X, double tol, const char* who) {
  double nn = 0, rr = 0;
  for(int i = 0; i < A.n; ++i) {
    double s = 0;
    for(int j = 0; j < A.n; ++j) s += A(i, j) * X[j];
    s -= lam * X[i];
    nn += X[i] * X[i], rr += s * s;
  }
  if(!std::isfinite(lam)) mc::fail("%s: eigenvalue is not a number", who);
  if(!(std::abs(std::sqrt(nn) - 1) < 1e-7)) mc::fail("%s: vector has norm %.12g (value %.12g)", who, std::sqrt(nn), lam);
  if(!(std::sqrt(rr) <= tol * 1.0001 + 1e-11)) mc::fail("%s: residual %.3e exceeds %.3e (value %.12g)", who, std::sqrt(rr), tol, lam);
}
