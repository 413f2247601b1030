// Small sparse matrices and their dense meaning.
#pragma once
#include "pre.hpp"
#include <sparsexx/matrix_types/coo_matrix.hpp>
#include <sparsexx/matrix_types/csr_matrix.hpp>
#include <sparsexx/matrix_types/csc_matrix.hpp>
#include <sparsexx/matrix_types/dense_conversions.hpp>
#include <sparsexx/matrix_types/type_traits.hpp>

namespace sx {
// value at (i,j): distinct, signed, exactly representable in every value type used
inline int ival(int i, int j) {
  int v = 3 + 2 * (i * 7 + j);
  return (i + j) % 2 ? -v : v;
}
template <class T>
struct val {
  static T of(int i, int j) { return T(ival(i, j)); }
};
template <class R>
struct val<std::complex<R>> {
  static std::complex<R> of(int i, int j) { return {R(ival(i, j)), R(1 + i - 2 * j)}; }
};

// pattern: bit i*n+j set means entry (i,j) is stored
struct Pat {
  int m = 0, n = 0;
  uint64_t mask = 0;
  int rule = 0;  // patterns of more than 64 places
  bool has(int i, int j) const {
    switch(rule) {
    case 0: return mask >> (i * n + j) & 1;
    case 1: return std::abs(i - j) < 2;
    case 2: return i == j || (i * 7 + j * 3) % 5 == 0;
    case 3: return j == (i * 37 + 11) % n || j == n - 1 - i;
    default: return i % 3 != 1 && (i + j) % 2;
    }
  }
  int nnz() const {
    if(!rule) return __builtin_popcountll(mask);
    int c = 0;
    for(int i = 0; i < m; ++i) for(int j = 0; j < n; ++j) c += has(i, j);
    return c;
  }
  std::string str() const {
    std::string s = mc::fmt("%dx%d ", m, n);
    if(rule) return s + mc::fmt("rule %d ", rule);
    for(int i = 0; i < m; ++i) {
      for(int j = 0; j < n; ++j) s += has(i, j) ? 'x' : '.';
      s += i + 1 < m ? '/' : ' ';
    }
    return s;
  }
};
// all patterns of all shapes m x n with lo <= m,n <= hi and m*n <= cells
template <class F>
void all_patterns(int mlo, int mhi, int nlo, int nhi, int cells, const F& f) {
  for(int m = mlo; m <= mhi; ++m)
    for(int n = nlo; n <= nhi; ++n) {
      if(m * n > cells) continue;
      for(uint64_t b = 0; b < (1ull << (m * n)); ++b) f(Pat{m, n, b});
    }
}

template <class T>
struct Dense {
  int m, n;
  std::vector<T> a;
  Dense(int m, int n) : m(m), n(n), a(size_t(m) * n, T(0)) {}
  T& operator()(int i, int j) { return a[i + size_t(j) * m]; }
  const T& operator()(int i, int j) const { return a[i + size_t(j) * m]; }
  bool operator==(const Dense& o) const { return m == o.m && n == o.n && a == o.a; }
};
template <class T>
Dense<T> dense(const Pat& p) {
  Dense<T> d(p.m, p.n);
  for(int i = 0; i < p.m; ++i)
    for(int j = 0; j < p.n; ++j)
      if(p.has(i, j)) d(i, j) = val<T>::of(i, j);
  return d;
}
template <class T, class I>
sparsexx::csr_matrix<T, I> csr(const Pat& p, int base) {
  sparsexx::csr_matrix<T, I> A(p.m, p.n, p.nnz(), base);
  int k = 0;
  A.rowptr()[0] = I(base);
  for(int i = 0; i < p.m; ++i) {
    for(int j = 0; j < p.n; ++j)
      if(p.has(i, j)) A.colind()[k] = I(j + base), A.nzval()[k] = val<T>::of(i, j), ++k;
    A.rowptr()[i + 1] = I(k + base);
  }
  return A;
}
// entries by row (order 0), by column (1), by row backwards (2), shuffled by a fixed stride (3)
template <class T, class I>
sparsexx::coo_matrix<T, I> coo(const Pat& p, int base, int order) {
  std::vector<std::array<int, 2>> e;
  if(order == 1) {
    for(int j = 0; j < p.n; ++j) for(int i = 0; i < p.m; ++i) if(p.has(i, j)) e.push_back({i, j});
  } else
    for(int i = 0; i < p.m; ++i) for(int j = 0; j < p.n; ++j) if(p.has(i, j)) e.push_back({i, j});
  if(order == 2) std::reverse(e.begin(), e.end());
  if(order == 3) {
    std::vector<std::array<int, 2>> o;
    for(size_t s = 0; s < 3; ++s) for(size_t k = s; k < e.size(); k += 3) o.push_back(e[k]);
    std::reverse(o.begin(), o.begin() + o.size() / 2);
    e = o;
  }
  std::vector<I> ri, ci;
  std::vector<T> nz;
  for(auto& x : e) ri.push_back(I(x[0] + base)), ci.push_back(I(x[1] + base)), nz.push_back(val<T>::of(x[0], x[1]));
  return sparsexx::coo_matrix<T, I>(p.m, p.n, std::move(ci), std::move(ri), std::move(nz), base);
}
template <class T, class I>
sparsexx::csc_matrix<T, I> csc(const Pat& p, int base) {
  sparsexx::csc_matrix<T, I> A(p.m, p.n, p.nnz(), base);
  int k = 0;
  A.colptr()[0] = I(base);
  for(int j = 0; j < p.n; ++j) {
    for(int i = 0; i < p.m; ++i)
      if(p.has(i, j)) A.rowind()[k] = I(i + base), A.nzval()[k] = val<T>::of(i, j), ++k;
    A.colptr()[j + 1] = I(k + base);
  }
  return A;
}

// structure checks; return the dense meaning
template <class T, class I>
Dense<T> meaning(const sparsexx::csr_matrix<T, I>& A, int m, int n, int nnz, int base, const char* what, bool sorted = true) {
  if(A.m() != m || A.n() != n) mc::fail("%s: shape %ldx%ld, expected %dx%d", what, (long)A.m(), (long)A.n(), m, n);
  if(nnz >= 0 && A.nnz() != nnz) mc::fail("%s: nnz %ld, expected %d", what, (long)A.nnz(), nnz);
  if(A.indexing() != base) mc::fail("%s: index base %ld, expected %d", what, (long)A.indexing(), base);
  auto &rp = A.rowptr();
  auto &ci = A.colind();
  auto &nz = A.nzval();
  if((int)rp.size() != m + 1) mc::fail("%s: %zu row offsets for %d rows", what, rp.size(), m);
  if((long)ci.size() != A.nnz() || (long)nz.size() != A.nnz()) mc::fail("%s: array lengths do not match nnz", what);
  if(rp[0] != base || rp[m] != A.nnz() + base) mc::fail("%s: row offsets %s do not span nnz=%ld, base %d", what, mc::str(rp).c_str(), (long)A.nnz(), base);
  Dense<T> d(m, n);
  for(int i = 0; i < m; ++i) {
    if(rp[i + 1] < rp[i]) mc::fail("%s: decreasing row offsets %s", what, mc::str(rp).c_str());
    for(long k = rp[i] - base; k < rp[i + 1] - base; ++k) {
      long j = ci[k] - base;
      if(j < 0 || j >= n) mc::fail("%s: column index %ld out of range in row %d", what, (long)ci[k], i);
      if(sorted && k > rp[i] - base && ci[k] <= ci[k - 1]) mc::fail("%s: columns of row %d not ascending: %s", what, i, mc::str(ci).c_str());
      d(i, j) = nz[k];
    }
  }
  return d;
}
template <class T, class I>
Dense<T> meaning(const sparsexx::csc_matrix<T, I>& A, int m, int n, int nnz, int base, const char* what) {
  if(A.m() != m || A.n() != n) mc::fail("%s: shape %ldx%ld, expected %dx%d", what, (long)A.m(), (long)A.n(), m, n);
  if(nnz >= 0 && A.nnz() != nnz) mc::fail("%s: nnz %ld, expected %d", what, (long)A.nnz(), nnz);
  if(A.indexing() != base) mc::fail("%s: index base %ld, expected %d", what, (long)A.indexing(), base);
  auto &cp = A.colptr();
  auto &ri = A.rowind();
  auto &nz = A.nzval();
  if((int)cp.size() != n + 1) mc::fail("%s: %zu column offsets for %d columns", what, cp.size(), n);
  if((long)ri.size() != A.nnz() || (long)nz.size() != A.nnz()) mc::fail("%s: array lengths do not match nnz", what);
  if(cp[0] != base || cp[n] != A.nnz() + base) mc::fail("%s: column offsets %s do not span nnz=%ld, base %d", what, mc::str(cp).c_str(), (long)A.nnz(), base);
  Dense<T> d(m, n);
  for(int j = 0; j < n; ++j) {
    if(cp[j + 1] < cp[j]) mc::fail("%s: decreasing column offsets", what);
    for(long k = cp[j] - base; k < cp[j + 1] - base; ++k) {
      long i = ri[k] - base;
      if(i < 0 || i >= m) mc::fail("%s: row index %ld out of range", what, (long)ri[k]);
      if(k > cp[j] - base && ri[k] <= ri[k - 1]) mc::fail("%s: rows of column %d not ascending", what, j);
      d(i, j) = nz[k];
    }
  }
  return d;
}
template <class T, class I>
Dense<T> meaning(const sparsexx::coo_matrix<T, I>& A, int m, int n, int nnz, int base, const char* what) {
  if(A.m() != m || A.n() != n) mc::fail("%s: shape %ldx%ld, expected %dx%d", what, (long)A.m(), (long)A.n(), m, n);
  if(nnz >= 0 && A.nnz() != nnz) mc::fail("%s: nnz %ld, expected %d", what, (long)A.nnz(), nnz);
  if(A.indexing() != base) mc::fail("%s: index base %ld, expected %d", what, (long)A.indexing(), base);
  auto &ri = A.rowind();
  auto &ci = A.colind();
  auto &nz = A.nzval();
  if((long)ci.size() != A.nnz() || (long)nz.size() != A.nnz() || (long)ri.size() != A.nnz()) mc::fail("%s: array lengths do not match nnz", what);
  Dense<T> d(m, n);
  std::set<std::pair<long, long>> seen;
  for(long k = 0; k < A.nnz(); ++k) {
    long i = ri[k] - base, j = ci[k] - base;
    if(i < 0 || i >= m || j < 0 || j >= n) mc::fail("%s: index (%ld,%ld) out of range", what, (long)ri[k], (long)ci[k]);
    if(!seen.insert({i, j}).second) mc::fail("%s: entry (%ld,%ld) stored twice", what, i, j);
    d(i, j) = nz[k];
  }
  return d;
}
template <class T>
void same(const Dense<T>& a, const Dense<T>& b, const char* what) {
  for(int i = 0; i < b.m; ++i)
    for(int j = 0; j < b.n; ++j)
      if(!(a(i, j) == b(i, j))) mc::fail("%s: entry (%d,%d) is %g, expected %g", what, i, j, (double)std::real(a(i, j)), (double)std::real(b(i, j)));
}
}  // namespace sx
