// S04: threaded kernels: no data race, same result for every number of threads and schedule.
// Compiled with -fsanitize=thread instrumentation whose callbacks are mc/omp's monitor.
#include "sx.hpp"
#include <sparsexx/spblas/spmbv.hpp>
#include <sparsexx/util/permute.hpp>
using namespace sx;

static int max_threads() { return mc::thorough ? 4 : 3; }
static int dev() { return mc::thorough ? 3 : 2; }

template <class I>
std::vector<I> rot(int n, int k) {
  std::vector<I> p(n);
  for(int i = 0; i < n; ++i) p[i] = k == 0 ? n - 1 - i : (i + k) % n;
  return p;
}

template <class T, class I>
void kernels(const char* name, int cells) {
  mc::suite(name, [&] {
    all_patterns(1, 5, 1, 4, cells, [&](Pat p) {
      if(p.mask % 2 == 0 && !mc::thorough && p.m * p.n > 5) return;
      for(int base = 0; base < 2; ++base)
        for(int nt = 2; nt <= max_threads(); ++nt)
          mc::test([&] { return p.str() + mc::fmt("base %d threads %d", base, nt); }, [&] {
            if(p.nnz()) mc::nontrivial();
            const int m = p.m, n = p.n;
            auto A = csr<T, I>(p, base);
            auto B = coo<T, I>(p, base, 0);
            auto D = dense<T>(p);
            const int K = 2;
            std::vector<T> X(n * K), Y0(m * K), YE(m * K);
            for(int i = 0; i < n * K; ++i) X[i] = T(2 * i - 3);
            for(int i = 0; i < m * K; ++i) Y0[i] = T(i + 1);
            for(int k = 0; k < K; ++k) for(int i = 0; i < m; ++i) {
              T s(0);
              for(int j = 0; j < n; ++j) s += D(i, j) * X[j + k * n];
              YE[i + k * m] = T(2) * s - Y0[i + k * m];
            }
            mc::omp(nt, dev(), [&] {
              auto Y = Y0;
              sparsexx::spblas::gespmbv(K, 2, A, X.data(), n, -1, Y.data(), m);
              if(Y != YE) mc::fail("CSR product differs");
            });
            mc::omp(nt, dev(), [&] {
              auto Y = Y0;
              sparsexx::spblas::gespmbv(K, 2, B, X.data(), n, -1, Y.data(), m);
              if(Y != YE) mc::fail("COO product differs");
            });
            mc::omp(nt, dev(), [&] {
              std::vector<T> d(m * n, T(0));
              sparsexx::convert_to_dense(B, d.data(), m);
              if(d != D.a) mc::fail("COO to dense differs");
            });
            mc::omp(nt, dev(), [&] {
              std::vector<T> d(m * n, T(0));
              sparsexx::convert_to_dense(A, d.data(), m);
              if(d != D.a) mc::fail("CSR to dense differs");
            });
            for(int k = 0; k < 2; ++k) {
              auto r = rot<I>(m, k), c = rot<I>(n, k);
              Dense<T> ER(m, n), EC(m, n), EB(m, n);
              for(int i = 0; i < m; ++i) for(int j = 0; j < n; ++j) ER(i, j) = D(r[i], j), EC(i, j) = D(i, c[j]), EB(i, j) = D(r[i], c[j]);
              mc::omp(nt, dev(), [&] { same(meaning(sparsexx::permute_rows(A, r), m, n, p.nnz(), base, "rows"), ER, "rows"); });
              mc::omp(nt, dev(), [&] { same(meaning(sparsexx::permute_cols(A, c), m, n, p.nnz(), base, "columns"), EC, "columns"); });
              mc::omp(nt, dev(), [&] { same(meaning(sparsexx::permute_rows_cols(A, r, c), m, n, p.nnz(), base, "both"), EB, "both"); });
            }
          });
    });
  });
}

// longer rows: blocks of one row on the same cache line, block copies, sorting of more than 16 columns
void large() {
  mc::suite("long-rows", [&] {
    for(int m : {3, 9, 40}) for(int n : {5, 24, 70}) for(int st = 1; st <= 3; ++st) for(int base = 0; base < 2; ++base) for(int nt : {2, 3, 4, 6, 8, 16})
      if((nt < 5) == (m < 40 && n < 70) || (nt > 5 && m + n == 29 + 4))
      mc::test([&] { return mc::fmt("%dx%d every %d-th entry base %d threads %d", m, n, st, base, nt); }, [&] {
        mc::nontrivial();
        Dense<double> D(m, n);
        int k = 0;
        std::vector<int32_t> rp{base}, ci, ri;
        std::vector<double> nz;
        for(int i = 0; i < m; ++i) {
          for(int j = 0; j < n; ++j)
            if((i * n + j + i / 3) % st == 0 && i % 4 != 1) ++k, ri.push_back(i + base), ci.push_back(j + base), nz.push_back(D(i, j) = ival(i, j));
          rp.push_back(k + base);
        }
        sparsexx::csr_matrix<double, int32_t> A(m, n, k, base);
        sparsexx::coo_matrix<double, int32_t> B(m, n, k, base);
        A.rowptr() = rp; A.colind() = B.colind() = ci; A.nzval() = B.nzval() = nz; B.rowind() = ri;
        std::vector<int32_t> r(m), c(n);
        for(int i = 0; i < m; ++i) r[i] = (i * (m % 2 ? 2 : 3) + 1) % m;
        for(int j = 0; j < n; ++j) c[j] = (j * (n % 7 ? 7 : 3) + 1) % n;
        Dense<double> ER(m, n), EC(m, n), EB(m, n);
        for(int i = 0; i < m; ++i) for(int j = 0; j < n; ++j) ER(i, j) = D(r[i], j), EC(i, j) = D(i, c[j]), EB(i, j) = D(r[i], c[j]);
        mc::omp(nt, nt < 5, [&] { same(meaning(sparsexx::permute_rows(A, r), m, n, k, base, "rows"), ER, "rows"); });
        mc::omp(nt, nt < 5, [&] { same(meaning(sparsexx::permute_cols(A, c), m, n, k, base, "columns"), EC, "columns"); });
        mc::omp(nt, nt < 5, [&] { same(meaning(sparsexx::permute_rows_cols(A, r, c), m, n, k, base, "both"), EB, "both"); });
        const int K = 3;
        std::vector<double> X(n * K), YE(m * K, 0.);
        for(int i = 0; i < n * K; ++i) X[i] = i % 9 - 4;
        for(int q = 0; q < K; ++q) for(int i = 0; i < m; ++i) for(int j = 0; j < n; ++j) YE[i + q * m] += D(i, j) * X[j + q * n];
        for(int f = 0; f < 2; ++f)
          mc::omp(nt, nt < 5, [&] {
            std::vector<double> Y(m * K, 7.);
            if(f) sparsexx::spblas::gespmbv(K, 1., B, X.data(), n, 0., Y.data(), m);
            else sparsexx::spblas::gespmbv(K, 1., A, X.data(), n, 0., Y.data(), m);
            if(Y != YE) mc::fail("%s product differs", f ? "COO" : "CSR");
          });
        mc::omp(nt, nt < 5, [&] {
          std::vector<double> d(m * n, 0.);
          sparsexx::convert_to_dense(B, d.data(), m);
          if(d != D.a) mc::fail("COO to dense differs");
        });
      });
  });
}

void mc_main() {
  kernels<double, int32_t>("kernels-double", mc::thorough ? 8 : 6);
  kernels<std::complex<double>, int64_t>("kernels-complex", mc::thorough ? 6 : 4);
  large();
}
