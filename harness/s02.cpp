// S02: Y <- alpha*A*X + beta*Y for every pattern, block width, padding, scalars, format and base.
#include "sx.hpp"
#include <sparsexx/spblas/spmbv.hpp>
using namespace sx;

template <class T, class M>
void products(const M& A, const Pat& p, int kmax) {
  const int m = p.m, n = p.n;
  auto D = dense<T>(p);
  const double sc[] = {0, 1, -1, 2, 0.5, -1.75};
  for(int K = 0; K <= kmax; ++K)
    for(int px = 0; px < 2; ++px)
      for(int py = 0; py < 2; ++py)
        for(auto a : sc)
          for(auto b : sc) {
            if(std::is_integral_v<T> && (a != (int)a || b != (int)b)) continue;
            if(a != (int)a && b != (int)b && K > 1) continue;
            mc::executions(1);
            const int ldx = n + px, ldy = m + py;
            const T pad = T(-77);
            std::vector<T> X(size_t(ldx) * K, pad), Y(size_t(ldy) * K, pad);
            for(int k = 0; k < K; ++k) {
              for(int j = 0; j < n; ++j) X[j + k * ldx] = T(1 + j - 3 * k);
              for(int i = 0; i < m; ++i) Y[i + k * ldy] = T(5 + 2 * i + 11 * k);
            }
            auto X0 = X, Y0 = Y;
            sparsexx::spblas::gespmbv(K, a, A, X.data(), ldx, b, Y.data(), ldy);
            for(int k = 0; k < K; ++k) {
              for(int i = 0; i < m; ++i) {
                T s(0);
                for(int j = 0; j < n; ++j) s += D(i, j) * X0[j + k * ldx];
                T e = T(a) * s + T(b) * Y0[i + k * ldy];
                if(!(Y[i + k * ldy] == e))
                  mc::fail("Y(%d,%d)=%g, expected %g (K=%d ldx=%d ldy=%d alpha=%g beta=%g)", i, k, (double)std::real(Y[i + k * ldy]), (double)std::real(e), K, ldx, ldy, a, b);
              }
              for(int i = m; i < ldy; ++i)
                if(!(Y[i + k * ldy] == pad)) mc::fail("padding of Y overwritten (K=%d ldy=%d)", K, ldy);
            }
            if(X != X0) mc::fail("X modified");
          }
}

template <class T, class I>
void type(const char* tn, const char* in, int cells, int kmax) {
  mc::suite(mc::fmt("csr-%s-%s", tn, in).c_str(), [&] {
    all_patterns(0, 4, 0, 4, cells, [&](Pat p) {
      for(int base = 0; base < 2; ++base)
        mc::test([&] { return p.str() + mc::fmt("base %d", base); }, [&] {
          if(p.nnz()) mc::nontrivial();
          mc::omp_default();
          auto A = csr<T, I>(p, base);
          auto A0 = A;
          products<T>(A, p, kmax);
          if(!(A == A0)) mc::fail("matrix modified");
        });
    });
  });
  mc::suite(mc::fmt("coo-%s-%s", tn, in).c_str(), [&] {
    all_patterns(0, 4, 0, 4, cells, [&](Pat p) {
      for(int base = 0; base < 2; ++base)
        for(int ord = 0; ord < 4; ++ord)
          mc::test([&] { return p.str() + mc::fmt("base %d order %d", base, ord); }, [&] {
            if(p.nnz()) mc::nontrivial();
            mc::omp_default();
            auto A = coo<T, I>(p, base, ord);
            auto A0 = A;
            products<T>(A, p, kmax);
            if(A.nzval() != A0.nzval() || A.rowind() != A0.rowind() || A.colind() != A0.colind()) mc::fail("matrix modified");
          });
    });
  });
}

// rows with many entries and many columns of the block: long inner loops and long collapsed loops
void large() {
  mc::suite("wide", [&] {
    for(int m : {1, 5, 17, 140}) for(int n : {1, 6, 33, 140}) for(int stride = 1; stride <= 4; ++stride) for(int base = 0; base < 2; ++base) for(int K : {1, 4, 9})
      mc::test([&] { return mc::fmt("%dx%d every %d-th entry, base %d, K=%d", m, n, stride, base, K); }, [&] {
        mc::nontrivial();
        mc::omp_default();
        Dense<double> D(m, n);
        std::vector<int> rp{base}, ci, ri, cc;
        std::vector<double> nz;
        for(int i = 0, c = 0; i < m; ++i) {
          for(int j = 0; j < n; ++j, ++c)
            if(c % stride == 0) ci.push_back(j + base), ri.push_back(i + base), nz.push_back(D(i, j) = ival(i, j));
          rp.push_back((int)ci.size() + base);
        }
        cc = ci;
        auto nz2 = nz;
        sparsexx::csr_matrix<double, int> A(m, n, nz.size(), base);
        A.rowptr() = rp, A.colind() = ci, A.nzval() = nz;
        sparsexx::coo_matrix<double, int> B(m, n, std::move(cc), std::move(ri), std::move(nz2), base);
        for(int f = 0; f < 2; ++f) {
          std::vector<double> X(size_t(n + 2) * K), Y(size_t(m + 1) * K, 3.);
          for(size_t i = 0; i < X.size(); ++i) X[i] = double(int(i % 13) - 6);
          if(f == 0) sparsexx::spblas::gespmbv(K, 2., A, X.data(), n + 2, -1., Y.data(), m + 1);
          else sparsexx::spblas::gespmbv(K, 2., B, X.data(), n + 2, -1., Y.data(), m + 1);
          mc::executions(1);
          for(int k = 0; k < K; ++k)
            for(int i = 0; i <= m; ++i) {
              double e = 3;
              if(i < m) {
                e = -3;
                for(int j = 0; j < n; ++j) e += 2 * D(i, j) * X[j + k * (n + 2)];
              }
              if(Y[i + k * (m + 1)] != e) mc::fail("%s Y(%d,%d)=%g, expected %g", f ? "COO" : "CSR", i, k, Y[i + k * (m + 1)], e);
            }
        }
      });
  });
}

void mc_main() {
  const int c = mc::thorough ? 12 : 9;
  type<double, int32_t>("double", "32", c, 3);
  type<double, int64_t>("double", "64", mc::thorough ? 9 : 6, 2);
  type<float, int32_t>("float", "32", 6, 2);
  type<std::complex<double>, int64_t>("complex", "64", 6, 2);
  type<int64_t, int32_t>("int", "32", 6, 2);
  large();
}
