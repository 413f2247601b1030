// C02: Lanczos, band Lanczos and resolvents of the legacy library.
#include "lin.hpp"
#include <cmz_ed/bandlan.h++>
#include <cmz_ed/eigsolver.h++>
#include <cmz_ed/lanczos.h++>
namespace ed = cmz::ed;
using vec = std::vector<double>;
using mat = std::vector<vec>;
using cd = std::complex<double>;
using lin::Sym;
template <class F>
void guarded(const F& f) {
  try { f(); }
  catch(const std::string& s) { mc::fail("threw \"%s\"", s.c_str()); }
  catch(const char* s) { mc::fail("threw \"%s\"", s); }
}
Eigen::MatrixXd dense(const Sym& A) {
  Eigen::MatrixXd M(A.n, A.n);
  for(int i = 0; i < A.n; ++i) for(int j = 0; j < A.n; ++j) M(i, j) = A(i, j);
  return M;
}
ed::SpMatD sparse(const Sym& A) {
  ed::SpMatD M(A.n, A.n);
  std::vector<Eigen::Triplet<double>> t;
  for(int i = 0; i < A.n; ++i) for(int j = 0; j < A.n; ++j) if(A(i, j)) t.emplace_back(i, j, A(i, j));
  M.setFromTriplets(t.begin(), t.end());
  return M;
}
vec mul(const Sym& A, const vec& x) {
  vec y(A.n, 0.);
  for(int i = 0; i < A.n; ++i) for(int j = 0; j < A.n; ++j) y[i] += A(i, j) * x[j];
  return y;
}
double dot(const vec& a, const vec& b) { return std::inner_product(a.begin(), a.end(), b.begin(), 0.); }
void near(double a, double b, double tol, const char* what) { if(!(std::abs(a - b) <= tol)) mc::fail("%s: %.15g, expected %.15g", what, a, b); }
// w ascending or descending, v(k) the k-th vector
template <class V, class W>
void spectrum(const Sym& A, const W& w, const V& v, bool desc, const char* who) {
  vec e;
  std::vector<vec> x;
  lin::jacobi(A, e, x);
  const int n = A.n;
  for(int k = 0; k < n; ++k) {
    near(w(k), e[desc ? n - 1 - k : k], 1e-10, mc::fmt("%s: eigenvalue %d", who, k).c_str());
    for(int l = 0; l <= k; ++l) {
      double s = 0;
      for(int i = 0; i < n; ++i) s += v(k, i) * v(l, i);
      near(s, k == l, 1e-10, mc::fmt("%s: overlap of vectors %d and %d", who, k, l).c_str());
    }
    for(int i = 0; i < n; ++i) {
      double s = 0;
      for(int j = 0; j < n; ++j) s += A(i, j) * v(k, j);
      near(s, w(k) * v(k, i), 1e-9, mc::fmt("%s: eigenvalue equation of pair %d", who, k).c_str());
    }
  }
}
void decomp(const Sym& A) {
  mc::executions(1);
  Eigen::VectorXd w;
  ed::eigMatD v;
  ed::Hsyev(dense(A), w, v);
  spectrum(A, [&](int k) { return w(k); }, [&](int k, int i) { return v(i, k); }, true, "Hsyev");
  const int n = A.n;
  mat M(n, vec(n)), x;
  for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) M[i][j] = A(i, j);
  vec e;
  auto M1 = M;
  if(!ed::GetEigsys(M1, e, x)) mc::fail("GetEigsys failed");
  spectrum(A, [&](int k) { return e[k]; }, [&](int k, int i) { return x[k][i]; }, false, "GetEigsys");
  for(int band = 0; band < n; ++band) {
    auto B = M;
    Sym C(n);
    for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) {
      if(std::abs(i - j) > band) B[i][j] = 0;
      C(i, j) = B[i][j];
    }
    if(!ed::GetEigsysBand(B, band, e, x)) mc::fail("GetEigsysBand failed");
    spectrum(C, [&](int k) { return e[k]; }, [&](int k, int i) { return x[k][i]; }, false, mc::fmt("GetEigsysBand(%d)", band).c_str());
    if(band == 1 || n == 1) {
      vec al, be{7.};
      for(int i = 0; i < n; ++i) al.push_back(C(i, i)), be.push_back(i + 1 < n ? C(i, i + 1) : 5);
      ed::Hste_v(al, be, w, v);
      spectrum(C, [&](int k) { return w(k); }, [&](int k, int i) { return v(i, k); }, false, "Hste_v");
    }
  }
}
void qr(const mat& cols) {  // cols[k]: k-th vector
  mc::executions(1);
  const int n = cols.size(), m = cols[0].size();
  for(int tr = 0; tr < 2; ++tr) {
    mat Q = cols, R;
    if(!tr) {
      Q.assign(m, vec(n));
      for(int i = 0; i < m; ++i) for(int k = 0; k < n; ++k) Q[i][k] = cols[k][i];
    }
    if(!(tr ? ed::QRdecomp_tr(Q, R) : ed::QRdecomp(Q, R))) mc::fail("QR failed");
    auto q = [&](int i, int k) { return tr ? Q[k][i] : Q[i][k]; };
    for(int k = 0; k < n; ++k) for(int l = 0; l < n; ++l) {
      double s = 0;
      for(int i = 0; i < m; ++i) s += q(i, k) * q(i, l);
      near(s, k == l, 1e-12, "orthonormality of Q");
      if(k > l && R[k][l] != 0) mc::fail("R is not upper triangular");
    }
    for(int k = 0; k < n; ++k) for(int i = 0; i < m; ++i) {
      double s = 0;
      for(int l = 0; l < n; ++l) s += q(i, l) * R[l][k];
      near(s, cols[k][i], 1e-12, "QR product");
    }
  }
}
// dimension of the Krylov space (relative tolerance) and the smallest off-diagonal within it
int krylov(const Sym& A, vec x, double& least) {
  mat q;
  double nx = std::sqrt(dot(x, x));
  for(auto& t : x) t /= nx;
  least = 1;
  while(true) {
    q.push_back(x);
    if(q.size() == A.n) return A.n;
    x = mul(A, x);
    for(int r = 0; r < 2; ++r) for(auto& p : q) {
      double d = dot(p, x);
      for(int i = 0; i < A.n; ++i) x[i] -= d * p[i];
    }
    nx = std::sqrt(dot(x, x));
    if(nx < 1e-9) return q.size();
    least = std::min(least, nx);
    for(auto& t : x) t /= nx;
  }
}
void lanczos(const Sym& A, const vec& s, int most = 1000) {
  mc::executions(1);
  const int n = A.n;
  double least;
  const int K = krylov(A, s, least);
  auto M = dense(A);
  auto S = sparse(A);
  ed::eigMatDOp D(M);
  ed::SpMatDOp P(S);
  Eigen::VectorXd v(n);
  for(int i = 0; i < n; ++i) v(i) = s[i];
  const double nrm = dot(s, s);
  for(int its = 1; its <= std::min(K + 1, most); ++its)
    for(int op = 0; op < 2; ++op) {
      vec al{9, 9}, be{9};
      op ? ed::MyLanczos(v, P, its, al, be, 1e-7) : ed::MyLanczos(v, D, its, al, be, 1e-7);
      if(al.size() != its || be.size() != its + 1) mc::fail("%d steps give %zu and %zu coefficients", its, al.size(), be.size());
      near(be[0], std::sqrt(nrm), 1e-12, "norm of the start");
      for(double x : al) if(!(std::abs(x) < 1e3)) mc::fail("coefficient %g", x);
      const int k = std::min(its, K);
      // moments
      vec x = s, t(its, 0.);
      t[0] = 1;
      for(int m = 0; m <= 2 * k - 1; ++m) {
        near(nrm * t[0], dot(s, x), 1e-7 * (1 + std::abs(dot(s, x))), mc::fmt("%d steps, moment %d", its, m).c_str());
        x = mul(A, x);
        vec u(its, 0.);
        for(int i = 0; i < its; ++i) {
          u[i] += al[i] * t[i];
          if(i) u[i] += be[i] * t[i - 1];
          if(i + 1 < its) u[i] += be[i + 1] * t[i + 1];
        }
        t = u;
      }
      if(its > K) continue;
      mat q;
      for(int i = 0; i < its; ++i) {
        Eigen::VectorXd e = Eigen::VectorXd::Zero(its), b;
        e(i) = 1;
        op ? ed::MyLanczos_BackProj(v, P, its, e, b) : ed::MyLanczos_BackProj(v, D, its, e, b);
        q.push_back(vec(b.data(), b.data() + n));
      }
      for(int i = 0; i < its; ++i) for(int j = 0; j <= i; ++j) {
        near(dot(q[i], q[j]), i == j, 1e-7, "overlap of the basis vectors");
        near(dot(q[i], mul(A, q[j])), i == j ? al[i] : i == j + 1 ? be[i] : 0, 1e-7, "projected matrix");
      }
    }
}
void ground(const Sym& A, int call) {
  mc::executions(1);
  const int n = A.n;
  vec w;
  mat v;
  lin::jacobi(A, w, v);
  vec s(n, 1.);
  if(call == 1) s.assign(n, 0.), s[0] = 1;
  if(call == 2) for(int i = 0; i < n; ++i) s[i] = 2 - i * 0.75;
  double e0 = 0;
  bool found = false;
  for(int i = 0; i < n && !found; ++i) {
    double g = 0;
    for(int j = i; j < n && w[j] - w[i] < 1e-9; ++j) g = std::hypot(g, dot(v[j], s));
    if(g > 1e-7) found = true, e0 = w[i];
  }
  auto M = dense(A);
  auto S = sparse(A);
  ed::eigMatDOp D(M);
  ed::SpMatDOp P(S);
  double E = 99;
  Eigen::VectorXd x;
  ed::Input_t in;
  if(call) in["E0tol"] = "1e-12", in["Lantol"] = "1e-9", in["print"] = "T";
  if(call == 2) {
    Eigen::VectorXd b(n);
    for(int i = 0; i < n; ++i) b(i) = s[i];
    double E1 = 99;
    Eigen::VectorXd kry;
    int its = ed::GetGSEn_Lanczos(b, P, E1, kry, in);
    near(E1, e0, 1e-7, "lowest value alone");
    if(kry.size() != its) mc::fail("%d steps, Krylov vector of length %d", its, (int)kry.size());
    near(kry.dot(kry), 1, 1e-8, "norm of the Krylov vector");
    ed::MyLanczos_BackProj(b, P, its, kry, x);
    near(x.dot(x), 1, 1e-5, "norm of the reconstructed vector");
    near(x.dot(P.dot(x)), E1, 1e-6, "energy of the reconstructed vector");
    ed::GetGSEnVec_Lanczos(b, D, E, x, in);
  } else if(call == 1) ed::GetGS(P, E, x, in, true);
  else ed::GetGS(D, E, x, in);
  near(E, e0, 1e-7, "lowest value");
  near(x.dot(x), 1, 1e-6, "norm of the vector");
  vec y(x.data(), x.data() + n), z = mul(A, y);
  for(int i = 0; i < n; ++i) near(z[i], E * y[i], 2e-3, "eigenvalue equation");
}
// (w -+ (H - E0))^-1 by Gaussian elimination
std::vector<cd> solve(std::vector<std::vector<cd>> a, std::vector<cd> b) {
  const int n = b.size();
  for(int k = 0; k < n; ++k) {
    int p = k;
    for(int i = k; i < n; ++i) if(std::abs(a[i][k]) > std::abs(a[p][k])) p = i;
    std::swap(a[k], a[p]), std::swap(b[k], b[p]);
    for(int i = k + 1; i < n; ++i) {
      cd f = a[i][k] / a[k][k];
      for(int j = k; j < n; ++j) a[i][j] -= f * a[k][j];
      b[i] -= f * b[k];
    }
  }
  for(int k = n; k--;) {
    for(int j = k + 1; j < n; ++j) b[k] -= a[k][j] * b[j];
    b[k] /= a[k][k];
  }
  return b;
}
void resolvent(const Sym& A, const mat& V, double tol) {
  const int n = A.n, nv = V.size();
  static const std::vector<cd> ws{{0.3, 0.5}, {-2, 1}, {5, 0.25}, {0, -2}};
  auto once = [&] {
    std::vector<int> ptr{0}, col;
    vec nz;
    for(int i = 0; i < n; ++i) {
      for(int j = 0; j < n; ++j) if(A(i, j)) col.push_back(j), nz.push_back(A(i, j));
      ptr.push_back(nz.size());
    }
    sparsexx::csr_matrix<double, int32_t> L(n, n, nz.size(), 0);
    L.rowptr() = ptr, L.colind() = col, L.nzval() = nz;
    sparsexx::dist_sparse_matrix<sparsexx::csr_matrix<double, int32_t>> H(mc::comm(), L);
    {
      ed::SparsexDistSpMatOp op(H);
      Eigen::VectorXd x(n);
      for(int i = 0; i < n; ++i) x(i) = i * i - 1.5;
      Eigen::VectorXd y = op.dot(x);
      auto z = mul(A, vec(x.data(), x.data() + n));
      if(op.rows() != n) mc::fail("operator has %d rows", (int)op.rows());
      for(int i = 0; i < n; ++i) near(y(i), z[i], 1e-12, "operator product");
    }
    for(int part = 0; part < 2; ++part) for(int more = 0; more < 2; ++more) for(double e0 : {0., -1.25}) {
      mc::executions(1);
      auto W = V;
      std::vector<std::vector<std::vector<cd>>> res;
      ed::BandResolvent(H, W, ws, res, nv * n + 2 * more, e0, part, false);
      if(res.size() != ws.size()) mc::fail("%zu frequencies", res.size());
      for(size_t iw = 0; iw < ws.size(); ++iw)
        for(int l = 0; l < nv; ++l) {
          std::vector<std::vector<cd>> M(n, std::vector<cd>(n));
          std::vector<cd> b(n);
          for(int i = 0; i < n; ++i) {
            for(int j = 0; j < n; ++j) M[i][j] = (part ? -1. : 1.) * (A(i, j) - (i == j ? e0 : 0));
            M[i][i] += ws[iw];
            b[i] = V[l][i];
          }
          auto x = solve(M, b);
          for(int k = 0; k < nv; ++k) {
            cd e = 0;
            for(int i = 0; i < n; ++i) e += V[k][i] * x[i];
            if(!(std::abs(res[iw][k][l] - e) <= tol * (1 + std::abs(e)))) mc::fail("%s, shift %g, %d steps: element (%d,%d) at %g%+gi is %.12g%+.12gi, expected %.12g%+.12gi", part ? "particle" : "hole", e0, nv * n + 2 * more, k, l, ws[iw].real(), ws[iw].imag(), res[iw][k][l].real(), res[iw][k][l].imag(), e.real(), e.imag());
          }
        }
    }
  };
  auto o = mc::few_schedules();
  o.modes = {0};
  mc::mpi(1, [&] { return std::function<void(int)>([&](int) { once(); }); }, [](const smpi::Result& r) { if(!r.error.empty()) mc::fail("%s", r.error.c_str()); }, o);
}
Sym big(int n, int kind) {
  Sym A(n);
  for(int i = 0; i < n; ++i) for(int j = 0; j <= i; ++j) A(i, j) = A(j, i) = i == j ? (kind % 2 ? i : (i * 7 + kind) % 5) + 0.1 * i : ((i * 5 + j * 3 + kind * 7) % 11 - 5) * (kind % 3 ? 0.2 : 0.5);
  return A;
}
Sym wide(int n, int kind) {  // well separated, weakly coupled
  Sym A(n);
  for(int i = 0; i < n; ++i) for(int j = 0; j <= i; ++j) A(i, j) = A(j, i) = i == j ? ((i * 7 + kind) % n) * 0.5 - 2. * (i == n / 2) : (i * 5 + j * 3 + kind * 7) % 4 ? 0. : 0.6 / (1 + (i - j)) * ((i + j) % 2 ? 1 : -1);
  return A;
}
mat starts(int n, int nv, size_t code) {
  mat V(nv, vec(n));
  for(auto& v : V) for(auto& x : v) {
    x = int(code % 3) - 1;
    if(code >> 50) code = (code * 0x9e3779b97f4a7c15ull ^ code >> 29) | 1ull << 60;  // many elements
    else code /= 3;
  }
  return V;
}
void mc_main() {
  std::cout.setstate(std::ios::failbit), std::cerr.setstate(std::ios::failbit);
  somp::set(somp::Config{});
  auto matrices = [](auto f) {
    lin::all_sym(1, {-1, 0, 2}, {0}, f);
    lin::all_sym(2, {-1, 0, 2}, {-1, 0, 0.5}, f);
    lin::all_sym(3, {-1, 0, 2}, {-1, 0, 0.5}, f);
    if(mc::thorough) lin::all_sym(4, {-1, 2}, {-1, 0, 0.5}, f);
    else lin::all_sym(4, {-1, 2}, {0, 1}, f);
  };
  mc::suite("decompositions", [&] {
    matrices([&](const Sym& A) {
      mc::test([&] { return lin::str(A); }, [&] {
        if(A.n > 1) mc::nontrivial();
        guarded([&] { decomp(A); });
      });
    });
    for(int n : {5, 6, 7, 8, 9, 12, 17, 25, 33}) for(int k = 0; k < (n > 9 ? 2 : 6); ++k)
      mc::test([&] { return mc::fmt("dense %d, kind %d", n, k); }, [&] { mc::nontrivial(); guarded([&] { decomp(big(n, k)); }); });
    for(auto z : {std::pair{5, 4}, {8, 8}, {20, 3}, {20, 20}, {40, 17}, {130, 6}}) for(int k = 0; k < 3; ++k)
      mc::test([&] { return mc::fmt("QR of %dx%d, kind %d", z.first, z.second, k); }, [&] {
        mc::nontrivial();
        mat V(z.second, vec(z.first));
        for(int j = 0; j < z.second; ++j) for(int i = 0; i < z.first; ++i) V[j][i] = std::sin(1.7 * i * (j + 1) + 0.3 * j * j + k) * (k == 1 && j % 2 ? 100 : 1) + (i == j);
        guarded([&] { qr(V); });
      });
    for(int m = 1; m <= 3 + mc::thorough; ++m) for(int n = 1; n <= std::min(m, m == 4 ? 2 : 3); ++n) {
      size_t tot = 1;
      for(int i = 0; i < m * n; ++i) tot *= 3;
      for(size_t c = 0; c < tot; ++c)
        mc::test([&] { return mc::fmt("QR of %dx%d, code %zu", m, n, c); }, [&] { mc::nontrivial(); guarded([&] { qr(starts(m, n, c)); }); });
    }
  });
  mc::suite("lanczos", [&] {
    auto all = [&](const Sym& A) {
      mc::test([&] { return lin::str(A); }, [&] {
        if(A.n > 1) mc::nontrivial();
        guarded([&] {
          for(int k = 0; k < A.n + 3; ++k) {
            vec s(A.n, 1.);
            if(k < A.n) s.assign(A.n, 0.), s[k] = k + 1;
            if(k == A.n + 1) for(int i = 0; i < A.n; ++i) s[i] = i - 0.5;
            if(k == A.n + 2) for(int i = 0; i < A.n; ++i) s[i] = i % 2 ? -3 : 2;
            lanczos(A, s);
          }
          for(int c = 0; c < 3; ++c) ground(A, c);
        });
      });
    };
    matrices(all);
    for(int n = 5; n <= (mc::thorough ? 14 : 9); ++n) for(int k = 0; k < 6; ++k)
      mc::test([&] { return mc::fmt("dense %d, kind %d", n, k); }, [&] {
        mc::nontrivial();
        guarded([&] { for(int c = 0; c < 3; ++c) ground(big(n, k), c); });
      });
    for(int n : {16, 25, 40, 90}) for(int k = 0; k < 4; ++k)
      mc::test([&] { return mc::fmt("large %d, kind %d", n, k); }, [&] {
        mc::nontrivial();
        guarded([&] {
          for(int c = 0; c < 3; ++c) ground(wide(n, k), c);
          vec s(n);
          for(int i = 0; i < n; ++i) s[i] = std::cos(0.9 * i + k);
          lanczos(wide(n, k), s, 6);
        });
      });
  });
  mc::suite("resolvent", [&] {
    auto run = [&](const Sym& A, int nv, size_t c) {
      mc::test([&] { return mc::fmt("%s, %d vectors, code %zu", lin::str(A).c_str(), nv, c); }, [&] {
        auto V = starts(A.n, nv, c);
        double z = 0;
        for(auto& v : V) z = std::max(z, dot(v, v));
        if(z > 0) mc::nontrivial();
        guarded([&] { resolvent(A, V, 1e-6); });
      });
    };
    auto each = [&](const Sym& A) {
      for(int nv = 1; nv <= A.n + 1; ++nv) {
        size_t tot = 1;
        for(int i = 0; i < nv * A.n; ++i) tot *= 3;
        size_t step = tot > (mc::thorough ? 200 : 30) ? tot / (mc::thorough ? 200 : 30) | 1 : 1;
        for(size_t c = 1; c < tot; c += step) run(A, nv, c);
      }
    };
    lin::all_sym(1, {-1, 0, 2}, {0}, each);
    lin::all_sym(2, {-1, 0, 2}, {-1, 0, 0.5}, each);
    lin::all_sym(3, {-1, 2}, {-1, 0, 0.5}, each);
    for(int n = 4; n <= (mc::thorough ? 7 : 6); ++n) for(int k = 0; k < 4; ++k) for(int nv = 1; nv <= 4; ++nv) run(big(n, k), nv, 123456789 + k * 7919);
    for(int n : {9, 13, 20}) for(int k = 0; k < 3; ++k) for(int nv : {1, 2, 5, 9}) run(wide(n, k), nv, 0x3456789012345678ull + k * 791900000019ull);
  });
}
