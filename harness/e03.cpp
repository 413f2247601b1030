// E03: locally optimal block solver.
#include "lin.hpp"
#include <iostream>
#include <lobpcgxx/lobpcg.hpp>
using lin::Sym;
// an orthonormal N x K guess, column major: kind 0.. unit vectors starting at `kind`; -1.. rotated
std::vector<double> guess(int n, int k, int kind) {
  std::vector<double> X(n * k, 0.);
  if(kind >= 0) {
    for(int q = 0; q < k; ++q) X[(kind + q) % n + q * n] = 1;
    return X;
  }
  for(int q = 0; q < k; ++q)
    for(int i = 0; i < n; ++i) X[i + q * n] = std::cos(1.3 * (i + 1) * (q + 1) + 0.7 * kind * (i + 2)) + (i == q);
  for(int rep = 0; rep < 2; ++rep)
    for(int q = 0; q < k; ++q) {
      for(int p = 0; p < q; ++p) {
        double d = 0;
        for(int i = 0; i < n; ++i) d += X[i + p * n] * X[i + q * n];
        for(int i = 0; i < n; ++i) X[i + q * n] -= d * X[i + p * n];
      }
      double s = 0;
      for(int i = 0; i < n; ++i) s += X[i + q * n] * X[i + q * n];
      for(int i = 0; i < n; ++i) X[i + q * n] /= std::sqrt(s);
    }
  return X;
}
struct Cfg {
  int k, nr, kind, pad, extra, prec, iface, maxiter;
  double tol;
  bool must = false, lowest = false;
  std::string str() const { return mc::fmt("K=%d NR=%d guess %d padding %d workspace +%d preconditioner %d call form %d maxiter %d tol %g", k, nr, kind, pad, extra, prec, iface, maxiter, tol); }
};
template <class T>
void solve(const Sym& A, const std::vector<double>& w, const Cfg& c) {
  mc::executions(1);
  const int n = A.n, ld = n + c.pad;
  const double eps = sizeof(T) == 4 ? 2e-4 : 1e-8;
  auto g = guess(n, c.k, c.kind);
  std::vector<T> V(size_t(ld) * c.k + 1, T(77));
  for(int q = 0; q < c.k; ++q) for(int i = 0; i < n; ++i) V[i + q * ld] = g[i + q * n];
  auto V0 = V;
  int applied = 0;
  lobpcgxx::operator_action_type<T> mul = [&](int64_t m, int64_t k, const T* x, int64_t ldx, T* y, int64_t ldy) {
    ++applied;
    if(m != n || ldx < n || ldy < n || k < 1 || k > 3 * c.k) mc::fail("%s: operator called with %ld x %ld", c.str().c_str(), (long)m, (long)k);
    for(int64_t q = 0; q < k; ++q)
      for(int i = 0; i < n; ++i) {
        double s = 0;
        for(int j = 0; j < n; ++j) s += A(i, j) * x[j + q * ldx];
        y[i + q * ldy] = s;
      }
  };
  lobpcgxx::operator_action_type<T> pre = [&](int64_t m, int64_t k, const T* x, int64_t ldx, T* y, int64_t ldy) {
    if(m != n || ldx < n || ldy < n || k != c.k) mc::fail("%s: preconditioner called with %ld x %ld", c.str().c_str(), (long)m, (long)k);
    for(int64_t q = 0; q < k; ++q) for(int i = 0; i < n; ++i) y[i + q * ldy] = x[i + q * ldx] / (std::abs(A(i, i) + 2.5) + 0.5);
  };
  auto op = c.prec ? lobpcgxx::lobpcg_operator<T>(mul, pre) : lobpcgxx::lobpcg_operator<T>(mul);
  lobpcgxx::lobpcg_settings st;
  st.conv_tol = c.tol, st.maxiter = c.maxiter, st.print_iter = false, st.track_convergence = c.iface & 1;
  std::vector<T> lam(c.nr + 1, T(55)), res(c.nr + 1, T(56));
  int64_t lwork = lobpcgxx::lobpcg_lwork(n, c.k) + c.extra;
  if(lobpcgxx::lobpcg_lwork(n, c.k) != 8 * n * c.k + 9 * c.k * c.k + 5 * c.k) mc::fail("documented workspace changed");
  const int64_t lw0 = lwork;
  std::vector<T> work(lwork + 4, T(44));
  lobpcgxx::lobpcg_convergence<T> conv;
  bool ok = true;
  std::string err;
  std::vector<std::vector<T>> seen;
  bool absolute = false;
  try {
    switch(c.iface) {
      case 0: lobpcgxx::lobpcg(st, n, c.k, c.nr, op, lam.data(), V.data(), ld, res.data()); break;
      case 1: lobpcgxx::lobpcg(st, n, c.k, c.nr, op, lam.data(), V.data(), ld, res.data(), conv); break;
      case 2: lobpcgxx::lobpcg(st, n, c.k, c.nr, op, lam.data(), V.data(), ld, res.data(), work.data(), lwork); break;
      case 3: lobpcgxx::lobpcg(st, n, c.k, c.nr, op, lam.data(), V.data(), ld, res.data(), work.data(), lwork, conv); break;
      default: {
        absolute = true;
        lobpcgxx::lobpcg_convergence_check<T> chk = [&](int64_t nr, const T* a, const T* r, T tol) {
          if(nr != c.nr) mc::fail("%s: convergence asked for %ld residuals", c.str().c_str(), (long)nr);
          seen.push_back(std::vector<T>(a, a + nr));
          return lobpcgxx::lobpcg_absres_convergence_check<T>(nr, a, r, tol);
        };
        lobpcgxx::lobpcg(st, n, c.k, c.nr, op, lam.data(), V.data(), ld, res.data(), work.data(), lwork, chk, conv);
      }
    }
  } catch(const mc::Failure&) {
    throw;
  } catch(const std::exception& e) {
    ok = false, err = e.what();
  }
  if(c.iface >= 2) {
    if(lwork != lw0) mc::fail("%s: workspace length changed", c.str().c_str());
    // the documented minimum and whatever the caller declared beyond it may be used, nothing more
    for(int i = 0; i < 4; ++i) if(work[lwork + i] != T(44)) mc::fail("%s: wrote past the workspace", c.str().c_str());
    for(int64_t i = lobpcgxx::lobpcg_lwork(n, c.k); i < lwork; ++i) if(work[i] != T(44)) mc::fail("%s: used the workspace beyond the documented size", c.str().c_str());
  }
  for(int q = 0; q < c.k; ++q) for(int i = n; i < ld; ++i) if(V[i + q * ld] != T(77)) mc::fail("%s: padding of the vectors modified", c.str().c_str());
  if(V.back() != T(77) || lam.back() != T(55) || res.back() != T(56)) mc::fail("%s: wrote past an output", c.str().c_str());
  if(!ok) {
    mc::count("reported_failure");
    if(c.must) mc::fail("%s: gives up (%s)", c.str().c_str(), err.c_str());
    if(err.find("FAILED TO CONVERGE") != err.npos && c.maxiter > 0) {  // the last approximations come with their residuals
      mc::count("last_approximations_after_failure");
      double norm = 0;
      for(double x : A.a) norm = std::max(norm, std::abs(x));
      for(int q = 0; q < c.nr; ++q) {
        double r2 = 0, ax2 = 0;
        for(int i = 0; i < n; ++i) {
          double s = 0;
          for(int j = 0; j < n; ++j) s += A(i, j) * V[j + q * ld];
          ax2 += s * s;
          s -= lam[q] * V[i + q * ld];
          r2 += s * s;
        }
        double r = std::sqrt(r2), scale = std::sqrt(ax2) + std::abs(lam[q]);
        if(scale > 1e-12 && !(std::abs(res[q] * scale - r) <= eps * (norm * n + 1))) mc::fail("%s: after giving up, reported residual %d is %.6e, actual %.6e", c.str().c_str(), q, (double)res[q], r / scale);
      }
    }
    return;
  }
  mc::count("returned");
  if(c.maxiter == 0) mc::fail("%s: no iteration allowed, but returned normally", c.str().c_str());
  const int sound = c.kind < 0 ? c.k : c.nr;  // a dependent guess may leave empty vectors beyond the wanted ones
  for(int a = 0; a < sound; ++a)  // the vectors beyond the wanted ones belong to the answer
    for(int b = 0; b <= a; ++b) {
      double s = 0;
      for(int i = 0; i < n; ++i) s += V[i + a * ld] * V[i + b * ld];
      // the trial space nearly fills the whole space for n < 5K and its orthonormality degrades
      if(!(std::abs(s - (a == b)) < (n < 5 * c.k || c.k > 3 || sizeof(T) == 4 ? 1e-2 : 1e-7))) mc::fail("%s: vectors %d,%d have overlap %.12g", c.str().c_str(), a, b, s);
    }
  double norm = 0;
  for(double x : A.a) norm = std::max(norm, std::abs(x));
  norm *= n;
  for(int a = 0; a < sound; ++a)
    for(int b = 0; b < a; ++b) {
      double s = 0;
      for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) s += V[i + a * ld] * A(i, j) * V[j + b * ld];
      if(!(std::abs(s) <= (n < 5 * c.k || c.k > 3 || sizeof(T) == 4 ? 1e-2 : 1e-6) * (norm + 1))) mc::fail("%s: vectors %d,%d couple by %.6e", c.str().c_str(), a, b, s);
    }
  if(c.iface == 1 || c.iface == 3)
    for(int q = 0; q < sound && conv.conv_data.size(); ++q) {
      double s = 0;
      for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) s += V[i + q * ld] * A(i, j) * V[j + q * ld];
      if(!(std::abs(s - conv.conv_data.back().W.at(q)) <= (n < 5 * c.k || c.k > 3 || sizeof(T) == 4 ? 1e-2 : 1e-6) * (norm + 1))) mc::fail("%s: vector %d has energy %.12g, recorded %.12g", c.str().c_str(), q, s, (double)conv.conv_data.back().W[q]);
    }
  for(int q = 0; q < c.nr; ++q) {
    if(!std::isfinite(lam[q])) mc::fail("%s: value %d is not a number", c.str().c_str(), q);
    if(q && lam[q] < lam[q - 1]) mc::fail("%s: values %s not ascending", c.str().c_str(), mc::str(lam).c_str());
    double r2 = 0, ax2 = 0;
    for(int i = 0; i < n; ++i) {
      double s = 0;
      for(int j = 0; j < n; ++j) s += A(i, j) * V[j + q * ld];
      ax2 += s * s;
      s -= lam[q] * V[i + q * ld];
      r2 += s * s;
    }
    double r = std::sqrt(r2), rel = r / (std::sqrt(ax2) + std::abs(lam[q]));
    double slack = eps * (norm + 1);
    double scale = std::sqrt(ax2) + std::abs(lam[q]);
    if(!(r <= (absolute ? c.tol : c.tol * scale) * 1.001 + slack)) mc::fail("%s: residual %d is %.3e (relative %.3e), value %.12g", c.str().c_str(), q, r, rel, (double)lam[q]);
    if(scale > 1e-12 && !(std::abs(res[q] * scale - r) <= slack)) mc::fail("%s: reported relative residual %d is %.6e, actual %.6e", c.str().c_str(), q, (double)res[q], rel);
    if(c.lowest && !(std::abs(lam[q] - w[q]) <= 2 * r + slack * 10)) mc::fail("%s: value %d is %.12g, expected %.12g", c.str().c_str(), q, (double)lam[q], w[q]);
    double best = 1e99;
    for(double x : w) best = std::min(best, std::abs(x - lam[q]));
    if(!(best <= r + slack)) mc::fail("%s: value %d = %.12g is not an eigenvalue", c.str().c_str(), q, (double)lam[q]);
  }
  if(c.iface == 1 || c.iface == 3) {
    if(conv.conv_data.empty() || (int)conv.conv_data.size() > c.maxiter) mc::fail("%s: %zu iterations recorded", c.str().c_str(), conv.conv_data.size());
    if((int)conv.conv_data.size() > 20) mc::count("runs_beyond_20_iterations");
    auto& last = conv.conv_data.back();
    for(int q = 0; q < c.nr; ++q)
      if(last.W.at(q) != lam[q] || last.rel_res.at(q) != res[q]) mc::fail("%s: recorded convergence differs from the result", c.str().c_str());
    for(auto& d : conv.conv_data) {
      if((int)d.W.size() != c.k || (int)d.res.size() != c.k || (int)d.rel_res.size() != c.k) mc::fail("%s: recorded convergence has wrong length", c.str().c_str());
      bool conv_here = true;
      for(int q = 0; q < c.nr; ++q) conv_here &= d.rel_res[q] < (T)c.tol;
      if(conv_here != (&d == &conv.conv_data.back())) mc::fail("%s: the convergence test and the iteration's end disagree", c.str().c_str());
    }
  } else if(conv.conv_data.size())
    mc::fail("%s: convergence recorded though not asked for", c.str().c_str());
  if(c.iface == 4)
    for(size_t i = 0; i < seen.size(); ++i) {
      bool all = true;
      for(T x : seen[i]) all &= x < (T)c.tol;
      if(all != (i + 1 == seen.size())) mc::fail("%s: absolute convergence test not followed", c.str().c_str());
    }
}
void every(const Sym& A, bool must, bool lowest, int kmax, int maxiter) {
  std::vector<double> w;
  std::vector<std::vector<double>> v;
  lin::jacobi(A, w, v);
  int c = mc::index();
  for(int k = 1; k <= kmax; ++k)
    for(int nr = 1; nr <= k; ++nr)
      for(int kind : {-2, -1, 0, 1}) {
        ++c;
        Cfg x{k, nr, kind, c % 3, c % 2 * 5, (c / 2) % 2, c % 5, maxiter, (c % 2) ? 1e-6 : 1e-4};
        x.must = must && kind < 0 && A.n >= 5 * k;
        x.lowest = lowest && kind < 0 && x.tol < 1e-5;
        solve<double>(A, w, x);
        if(c % 4 == 0) {
          x.tol = 1e-3, x.must = x.lowest = false;
          x.iface = (c / 4) % 5;
          solve<float>(A, w, x);
        }
      }
}
void mc_main() {
  auto alphabet = [](const char* name, int n, std::vector<double> d, std::vector<double> o) {
    mc::suite(name, [&] {
      lin::all_sym(n, d, o, [&](const Sym& A) {
        mc::test([&] { return lin::str(A); }, [&] {
          bool off = false;
          for(int i = 0; i < n; ++i) for(int j = 0; j < i; ++j) off |= A(i, j) != 0;
          if(off) mc::nontrivial();
          every(A, false, false, n < 3 ? n : 2, 30);
        });
      });
    });
  };
  alphabet("alphabet-1", 1, {-1, 0, 2}, {0});
  alphabet("alphabet-2", 2, {-1, 0, 2}, {0, 1, -0.5});
  alphabet("alphabet-3", 3, {-1, 0, 2}, {0, 1, -0.5});
  if(mc::thorough) {
    alphabet("alphabet-3b", 3, {-1, 0, 1, 2.5}, {0, 1, -0.5, 3});
    alphabet("alphabet-4", 4, {-1, 0, 2}, {0, 1, -0.5});
    alphabet("alphabet-5", 5, {-1, 2}, {0, 1});
  } else
    alphabet("alphabet-4", 4, {0, 2}, {0, 1, -0.5});
  for(int n = 3; n <= (mc::thorough ? 14 : 10); ++n)
    mc::suite(mc::fmt("generic-%d", n).c_str(), [&] {
      for(int s = 0; s < (mc::thorough ? 60 : 20); ++s)
        for(int gap = 0; gap < 3; ++gap)
          for(double scale : {0.02, 0.3, 1.}) {
            Sym A(n);
            for(int i = 0; i < n; ++i) A(i, i) = gap == 0 ? -1.3 + 1.17 * ((i * 5 + s) % n) : gap == 1 ? 0.1 * i + (i > n / 2) * 50. : -2. + 0.03 * i * i;
            for(int i = 0; i < n; ++i)
              for(int j = i + 1; j < n; ++j) A(i, j) = A(j, i) = scale * std::sin(1.7 + 2.3 * i + 3.1 * j + 0.9 * s + 0.37 * i * j * (s + 1));
            mc::test([&] { return lin::str(A); }, [&] {
              mc::nontrivial();
              every(A, true, true, n / 3, 500);
            });
          }
    });
  // slow convergence: many iterations, the periodic recomputation included
  mc::suite("slow", [&] {
    for(int n : {12, 20, 30, 48})
      for(int s = 0; s < 6; ++s)
        mc::test([&] { return mc::fmt("Laplacian-like n=%d variant %d", n, s); }, [&] {
          mc::nontrivial();
          Sym A(n);
          for(int i = 0; i < n; ++i) A(i, i) = 2 + 0.001 * s * i, i ? A(i, i - 1) = A(i - 1, i) = -1 : 0;
          for(int i = 0; i < n; ++i) A(i, i) += s % 2 ? 0.5 * (i % 3) : 0;
          every(A, n <= 30, true, n > 40 ? 7 : 3, 2000);
        });
  });
  mc::suite("limits", [&] {
    for(int n = 3; n <= 9; ++n)
      for(int k = 1; k <= n / 3; ++k)
        mc::test([&] { return mc::fmt("n=%d K=%d", n, k); }, [&] {
          mc::nontrivial();
          Sym A(n);
          for(int i = 0; i < n; ++i) A(i, i) = i * 1.1 - 0.5, i ? A(i, i - 1) = A(i - 1, i) = 0.4 : 0;
          std::vector<double> w;
          std::vector<std::vector<double>> v;
          lin::jacobi(A, w, v);
          for(int it = 0; it <= 3; ++it) solve<double>(A, w, Cfg{k, k, -1, 1, 3, 0, it + 1, it, 1e-14});
          // no convergence within the limit has to be reported
          lobpcgxx::operator_action_type<double> mul = [&](int64_t m, int64_t kk, const double* x, int64_t ldx, double* y, int64_t ldy) {
            for(int q = 0; q < kk; ++q) for(int i = 0; i < n; ++i) { y[i + q * ldy] = 0; for(int j = 0; j < n; ++j) y[i + q * ldy] += A(i, j) * x[j + q * ldx]; }
          };
          lobpcgxx::lobpcg_operator<double> op(mul);
          lobpcgxx::lobpcg_settings st;
          st.print_iter = false;
          auto g = guess(n, k, -1);
          const int64_t need = lobpcgxx::lobpcg_lwork(n, k);
          auto attempt = [&](int64_t lw, int maxiter, double tol, bool expect, const char* what) {
            mc::executions(1);
            auto V = g;
            std::vector<double> lam(k, 5.), res(k, 5.), work(std::max<int64_t>(lw, 0) + 1, 3.);
            st.maxiter = maxiter, st.conv_tol = tol;
            bool threw = false;
            int64_t l = lw;
            try { lobpcgxx::lobpcg(st, n, k, k, op, lam.data(), V.data(), n, res.data(), work.data(), l); } catch(const std::exception&) { threw = true; }
            if(threw != expect) mc::fail("%s: %s", what, threw ? "rejected" : "accepted");
            if(threw && lw < need && (V != g || lam != std::vector<double>(k, 5.) || work != std::vector<double>(work.size(), 3.))) mc::fail("%s: data modified", what);
            if(lw < 0 && (l != need || V != g)) mc::fail("workspace query answers %ld, expected %ld", (long)l, (long)need);
          };
          for(int64_t l : {int64_t(0), int64_t(1), need / 2, need - 1}) attempt(l, 100, 1e-6, true, "workspace too small");
          attempt(-1, 100, 1e-6, false, "workspace query");
          attempt(need, -1, 1e-6, true, "negative iteration limit");
          attempt(need, 100, -1e-6, true, "negative tolerance");
          attempt(need, 1, 1e-13, true, "one iteration");
          bool threw = false;
          try { lobpcgxx::lobpcg_operator<double> bad(lobpcgxx::operator_action_type<double>{}); } catch(const std::exception&) { threw = true; }
          if(!threw) mc::fail("empty operator accepted");
        });
  });
  // Cholesky orthogonalisation and Rayleigh-Ritz on their own
  mc::suite("parts", [&] {
    for(int n = 1; n <= 5; ++n)
      for(int k = 1; k <= n; ++k)
        for(int pad = 0; pad < 2; ++pad)
          for(int s = 0; s < 20; ++s)
            mc::test([&] { return mc::fmt("n=%d K=%d padding %d variant %d", n, k, pad, s); }, [&] {
              mc::nontrivial();
              mc::executions(1);
              const int ld = n + pad;
              std::vector<double> V(ld * k + 1, 77.);
              for(int q = 0; q < k; ++q) for(int i = 0; i < n; ++i) V[i + q * ld] = std::sin(1. + 2.1 * i + 3.7 * q * (s + 1)) + 2 * (i == q);
              auto V0 = V;
              lobpcgxx::cholqr(n, k, V.data(), ld);
              for(int q = 0; q < k; ++q) for(int i = n; i < ld; ++i) if(V[i + q * ld] != 77.) mc::fail("padding modified");
              for(int a = 0; a < k; ++a) for(int b = 0; b < k; ++b) {
                double o = 0;
                for(int i = 0; i < n; ++i) o += V[i + a * ld] * V[i + b * ld];
                if(!(std::abs(o - (a == b)) < 1e-10)) mc::fail("columns %d,%d have overlap %g", a, b, o);
              }
              // spans the same space, triangularly: the residual of original column q against columns 0..q vanishes
              for(int q = 0; q < k; ++q) {
                std::vector<double> r(n);
                for(int i = 0; i < n; ++i) r[i] = V0[i + q * ld];
                for(int p = 0; p <= q; ++p) { double d = 0; for(int i = 0; i < n; ++i) d += V[i + p * ld] * V0[i + q * ld]; for(int i = 0; i < n; ++i) r[i] -= d * V[i + p * ld]; }
                for(double x : r) if(!(std::abs(x) < 1e-9)) mc::fail("column %d leaves the span of the first columns", q);
              }
              Sym A(n);
              for(int i = 0; i < n; ++i) for(int j = 0; j <= i; ++j) A(i, j) = A(j, i) = std::cos(i * 1.3 + j * 0.7 + s) + (i == j) * i;
              std::vector<double> AX(ld * k, 5.), W(k + 1, 9.), C(k * (k + pad) + 1, 9.);
              for(int q = 0; q < k; ++q) for(int i = 0; i < n; ++i) { AX[i + q * ld] = 0; for(int j = 0; j < n; ++j) AX[i + q * ld] += A(i, j) * V[j + q * ld]; }
              auto Vx = V, AX0 = AX;
              lobpcgxx::rayleigh_ritz(n, k, V.data(), ld, AX.data(), ld, W.data(), C.data(), k + pad);
              if(V != Vx || AX != AX0 || W[k] != 9. || C.back() != 9.) mc::fail("inputs or padding modified");
              Sym S(k);
              for(int a = 0; a < k; ++a) for(int b = 0; b <= a; ++b) { double h = 0; for(int i = 0; i < n; ++i) h += V[i + a * ld] * AX[i + b * ld]; S(a, b) = S(b, a) = h; }
              std::vector<double> w;
              std::vector<std::vector<double>> v;
              lin::jacobi(S, w, v);
              for(int a = 0; a < k; ++a) if(!mc::near(W[a], w[a])) mc::fail("Ritz value %d is %.12g, expected %.12g", a, W[a], w[a]);
              // rotation and residuals
              std::vector<double> X = V, work(n * k + 1, 6.), R(ld * k + 1, 8.), ab(k + 1, 8.), re(k + 1, 8.);
              lobpcgxx::rotate_basis(n, k, k, X.data(), ld, C.data(), k + pad, work.data());
              if(work.back() != 6. || X.back() != 77.) mc::fail("rotation writes past its arrays");
              auto AXr = AX;
              AXr.push_back(3.);
              lobpcgxx::rotate_basis(n, k, k, AXr.data(), ld, C.data(), k + pad, work.data());
              lobpcgxx::residuals(n, k, X.data(), ld, AXr.data(), ld, W.data(), R.data(), ld, ab.data(), re.data());
              if(ab[k] != 8. || re[k] != 8. || R.back() != 8. || AXr.back() != 3.) mc::fail("residuals write past their arrays");
              for(int q = 0; q < k; ++q) {
                double nn = 0, ax = 0;
                for(int i = 0; i < n; ++i) {
                  double x = 0, y = 0;
                  for(int a = 0; a < k; ++a) x += V[i + a * ld] * C[a + q * (k + pad)];
                  if(!mc::near(x, X[i + q * ld])) mc::fail("rotated element wrong");
                  for(int j = 0; j < n; ++j) y += A(i, j) * X[j + q * ld];
                  ax += y * y;
                  y -= W[q] * X[i + q * ld];
                  if(!mc::near(y, R[i + q * ld])) mc::fail("residual element wrong");
                  nn += y * y;
                }
                if(!mc::near(std::sqrt(nn), ab[q])) mc::fail("residual norm %d is %g, expected %g", q, ab[q], std::sqrt(nn));
                if(std::sqrt(ax) + std::abs(W[q]) > 1e-6 && !mc::near(std::sqrt(nn) / (std::sqrt(ax) + std::abs(W[q])), re[q])) mc::fail("relative residual norm wrong");
              }
            });
  });
}
