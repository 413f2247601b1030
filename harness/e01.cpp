// E01: serial Davidson.
#include "dav.hpp"
using lin::Sym;

struct Stat { int ret = 0, threw = 0; };
// must: the run has to succeed; low: and to find the lowest value
void solve(const Sym& A, const std::vector<double>& x0, int max_m, double tol, int opk, bool must, bool low_if_component) {
  quiet();
  mc::executions(1);
  std::vector<double> w, D(A.n);
  std::vector<std::vector<double>> v;
  lin::jacobi(A, w, v);
  for(int i = 0; i < A.n; ++i) D[i] = A(i, i);
  auto D0 = D;
  auto X = x0;
  double lam = 0;
  size_t it = 0;
  auto M = to_csr(A, opk == 2);
  try {
    if(opk) {
      macis::SparseMatrixOperator op(M);
      auto [n, l] = macis::davidson(A.n, max_m, op, D.data(), tol, X.data());
      lam = l, it = n;
    } else {
      DenseOp op{A};
      auto [n, l] = macis::davidson(A.n, max_m, op, D.data(), tol, X.data());
      lam = l, it = n;
    }
  } catch(const mc::Failure&) {
    throw;
  } catch(const std::exception& e) {
    mc::count("reported_failure");
    if(must) mc::fail("max_m=%d guess %s: gives up (%s)", max_m, mc::str(x0).c_str(), e.what());
    return;
  }
  mc::count("returned");
  if(D != D0) mc::fail("diagonal modified");
  judge_pair(A, lam, X, tol, mc::fmt("max_m=%d guess %s", max_m, mc::str(x0).c_str()).c_str());
  if((int)it >= std::max(1, std::min(max_m, A.n))) mc::fail("max_m=%d guess %s: returned iteration count %zu", max_m, mc::str(x0).c_str(), it);
  if(low_if_component && max_m >= A.n) {
    double c = 0, nn = 0;
    for(int i = 0; i < A.n; ++i) nn += x0[i] * x0[i];
    for(int k = 0; k < A.n && w[k] < w[0] + 1e-9; ++k) {
      double d = 0;
      for(int i = 0; i < A.n; ++i) d += v[k][i] * x0[i];
      c += d * d / nn;
    }
    if(c > 1e-8 && !mc::near(lam, w[0], 10 * tol)) mc::fail("max_m=%d guess %s: value %.12g, the lowest is %.12g", max_m, mc::str(x0).c_str(), lam, w[0]);
  }
}
void alphabet(const char* name, int n, const std::vector<double>& d, const std::vector<double>& o) {
  mc::suite(name, [&] {
    lin::all_sym(n, d, o, [&](const Sym& A) {
      mc::test([&] { return lin::str(A); }, [&] {
        bool off = false;
        for(int i = 0; i < n; ++i) for(int j = 0; j < i; ++j) off |= A(i, j) != 0;
        if(off) mc::nontrivial();
        int c = 0;
        for(auto& g : guesses(n))
          for(int m = 1; m <= n + 2; ++m) solve(A, g, m, m % 2 ? 1e-8 : 1e-6, ++c % 3, false, true);
      });
    });
  });
}
// dense couplings, distinct diagonals: nothing can break down, so the solver has to succeed
void generic(int n) {
  mc::suite(mc::fmt("generic-%d", n).c_str(), [&] {
    std::vector<int> p(n);
    std::iota(p.begin(), p.end(), 0);
    do
      for(int s = 0; s < 12; ++s)
        for(double scale : {0.05, 0.3, 1.}) {
          Sym A(n);
          for(int i = 0; i < n; ++i) A(i, i) = -1.3 + 1.17 * p[i] + 0.013 * i;
          for(int i = 0; i < n; ++i)
            for(int j = i + 1; j < n; ++j) A(i, j) = A(j, i) = scale * std::sin(1.7 + 2.3 * i + 3.1 * j + 0.9 * s + 0.37 * i * j * (s + 1));
          mc::test([&] { return lin::str(A); }, [&] {
            mc::nontrivial();
            int best = 0;
            for(int i = 0; i < n; ++i) if(A(i, i) < A(best, best)) best = i;
            std::vector<double> e(n, 0.), f(n);
            e[best] = 1;
            for(int i = 0; i < n; ++i) f[i] = 0.7 + 0.31 * ((i * 5) % 7) - 0.05 * i * i;
            for(double tol : {1e-6, 1e-9}) {
              solve(A, e, n, tol, s % 3, true, true);
              solve(A, e, n + 5, tol, s % 3, true, true);
              solve(A, f, n, tol, s % 3, true, true);
            }
            // from the (rounded) answer and scaled versions of it
            std::vector<double> w;
            std::vector<std::vector<double>> v;
            lin::jacobi(A, w, v);
            solve(A, v[0], n, 1e-8, 0, true, true);
            for(auto& x : v[0]) x *= -3;
            solve(A, v[0], n, 1e-8, 1, true, true);
          });
        }
    while(std::next_permutation(p.begin(), p.end()));
  });
}
// larger spaces, from few steps to (almost) the whole space
void larger() {
  mc::suite("larger", [&] {
    std::vector<int> ns{7, 8, 12, 16, 17, 24, 33, 40, 65, 80, 130};
    if(mc::thorough) ns.insert(ns.end(), {101, 129, 150, 200});
    for(int n : ns)
      for(int form = 0; form < 4; ++form)
        for(int s = 0; s < (n < 100 || mc::thorough ? 3 : 1); ++s)
          mc::test([&] { return mc::fmt("%d rows, form %d, signs %d", n, form, s); }, [&] {
            mc::nontrivial();
            Sym A(n);
            // well separated with weak couplings; banded; almost flat diagonal; one strong row
            for(int i = 0; i < n; ++i) A(i, i) = form == 2 ? 0.01 * ((i * 7) % n) : form == 1 ? 0.5 * ((i * 3 + s) % n) : -1.3 + 1.17 * ((i * (s + 2)) % n) + 0.013 * i;
            for(int i = 0; i < n; ++i)
              for(int j = i + 1; j < n; ++j) {
                double c = std::sin(1.7 + 2.3 * i + 3.1 * j + 0.9 * s + 0.37 * i * j * (s + 1));
                if(form == 0) c *= 0.3;
                if(form == 1 && j > i + 2 + s) c = 0;
                if(form == 3) c *= i == n / 2 || j == n / 2 ? 2. : 0.05;
                A(i, j) = A(j, i) = c;
              }
            int best = 0;
            for(int i = 0; i < n; ++i) if(A(i, i) < A(best, best)) best = i;
            std::vector<double> e(n, 0.), f(n);
            e[best] = 1;
            for(int i = 0; i < n; ++i) f[i] = 0.7 + 0.31 * ((i * 5) % 7) - 0.02 * i;
            for(double tol : {1e-5, 1e-8}) {
              solve(A, e, n, tol, s % 3, form != 1, form != 1);
              solve(A, f, n + 50, tol, (s + 1) % 3, form != 1, form != 1);
              for(int m : {2, 5, n / 2, n - 1}) solve(A, s % 2 ? e : f, m, tol, (s + 2) % 3, false, false);
            }
          });
  });
}
void exact_start() {
  mc::suite("exact-start", [&] {
    for(int n = 1; n <= 4; ++n)
      lin::all_sym(n, {-1, 0, 2}, {0}, [&](const Sym& A) {
        for(int k = 0; k < n; ++k)
          for(int m = 1; m <= n + 1; ++m)
            mc::test([&] { return lin::str(A) + mc::fmt(" from unit vector %d, max_m=%d", k, m); }, [&] {
              mc::nontrivial();
              double lo = 1e9;
              for(int i = 0; i < n; ++i) lo = std::min(lo, A(i, i));
              for(double s : {1., -2.5}) {
                std::vector<double> x(n, 0.);
                x[k] = s;
                solve(A, x, m, 1e-8, m % 3, true, A(k, k) == lo);
              }
            });
      });
    for(int i = 0; i < 2; ++i)
      mc::test([&] { return mc::fmt("no starting vector %d", i); }, [&] {
        quiet();
        Sym A(2);
        DenseOp op{A};
        bool threw = false;
        double D[2] = {0, 0};
        try { macis::davidson(2, 2, op, D, 1e-8, (double*)nullptr); } catch(const std::exception&) { threw = true; }
        if(!threw) mc::fail("accepted");
      });
  });
}
void parts() {
  mc::suite("gram-schmidt", [&] {
    auto one = [](int n, int k, int pad, int c) {
      mc::test([&] { return mc::fmt("n=%d, against %d vectors, padding %d, case %d", n, k, pad, c); }, [&] {
        std::vector<double> V((n + pad) * std::max(k, 1), 77.), x(n + 1, 55.);
        // rotated orthonormal basis
        Sym A(n);
        for(int i = 0; i < n; ++i) for(int j = 0; j <= i; ++j) A(i, j) = A(j, i) = ((i * 3 + j * 5 + c) % 4) - 1.5;
        std::vector<double> w;
        std::vector<std::vector<double>> v;
        lin::jacobi(A, w, v);
        for(int q = 0; q < k; ++q) for(int i = 0; i < n; ++i) V[i + q * (n + pad)] = v[q][i];
        double rest = 0;
        for(int i = 0, t = c; i < n; ++i, t /= 3) x[i] = (t % 3) - 1 + 0.1 * i;
        std::vector<double> y(x.begin(), x.begin() + n);
        for(int rep = 0; rep < 3; ++rep)
          for(int q = 0; q < k; ++q) {
            double d = 0;
            for(int i = 0; i < n; ++i) d += y[i] * v[q][i];
            for(int i = 0; i < n; ++i) y[i] -= d * v[q][i];
          }
        for(double t : y) rest += t * t;
        rest = std::sqrt(rest);
        if(rest < 1e-3) return;
        mc::nontrivial();
        mc::executions(1);
        auto V0 = V;
        macis::gram_schmidt(n, k, V.data(), n + pad, x.data());
        if(V != V0) mc::fail("basis modified");
        if(x[n] != 55.) mc::fail("wrote past the vector");
        for(int i = 0; i < n; ++i) if(!mc::near(x[i], y[i] / rest, 1e-10)) mc::fail("element %d is %.12g, expected %.12g", i, x[i], y[i] / rest);
      });
    };
    for(int n = 1; n <= 4; ++n) for(int k = 0; k < n; ++k) for(int pad = 0; pad < 2; ++pad) for(int c = 0; c < 81; ++c) one(n, k, pad, c);
    for(auto z : {std::pair{12, 9}, {20, 17}, {40, 33}, {90, 65}, {150, 129}}) for(int pad = 0; pad < 2; ++pad) one(z.first, z.second, pad, z.first + pad);
  });
  mc::suite("diagonal-guess", [&] {
    for(int n = 1; n <= 4; ++n)
      lin::all_sym(n, {-1, 0.5, 2}, {0, 1}, [&](const Sym& A) {
        for(int i = 0; i < n; ++i) if(A(i, i) == 0) return;
        mc::test([&] { return lin::str(A); }, [&] {
          mc::nontrivial();
          mc::executions(1);
          std::vector<double> X(n + 1, 0.);
          X[n] = 9;
          macis::diagonal_guess(n, to_csr(A, n % 2), X.data());
          int one = -1;
          for(int i = 0; i < n; ++i) {
            if(X[i] == 1. && one < 0) one = i;
            else if(X[i] != 0.) mc::fail("guess is not a unit vector");
          }
          if(one < 0) mc::fail("guess is zero");
          for(int i = 0; i < n; ++i) if(A(i, i) < A(one, one)) mc::fail("guess selects diagonal %g, not the smallest", A(one, one));
          if(X[n] != 9) mc::fail("wrote past the vector");
        });
      });
  });
}
void mc_main() {
  larger();
  exact_start();
  parts();
  alphabet("alphabet-1", 1, {-1, 0, 2}, {0});
  alphabet("alphabet-2", 2, {-1, 0, 1, 2.5}, {0, 1, -0.5, 3});
  alphabet("alphabet-3", 3, {-1, 0, 2}, {0, 1, -0.5});
  if(mc::thorough) {
    alphabet("alphabet-3b", 3, {-1, 0, 1, 2.5}, {0, 1, -0.5, 3});
    alphabet("alphabet-4", 4, {-1, 0, 2}, {0, 1, -0.5});
    generic(6);
  } else
    alphabet("alphabet-4", 4, {0, 2}, {0, 1});
  for(int n = 2; n <= 5; ++n) generic(n);
}
