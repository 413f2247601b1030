// E02: distributed Davidson.
#include "dav.hpp"
#include <sparsexx/matrix_types/dist_sparse_matrix.hpp>
using lin::Sym;
using csr_t = sparsexx::csr_matrix<double, int32_t>;
using dist_t = sparsexx::dist_sparse_matrix<csr_t>;

template <class F>
void partitions(int n, int p, const F& f) {
  std::vector<int> s(p, 0);
  std::function<void(int, int)> rec = [&](int i, int left) {
    if(i == p - 1) { s[i] = left; f(s); return; }
    for(int k = 0; k <= left; ++k) { s[i] = k; rec(i + 1, left - k); }
  };
  rec(0, n);
}
std::vector<std::pair<int, int>> tiles(const std::vector<int>& sizes) {
  std::vector<std::pair<int, int>> t;
  int lo = 0;
  for(int s : sizes) t.push_back({lo, lo + s}), lo += s;
  return t;
}
std::unique_ptr<dist_t> distribute(const Sym& A, const std::vector<int>& sizes, int base) {
  std::vector<std::pair<int32_t, int32_t>> t;
  for(auto& p : tiles(sizes)) t.push_back(p);
  return std::make_unique<dist_t>(mc::comm(), to_csr(A, base), t);
}
// one vector only, like the distributed sparse operator
struct GatherOp {
  const Sym& A;
  std::vector<std::pair<int, int>> t;
  int r;
  void operator_action(size_t, double alpha, const double* V, size_t, double beta, double* AV, size_t) const {
    std::vector<double> x(A.n);
    std::vector<int> c, d;
    for(auto& p : t) c.push_back(p.second - p.first), d.push_back(p.first);
    MPI_Allgatherv(V, c[r], MPI_DOUBLE, x.data(), c.data(), d.data(), MPI_DOUBLE, mc::comm());
    for(int i = t[r].first; i < t[r].second; ++i) {
      double s = 0;
      for(int j = 0; j < A.n; ++j) s += A(i, j) * x[j];
      double& y = AV[i - t[r].first];
      y = alpha * s + (beta == 0 ? 0 : beta * y);
    }
  }
};
struct Out {
  bool ok = false;
  std::string err;
  double lam = 0;
  long it = 0;
};
void solve(const Sym& A, const std::vector<int>& sizes, const std::vector<double>& x0, int max_m, double tol, int opk, bool must, const smpi::Opts& o) {
  quiet();
  const int nr = sizes.size();
  auto t = tiles(sizes);
  std::vector<double> w;
  std::vector<std::vector<double>> v;
  lin::jacobi(A, w, v);
  auto who = mc::fmt("rows %s max_m=%d guess %s op %d", mc::str(sizes).c_str(), max_m, mc::str(x0).c_str(), opk);
  std::vector<Out> res;
  std::vector<double> X;
  mc::mpi(nr,
          [&]() {
            res.assign(nr, Out());
            X = x0;
            return [&](int r) {
              const int m = sizes[r];
              // guarded pieces
              std::vector<double> D(m + 1, 31.), Xl(m + 1, 33.);
              double* const xp = m || max_m % 2 ? Xl.data() : nullptr;  // a process without rows may have no vector
              for(int i = 0; i < m; ++i) D[i] = A(t[r].first + i, t[r].first + i), Xl[i] = x0[t[r].first + i];
              auto D0 = D;
              try {
                if(opk == 0) {
                  GatherOp op{A, t, r};
                  auto [n, l] = macis::p_davidson(m, max_m, op, D.data(), tol, xp, mc::comm());
                  res[r].it = n, res[r].lam = l;
                } else {
                  auto M = distribute(A, sizes, opk - 1);
                  macis::SparseMatrixOperator op(*M);
                  auto [n, l] = macis::p_davidson(m, max_m, op, D.data(), tol, xp, mc::comm());
                  res[r].it = n, res[r].lam = l;
                }
                res[r].ok = true;
              } catch(const std::exception& e) {
                if(dynamic_cast<const mc::Failure*>(&e)) throw;
                res[r].err = e.what();
              }
              if(D != D0) mc::fail("%s: diagonal modified", who.c_str());
              if(Xl[m] != 33.) mc::fail("%s: wrote past the vector", who.c_str());
              std::copy_n(Xl.begin(), m, X.begin() + t[r].first);
            };
          },
          [&](const smpi::Result& R) {
            if(!R.error.empty()) mc::fail("%s: %s", who.c_str(), R.error.c_str());
            for(auto& s : R.threw) if(!s.empty()) mc::fail("%s: %s", who.c_str(), s.c_str());
            for(int r = 1; r < nr; ++r)
              if(res[r].ok != res[0].ok || res[r].lam != res[0].lam || res[r].it != res[0].it)
                mc::fail("%s: rank %d returns %d/%.17g/%ld (%s), rank 0 %d/%.17g/%ld (%s)", who.c_str(), r, res[r].ok, res[r].lam, res[r].it, res[r].err.c_str(), res[0].ok,
                         res[0].lam, res[0].it, res[0].err.c_str());
            if(!res[0].ok) {
              mc::count("reported_failure");
              if(must) mc::fail("%s: gives up (%s)", who.c_str(), res[0].err.c_str());
              return;
            }
            mc::count("returned");
            judge_pair(A, res[0].lam, X, tol, who.c_str());
            if(res[0].it >= std::max(1, std::min(max_m, A.n))) mc::fail("%s: returned iteration count %ld", who.c_str(), res[0].it);
            if(max_m >= A.n) {
              double c = 0, nn = 0;
              for(int i = 0; i < A.n; ++i) nn += x0[i] * x0[i];
              for(int k = 0; k < A.n && w[k] < w[0] + 1e-9; ++k) {
                double d = 0;
                for(int i = 0; i < A.n; ++i) d += v[k][i] * x0[i];
                c += d * d / nn;
              }
              if(c > 1e-8 && !mc::near(res[0].lam, w[0], 10 * tol)) mc::fail("%s: value %.12g, the lowest is %.12g", who.c_str(), res[0].lam, w[0]);
            }
          },
          o);
}
smpi::Opts cheap() {
  auto o = mc::few_schedules();
  o.modes = {0};
  return o;
}
void alphabet(const char* name, int n, const std::vector<double>& d, const std::vector<double>& o, int maxr) {
  mc::suite(name, [&] {
    for(int nr = 1; nr <= maxr; ++nr)
      partitions(n, nr, [&](const std::vector<int>& s) {
        lin::all_sym(n, d, o, [&](const Sym& A) {
          mc::test([&] { return lin::str(A) + " rows " + mc::str(s); }, [&] {
            somp::set(somp::Config{});
            if(nr > 1) mc::nontrivial();
            int c = mc::index();
            auto g = guesses(n);
            for(int m = 1; m <= n + 2; ++m, ++c) solve(A, s, g[c % g.size()], m, m % 2 ? 1e-8 : 1e-6, c % 3, false, cheap());
          });
        });
      });
  });
}
Sym family(const std::vector<int>& p, int s, double scale) {
  const int n = p.size();
  Sym A(n);
  for(int i = 0; i < n; ++i) A(i, i) = -1.3 + 1.17 * p[i] + 0.013 * i;
  for(int i = 0; i < n; ++i)
    for(int j = i + 1; j < n; ++j) A(i, j) = A(j, i) = scale * std::sin(1.7 + 2.3 * i + 3.1 * j + 0.9 * s + 0.37 * i * j * (s + 1));
  return A;
}
void generic(int n, int maxr) {
  mc::suite(mc::fmt("generic-%d", n).c_str(), [&] {
    for(int nr = 1; nr <= maxr; ++nr)
      partitions(n, nr, [&](const std::vector<int>& sz) {
        for(int s = 0; s < (mc::thorough ? 6 : 2); ++s)
          for(double scale : {0.05, 0.7}) {
            std::vector<int> p(n);
            for(int i = 0; i < n; ++i) p[i] = (i * (s % 2 ? 1 : n - 1) + s + n) % n;
            Sym A = family(p, s, scale);
            mc::test([&] { return lin::str(A) + " rows " + mc::str(sz); }, [&] {
              somp::set(somp::Config{});
              if(nr > 1) mc::nontrivial();
              int best = 0;
              for(int i = 0; i < n; ++i) if(A(i, i) < A(best, best)) best = i;
              std::vector<double> e(n, 0.), f(n);
              e[best] = 1;
              for(int i = 0; i < n; ++i) f[i] = 0.7 + 0.31 * ((i * 5) % 7) - 0.05 * i * i;
              int c = mc::index();
              solve(A, sz, e, n, 1e-8, c % 3, true, cheap());
              solve(A, sz, e, n + 3, 1e-8, (c + 1) % 3, true, cheap());
              solve(A, sz, f, n, 1e-6, (c + 2) % 3, true, cheap());
              std::vector<double> w;
              std::vector<std::vector<double>> v;
              lin::jacobi(A, w, v);
              for(auto& x : v[0]) x *= -3;
              solve(A, sz, v[0], n, 1e-8, c % 3, true, cheap());
            });
          }
      });
  });
}
// exact eigenvectors as starting vectors
void exact_start() {
  mc::suite("exact-start", [&] {
    for(int n = 1; n <= 3; ++n)
      for(int nr = 1; nr <= 3; ++nr)
        partitions(n, nr, [&](const std::vector<int>& s) {
          lin::all_sym(n, {-1, 0, 2}, {0}, [&](const Sym& A) {
            for(int k = 0; k < n; ++k)
              mc::test([&] { return lin::str(A) + mc::fmt(" from unit vector %d, rows ", k) + mc::str(s); }, [&] {
                if(nr > 1) mc::nontrivial();
                somp::set(somp::Config{});
                std::vector<double> x(n, 0.);
                x[k] = k % 2 ? 1 : -2.5;
                for(int m = 1; m <= n + 1; ++m) solve(A, s, x, m, 1e-8, (m + k) % 3, true, cheap());
              });
          });
        });
  });
}
void schedules() {
  mc::suite("schedules", [&] {
    for(int n = 2; n <= 4; ++n)
      for(int nr = 2; nr <= 4; ++nr)
        partitions(n, nr, [&](const std::vector<int>& sz) {
          for(int op = 0; op < 2; ++op)
            for(int deep = 0; deep < 2; ++deep) {
              if(deep && nr > 3 && !mc::thorough) continue;
              if(!deep && nr > 3 && n > 3 && !mc::thorough) continue;
              mc::test([&] { return mc::fmt("n=%d rows %s operator %d %s", n, mc::str(sz).c_str(), op, deep ? "single deviations" : "all policies"); }, [&] {
                somp::set(somp::Config{});
                mc::nontrivial();
                std::vector<int> p(n);
                std::iota(p.rbegin(), p.rend(), 0);
                Sym A = family(p, n + op, 0.6);
                std::vector<double> e(n, 0.);
                e[n - 1] = 1;
                solve(A, sz, e, 2, 1e-8, op, n == 2, deep ? mc::deep_schedules(mc::thorough ? 2 : 1) : mc::full_schedules());
                if(n > 2) solve(A, sz, e, 3, 1e-8, op, n == 3, deep ? mc::deep_schedules(1) : mc::few_schedules());
              });
            }
        });
  });
}
// Gram-Schmidt, projection and guess against their serial counterparts
void parts() {
  mc::suite("gram-schmidt", [&] {
    auto one = [](int n, int nr, std::vector<int> sz, int k, int c) {
      mc::test([&] { return mc::fmt("n=%d rows %s, against %d vectors, case %d", n, mc::str(sz).c_str(), k, c); }, [&] {
        somp::set(somp::Config{});
        Sym A(n);
        for(int i = 0; i < n; ++i) for(int j = 0; j <= i; ++j) A(i, j) = A(j, i) = ((i * 3 + j * 5 + c) % 4) - 1.5;
        std::vector<double> w, x(n);
        std::vector<std::vector<double>> v;
        lin::jacobi(A, w, v);
        for(int i = 0, u = c; i < n; ++i, u /= 3) x[i] = (u % 3) - 1 + 0.1 * i;
        auto y = x;
        for(int rep = 0; rep < 3; ++rep)
          for(int q = 0; q < k; ++q) {
            double d = 0;
            for(int i = 0; i < n; ++i) d += y[i] * v[q][i];
            for(int i = 0; i < n; ++i) y[i] -= d * v[q][i];
          }
        double rest = 0;
        for(double u : y) rest += u * u;
        rest = std::sqrt(rest);
        if(rest < 1e-3) return;
        if(nr > 1) mc::nontrivial();
        auto t = tiles(sz);
        mc::mpi(nr, [&] { return [&](int r) {
          const int m = sz[r], pad = (c + r) % 2, ld = m + pad;
          std::vector<double> V(ld * k + 1, 77.), xl(m + 1, 55.);
          for(int q = 0; q < k; ++q) for(int i = 0; i < m; ++i) V[i + q * ld] = v[q][t[r].first + i];
          for(int i = 0; i < m; ++i) xl[i] = x[t[r].first + i];
          auto V0 = V;
          macis::p_gram_schmidt(m, k, V.data(), ld, xl.data(), mc::comm());
          if(V != V0) mc::fail("basis modified");
          if(xl[m] != 55.) mc::fail("wrote past the vector");
          for(int i = 0; i < m; ++i)
            if(!mc::near(xl[i], y[t[r].first + i] / rest, 1e-10)) mc::fail("rank %d element %d is %.12g, expected %.12g", r, i, xl[i], y[t[r].first + i] / rest);
        }; }, [&](const smpi::Result& R) {
          if(!R.error.empty()) mc::fail("%s", R.error.c_str());
          for(auto& s : R.threw) if(!s.empty()) mc::fail("%s", s.c_str());
        }, c == 0 ? mc::full_schedules() : cheap());
      });
    };
    for(int n = 1; n <= 4; ++n)
      for(int nr = 1; nr <= 4; ++nr)
        partitions(n, nr, [&](const std::vector<int>& sz) {
          for(int k = 0; k < n; ++k)
            for(int c = 0; c < (n < 4 ? 27 : 9); ++c) one(n, nr, sz, k, c);
        });
    for(auto z : {std::pair{12, 9}, {20, 17}, {40, 33}, {90, 65}, {150, 129}}) one(z.first, 2, {z.first / 3, z.first - z.first / 3}, z.second, 1 + z.first), one(z.first, 3, {z.first / 2, 0, z.first - z.first / 2}, z.second, 2 + z.first);
  });
  mc::suite("projection", [&] {
    for(int n = 1; n <= 4; ++n)
      for(int nr = 1; nr <= 4; ++nr)
        partitions(n, nr, [&](const std::vector<int>& sz) {
          for(int k = 1; k <= n; ++k)
            for(int c = 0; c < 8; ++c)
              mc::test([&] { return mc::fmt("n=%d rows %s, %d vectors, case %d", n, mc::str(sz).c_str(), k, c); }, [&] {
                somp::set(somp::Config{});
                if(nr > 1) mc::nontrivial();
                Sym B(n);
                for(int i = 0; i < n; ++i) for(int j = 0; j <= i; ++j) B(i, j) = B(j, i) = ((i * 3 + j * 5 + c) % 4) - 1.5;
                std::vector<int> p(n);
                for(int i = 0; i < n; ++i) p[i] = (i + c) % n;
                Sym A = family(p, c, 0.8), S(k);
                std::vector<double> w, ev;
                std::vector<std::vector<double>> v, ec;
                lin::jacobi(B, w, v);
                auto av = [&](int q, int i) { double s = 0; for(int j = 0; j < n; ++j) s += A(i, j) * v[q][j]; return s; };
                for(int a = 0; a < k; ++a) for(int b = 0; b < k; ++b) { double s = 0; for(int i = 0; i < n; ++i) s += v[a][i] * av(b, i); S(a, b) = s; }
                for(int a = 0; a < k; ++a) for(int b = 0; b < a; ++b) S(a, b) = S(b, a);
                lin::jacobi(S, ev, ec);
                auto t = tiles(sz);
                std::vector<std::vector<double>> Ws, Cs;
                mc::mpi(nr, [&] { Ws.assign(nr, {}), Cs.assign(nr, {}); return [&](int r) {
                  const int m = sz[r], ld = m + (c + r) % 2;
                  std::vector<double> V(ld * k + 1, 77.), AV(ld * k + 1, 99.), W(k, 1e3), C(k * k, 1e3);
                  for(int q = 0; q < k; ++q) for(int i = 0; i < m; ++i) V[i + q * ld] = v[q][t[r].first + i], AV[i + q * ld] = av(q, t[r].first + i);
                  auto V0 = V, AV0 = AV;
                  macis::p_rayleigh_ritz(m, k, V.data(), ld, AV.data(), ld, W.data(), C.data(), k, mc::comm());
                  if(V != V0 || AV != AV0) mc::fail("input modified");
                  Ws[r] = W, Cs[r] = C;
                }; }, [&](const smpi::Result& R) {
                  if(!R.error.empty()) mc::fail("%s", R.error.c_str());
                  for(auto& s : R.threw) if(!s.empty()) mc::fail("%s", s.c_str());
                  for(int r = 0; r < nr; ++r) if(Ws[r] != Ws[0] || Cs[r] != Cs[0]) mc::fail("rank %d has another result than rank 0", r);
                  for(int a = 0; a < k; ++a) if(!mc::near(Ws[0][a], ev[a], 1e-9)) mc::fail("value %d is %.12g, expected %.12g", a, Ws[0][a], ev[a]);
                  for(int a = 0; a < k; ++a)
                    for(int b = 0; b < k; ++b) {
                      double o = 0, h = 0;
                      for(int i = 0; i < k; ++i) { o += Cs[0][i + a * k] * Cs[0][i + b * k]; double s = 0; for(int j = 0; j < k; ++j) s += S(i, j) * Cs[0][j + b * k]; h += Cs[0][i + a * k] * s; }
                      if(std::abs(o - (a == b)) > 1e-9 || std::abs(h - (a == b ? ev[a] : 0)) > 1e-8) mc::fail("coefficients %d,%d do not diagonalise the projection (%g, %g)", a, b, o, h);
                    }
                }, c == 0 ? mc::full_schedules() : cheap());
              });
        });
  });
  mc::suite("diagonal-guess", [&] {
    for(int n = 1; n <= 4; ++n)
      for(int nr = 1; nr <= 4; ++nr)
        partitions(n, nr, [&](const std::vector<int>& sz) {
          lin::all_sym(n, n < 4 ? std::vector<double>{-1, 0.5, 2} : std::vector<double>{-1, 2}, {1}, [&](const Sym& A) {
            mc::test([&] { return lin::str(A) + " rows " + mc::str(sz); }, [&] {
              somp::set(somp::Config{});
              if(nr > 1) mc::nontrivial();
              std::vector<double> X;
              mc::mpi(nr, [&] { X.assign(n, 7.); return [&](int r) {
                auto t = tiles(sz);
                auto M = distribute(A, sz, n % 2);
                std::vector<double> Xl(sz[r] + 1, 9.);
                macis::p_diagonal_guess(sz[r], *M, Xl.data());
                if(Xl[sz[r]] != 9) mc::fail("wrote past the vector");
                std::copy_n(Xl.begin(), sz[r], X.begin() + t[r].first);
              }; }, [&](const smpi::Result& R) {
                if(!R.error.empty()) mc::fail("%s", R.error.c_str());
                for(auto& s : R.threw) if(!s.empty()) mc::fail("%s", s.c_str());
                int one = -1;
                for(int i = 0; i < n; ++i) {
                  if(X[i] == 1. && one < 0) one = i;
                  else if(X[i] != 0.) mc::fail("guess %s is not a unit vector", mc::str(X).c_str());
                }
                if(one < 0) mc::fail("guess is zero");
                for(int i = 0; i < n; ++i) if(A(i, i) < A(one, one)) mc::fail("guess selects diagonal %g, not the smallest", A(one, one));
              }, cheap());
            });
          });
        });
  });
}
// small subspaces that are exhausted early
void breakdown() {
  mc::suite("breakdown", [&] {
    for(auto& sz : {std::vector<int>{4}, {2, 2}, {1, 3}})
      lin::all_sym(4, {0, 2}, {0, 1}, [&](const Sym& A) {
        mc::test([&] { return lin::str(A) + " rows " + mc::str(sz); }, [&] {
          somp::set(somp::Config{});
          if(sz.size() > 1) mc::nontrivial();
          auto g = guesses(4);
          for(int k = 0; k < 5; ++k) solve(A, sz, g[k], 4, 1e-8, 0, false, cheap());
        });
      });
  });
}
// more rows, more processes, longer subspaces
void many() {
  mc::suite("many", [&] {
    for(int n : {7, 12, 20, 120, 230})
      for(int nr : {2, 5, 9})
        for(int part = 0; part < 4; ++part)
          for(int s = 0; s < 2; ++s) if(n < 100 || (nr == 2 && part < 2 && s == part))
            mc::test([&] { return mc::fmt("family of %d rows on %d processes, partition %d, variant %d", n, nr, part, s); }, [&] {
              mc::nontrivial();
              somp::set(somp::Config{});
              std::vector<int> sz(nr), p(n);
              for(int i = 0; i < n; ++i) sz[part == 0 ? i * nr / n : part == 1 ? std::min(i, nr - 1) : part == 2 ? std::max(0, nr - 1 - i) : (i < n / 2 ? 1 : nr - 1)]++;
              for(int i = 0; i < n; ++i) p[i] = s ? n - 1 - i : (i * (n % 5 ? 5 : 3) + 2) % n;
              Sym A = family(p, s, 0.3);
              std::vector<double> f(n), g(n, 0.);
              for(int i = 0; i < n; ++i) f[i] = 0.7 + 0.31 * ((i * 5) % 7) - 0.05 * (i % 4);
              int best = 0;
              for(int i = 0; i < n; ++i) if(A(i, i) < A(best, best)) best = i;
              g[best] = 1;
              solve(A, sz, f, n, 1e-8, (part + s) % 3, true, cheap());
              solve(A, sz, g, n + 2, 1e-8, (part + s + 1) % 3, true, cheap());
              solve(A, sz, g, n / 2, 1e-8, (part + s + 2) % 3, false, cheap());
            });
  });
}
void mc_main() {
  many();
  parts();
  breakdown();
  exact_start();
  schedules();
  alphabet("alphabet-1", 1, {-1, 0, 2}, {0}, 3);
  alphabet("alphabet-2", 2, {-1, 0, 2.5}, {0, 1, -0.5}, 4);
  if(mc::thorough) alphabet("alphabet-3", 3, {-1, 0, 2}, {0, 1, -0.5}, 4);
  else alphabet("alphabet-3", 3, {0, 2}, {0, 1}, 4);
  for(int n = 2; n <= (mc::thorough ? 6 : 5); ++n) generic(n, 4);
}
