// O05: quasi-Newton minimiser (line searches, inverse-Hessian recursion, driver).
#include <cmath>
#include <functional>
#include <limits>
#include <memory>
#include <numeric>
#include <algorithm>
#include <optional>
#include <stdexcept>
#include <vector>
#include <spdlog/sinks/null_sink.h>
#include "mc.hpp"
#include <bfgs/bfgs.hpp>
using vec = std::vector<double>;

static void setup() {
  for(auto n : {"bfgs", "line_search"})
    if(!spdlog::get(n)) spdlog::null_logger_mt(n);
}
struct Fn {
  using argument_type = vec;
  using return_type = double;
  std::function<double(const vec&)> f;
  std::function<vec(const vec&)> g;
  double tol = 1e-7;
  size_t evals = 0;
  double eval(const vec& x) {
    if(++evals > 200000) mc::fail("does not come to an end");
    return f(x);
  }
  vec grad(const vec& x) { return g(x); }
  bool converged(const vec&, const vec& gx) { return norm(gx) < tol; }
  static double dot(const vec& a, const vec& b) {
    double s = 0;
    for(size_t i = 0; i < a.size(); ++i) s += a[i] * b[i];
    return s;
  }
  static double norm(const vec& a) { return std::sqrt(dot(a, a)); }
  static void scal(double a, vec& x) {
    for(auto& v : x) v *= a;
  }
  static void axpy(double a, const vec& x, vec& y) {
    for(size_t i = 0; i < x.size(); ++i) y[i] += a * x[i];
  }
  static vec subtract(const vec& a, const vec& b) {
    vec r(a);
    for(size_t i = 0; i < b.size(); ++i) r[i] -= b[i];
    return r;
  }
};
using Hess = bfgs::BFGSHessian<Fn>;
const char* kinds[] = {"identity", "scaled at every update", "scaled at the first update", "given operator", "given diagonal"};
static vec diag0(int n) {
  vec d(n);
  for(int i = 0; i < n; ++i) d[i] = i % 2 ? 2. : .5 + i;
  return d;
}
static std::unique_ptr<Hess> make(int kind, int n) {
  if(kind == 0) return bfgs::make_identity_hessian<Fn>();
  if(kind == 1) return bfgs::make_updated_scaled_hessian<Fn>();
  if(kind == 2) return bfgs::make_static_scaled_hessian<Fn>();
  vec d = diag0(n);
  if(kind == 3) return std::make_unique<bfgs::RuntimeInitializedBFGSHessian<Fn>>([d](vec& x) {
    for(size_t i = 0; i < x.size(); ++i) x[i] /= d[i];
  });
  return std::make_unique<bfgs::DiagInitializedBFGSHessian<Fn>>(n, d.data());
}
// the approximation of the inverse second derivatives, as a dense matrix
static std::vector<vec> dense(int kind, int n, const std::vector<vec>& S, const std::vector<vec>& Y) {
  std::vector<vec> H(n, vec(n, 0));
  vec d = diag0(n);
  for(int i = 0; i < n; ++i) {
    H[i][i] = 1;
    if(kind >= 3) H[i][i] = 1 / d[i];
    if(S.size() && (kind == 1 || kind == 2)) {
      auto& s = kind == 1 ? S.back() : S[0];
      auto& y = kind == 1 ? Y.back() : Y[0];
      H[i][i] = Fn::dot(s, y) / Fn::dot(y, y);
    }
  }
  for(size_t k = 0; k < S.size(); ++k) {
    auto &s = S[k], &y = Y[k];
    double sy = Fn::dot(s, y);
    vec Hy(n, 0);
    for(int i = 0; i < n; ++i)
      for(int j = 0; j < n; ++j) Hy[i] += H[i][j] * y[j];
    double yHy = Fn::dot(y, Hy);
    for(int i = 0; i < n; ++i)
      for(int j = 0; j < n; ++j) H[i][j] += (sy + yHy) * s[i] * s[j] / sy / sy - (Hy[i] * s[j] + s[i] * Hy[j]) / sy;
  }
  return H;
}
static void all_vecs(int n, const vec& alpha, const std::function<void(const vec&)>& f) {
  vec x(n);
  std::function<void(int)> rec = [&](int i) {
    if(i == n) return f(x);
    for(double a : alpha) x[i] = a, rec(i + 1);
  };
  rec(0);
}
static void recursion(int n, int len, const vec& alpha) {
  std::vector<std::pair<vec, vec>> pairs;
  all_vecs(n, alpha, [&](const vec& s) {
    all_vecs(n, alpha, [&](const vec& y) {
      if(Fn::dot(s, y) != 0) pairs.emplace_back(s, y);
    });
  });
  for(int kind = 0; kind < 5; ++kind)
    for(size_t p0 = 0; p0 < pairs.size(); ++p0)
      mc::test([&] { return mc::fmt("%s, %d dimensions, %d updates, first %s -> %s", kinds[kind], n, len, mc::str(pairs[p0].first).c_str(), mc::str(pairs[p0].second).c_str()); }, [&] {
        mc::nontrivial();
        setup();
        uint64_t runs = 0;
        std::vector<size_t> ix(len, 0);
        ix[0] = p0;
        auto once = [&] {
          ++runs;
          auto B = make(kind, n);
          std::vector<vec> S, Y;
          for(int k = 0; k < len; ++k) {
            S.push_back(pairs[ix[k]].first), Y.push_back(pairs[ix[k]].second);
            B->update(S.back(), Y.back());
          }
          auto H = dense(kind, n, S, Y);
          double big = 0;
          for(auto& r : H)
            for(double v : r) big = std::max(big, std::abs(v));
          for(int i = 0; i < n; ++i) {
            vec e(n, 0);
            e[i] = 1;
            const vec r = B->apply(e);
            if((int)r.size() != n) mc::fail("result has %zu elements", r.size());
            for(int j = 0; j < n; ++j)
              if(!mc::near(r[j], H[i][j], 1e-9 * (1 + big))) mc::fail("after updates up to %s -> %s: element (%d,%d) is %g, not %g", mc::str(S.back()).c_str(), mc::str(Y.back()).c_str(), i, j, r[j], H[i][j]);
          }
          const vec r = B->apply(Y.back());
          for(int j = 0; j < n; ++j)
            if(!mc::near(r[j], S.back()[j], 1e-9 * (1 + big) * 10)) mc::fail("the last change of gradient is not mapped to the last step");
        };
        std::function<void(int)> rec = [&](int k) {
          if(k == len) return once();
          for(size_t i = 0; i < pairs.size(); ++i) ix[k] = i, rec(k + 1);
        };
        rec(1);
        mc::executions(runs);
        mc::states(runs), mc::transitions(runs * len);
      });
}

// long histories: the steps go round a word over a few vectors, the gradient changes as for a quadratic function
static void recursion_long(int n, int words, int len) {
  std::vector<vec> steps;
  for(int i = 0; i < n; ++i) { vec e(n, 0.); e[i] = i % 2 ? -.5 : 1; steps.push_back(e); }
  for(int k = 0; k < 3; ++k) { vec e(n); for(int i = 0; i < n; ++i) e[i] = .2 + .3 * ((i * (k + 2) + k) % 4); steps.push_back(e); }
  const size_t m = steps.size();
  size_t total = 1;
  for(int i = 0; i < words; ++i) total *= m;
  for(int kind = 0; kind < 5; ++kind)
    for(size_t w = 0; w < total; ++w)
      mc::test([&] { return mc::fmt("%s, %d dimensions, %d updates, word %zu of %zu", kinds[kind], n, len, w, total); }, [&] {
        mc::nontrivial();
        setup();
        auto B = make(kind, n);
        std::vector<vec> S, Y;
        for(int k = 0; k < len; ++k) {
          size_t x = w;
          for(int i = 0; i < k % words; ++i) x /= m;
          vec s = steps[x % m], y(n);
          Fn::scal(1 + .25 * (k % 3), s);
          for(int i = 0; i < n; ++i) y[i] = (1 + .5 * (i % 3)) * s[i] + .2 * (s[(i + 1) % n] + s[(i + n - 1) % n]);
          S.push_back(s), Y.push_back(y);
          B->update(s, y);
          const auto H = dense(kind, n, S, Y);
          double big = 0;
          for(auto& r : H) for(double v : r) big = std::max(big, std::abs(v));
          vec e(n), want(n, 0.);
          for(int i = 0; i < n; ++i) e[i] = std::cos(i + k);
          for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) want[i] += H[i][j] * e[j];
          const vec r = B->apply(e), t = B->apply(y);
          for(int i = 0; i < n; ++i) {
            if(!mc::near(r[i], want[i], 1e-8 * (1 + big))) mc::fail("after %d updates: element %d is %g, not %g", k + 1, i, r[i], want[i]);
            if(!mc::near(t[i], s[i], 1e-8 * (1 + big))) mc::fail("after %d updates: the last change of gradient is not mapped to the last step", k + 1);
          }
          mc::executions(2);
        }
        mc::states(len), mc::transitions(len);
      });
}

struct Named {
  const char* name;
  int n;
  std::function<double(const vec&)> f;
  std::function<vec(const vec&)> g;
  bool below;  // bounded below
};
static std::vector<Named> functions() {
  std::vector<Named> r;
  r.push_back({"quadratic", 1, [](const vec& x) { return .5 * (x[0] - 1) * (x[0] - 1); }, [](const vec& x) { return vec{x[0] - 1}; }, true});
  r.push_back({"steep quadratic", 1, [](const vec& x) { return 50 * (x[0] - 1) * (x[0] - 1) + 3; }, [](const vec& x) { return vec{100 * (x[0] - 1)}; }, true});
  r.push_back({"flat quadratic", 1, [](const vec& x) { return .005 * (x[0] - 1) * (x[0] - 1) - 2; }, [](const vec& x) { return vec{.01 * (x[0] - 1)}; }, true});
  r.push_back({"double well", 1, [](const vec& x) { return std::pow(x[0], 4) - 2 * x[0] * x[0] + .3 * x[0]; }, [](const vec& x) { return vec{4 * std::pow(x[0], 3) - 4 * x[0] + .3}; }, true});
  r.push_back({"cosine", 1, [](const vec& x) { return std::cos(3 * x[0]) + .1 * x[0] * x[0]; }, [](const vec& x) { return vec{-3 * std::sin(3 * x[0]) + .2 * x[0]}; }, true});
  r.push_back({"root", 1, [](const vec& x) { return std::sqrt(1 + x[0] * x[0]); }, [](const vec& x) { return vec{x[0] / std::sqrt(1 + x[0] * x[0])}; }, true});
  r.push_back({"exponential", 1, [](const vec& x) { return std::exp(x[0]) - 2 * x[0]; }, [](const vec& x) { return vec{std::exp(x[0]) - 2}; }, true});
  r.push_back({"linear", 1, [](const vec& x) { return 2 * x[0] + 1; }, [](const vec& x) { return vec{2.}; }, false});
  r.push_back({"Rosenbrock", 2, [](const vec& x) { double a = 1 - x[0], b = x[1] - x[0] * x[0]; return a * a + 10 * b * b; },
               [](const vec& x) { double a = 1 - x[0], b = x[1] - x[0] * x[0]; return vec{-2 * a - 40 * b * x[0], 20 * b}; }, true});
  r.push_back({"coupled quadratic", 2, [](const vec& x) { return x[0] * x[0] + 1.5 * x[0] * x[1] + x[1] * x[1] - x[0]; }, [](const vec& x) { return vec{2 * x[0] + 1.5 * x[1] - 1, 1.5 * x[0] + 2 * x[1]}; }, true});
  r.push_back({"saddle well", 2, [](const vec& x) { return std::pow(x[0], 4) - x[0] * x[0] + x[0] * x[1] + x[1] * x[1]; }, [](const vec& x) { return vec{4 * std::pow(x[0], 3) - 2 * x[0] + x[1], x[0] + 2 * x[1]}; }, true});
  return r;
}
static vec points(int n) { return n == 1 ? vec{-2, -1.1, -.4, 0, .3, .7, 1, 1.5, 3} : vec{-1.5, -.6, 0, .8, 1.3}; }

enum { BACK, WOLFE, GRID };
static const char* searches[] = {"backtracking", "Wolfe", "grid"};
static void search_case(const Named& F, const vec& x0, const vec& p, int kind, double step0) {
  setup();
  Fn op{F.f, F.g};
  const double f0 = F.f(x0);
  const vec g0 = F.g(x0);
  const double dg0 = Fn::dot(p, g0);
  double step = step0, fx = f0;
  vec x = kind == WOLFE ? x0 : vec(), gx = g0;
  bool threw = false;
  std::string what;
  try {
    if(kind == BACK) bfgs::backtracking_line_search(op, x0, p, step, x, fx, gx);
    if(kind == WOLFE) bfgs::nocedal_wright_line_search(op, x0, p, step, x, fx, gx);
    if(kind == GRID) bfgs::discrete_line_search(op, x0, p, step, x, fx, gx);
  } catch(mc::Failure&) {
    throw;
  } catch(std::exception& e) {
    threw = true, what = e.what();
  }
  mc::executions(1);
  if(kind != GRID && dg0 > 0) {
    if(!threw) mc::fail("a direction that climbs is followed");
    return;
  }
  if(threw) {
    if(kind == GRID) mc::fail("threw: %s", what.c_str());
    // curvature along the direction, sampled
    double L = 0;
    const double h = 1e-4, top = kind == BACK ? 1. : 8.;
    for(int i = 0; i <= 200; ++i) {
      vec a = x0, b = x0;
      Fn::axpy(top * i / 200., p, a), Fn::axpy(top * i / 200. + h, p, b);
      L = std::max(L, std::abs(Fn::dot(p, F.g(b)) - Fn::dot(p, F.g(a))) / h);
    }
    if(kind == BACK && -dg0 > 1e-9 * (1 + std::abs(f0)) && L < 1e5 * -dg0) mc::fail("no step found along a descent direction of slope %g and curvature up to %g: %s", dg0, L, what.c_str());
    if(kind == WOLFE && F.below && -dg0 > 1e-4 && L < 200 * -dg0) mc::fail("no step found along a descent direction of slope %g and curvature up to %g: %s", dg0, L, what.c_str());
    return;
  }
  mc::nontrivial();
  vec xr = x0;
  Fn::axpy(step, p, xr);
  if(!(step > 0)) mc::fail("step %g", step);
  if(x.size() != x0.size()) mc::fail("point of %zu coordinates", x.size());
  for(size_t i = 0; i < x.size(); ++i)
    if(!mc::near(x[i], xr[i], 1e-12)) mc::fail("the returned point is not the start plus %g times the direction", step);
  if(!mc::near(fx, F.f(x), 1e-13)) mc::fail("value %g returned for a point of value %g", fx, F.f(x));
  const vec gr = F.g(x);
  if(gx.size() != gr.size()) mc::fail("gradient of %zu elements", gx.size());
  for(size_t i = 0; i < gr.size(); ++i)
    if(!mc::near(gx[i], gr[i], 1e-12)) mc::fail("gradient element %zu is %g, not %g, at step %g", i, gx[i], gr[i], step);
  if(kind == BACK) {
    if(fx > f0) mc::fail("the value rises from %.12g to %.12g", f0, fx);
    if(fx > f0 + .5 * step * dg0 + 1.001e-6) mc::fail("decrease %g at step %g is too small for slope %g", f0 - fx, step, dg0);
    if(step > 1) mc::fail("step %g is longer than the direction", step);
    // the longest acceptable of the halved steps is taken
    for(double t = 1; t > step * 1.5; t /= 2) {
      vec a = x0;
      Fn::axpy(t, p, a);
      if(f0 - F.f(a) + .5 * t * dg0 > 1e-9 * (1 + std::abs(f0))) mc::fail("step %g taken although %g is acceptable", step, t);
    }
  }
  if(kind == WOLFE) {
    if(fx > f0 + 1e-4 * step * dg0 + 1e-13 * (1 + std::abs(f0))) mc::fail("decrease %g at step %g is too small for slope %g", f0 - fx, step, dg0);
    if(std::abs(Fn::dot(p, gr)) > .9 * std::abs(dg0) + 1e-13) mc::fail("slope %g remains of %g", Fn::dot(p, gr), dg0);
  }
  if(kind == GRID) {
    bool on = false;
    for(int i = 0; i < 100; ++i) {
      double t = 1 - i / 100.;
      vec a = x0;
      Fn::axpy(t, p, a);
      if(std::abs(t - step) < 1e-9) on = true;
      if(F.f(a) < fx - 1e-12 * (1 + std::abs(fx))) mc::fail("value %g at step %g, but %g at %g", fx, step, F.f(a), t);
    }
    if(!on) mc::fail("step %g is not on the grid", step);
  }
}
static void line_searches() {
  static const auto fs = functions();
  for(auto& F : fs)
    all_vecs(F.n, points(F.n), [&](const vec& x0) {
      for(int kind = 0; kind < 3; ++kind)
        for(int dir = 0; dir < (F.n == 1 ? 2 : 5); ++dir)
          for(double len : {1e-4, .01, .1, .7, 1., 3., 20., 300.})
            mc::test([&] { return mc::fmt("%s search, %s from %s, direction %d of length %g", searches[kind], F.name, mc::str(x0).c_str(), dir, len); }, [&] {
              vec p = F.g(x0);
              if(dir == 0) Fn::scal(-len, p);
              if(dir == 1) Fn::scal(len, p);
              if(dir == 2) p = {len, 0};
              if(dir == 3) p = {0, -len};
              if(dir == 4) p = {-len, .5 * len};
              for(double step0 : kind == WOLFE ? vec{.03, 1., 9.} : vec{1.}) search_case(F, x0, p, kind, step0);
            });
    });
}

// the driver, watched through a Hessian object of ours
struct Watch : Hess {
  int kind, n;
  const Named& F;
  vec x, d0;
  double f;
  std::vector<vec> S, Y;
  Watch(int k, const Named& fn, const vec& x0) : kind(k), n(x0.size()), F(fn), x(x0), d0(diag0(n)), f(fn.f(x0)) {}
  void update(const vec& s, const vec& y) override {
    // the step follows the direction of the approximation so far
    vec g = F.g(x), p(n, 0);
    if(S.empty())
      p = g;
    else {
      auto H = dense(kind, n, S, Y);
      for(int i = 0; i < n; ++i)
        for(int j = 0; j < n; ++j) p[i] += H[i][j] * g[j];
    }
    const double c = -Fn::dot(p, s) / Fn::norm(p) / Fn::norm(s);
    // rounding of s and y near convergence spoils the comparison
    if(Fn::norm(s) > 1e-4 && Fn::norm(y) > 1e-4 && Fn::norm(g) > 1e-4 && S.size() < 12 && !(c > 1 - 1e-5)) mc::fail("update %zu: the step is not along the quasi-Newton direction (cosine %.8f)", S.size(), c);
    vec xn = x;
    Fn::axpy(1, s, xn);
    vec gn = F.g(xn);
    for(int i = 0; i < n; ++i)
      if(!mc::near(y[i], gn[i] - g[i], 1e-8 * (1 + Fn::norm(g)))) mc::fail("update %zu: change of gradient %g, not %g", S.size(), y[i], gn[i] - g[i]);
    double fn = F.f(xn);
    if(fn > f + 1e-12 * (1 + std::abs(f))) mc::fail("update %zu: the value rises from %.12g to %.12g", S.size(), f, fn);
    f = fn, x = xn;
    S.push_back(s), Y.push_back(y);
    Hess::update(s, y);
  }
  void apply_H0(vec& v) override {
    if(kind >= 3)
      for(int i = 0; i < n; ++i) v[i] /= d0[i];
    if(kind == 1 || kind == 2) {
      auto& s = kind == 1 ? S.back() : S[0];
      auto& y = kind == 1 ? Y.back() : Y[0];
      Fn::scal(Fn::dot(s, y) / Fn::dot(y, y), v);
    }
  }
};
// result, or nothing when it threw
static std::optional<vec> minimise(const Named& F, const vec& x0, Hess& B, size_t max_iter, double tol) {
  Fn op{F.f, F.g, tol};
  try {
    auto r = bfgs::bfgs(op, x0, B, bfgs::BFGSSettings{max_iter});
    mc::executions(1);
    return r;
  } catch(mc::Failure&) {
    throw;
  } catch(std::runtime_error&) {
    mc::executions(1);
    return {};
  }
}
static void drive(const Named& F, const vec& x0, int kind, bool must, const vec* solution) {
  setup();
  const double tol = 1e-5;
  std::optional<vec> r;
  size_t need = 0;
  {
    Watch W(kind, F, x0);
    r = minimise(F, x0, W, 200, tol);
    need = W.S.size() + 1;
    if(W.S.size() > 200) mc::fail("%zu updates", W.S.size());
  }
  auto B = make(kind, x0.size());
  auto r2 = minimise(F, x0, *B, 200, tol);
  if(!r) {
    if(must) mc::fail("no minimum found");
    return;
  }
  mc::nontrivial();
  if(!r2) mc::fail("fails with the library's own approximation, not with the same one given");
  for(auto* q : {&*r, &*r2}) {
    if(q->size() != x0.size()) mc::fail("point of %zu coordinates", q->size());
    if(!(Fn::norm(F.g(*q)) < 1.001 * tol)) mc::fail("gradient %g at the returned point", Fn::norm(F.g(*q)));
    if(F.f(*q) > F.f(x0) + 1e-12) mc::fail("the value rises from %g to %g", F.f(x0), F.f(*q));
    if(solution)
      for(size_t i = 0; i < q->size(); ++i)
        if(!mc::near((*q)[i], (*solution)[i], 1e-3)) mc::fail("minimum at %s, not %s", mc::str(*q).c_str(), mc::str(*solution).c_str());
  }
  if(kind == 0) {
    Fn op{F.f, F.g, tol};
    auto r3 = bfgs::bfgs(op, x0, bfgs::BFGSSettings{200});
    if(r3 != *r2) mc::fail("another result without an approximation given");
  }
  // the iteration limit
  Watch W1(kind, F, x0);
  auto a = minimise(F, x0, W1, need, tol);
  if(!a || *a != *r) mc::fail("%zu iterations were needed, but a limit of as many is not enough or gives another result", need);
  for(size_t k = 0; k < need && k < 6; ++k) {
    Watch W2(kind, F, x0);
    if(minimise(F, x0, W2, k, tol)) mc::fail("%zu iterations are needed, but a limit of %zu is reported as converged", need, k);
    if(W2.S.size() > k) mc::fail("%zu updates within a limit of %zu", W2.S.size(), k);
  }
}
static void driver() {
  static const auto fs = functions();
  for(auto& F : fs)
    all_vecs(F.n, points(F.n), [&](const vec& x0) {
      for(int kind = 0; kind < 5; ++kind)
        mc::test([&] { return mc::fmt("%s from %s, %s", F.name, mc::str(x0).c_str(), kinds[kind]); }, [&] {
          const std::string nm = F.name;
          drive(F, x0, kind, nm == "quadratic" || nm == "coupled quadratic", nullptr);
        });
    });
}
static void quadratics(int n, const vec& dia, const vec& off, const vec& pts) {
  const int no = n * (n - 1) / 2;
  all_vecs(n, dia, [&](const vec& D) {
    all_vecs(no, off, [&](const vec& O) {
      std::vector<vec> A(n, vec(n));
      int k = 0;
      for(int i = 0; i < n; ++i) {
        A[i][i] = D[i];
        for(int j = 0; j < i; ++j) A[i][j] = A[j][i] = O[k++];
      }
      // positive definite, not too ill conditioned: factorise
      {
        auto Lm = A;
        double lo = 1e300, hi = 0;
        for(int j = 0; j < n; ++j) {
          for(int i = j; i < n; ++i)
            for(int q = 0; q < j; ++q) Lm[i][j] -= Lm[i][q] * Lm[j][q] * Lm[q][q];
          lo = std::min(lo, Lm[j][j]), hi = std::max(hi, Lm[j][j]);
          if(Lm[j][j] <= .05) return;
          for(int i = j + 1; i < n; ++i) Lm[i][j] /= Lm[j][j];
        }
      }
      all_vecs(n, pts, [&](const vec& x0) {
        for(int kind = 0; kind < 5; ++kind)
          mc::test([&] { return mc::fmt("matrix %s %s from %s, %s", mc::str(D).c_str(), mc::str(O).c_str(), mc::str(x0).c_str(), kinds[kind]); }, [&] {
            // f = (x-c) A (x-c) / 2, c = (1, -.5, .25)
            vec c(n);
            for(int i = 0; i < n; ++i) c[i] = std::pow(-.5, i);
            auto grad = [=](const vec& x) {
              vec g(n, 0);
              for(int i = 0; i < n; ++i)
                for(int j = 0; j < n; ++j) g[i] += A[i][j] * (x[j] - c[j]);
              return g;
            };
            Named F{"", n, [=](const vec& x) { return .5 * Fn::dot(grad(x), Fn::subtract(x, c)); }, grad, true};
            drive(F, x0, kind, true, &c);
          });
      });
    });
  });
}
// quadratics and a chain of curved valleys in more dimensions
static void larger() {
  for(int n = 4; n <= (mc::thorough ? 12 : 8); ++n)
    for(int form = 0; form < 3; ++form)
      for(int from = 0; from < 4; ++from)
        for(int kind = 0; kind < 5; ++kind)
          mc::test([&] { return mc::fmt("%d dimensions, form %d, start %d, %s", n, form, from, kinds[kind]); }, [&] {
            vec c(n), x0(n);
            for(int i = 0; i < n; ++i) c[i] = form == 2 ? 1 : std::pow(-.5, i), x0[i] = from == 0 ? 0 : from == 1 ? 2 : from == 2 ? (i % 2 ? -1. : 1.5) : .3 * i;
            if(form == 2) {
              Named F{"", n, [=](const vec& x) { double s = 0; for(int i = 0; i + 1 < n; ++i) { double a = 1 - x[i], b = x[i + 1] - x[i] * x[i]; s += a * a + 5 * b * b; } return s; },
                      [=](const vec& x) { vec g(n, 0.); for(int i = 0; i + 1 < n; ++i) { double a = 1 - x[i], b = x[i + 1] - x[i] * x[i]; g[i] += -2 * a - 20 * b * x[i], g[i + 1] += 10 * b; } return g; }, true};
              drive(F, x0, kind, false, nullptr);
            } else {
              auto grad = [=](const vec& x) {
                vec g(n, 0.);
                for(int i = 0; i < n; ++i) {
                  g[i] += (form ? 1. + i : 2.) * (x[i] - c[i]);
                  if(i) g[i] -= .5 * (x[i - 1] - c[i - 1]);
                  if(i + 1 < n) g[i] -= .5 * (x[i + 1] - c[i + 1]);
                }
                return g;
              };
              Named F{"", n, [=](const vec& x) { return .5 * Fn::dot(grad(x), Fn::subtract(x, c)); }, grad, true};
              drive(F, x0, kind, true, &c);
            }
          });
}
void mc_main() {
  mc::suite("recursion-long", [] { for(int n : {1, 2, 3, 5, 8}) recursion_long(n, n < 5 ? 3 : 2, mc::thorough ? 300 : 130); });
  mc::suite("larger", [] { larger(); });
  mc::suite("recursion-1", [] { recursion(1, 1, {-2, -1, 0, 1, 3}); recursion(1, 2, {-2, -1, 0, 1, 3}); });
  mc::suite("recursion-2", [] { recursion(2, 1, {-1, 0, 1, 2}); recursion(2, 2, {-1, 0, 1, 2}); recursion(2, 3, mc::thorough ? vec{-1, 0, 1} : vec{0, 1}); });
  mc::suite("recursion-3", [] { recursion(3, 1, {-1, 0, 1}); recursion(3, 2, mc::thorough ? vec{-1, 0, 1} : vec{0, 1}); });
  mc::suite("recursion-deep", [] { recursion(2, 4, {0, 1}); if(mc::thorough) recursion(2, 5, {0, 1}); });
  mc::suite("line-search", [] { line_searches(); });
  mc::suite("minimise", [] { driver(); });
  mc::suite("quadratic-1", [] { quadratics(1, {.1, .5, 1, 2, 7, 40}, {}, {-3, -1, 0, .5, .99, 1, 1.01, 4}); });
  mc::suite("quadratic-2", [] { quadratics(2, {.5, 1, 3, 10}, {-1, 0, .5, 2}, {-2, 0, 1, 1.5}); });
  mc::suite("quadratic-3", [] { quadratics(3, mc::thorough ? vec{.5, 1, 3, 10} : vec{1, 3}, {-1, 0, .5}, mc::thorough ? vec{-2, 0, 1} : vec{-2, 1}); });
}
