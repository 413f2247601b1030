// E04: extrapolation accelerator.
#include "lin.hpp"
#include <spdlog/sinks/null_sink.h>
#include <macis/util/diis.hpp>
using vec = std::vector<double>;
static void setup() {
  if(!spdlog::get("diis")) spdlog::null_logger_mt("diis");
}
// distance of the affine hull of e[] from the origin; ind: the differences are independent
double hull(const std::vector<vec>& e, bool& ind) {
  const int d = e[0].size();
  std::vector<vec> q;
  ind = true;
  for(size_t i = 1; i < e.size(); ++i) {
    vec t(d);
    double n0 = 0, n1 = 0;
    for(int k = 0; k < d; ++k) t[k] = e[i][k] - e[0][k], n0 += t[k] * t[k];
    for(int rep = 0; rep < 2; ++rep)
      for(auto& b : q) {
        double s = 0;
        for(int k = 0; k < d; ++k) s += b[k] * t[k];
        for(int k = 0; k < d; ++k) t[k] -= s * b[k];
      }
    for(double x : t) n1 += x * x;
    if(n1 <= 1e-20 * n0 || n0 == 0) { ind = false; continue; }
    for(double& x : t) x /= std::sqrt(n1);
    q.push_back(t);
  }
  vec r = e[0];
  for(int rep = 0; rep < 2; ++rep)
    for(auto& b : q) {
      double s = 0;
      for(int k = 0; k < d; ++k) s += b[k] * r[k];
      for(int k = 0; k < d; ++k) r[k] -= s * b[k];
    }
  double n = 0;
  for(double x : r) n += x * x;
  return std::sqrt(n);
}
// adds `errs` one after the other and extrapolates wherever `when` says so
void sequence(int cap, const std::vector<vec>& errs, unsigned when, double scale, bool defcap) {
  setup();
  mc::executions(1);
  const int n = errs.size();
  auto acc = defcap ? macis::DIIS<vec>() : macis::DIIS<vec>(cap);
  if(defcap) cap = 10;
  for(int a = 0; a < n; ++a) {
    vec v(n, 0.), e = errs[a];
    v[a] = 1;  // the result of an extrapolation is its coefficients
    for(double& x : e) x *= scale;
    const vec v0 = v, e0 = e;
    acc.add_vector(v, e);
    if(v != v0 || e != e0) mc::fail("addition modified its arguments");
    std::fill(v.begin(), v.end(), 1e6), std::fill(e.begin(), e.end(), 1e6);  // copies are kept
    if(!((when >> a) & 1)) continue;
    mc::transitions(1);
    const int first = std::max(0, a + 1 - cap);
    std::vector<vec> held(errs.begin() + first, errs.begin() + a + 1);
    bool ind;
    double best = hull(held, ind), big = 0;
    for(auto& h : held) { double s = 0; for(double x : h) s += x * x; big = std::max(big, std::sqrt(s)); }
    vec c = acc.extrapolate();
    if((int)c.size() != n) mc::fail("result has %zu elements", c.size());
    for(int i = 0; i < n; ++i) if((i < first || i > a) && c[i] != 0) mc::fail("after %d additions: vector %d contributes %g, but is not among the newest %d", a + 1, i, c[i], cap);
    double sum = 0, nn = 0;
    for(double x : c) sum += x;
    if(!(std::abs(sum - 1) < 1e-8)) mc::fail("after %d additions: coefficients %s sum to %.12g", a + 1, mc::str(c).c_str(), sum);
    for(size_t k = 0; k < errs[0].size(); ++k) {
      double s = 0;
      for(int i = first; i <= a; ++i) s += c[i] * errs[i][k];
      nn += s * s;
    }
    if(!(std::sqrt(nn) <= best + 1e-6 * (1 + big))) mc::fail("after %d additions: combined error %.9g with coefficients %s, %.9g is possible", a + 1, std::sqrt(nn), mc::str(c).c_str(), best);
    for(int i = first; i <= a; ++i) {
      bool zero = true;
      for(double x : errs[i]) zero &= x == 0;
      if(zero && ind)
        for(int j = first; j <= a; ++j) if(!(std::abs(c[j] - (i == j)) < 1e-7)) mc::fail("vector %d has no error, coefficients are %s", i, mc::str(c).c_str());
    }
    if(acc.extrapolate() != c) mc::fail("a repeated extrapolation differs");
  }
}
void mc_main() {
  struct S { int len, dim, alpha; };
  std::vector<S> sizes{{1, 1, 4}, {2, 1, 4}, {3, 1, 4}, {4, 1, 4}, {5, 1, 4}, {1, 2, 4}, {2, 2, 4}, {3, 2, 4}, {2, 3, 3}, {3, 3, 2}, {4, 2, 2}, {5, 2, 2}, {4, 3, 2}};
  if(mc::thorough) sizes.insert(sizes.end(), {{6, 1, 4}, {7, 1, 3}, {4, 2, 4}, {5, 2, 3}, {3, 3, 3}, {5, 3, 2}, {3, 4, 2}, {4, 4, 2}, {6, 2, 2}});
  const double al[4] = {0, 1, -2, 0.75};
  for(auto z : sizes)
    mc::suite(mc::fmt("sequences-%d-%d", z.len, z.dim).c_str(), [&] {
      size_t tot = 1;
      for(int i = 0; i < z.len * z.dim; ++i) tot *= z.alpha;
      for(size_t c = 0; c < tot; ++c)
        mc::test([&] { return mc::fmt("errors from alphabet of %d, code %zu", z.alpha, c); }, [&] {
          std::vector<vec> e(z.len, vec(z.dim));
          size_t t = c;
          for(auto& x : e) for(double& y : x) y = al[t % z.alpha], t /= z.alpha;
          if(z.len > 1) mc::nontrivial();
          for(int cap = 1; cap <= z.len + 1; ++cap)
            for(double scale : {1., 1e-3, 50.}) {
              sequence(cap, e, ~0u, scale, false);
              if(scale == 1.) for(unsigned w = 1; w < (1u << z.len); w += 1 + (z.len > 4) * 5) sequence(cap, e, w, scale, false);
            }
          sequence(0, e, ~0u, 1, true);
        });
    });
  mc::suite("long", [&] {
    for(int len = 2; len <= 24; ++len)
      for(int cap = 1; cap <= 12; ++cap)
        for(int dim : {3, 9, 14, 65, 500})
          mc::test([&] { return mc::fmt("%d additions, capacity %d, dimension %d", len, cap, dim); }, [&] {
            mc::nontrivial();
            std::vector<vec> e(len, vec(dim));
            for(int i = 0; i < len; ++i) for(int k = 0; k < dim; ++k) e[i][k] = std::sin(1 + 2.3 * i + 1.7 * k + 0.31 * i * k) + 0.2 * std::cos(7.1 * i - k);
            sequence(cap, e, ~0u, 1, false);
            if(cap == 10) sequence(0, e, ~0u, 1, true);
          });
    for(int cap : {17, 20, 33})
      for(int len : {cap - 1, cap, cap + 1, cap + 6})
        for(int dim : {40, 65})
          mc::test([&] { return mc::fmt("%d additions, capacity %d, dimension %d", len, cap, dim); }, [&] {
            mc::nontrivial();
            std::vector<vec> e(len, vec(dim));
            for(int i = 0; i < len; ++i) for(int k = 0; k < dim; ++k) e[i][k] = std::sin(1 + 2.3 * i + 1.7 * k + 0.31 * i * k) + 0.2 * std::cos(7.1 * i - k);
            sequence(cap, e, ~0u, 1, false);
          });
  });
}
