// Oracle for determinant searches.
#pragma once
#include "ham.hpp"
#include "dav.hpp"
#include <spdlog/sinks/null_sink.h>
#include <macis/asci/determinant_search.hpp>
namespace asci {
using namespace fock;
inline void silence() {
  quiet();
  for(auto n : {"asci_search", "asci_grow", "asci_refine", "ci_solver"}) if(!spdlog::get(n)) spdlog::null_logger_mt(n);
}
struct Score {
  double s = 0;      // accumulated estimate
  int n = 0;         // contributions
  double small = 0;  // part of it that screening may leave out
};
inline int level(u64 a, u64 b) { return pc(a ^ b) / 2; }
// estimates of all determinants connected to the core; contributions whose element (or weighted element) is below the screen may be left out
struct Scores {
  std::map<u64, Score> m;
  bool degenerate = false;  // some energy denominator vanishes
};
inline Scores scores(const Ints& I, const std::vector<u64>& core, const vec& C, double E0, double screen, bool singles) {
  Scores S;
  const int n = I.n;
  std::map<u64, double> diag;
  for(size_t k = 0; k < core.size(); ++k) {
    for(auto& x : column(I, core[k])) {
      const int l = level(x.first, core[k]);
      if(l == 0 || l > (singles ? 1 : 2)) continue;
      auto it = diag.find(x.first);
      if(it == diag.end()) it = diag.emplace(x.first, column(I, x.first)[x.first]).first;
      const double den = E0 - it->second;
      if(std::abs(x.second) < 1e-13) continue;
      if(std::abs(den) < 1e-6) S.degenerate = true;
      auto& s = S.m[x.first];
      const double c = C[k] * x.second / den;
      s.s += c, ++s.n;
      if(std::abs(x.second) < screen * 1.0001 || std::abs(C[k] * x.second) < screen * 1.0001) s.small += std::abs(c);
    }
  }
  return S;
}
// arguments the search takes from the generator
template <size_t N> struct Args {
  ham::Ham<N> H;
  std::vector<std::bitset<N>> core;
  vec C;
  Args(const Ints& I, const std::vector<u64>& c, const vec& C) : H(I), core(ham::dets<N>(c, I.n)), C(C) {}
  auto standard(const macis::ASCISettings& s, double E0) {
    return macis::asci_contributions_standard<N>(s, core.begin(), core.end(), E0, C, H.I.n, H.gen.T(), H.gen.G_red(), H.gen.V_red(), H.gen.G(), H.gen.V(), H.gen);
  }
  auto constraint(const macis::ASCISettings& s, double E0) {
    return macis::asci_contributions_constraint<N>(s, core.begin(), core.end(), E0, C, H.I.n, H.gen.T(), H.gen.G_red(), H.gen.V_red(), H.gen.G(), H.gen.V(), H.gen, mc::comm());
  }
  auto search(const macis::ASCISettings& s, size_t max, double E0) {
    return macis::asci_search<N>(s, max, core.begin(), core.end(), E0, C, H.I.n, H.gen.T(), H.gen.G_red(), H.gen.V_red(), H.gen.G(), H.gen.V(), H.gen, mc::comm());
  }
};
inline macis::ASCISettings settings(size_t pairs = 20000) {
  macis::ASCISettings s;
  s.h_el_tol = 1e-13, s.rv_prune_tol = 1e-14, s.pair_size_max = pairs;
  return s;
}
inline void no_error(const smpi::Result& R) {
  if(!R.error.empty()) mc::fail("%s", R.error.c_str());
  for(auto& t : R.threw) if(!t.empty()) mc::fail("%s", t.c_str());
}
// fixed coefficients of descending or mixed size, normalised
inline vec coeffs(size_t n, int kind) {
  vec C(n);
  double s = 0;
  for(size_t i = 0; i < n; ++i) {
    C[i] = kind == 0 ? (i % 2 ? -1 : 1) / (1. + i) : kind == 1 ? std::cos(1.3 * i + 0.4) : 0.3 + 0.05 * double((i * 7) % 5);
    s += C[i] * C[i];
  }
  for(auto& x : C) x /= std::sqrt(s);
  return C;
}
inline double diagonal(const Ints& I, u64 d) {
  auto o = [&](int s) { return ham::occ(d >> (s * I.n) & ((u64(1) << I.n) - 1), I.n); };
  auto a = o(0), b = o(1);
  double e = 0;
  for(auto* x : {&a, &b}) for(int i : *x) {
    e += I.t(i, i);
    for(int j : *x) e += 0.5 * (I.v(i, i, j, j) - I.v(i, j, j, i));
  }
  for(int i : a) for(int j : b) e += I.v(i, i, j, j);
  return e;
}
struct Want {
  std::map<u64, asci::Score> m;
  bool degenerate = false;
};
// the estimates, with what pruning may leave out
inline Want estimates(const Ints& I, const std::vector<u64>& core, const vec& C, double E0, const macis::ASCISettings& st, bool pruned) {
  Want W;
  std::map<u64, double> diag;
  for(size_t k = 0; k < core.size(); ++k) for(auto& x : column(I, core[k])) {
    const int l = asci::level(x.first, core[k]);
    if(l == 0 || l > (st.just_singles ? 1 : 2) || std::abs(x.second) < 1e-13) continue;
    auto it = diag.find(x.first);
    if(it == diag.end()) it = diag.emplace(x.first, diagonal(I, x.first)).first;
    const double den = E0 - it->second;
    if(std::abs(den) < 1e-3) W.degenerate = true;
    auto& s = W.m[x.first];
    const double c = C[k] * x.second / den;
    s.s += c, ++s.n;
    if(std::abs(x.second) < st.h_el_tol * 1.0001 || std::abs(C[k] * x.second) < st.h_el_tol * 1.0001) s.small += std::abs(c);
    if(pruned) s.small += st.rv_prune_tol * 1.0001;
  }
  return W;
}
// a result of the search: the core and the best of the others
template <size_t N> void selected(const Want& W, const Ints& I, const std::vector<u64>& core, size_t max, const std::vector<std::bitset<N>>& got) {
  std::set<u64> S, K(core.begin(), core.end());
  for(auto& b : got) {
    const u64 d = ham::undet<N>(b, I.n);
    if(ham::det<N>(d, I.n) != b) mc::fail("a selected determinant is outside the orbitals");
    if(!S.insert(d).second) mc::fail("%s is selected twice", det(d, I.n).c_str());
    if(!K.count(d) && !W.m.count(d)) mc::fail("%s is selected, it is not connected to the core", det(d, I.n).c_str());
  }
  for(u64 d : core) if(!S.count(d)) mc::fail("%s of the core is lost", det(d, I.n).c_str());
  size_t lo = 0, hi = 0;
  double least = 1e300, most = -1;
  u64 dl = 0, dm = 0;
  for(auto& x : W.m) {
    if(K.count(x.first)) continue;
    const double s = std::abs(x.second.s), u = s + x.second.small, l = s - x.second.small;
    if(l > 1e-10) ++lo;
    ++hi;
    if(S.count(x.first)) { if(u < least) least = u, dl = x.first; }
    else if(l > most) most = l, dm = x.first;
  }
  if(got.size() > max) mc::fail("%zu determinants are returned, at most %zu were asked for", got.size(), max);
  const size_t k = got.size() - core.size();
  if(k < std::min(lo, max - core.size())) mc::fail("%zu new determinants are returned, %zu are due", k, std::min(lo, max - core.size()));
  if(k > hi) mc::fail("%zu new determinants are returned, there are %zu", k, hi);
  if(most > least + 1e-9 && most > 1e-10) mc::fail("%s with estimate %.12g is left out, %s with estimate %.12g is taken", det(dm, I.n).c_str(), most, det(dl, I.n).c_str(), least);
}
inline double lowest(const Ints& I, const std::vector<u64>& core) {
  if(core.size() > 60) {
    double e = 1e300;
    for(u64 d : core) e = std::min(e, diagonal(I, d));
    return e - 0.2;
  }
  std::vector<double> w;
  std::vector<std::vector<double>> v;
  lin::jacobi(matrix(I, core), w, v);
  double m = 1e300;
  for(double x : w) m = std::min(m, x);
  return m;
}
}  // namespace asci
