// A01: one search step.
#include "asci.hpp"
using namespace fock;
using namespace asci;
namespace {
template <size_t N> using bits = std::bitset<N>;
// sums of contributions, by determinant
template <size_t N> void sums(const Want& W, const Ints& I, const macis::asci_contrib_container<bits<N>>& got, bool unique, const char* who) {
  std::map<u64, double> g;
  for(auto& p : got) {
    const u64 d = ham::undet<N>(p.state, I.n);
    if(ham::det<N>(d, I.n) != p.state) mc::fail("%s: a determinant outside the orbitals", who);
    if(!g.emplace(d, 0).second && unique) mc::fail("%s: %s appears twice", who, det(d, I.n).c_str());
    g[d] += p.rv;
  }
  for(auto& x : g) {
    auto it = W.m.find(x.first);
    if(it == W.m.end()) mc::fail("%s: %s is not connected to the core", who, det(x.first, I.n).c_str());
  }
  for(auto& x : W.m) {
    auto it = g.find(x.first);
    const double v = it == g.end() ? 0 : it->second;
    if(!(std::abs(v - x.second.s) <= x.second.small + 1e-9 * (1 + std::abs(x.second.s))))
      mc::fail("%s: %s has the estimate %.12g, expected %.12g", who, det(x.first, I.n).c_str(), v, x.second.s);
  }
}
smpi::Opts one() {
  auto o = mc::few_schedules();
  o.modes = {0}, o.all_prios = false;
  return o;
}
struct Setup {
  Ints I;
  std::string name;
  std::vector<u64> core;
  vec C;
  double E0;
};
template <size_t N> void raw(const Setup& s, const macis::ASCISettings& st, int nr, const smpi::Opts& o) {
  const bool pruned = st.pair_size_max < 5000;
  auto W = estimates(s.I, s.core, s.C, s.E0, st, pruned);
  if(W.degenerate) { mc::count("degenerate"); return; }
  asci::Args<N> A(s.I, s.core, s.C);
  if(nr == 0) {
    mc::executions(1);
    sums<N>(W, s.I, A.standard(st, s.E0), false, "plain contributions");
    return;
  }
  std::vector<macis::asci_contrib_container<bits<N>>> got;
  mc::mpi(nr, [&]() { got.assign(nr, {}); return [&](int r) { got[r] = A.constraint(st, s.E0); }; }, [&](const smpi::Result& R) {
    asci::no_error(R);
    macis::asci_contrib_container<bits<N>> all;
    for(auto& g : got) all.insert(all.end(), g.begin(), g.end());
    sums<N>(W, s.I, all, true, "distributed contributions");
  }, o);
}
template <size_t N> void search(const Setup& s, const macis::ASCISettings& st, size_t max, int nr, const smpi::Opts& o) {
  auto W = estimates(s.I, s.core, s.C, s.E0, st, st.pair_size_max < 5000);
  if(W.degenerate) { mc::count("degenerate"); return; }
  asci::Args<N> A(s.I, s.core, s.C);
  std::vector<std::vector<bits<N>>> got;
  mc::mpi(nr, [&]() { got.assign(nr, {}); return [&](int r) { got[r] = A.search(st, max, s.E0); }; }, [&](const smpi::Result& R) {
    asci::no_error(R);
    for(int r = 1; r < nr; ++r) if(got[r] != got[0]) mc::fail("processes 0 and %d hold different lists", r);
    selected<N>(W, s.I, s.core, max, got[0]);
    for(size_t k = 0; k < s.core.size(); ++k) if(A.core[k] != ham::det<N>(s.core[k], s.I.n)) mc::fail("the core was changed");
  }, o);
}
struct Sector { int n, na, nb; };
Ints ints(int n, int kind) { return kind < 2 ? generic(n, kind) : kind == 4 ? graded(n) : hubbard(n, 1, 4, kind == 3); }
const char* kname(int k) { return k == 0 ? "generic" : k == 1 ? "second generic" : k == 2 ? "hubbard chain" : "hubbard ring"; }
Setup setup(const Sector& x, int kind, const std::vector<u64>& core, int ck, int ek) {
  Setup s;
  s.I = ints(x.n, kind), s.core = core, s.C = asci::coeffs(core.size(), ck);
  s.E0 = lowest(s.I, core) - (ek ? 0.37 : 0);
  s.name = mc::fmt("%s, %d orbitals, %d+%d electrons, coefficients %d, energy %d, core", kname(kind), x.n, x.na, x.nb, ck, ek);
  for(size_t i = 0; i < std::min<size_t>(core.size(), 8); ++i) s.name += " " + det(core[i], x.n);
  if(core.size() > 8) s.name += mc::fmt(".. (%zu)", core.size());
  return s;
}
std::vector<std::vector<u64>> cores(const Sector& x, bool all) {
  auto sp = space(x.n, x.na, x.nb);
  std::vector<std::vector<u64>> out;
  const size_t m = sp.size();
  if(m <= 9 && all) {
    for(u64 k = 1; k < (u64(1) << m); ++k) {
      if(pc(k) > 3 && pc(k) < (int)m) continue;
      std::vector<u64> c;
      for(size_t i = 0; i < m; ++i) if(k >> i & 1) c.push_back(sp[i]);
      if(k % 3 == 1) std::reverse(c.begin(), c.end());
      if(k % 3 == 2) std::rotate(c.begin(), c.begin() + 1, c.end());
      out.push_back(c);
    }
    return out;
  }
  std::vector<u64> sc;
  for(size_t i = 0; i < m; ++i) sc.push_back(sp[i * 7 % m]);
  if(m % 7 == 0) sc = sp, std::reverse(sc.begin(), sc.end());
  out.push_back({sp[0]}), out.push_back({sp[m - 1]}), out.push_back({sp[m / 2]});
  for(size_t k : {2, 3, 5, 9, 17}) if(k < m) out.push_back({sp.begin(), sp.begin() + k}), out.push_back({sc.begin(), sc.begin() + k});
  if(m <= 40) out.push_back(sc);
  return out;
}
std::vector<size_t> limits(size_t core, size_t total) {
  std::vector<size_t> v{core, core + 1, core + 2, core + 3, (core + total) / 2, total - 1, total, total + 5};
  std::vector<size_t> w;
  for(size_t x : v) if(x >= core && std::find(w.begin(), w.end(), x) == w.end()) w.push_back(x);
  return w;
}
const std::vector<Sector> small{{1, 1, 0}, {1, 1, 1}, {2, 0, 1}, {2, 1, 0}, {2, 1, 1}, {2, 2, 1}, {2, 1, 2}, {3, 1, 0}, {3, 0, 2}, {3, 1, 1}, {3, 2, 1}, {3, 1, 2}, {3, 2, 2}, {3, 3, 1}, {3, 1, 3}};
const std::vector<Sector> middle{{4, 1, 1}, {4, 2, 1}, {4, 1, 2}, {4, 2, 2}, {4, 3, 2}, {4, 2, 0}, {4, 3, 3}, {4, 4, 2}, {4, 1, 3}};
const std::vector<Sector> big{{5, 2, 2}, {5, 3, 2}, {5, 4, 1}, {6, 3, 3}, {6, 4, 2}, {7, 5, 1}};
std::vector<Sector> sectors(int maxn) {
  auto v = small;
  if(maxn > 3) v.insert(v.end(), middle.begin(), middle.end());
  if(maxn > 4) v.insert(v.end(), big.begin(), big.end());
  return v;
}
template <size_t N> void contributions() {
  mc::suite(mc::fmt("estimates-%zu", N).c_str(), [&] {
    for(auto& x : sectors(6)) for(int kind : {0, 1, 2, 4}) for(auto& core : cores(x, x.n < 3)) for(int ck = 0; ck < 3; ++ck) {
      if(core.size() == 1 && ck) continue;
      if(x.n > 4 && !mc::thorough && (kind == 1 || ck != kind % 4)) continue;
      mc::test([&] { return "estimates: " + setup(x, kind, core, ck, kind >= 2).name; }, [&] {
        auto s = setup(x, kind, core, ck, kind >= 2);
        mc::nontrivial();
        for(int singles = 0; singles < 2; ++singles) {
          auto st = asci::settings();
          st.just_singles = singles;
          raw<N>(s, st, 0, one());
          for(int nr = 1; nr <= (mc::thorough ? 4 : 3); ++nr) for(st.constraint_level = 0; st.constraint_level < 4; ++st.constraint_level) raw<N>(s, st, nr, one());
        }
        for(double tol : {0.05, 0.3}) {  // screening of matrix elements
          auto st = asci::settings();
          st.h_el_tol = tol, st.constraint_level = ck;
          raw<N>(s, st, 0, one()), raw<N>(s, st, 1, one()), raw<N>(s, st, 2 + ck % 2, one());
        }
      });
    }
  });
}
template <size_t N> void searches() {
  mc::suite(mc::fmt("search-%zu", N).c_str(), [&] {
    for(auto& x : sectors(6)) for(int kind = 0; kind < 3; ++kind) for(auto& core : cores(x, x.n < 3 || (x.n == 3 && (mc::thorough || kind == 0)))) {
      if(x.n > 4 && !mc::thorough && kind == 1) continue;
      mc::test([&] { return "search: " + setup(x, kind, core, (core.size() + kind) % 3, kind >= 2).name; }, [&] {
        auto s = setup(x, kind, core, (core.size() + kind) % 3, kind >= 2);
        const size_t total = space(x.n, x.na, x.nb).size();
        if(total > core.size()) mc::nontrivial();
        int k = mc::index();
        for(size_t max : limits(core.size(), total)) for(int singles = 0; singles < 2; ++singles) for(int nr : {1, 2, 3, 4, 7}) {
          if(nr > 4 && (!kind || (mc::index() + max + singles) % 3)) continue;
          if(nr < 7) ++k;
          if(!mc::thorough && x.n > 4 && singles != (k - 1) / 2 % 2) continue;
          auto st = asci::settings();
          st.just_singles = singles;
          st.constraint_level = (k + nr + singles) % 4;
          search<N>(s, st, max, nr, one());
          if(max == total && !singles) {
            st.h_el_tol = 0.1;
            search<N>(s, st, (core.size() + total) / 2, nr, one());
            st.h_el_tol = 1e-13, st.pair_size_max = 3 + k % 9, st.rv_prune_tol = k % 2 ? 1e-14 : 0.05;
            search<N>(s, st, (core.size() + total) / 2, nr, one());
          }
        }
      });
    }
  });
}
template <size_t N> void schedules() {
  mc::suite(mc::fmt("schedules-%zu", N).c_str(), [&] {
    const std::vector<Sector> all{{2, 1, 1}, {3, 1, 1}, {3, 2, 1}, {4, 2, 2}};
    for(auto& x : all) for(int kind : {0, 2}) for(size_t c : {1, 3}) for(int lev = 0; lev < 4; ++lev) for(size_t max : limits(c, space(x.n, x.na, x.nb).size()))
      mc::test([&] { return mc::fmt("schedules: %s, %d orbitals, %d+%d electrons, core %zu, level %d, up to %zu", kname(kind), x.n, x.na, x.nb, c, lev, max); }, [&] {
        auto sp = space(x.n, x.na, x.nb);
        auto s = setup(x, kind, {sp.begin(), sp.begin() + c}, 0, kind == 2);
        mc::nontrivial();
        for(int nr = 2; nr <= (mc::thorough ? 4 : 3); ++nr) {
          auto st = asci::settings();
          st.constraint_level = lev;
          search<N>(s, st, max, nr, mc::full_schedules());
          if(mc::thorough && nr < 4) search<N>(s, st, max, nr, mc::deep_schedules(1));
        }
      });
  });
}
// orbitals up to the full width
template <size_t N> void wide() {
  mc::suite(mc::fmt("wide-%zu", N).c_str(), [&] {
    const int n = 32;
    for(int na = 0; na <= 2; ++na) for(int nb = 0; nb <= 2; ++nb) for(int at = 0; at < 3; ++at)
      mc::test([&] { return mc::fmt("%d orbitals, %d+%d electrons, position %d", n, na, nb, at); }, [&] {
        if(na + nb == 0 || (!mc::thorough && na + nb > 3)) return;
        mc::nontrivial();
        Ints I(n);
        for(int i = 0; i < n; ++i) {
          I.set_t(i, i, 0.1 * i), I.set_v(i, i, i, i, 1 + 0.01 * i);
          for(int j = 0; j < i; ++j) I.set_t(i, j, 0.2 / (i - j) + 0.001 * ((i * 7 + j) % 11)), I.set_v(i, i, j, j, 0.4 + 0.001 * ((i * 3 + j) % 7)), I.set_v(i, j, i, j, 0.05 + 0.001 * ((i + 5 * j) % 13));
        }
        auto str = [&](int k, int w) {
          u64 s = 0;
          for(int i = 0; i < k; ++i) s |= u64(1) << (at == 0 ? i + w : at == 1 ? n - 1 - i - w : (5 + 13 * i + 18 * w) % n);
          return s;
        };
        std::vector<u64> core{str(nb, 0) << n | str(na, 0), str(nb, 1) << n | str(na, 0), str(nb, 1) << n | str(na, 1)};
        std::sort(core.begin(), core.end()), core.erase(std::unique(core.begin(), core.end()), core.end());
        Setup s{I, "", core, asci::coeffs(core.size(), 0), -3.3};
        for(int nr = 1; nr <= 3; ++nr) {
          auto st = asci::settings();
          st.constraint_level = (na + nr + at) % 4;
          if(nr == 1) raw<N>(s, st, 0, one());
          raw<N>(s, st, nr, one());
          search<N>(s, st, core.size() + 40, nr, one());
        }
      });
  });
}
// more electrons and holes of one spin than fit a few pairs
template <size_t N> void many() {
  mc::suite(mc::fmt("many-%zu", N).c_str(), [&] {
    for(auto& x : std::vector<Sector>{{9, 7, 1}, {9, 1, 7}, {9, 2, 1}, {10, 8, 2}, {11, 3, 9}, {12, 6, 1}, {12, 1, 6}, {14, 7, 2}, {13, 11, 11}, {28, 5, 1}, {29, 25, 1}}) for(int c = 0; c < 3; ++c)
      mc::test([&] { return mc::fmt("%d orbitals, %d+%d electrons, core %d", x.n, x.na, x.nb, c); }, [&] {
        mc::nontrivial();
        auto str = [&](int k, int w) {
          u64 s = 0;
          for(int i = 0; pc(s) < k; ++i) s |= u64(1) << (w == 0 ? i : w == 1 ? x.n - 1 - i : (i * 5 + i * 5 / x.n + 2) % x.n);
          return s;
        };
        std::vector<u64> core{str(x.nb, 0) << x.n | str(x.na, c)};
        if(c == 1) core.push_back(str(x.nb, 2) << x.n | str(x.na, 0)), core.push_back(str(x.nb, 0) << x.n | str(x.na, 2));
        std::sort(core.begin(), core.end()), core.erase(std::unique(core.begin(), core.end()), core.end());
        Setup s{generic(x.n, c), "", core, asci::coeffs(core.size(), 0), 0};
        s.E0 = lowest(s.I, core) - 0.37;
        while(estimates(s.I, core, s.C, s.E0, asci::settings(), false).degenerate) s.E0 -= 0.0113;
        for(int nr : {0, 1, 2, 3, 5, 8, 13}) {
          if(nr > 3 && x.n > 12) continue;
          auto st = asci::settings();
          st.constraint_level = (nr + c) % 4;
          raw<N>(s, st, nr, one());
          if(nr > 1) search<N>(s, st, core.size() + 100, nr, one());
        }
      });
  // a core of more than a hundred determinants
  for(int c = 0; c < 2; ++c)
    mc::test([&] { return mc::fmt("6 orbitals, 3+3 electrons, large core %d", c); }, [&] {
      mc::nontrivial();
      auto sp = space(6, 3, 3);
      std::vector<u64> core;
      for(size_t i = c; i < sp.size(); i += c ? 2 : 3) core.push_back(sp[i]);
      Setup s{generic(6, c), "", core, asci::coeffs(core.size(), c), 0};
      s.E0 = lowest(s.I, core) - 0.37;
      for(int k = 0; k < 200 && estimates(s.I, core, s.C, s.E0, asci::settings(), false).degenerate; ++k) s.E0 -= 0.0113;
      for(int nr : {0, 1, 3}) {
        auto st = asci::settings();
        st.constraint_level = nr + c;
        raw<N>(s, st, nr, one());
        if(nr > 1) search<N>(s, st, core.size() + 60, nr, one());
      }
    });
  });
}
}  // namespace
void part1();
#if PART == 0
void mc_main() {
  somp::set(somp::Config{});
  asci::silence();
  contributions<64>(), searches<64>(), schedules<64>(), wide<64>(), many<64>();
  part1();
}
#else
void part1() { contributions<128>(), searches<128>(), schedules<128>(), wide<128>(), many<128>(); }
#endif
