// A02: search constraints.
#include "asci.hpp"
using namespace fock;
namespace {
template <size_t N> using bits = std::bitset<N>;
template <size_t N> struct Less {
  bool operator()(const bits<N>& a, const bits<N>& b) const {
    for(int i = N - 1; i >= 0; --i) if(a[i] != b[i]) return b[i];
    return false;
  }
};
// alpha strings over orbitals at given positions
template <size_t N> bits<N> place(u64 s, const std::vector<int>& at) {
  bits<N> b;
  for(size_t i = 0; i < at.size(); ++i) if(s >> i & 1) b[at[i]] = 1;
  return b;
}
template <size_t N> std::string str(const bits<N>& b) {
  std::string s = "{";
  for(size_t i = 0; i < N; ++i) if(b[i]) s += mc::fmt("%s%zu", s.size() > 1 ? " " : "", i);
  return s + "}";
}
// the definition: the orbitals of C are occupied and are the highest occupied ones
template <size_t N> bool holds(const bits<N>& d, const bits<N>& C, int lowest) {
  for(int i = N - 1; i >= 0; --i) {
    if(C[i] && !d[i]) return false;
    if(i >= lowest && d[i] && !C[i]) return false;
  }
  return true;
}
template <size_t N> int low(const bits<N>& b) { for(size_t i = 0; i < N; ++i) if(b[i]) return i; return -1; }
template <size_t N> std::vector<bits<N>> excitations(const bits<N>& d, int norb, int level) {
  std::vector<int> o, v;
  for(int i = 0; i < norb; ++i) (d[i] ? o : v).push_back(i);
  std::vector<bits<N>> out;
  for(size_t i = 0; i < o.size(); ++i) for(size_t a = 0; a < v.size(); ++a) {
    auto e = d;
    e[o[i]] = 0, e[v[a]] = 1;
    if(level == 1) out.push_back(e);
    else for(size_t j = i + 1; j < o.size(); ++j) for(size_t b = a + 1; b < v.size(); ++b) {
      auto f = e;
      f[o[j]] = 0, f[v[b]] = 1;
      out.push_back(f);
    }
  }
  return out;
}
template <size_t N> void same(std::vector<bits<N>> got, std::vector<bits<N>> want, const char* what, const bits<N>& d, const bits<N>& C) {
  std::sort(got.begin(), got.end(), Less<N>()), std::sort(want.begin(), want.end(), Less<N>());
  if(got == want) return;
  for(size_t i = 1; i < got.size(); ++i) if(got[i] == got[i - 1]) mc::fail("%s of %s under %s: %s twice", what, str(d).c_str(), str(C).c_str(), str(got[i]).c_str());
  for(auto& w : want) if(!std::binary_search(got.begin(), got.end(), w, Less<N>())) mc::fail("%s of %s under %s: %s is missing", what, str(d).c_str(), str(C).c_str(), str(w).c_str());
  for(auto& w : got) if(!std::binary_search(want.begin(), want.end(), w, Less<N>())) mc::fail("%s of %s under %s: %s does not belong", what, str(d).c_str(), str(C).c_str(), str(w).c_str());
}
// everything enumerated from determinant d under one constraint; its work estimate
template <size_t N> void enumerate(const bits<N>& d, const macis::wfn_constraint<N>& c, int norb, size_t ns, size_t nd) {
  const auto O = macis::full_mask<N>(norb);
  const int lo = c.C.any() ? low(c.C) : (int)c.C_min;
  std::vector<bits<N>> s, t;
  for(auto& e : excitations(d, norb, 1)) if(holds(e, c.C, lo)) s.push_back(e);
  for(auto& e : excitations(d, norb, 2)) if(holds(e, c.C, lo)) t.push_back(e);
  std::vector<bits<N>> gs{d, d, d}, gd{d, d, d};  // results of earlier calls do not stay
  macis::generate_constraint_singles(d, c.C, O, c.B, gs);
  macis::generate_constraint_doubles(d, c.C, O, c.B, gd);
  mc::executions(1);
  same(gs, s, "singles", d, c.C), same(gd, t, "doubles", d, c.C);
  const size_t cs = macis::count_constraint_singles(d, c.C, O, c.B), cd = macis::count_constraint_doubles(d, c.C, O, c.B);
  if(cs != s.size() || cd != t.size()) mc::fail("%s under %s: %zu singles and %zu doubles are counted, there are %zu and %zu", str(d).c_str(), str(c.C).c_str(), cs, cd, s.size(), t.size());
  const bool h = holds(d, c.C, lo);
  if(macis::satisfies_constraint(d, c.C, c.C_min) != h) mc::fail("%s %s the constraint %s", str(d).c_str(), h ? "is said not to satisfy" : "is said to satisfy", str(c.C).c_str());
  if(c.C.any()) {
    const size_t w = s.size() + t.size() + s.size() * ns + (h ? ns + nd + 1 : 0), g = macis::constraint_histogram(d, ns, nd, c.C, O, c.B);
    if(w != g) mc::fail("%s under %s: work %zu, expected %zu", str(d).c_str(), str(c.C).c_str(), g, w);
  }
}
// the split of the search space over processes
template <size_t N> void split(const std::vector<bits<N>>& alphas, const std::vector<bits<N>>& all, int norb, int nlev, int nr, size_t ns, size_t nd, bool enumerated, const smpi::Opts& o) {
  std::vector<std::vector<macis::wfn_constraint<N>>> got;
  mc::mpi(nr, [&]() { got.assign(nr, {}); return [&](int r) {
    auto a = alphas;
    got[r] = macis::dist_constraint_general<N>(nlev, norb, ns, nd, a, mc::comm());
    if(a != alphas) mc::fail("the list of strings was changed");
  }; }, [&](const smpi::Result& R) {
    asci::no_error(R);
    std::vector<macis::wfn_constraint<N>> cons;
    for(auto& g : got) cons.insert(cons.end(), g.begin(), g.end());
    const int ne = alphas[0].count();
    std::set<bits<N>, Less<N>> reach(alphas.begin(), alphas.end());
    for(auto& a : alphas) for(int l = 1; l <= 2; ++l) for(auto& e : excitations(a, norb, l)) reach.insert(e);
    for(auto& c : cons) {
      if((int)c.C.count() > ne) mc::fail("constraint %s of %d electrons", str(c.C).c_str(), ne);
      if(ne && (int)c.C_min != low(c.C)) mc::fail("constraint %s has its lowest orbital at %u", str(c.C).c_str(), c.C_min);
      if(c.B != macis::full_mask<N>(c.C_min)) mc::fail("constraint %s: mask %s is not the orbitals below %u", str(c.C).c_str(), str(c.B).c_str(), c.C_min);
    }
    for(auto& d : all) {
      int n = 0;
      for(auto& c : cons) n += holds(d, c.C, ne ? low(c.C) : (int)c.C_min);
      if(n > 1) mc::fail("%s satisfies %d constraints", str(d).c_str(), n);
      if(!n && reach.count(d)) mc::fail("%s satisfies no constraint of any of %d processes", str(d).c_str(), nr);
    }
    if(enumerated) for(auto& c : cons) for(auto& a : alphas) enumerate(a, c, norb, ns, nd);
  }, o);
}
std::vector<int> first(int n) { std::vector<int> v(n); std::iota(v.begin(), v.end(), 0); return v; }
smpi::Opts one() {
  auto o = mc::few_schedules();
  o.modes = {0}, o.all_prios = false;
  return o;
}
template <size_t N> void splits() {
  const int top = mc::thorough ? 7 : 6;
  mc::suite(mc::fmt("splits-%zu", N).c_str(), [&] {
    for(int n = 1; n <= top; ++n) for(int ne = 0; ne <= n; ++ne) {
      auto st = strings(n, ne);
      std::vector<std::vector<u64>> lists;
      for(auto s : st) lists.push_back({s});
      lists.push_back(st);
      for(size_t i = 0; i < st.size(); ++i) for(size_t j = i + 1; j < st.size(); ++j) if(n <= 4 || (i * 7 + j) % 5 == 0) lists.push_back({st[i], st[j]});
      for(size_t k = 3; k < st.size(); k += 2) {
        std::vector<u64> l;
        for(size_t i = 0; i < k; ++i) l.push_back(st[i * 3 % st.size()]);
        std::sort(l.begin(), l.end()), l.erase(std::unique(l.begin(), l.end()), l.end());
        lists.push_back(l);
      }
      for(auto& l : lists)
        mc::test([&] { std::string s; for(u64 x : l) s += mc::fmt(" %llx", (unsigned long long)x); return mc::fmt("%d orbitals, %d electrons, strings%s", n, ne, s.c_str()); }, [&] {
          if(ne && ne < n) mc::nontrivial();
          std::vector<bits<N>> a, all;
          for(u64 x : l) a.push_back(place<N>(x, first(n)));
          for(u64 x : st) all.push_back(place<N>(x, first(n)));
          const size_t ns = ne * (n - ne), nd = ns * (ns - n + 1) / 4;
          int c = mc::index();
          for(int nlev = 0; nlev <= 4; ++nlev) for(int nr = 1; nr <= (mc::thorough ? 5 : 4); ++nr, ++c)
            split<N>(a, all, n, nlev, nr, c % 3 ? ns : 1, c % 3 ? nd : 0, nr == 1 || c % 4 == 0, one());
        });
    }
  });
}
template <size_t N> void large() {  // many orbitals, the strings at the upper end; refined several times
  mc::suite(mc::fmt("large-%zu", N).c_str(), [&] {
    const int top = N / 2;
    for(int norb : {8, 10, 12, top / 2, top - 1, top}) for(int ne = 1; ne <= 6; ++ne) for(int k = 0; k < 3; ++k) for(int nlev = 0; nlev <= 4; ++nlev)
      mc::test([&] { return mc::fmt("%d orbitals, %d electrons, string set %d, level %d", norb, ne, k, nlev); }, [&] {
        if(!mc::thorough && ((norb > 40 && (ne > 3 || nlev % 2 || nlev + ne > 4)) || (norb > 20 && (ne > 5 || nlev == 3 || nlev + ne > 7)))) return;
        if(norb > 40 && nlev > 2 && ne > 4) return;
        mc::nontrivial();
        std::vector<bits<N>> a;
        for(int j = 0; j < (k == 2 ? 5 : 1); ++j) {
          bits<N> b;
          for(int i = 0; (int)b.count() < ne; ++i) b[k == 0 ? i : k == 1 ? norb - 1 - i : (i * 3 + i * 3 / norb + j * 5) % norb] = 1;
          if(std::find(a.begin(), a.end(), b) == a.end()) a.push_back(b);
        }
        std::set<bits<N>, Less<N>> all(a.begin(), a.end());
        for(auto& x : a) for(int l = 1; l <= 2; ++l) {
          auto e = excitations(x, norb, l);
          for(size_t i = 0; i < e.size(); i += 1 + e.size() / (norb > 20 ? 120 : 400)) all.insert(e[i]);
        }
        const size_t ns = ne * (norb - ne), nd = ns * (ns - norb + 1) / 4;
        for(int nr : norb > 40 && !mc::thorough ? std::vector<int>{2} : norb < 13 ? k < 2 ? std::vector<int>{1, 3, 6, 9, 16} : std::vector<int>{1, 3, 7} : std::vector<int>{1, 3}) split<N>(a, std::vector<bits<N>>(all.begin(), all.end()), norb, nlev, nr, ns, nd, false, one());
      });
  });
}
// constraints made by hand: all triplets and quadruplets, all determinants
template <size_t N> void masks() {
  mc::suite(mc::fmt("masks-%zu", N).c_str(), [&] {
    const int n = mc::thorough ? 8 : 7;
    for(int ne = 2; ne <= n; ++ne) for(u64 s : strings(n, ne))
      mc::test([&] { return mc::fmt("%d orbitals, string %llx, all triplets and quadruplets", n, (unsigned long long)s); }, [&] {
        mc::nontrivial();
        auto d = place<N>(s, first(n));
        for(int i = 0; i < n; ++i) for(int j = 0; j < i; ++j) for(int k = 0; k < j; ++k) {
          auto t = macis::make_triplet<N>(i, j, k);
          if(t.C != place<N>(7, {i, j, k}) || (int)t.C_min != k || t.B != macis::full_mask<N>(k)) mc::fail("triplet %d %d %d is %s %u %s", i, j, k, str(t.C).c_str(), t.C_min, str(t.B).c_str());
          enumerate(d, t, n, 3, 2);
          for(int l = 0; l < k; ++l) {
            auto q = macis::make_quad<N>(i, j, k, l);
            if(q.C != place<N>(15, {i, j, k, l}) || (int)q.C_min != l || q.B != macis::full_mask<N>(l)) mc::fail("quadruplet %d %d %d %d is %s %u %s", i, j, k, l, str(q.C).c_str(), q.C_min, str(q.B).c_str());
            enumerate(d, q, n, 1, 0);
          }
        }
      });
  });
  mc::suite(mc::fmt("many-%zu", N).c_str(), [&] {  // strings with many electrons and holes
    for(int n : {12, 15, 18, 27, 32, (int)N / 2}) for(int ne : {3, 6, 7, n - 7, n - 3}) for(int k = 0; k < 4; ++k) {
      if((n > 18 && k == 3) || (n > 32 && (ne > 5 || k)) || (n == 32 && ne > 8 && ne < 28) || (n == (int)N / 2 && N == 64 && k)) continue;
      mc::test([&] { return mc::fmt("%d orbitals, %d electrons, string %d, triplets and quadruplets", n, ne, k); }, [&] {
        mc::nontrivial();
        bits<N> d;
        for(int i = 0; (int)d.count() < ne; ++i) d[k == 0 ? i : k == 1 ? n - 1 - i : k == 2 ? (i * 2 + i * 2 / n) % n : (i * 5 + i * 5 / n + 1) % n] = 1;
        for(int i = n - 1; i > n - 5; --i) for(int j = i - 1; j > i - 4 && j > 1; --j) for(int l : {j - 1, j / 2, 0}) {
          if(l >= j) continue;
          enumerate(d, macis::make_triplet<N>(i, j, l), n, 3, 2);
          if(l) enumerate(d, macis::make_quad<N>(i, j, l, l / 2), n, 1, 0);
        }
      });
    }
  });
  // far apart orbitals, up to the end of the width
  mc::suite(mc::fmt("positions-%zu", N).c_str(), [&] {
    const int top = N / 2;
    for(int i = 2; i < top; ++i)
      mc::test([&] { return mc::fmt("triplets with the highest orbital at %d", i); }, [&] {
        mc::nontrivial();
        for(int j = 1; j < i; j += i < 12 ? 1 : 5) for(int k = 0; k < j; k += j < 10 ? 1 : 4) {
          auto t = macis::make_triplet<N>(i, j, k);
          if(t.C != place<N>(7, {i, j, k}) || (int)t.C_min != k || t.B != macis::full_mask<N>(k)) mc::fail("triplet %d %d %d is %s %u %s", i, j, k, str(t.C).c_str(), t.C_min, str(t.B).c_str());
          if(i > 20 && (mc::thorough ? (j + k) % 7 : ((j + k) % 13 || (i > 40 && i < top - 6 && i % 4)))) continue;
          for(auto& at : std::vector<std::vector<int>>{{i, j, k, k / 2}, {i, j, top - 1, k / 3}, {i, k / 2, 0, k ? k - 1 : 0}, {i, j, k, std::max(0, k - 1)}}) enumerate(place<N>(15, at), t, top, 2, 1);
        }
      });
  });
}
}  // namespace
void part1();
void part2();
#if PART == 0
void mc_main() {
  somp::set(somp::Config{});
  splits<64>(), masks<64>(), large<64>();
  part1(), part2();
}
#elif PART == 1
void part1() { splits<128>(), masks<128>(), large<128>(); }
#else
void part2() { masks<256>(); }
#endif
