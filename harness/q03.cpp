// Q03: matrix elements and incremental diagonals.
#include "ham.hpp"
using namespace fock;
using ham::occ;
template <size_t N> void elements(int n, int na, int nb, const Ints& I) {
  ham::Ham<N> H(I);
  auto sp = space(n, na, nb);
  auto ds = ham::dets<N>(sp, n);
  for(size_t j = 0; j < sp.size(); ++j) {
    auto col = column(I, sp[j]);
    for(size_t i = 0; i < sp.size(); ++i) {
      auto it = col.find(sp[i]);
      const double want = it == col.end() ? 0. : it->second;
      const double got = H.gen.matrix_element(ds[i], ds[j]);
      if(got != want) mc::fail("<%s|H|%s> is %.17g, expected %.17g", det(sp[i], n).c_str(), det(sp[j], n).c_str(), got, want);
    }
  }
  mc::executions(sp.size() * sp.size());
}
template <size_t N> void diagonals(int n, int na, int nb, const Ints& I) {
  ham::Ham<N> H(I);
  const u64 m = (u64(1) << n) - 1;
  auto diag = [&](u64 d) { return H.gen.matrix_element(ham::det<N>(d, n), ham::det<N>(d, n)); };
  for(u64 d : space(n, na, nb)) {
    const double e = column(I, d)[d];
    const u64 sp[2] = {d & m, d >> n};
    if(H.gen.matrix_element_diag(occ(sp[0], n), occ(sp[1], n)) != e || diag(d) != e) mc::fail("diagonal element of %s is %.17g, expected %.17g", det(d, n).c_str(), diag(d), e);
    for(int s = 0; s < 2; ++s) {
      auto ss = occ(sp[s], n), os = occ(sp[1 - s], n), v = occ(~sp[s] & m, n), vo = occ(~sp[1 - s] & m, n);
      auto full = [&](u64 same, u64 other) { return s ? same << n | other : same | other << n; };
      auto ens = H.gen.single_orbital_ens(n, ss, os), eno = H.gen.single_orbital_ens(n, os, ss);
      if((int)ens.size() != n) mc::fail("%zu orbital energies of %d", ens.size(), n);
      for(int p = 0; p < n; ++p) {  // energy of adding or removing the electron
        const u64 o = full(sp[s] ^ u64(1) << p, sp[1 - s]);
        const double want = (column(I, o)[o] - e) * (sp[s] >> p & 1 ? -1 : 1);
        if(ens[p] != want || H.gen.single_orbital_en(p, ss, os) != want) mc::fail("%s: energy of orbital %d of spin %d is %.17g / %.17g, expected %.17g", det(d, n).c_str(), p, s, ens[p], H.gen.single_orbital_en(p, ss, os), want);
      }
      auto cmp = [&](const char* what, u64 x, double a, double b) {
        const double w = column(I, x)[x];
        mc::executions(2);
        if(a != w || b != w) mc::fail("%s, spin %d: %s -> %s gives %.17g / %.17g, expected %.17g", what, s, det(d, n).c_str(), det(x, n).c_str(), a, b, w);
      };
      for(auto i : ss) for(auto a : v) {
        const u64 s1 = sp[s] ^ u64(1) << i ^ u64(1) << a;
        cmp("fast_diag_single", full(s1, sp[1 - s]), H.gen.fast_diag_single(ss, os, i, a, e), H.gen.fast_diag_single(ens[i], ens[a], i, a, e));
        for(auto j : ss) for(auto b : v) if(i != j && a != b)
          cmp("fast_diag_ss_double", full(s1 ^ u64(1) << j ^ u64(1) << b, sp[1 - s]), H.gen.fast_diag_ss_double(ss, os, i, j, a, b, e), H.gen.fast_diag_ss_double(ens[i], ens[j], ens[a], ens[b], i, j, a, b, e));
        for(auto j : os) for(auto b : vo)
          cmp("fast_diag_os_double", full(s1, sp[1 - s] ^ u64(1) << j ^ u64(1) << b), H.gen.fast_diag_os_double(ss, os, i, j, a, b, e), H.gen.fast_diag_os_double(ens[i], eno[j], ens[a], eno[b], i, j, a, b, e));
      }
    }
  }
}
// few electrons or holes high up in many orbitals
template <size_t N> void wide(int n, int first, int w) {
  Ints I(n), J(w);
  for(auto& x : I.V) x = 1e30;
  for(auto& x : I.T) x = 1e30;
  auto L = unique(w);
  int c = 1;
  for(auto& l : L) {
    const double x = c = (c * 37 + 11) % 4093;
    put(J, l, x);
    Label m{l.p + first, l.q + first, l.r < 0 ? -1 : l.r + first, l.s + first};
    put(I, m, x);
  }
  ham::Ham<N> H(I);
  for(int na = 0; na <= w; ++na) for(int nb = 0; nb <= w; ++nb) {
    auto sp = space(w, na, nb);
    std::vector<std::bitset<N>> ds;
    for(u64 d : sp) {
      std::bitset<N> b;
      for(int i = 0; i < w; ++i) b[first + i] = d >> i & 1, b[first + i + N / 2] = d >> (i + w) & 1;
      ds.push_back(b);
    }
    for(size_t j = 0; j < sp.size(); ++j) {
      auto col = column(J, sp[j]);
      for(size_t i = 0; i < sp.size(); ++i) {
        auto it = col.find(sp[i]);
        const double want = it == col.end() ? 0. : it->second, got = H.gen.matrix_element(ds[i], ds[j]);
        if(got != want) mc::fail("orbitals %d..%d: <%s|H|%s> is %.17g, expected %.17g", first, first + w - 1, det(sp[i], w).c_str(), det(sp[j], w).c_str(), got, want);
      }
    }
    mc::executions(sp.size() * sp.size());
  }
}
// determinants of many electrons: one column of the Hamiltonian and every diagonal reached from it
inline double diagonal(const Ints& I, u64 d) {
  double e = 0;
  const int n = I.n;
  for(int i = 0; i < 2 * n; ++i) if(d >> i & 1) {
    e += I.t(i % n, i % n);
    for(int j = 0; j < 2 * n; ++j) if(d >> j & 1) e += 0.5 * (I.v(i % n, i % n, j % n, j % n) - (i / n == j / n ? I.v(i % n, j % n, j % n, i % n) : 0.));
  }
  return e;
}
inline u64 pattern(int n, int k, int kind) {  // k of n orbitals
  u64 x = 0;
  int c = 7 + kind;
  auto at = [&](int i) { return kind == 0 ? i : kind == 1 ? n - 1 - i : kind == 2 ? (i * 2 < n ? i * 2 : (i - (n + 1) / 2) * 2 + 1) : (c = (c * 37 + 11) % 4093, c % n); };
  for(int i = 0; pc(x) < k; ++i) x |= u64(1) << at(i);
  return x;
}
template <size_t N> void many(int n, int na, int nb, int kind) {
  Ints I(n);
  int c = 1;
  for(auto& l : unique(n)) c = (c * 37 + 11) % 4093, put(I, l, 2 * c - 4000);
  ham::Ham<N> H(I);
  const u64 m = (u64(1) << n) - 1, d = pattern(n, nb, kind ? kind ^ 1 : 0) << n | pattern(n, na, kind);
  auto ket = ham::det<N>(d, n);
  long pairs = 0;
  for(auto& x : column(I, d)) {
    auto bra = ham::det<N>(x.first, n);
    const double a = H.gen.matrix_element(bra, ket), b = H.gen.matrix_element(ket, bra);
    pairs += 2;
    if(a != x.second || b != x.second) mc::fail("<%s|H|%s> is %.17g, and %.17g the other way, expected %.17g", det(x.first, n).c_str(), det(d, n).c_str(), a, b, x.second);
  }
  const double e = diagonal(I, d);
  const u64 sp[2] = {d & m, d >> n};
  if(H.gen.matrix_element_diag(occ(sp[0], n), occ(sp[1], n)) != e) mc::fail("diagonal element of %s is %.17g, expected %.17g", det(d, n).c_str(), H.gen.matrix_element_diag(occ(sp[0], n), occ(sp[1], n)), e);
  for(int s = 0; s < 2; ++s) {
    auto ss = occ(sp[s], n), os = occ(sp[1 - s], n), v = occ(~sp[s] & m, n), vo = occ(~sp[1 - s] & m, n);
    auto ens = H.gen.single_orbital_ens(n, ss, os), eno = H.gen.single_orbital_ens(n, os, ss);
    auto full = [&](u64 same, u64 other) { return s ? same << n | other : same | other << n; };
    auto cmp = [&](const char* what, u64 x, double a, double b) {
      const double w = diagonal(I, x);
      pairs += 2;
      if(a != w || b != w) mc::fail("%s, spin %d: %s -> %s gives %.17g / %.17g, expected %.17g", what, s, det(d, n).c_str(), det(x, n).c_str(), a, b, w);
    };
    for(int p = 0; p < n; ++p) {
      const double want = (diagonal(I, full(sp[s] ^ u64(1) << p, sp[1 - s])) - e) * (sp[s] >> p & 1 ? -1 : 1);
      if(ens[p] != want) mc::fail("%s: energy of orbital %d of spin %d is %.17g, expected %.17g", det(d, n).c_str(), p, s, ens[p], want);
    }
    const size_t step = n > 14 ? 3 : 1;  // of the second pair
    for(auto i : ss) for(auto a : v) {
      const u64 s1 = sp[s] ^ u64(1) << i ^ u64(1) << a;
      cmp("fast_diag_single", full(s1, sp[1 - s]), H.gen.fast_diag_single(ss, os, i, a, e), H.gen.fast_diag_single(ens[i], ens[a], i, a, e));
      for(size_t x = i % step; x < ss.size(); x += step) for(size_t y = a % step; y < v.size(); y += step) if(const auto j = ss[x], b = v[y]; i != j && a != b)
        cmp("fast_diag_ss_double", full(s1 ^ u64(1) << j ^ u64(1) << b, sp[1 - s]), H.gen.fast_diag_ss_double(ss, os, i, j, a, b, e), H.gen.fast_diag_ss_double(ens[i], ens[j], ens[a], ens[b], i, j, a, b, e));
      for(size_t x = i % step; x < os.size(); x += step) for(size_t y = a % step; y < vo.size(); y += step) if(const auto j = os[x], b = vo[y]; true)
        cmp("fast_diag_os_double", full(s1, sp[1 - s] ^ u64(1) << j ^ u64(1) << b), H.gen.fast_diag_os_double(ss, os, i, j, a, b, e), H.gen.fast_diag_os_double(ens[i], eno[j], ens[a], eno[b], i, j, a, b, e));
    }
  }
  mc::executions(pairs);
}
template <size_t N> void all() {
  const int m = N == 64 ? (mc::thorough ? 6 : 5) : (mc::thorough ? 5 : 4);
  for(int n = 1; n <= m; ++n) {
    auto B = basis(n);
    mc::suite(mc::fmt("elements-%zu-%d", N, n).c_str(), [&] {
      for(size_t k = 0; k < B.size(); ++k)
        for(int na = 0; na <= n; ++na) for(int nb = 0; nb <= n; ++nb)
          mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, integral set %zu", n, na, nb, k); }, [&] {
            mc::nontrivial();
            elements<N>(n, na, nb, B[k]);
            Ints I = B[k];  // the same, very small
            for(auto& x : I.T) x = std::ldexp(x, -130);
            for(auto& x : I.V) x = std::ldexp(x, -130);
            elements<N>(n, na, nb, I);
          });
    });
    if(n > 5) continue;
    mc::suite(mc::fmt("diagonals-%zu-%d", N, n).c_str(), [&] {
      for(size_t k = 0; k < B.size(); ++k)
        for(int na = 0; na <= n; ++na) for(int nb = 0; nb <= n; ++nb)
          mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, integral set %zu", n, na, nb, k); }, [&] {
            if(na + nb) mc::nontrivial();
            diagonals<N>(n, na, nb, B[k]);
            Ints I = B[k];
            for(auto& x : I.T) x = std::ldexp(x, -130);
            for(auto& x : I.V) x = std::ldexp(x, -130);
            diagonals<N>(n, na, nb, I);
          });
    });
  }
  mc::suite(mc::fmt("many-%zu", N).c_str(), [&] {
    for(int n = 7; n <= (N > 64 ? 12 : mc::thorough ? 16 : 13); ++n)
      for(auto f : std::vector<std::pair<int, int>>{{n / 2, n / 2}, {n - 1, n - 2}, {2, n - 1}, {n, n / 2}, {n - 3, 1}, {n / 2 + 2, n / 2 - 2}})
        for(int kind = 0; kind < 4; ++kind)
          mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons, pattern %d", n, f.first, f.second, kind); }, [&] { mc::nontrivial(); many<N>(n, f.first, f.second, kind); });
    if(N == 64) for(int n : {20, 28, 31}) for(int kind = 0; kind < (mc::thorough ? 4 : 1); ++kind)
      mc::test([&] { return mc::fmt("%d orbitals, half filled, pattern %d", n, kind); }, [&] { mc::nontrivial(); many<N>(n, n / 2, n / 2 + 1, kind); });
  });
  mc::suite(mc::fmt("wide-%zu", N).c_str(), [&] {
    const int top = N == 64 ? 32 : mc::thorough ? 64 : 40;
    for(int first = 0; first + 4 <= top; first += (mc::thorough && N == 64 ? 1 : 4))
      mc::test([&] { return mc::fmt("%d orbitals, electrons in those from %d on", top, first); }, [&] { mc::nontrivial(); wide<N>(top, first, 4); });
  });
  mc::suite(mc::fmt("changed-%zu", N).c_str(), [&] {  // integrals replaced in place
    const int n = 3;
    auto B = basis(n);
    for(size_t k = 0; k < B.size(); ++k)
      mc::test([&] { return mc::fmt("integral set %zu", k); }, [&] {
        mc::nontrivial();
        ham::Ham<N> H(generic(n));
        H.I.T = B[k].T, H.I.V = B[k].V;
        std::copy(B[k].T.begin(), B[k].T.end(), H.gen.T()), std::copy(B[k].V.begin(), B[k].V.end(), H.gen.V());
        H.gen.generate_integral_intermediates(H.gen.V_pqrs_);
        for(int na = 0; na <= n; ++na) for(int nb = 0; nb <= n; ++nb) {
          auto sp = space(n, na, nb);
          for(u64 j : sp) { auto col = column(B[k], j); for(u64 i : sp) { mc::executions(1); if(H.gen.matrix_element(ham::det<N>(i, n), ham::det<N>(j, n)) != (col.count(i) ? col[i] : 0.)) mc::fail("<%s|H|%s> does not follow the new integrals", det(i, n).c_str(), det(j, n).c_str()); } }
        }
      });
    for(size_t a = 1; a <= 3; ++a) for(size_t b = 0; b <= 3; ++b) for(int pos = 0; pos < 4; ++pos)
      mc::test([&] { return mc::fmt("extents %zu, index %d of extent %zu", a, pos, b); }, [&] {
        mc::nontrivial();
        std::vector<double> T(9), V(81);
        size_t e[4] = {a, a, a, a};
        e[pos] = b;
        bool threw = false;
        try { ham::Gen<N> g(macis::matrix_span<double>(T.data(), a, a), macis::rank4_span<double>(V.data(), e[0], e[1], e[2], e[3])); } catch(const std::exception&) { threw = true; }
        mc::executions(1);
        if(threw != (a != b)) mc::fail("a generator with mismatching extents is %s", threw ? "refused" : "accepted");
      });
  });
}
void part1();
#if PART == 0
void mc_main() { all<64>(), part1(); }
#else
void part1() { all<128>(); }
#endif
