// Q02: excitations, spaces and signs.
#include <numeric>
#include "fock.hpp"
#include <macis/sd_operations.hpp>
using fock::u64;
template <size_t N> using B = std::bitset<N>;
template <size_t N> using L = std::vector<B<N>>;
template <size_t N> struct Less { bool operator()(const B<N>& a, const B<N>& b) const { for(int i = int(N) - 1; i >= 0; --i) if(a[i] != b[i]) return b[i]; return false; } };
template <size_t N> std::string str(const B<N>& b) {
  std::string s = "{";
  for(size_t i = 0; i < N; ++i) if(b[i]) s += mc::fmt("%s%zu", s.size() > 1 ? "," : "", i);
  return s + "}";
}
template <size_t N> void expect(const char* what, L<N> got, L<N> want) {
  mc::executions(1);
  std::sort(want.begin(), want.end(), Less<N>());
  std::sort(got.begin(), got.end(), Less<N>());
  if(got == want) return;
  for(size_t i = 0; i + 1 < got.size(); ++i) if(got[i] == got[i + 1]) mc::fail("%s: %s appears twice", what, str(got[i]).c_str());
  for(auto& g : got) if(!std::binary_search(want.begin(), want.end(), g, Less<N>())) mc::fail("%s: %s does not belong to it", what, str(g).c_str());
  for(auto& w : want) if(!std::binary_search(got.begin(), got.end(), w, Less<N>())) mc::fail("%s: %s is missing", what, str(w).c_str());
  mc::fail("%s: %zu instead of %zu", what, got.size(), want.size());
}
template <size_t N> L<N> cat(L<N> a, const L<N>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
// reference: all excitations of the given level of the electrons in orbitals orb (occupied -> empty among them)
template <size_t N> L<N> exc(const B<N>& s, const std::vector<uint32_t>& orb, int level) {
  std::vector<uint32_t> o, v;
  for(auto x : orb) (s[x] ? o : v).push_back(x);
  L<N> r;
  if(level == 0) r.push_back(s);
  if(level == 1) for(auto i : o) for(auto a : v) { auto d = s; d.reset(i), d.set(a), r.push_back(d); }
  if(level == 2) for(size_t i = 0; i < o.size(); ++i) for(size_t j = 0; j < i; ++j) for(size_t a = 0; a < v.size(); ++a) for(size_t b = 0; b < a; ++b) {
    auto d = s;
    d.reset(o[i]), d.reset(o[j]), d.set(v[a]), d.set(v[b]), r.push_back(d);
  }
  return r;
}
template <size_t N> L<N> spin_exc(const B<N>& s, const std::vector<uint32_t>& orb, int level) {  // spin conserving
  auto hi = orb;
  for(auto& x : hi) x += N / 2;
  if(level == 1) return cat(exc(s, orb, 1), exc(s, hi, 1));
  auto r = cat(exc(s, orb, 2), exc(s, hi, 2));
  for(auto& a : exc(s, orb, 1)) for(auto& b : exc(a, hi, 1)) r.push_back(b);
  return r;
}
inline std::vector<uint32_t> range(int n) { std::vector<uint32_t> v(n); std::iota(v.begin(), v.end(), 0); return v; }
const size_t J = 1;
template <size_t N> L<N> junk() { return {B<N>(5), B<N>(5)}; }
template <size_t N> void orbitals(size_t norb, const B<N>& s) {  // no spin
  L<N> a = junk<N>(), b = junk<N>(), c = junk<N>(), d = junk<N>();
  macis::generate_singles(norb, s, a);
  macis::generate_doubles(norb, s, b);
  macis::generate_singles_doubles(norb, s, c, d);
  auto w1 = exc(s, range(norb), 1), w2 = exc(s, range(norb), 2);
  expect("generate_singles", a, w1), expect("generate_doubles", b, w2), expect("generate_singles_doubles, singles", c, w1), expect("generate_singles_doubles, doubles", d, w2);
}
template <size_t N> void orbitals_as(size_t norb, const B<N>& s, const std::vector<uint32_t>& as) {
  L<N> a = junk<N>(), b = junk<N>(), c = junk<N>();
  macis::generate_singles_as(norb, s, a, as);
  macis::generate_singles_doubles_as(norb, s, b, c, as);
  auto w1 = exc(s, as, 1), w2 = exc(s, as, 2);
  expect("generate_singles_as", a, w1), expect("generate_singles_doubles_as, singles", b, w1), expect("generate_singles_doubles_as, doubles", c, w2);
}
template <size_t N> void spin(size_t norb, const B<N>& s) {
  L<N> a = junk<N>(), b = junk<N>(), c = junk<N>(), e = junk<N>(), f = junk<N>();
  macis::generate_singles_spin(norb, s, a);
  macis::generate_singles_doubles_spin(norb, s, b, c);
  auto w1 = spin_exc(s, range(norb), 1), w2 = spin_exc(s, range(norb), 2);
  expect("generate_singles_spin", a, w1), expect("generate_singles_doubles_spin, singles", b, w1), expect("generate_singles_doubles_spin, doubles", c, w2);
  macis::generate_cis_hilbert_space(norb, s, e), macis::generate_cisd_hilbert_space(norb, s, f);
  auto cis = cat(L<N>{s}, w1);
  expect("generate_cis_hilbert_space", e, cis), expect("generate_cis_hilbert_space (value)", macis::generate_cis_hilbert_space(norb, s), cis);
  expect("generate_cisd_hilbert_space", f, cat(cis, w2)), expect("generate_cisd_hilbert_space (value)", macis::generate_cisd_hilbert_space(norb, s), cat(cis, w2));
  if(e[0] != s || f[0] != s) mc::fail("the reference does not come first");
}
template <size_t N> void spin_as(size_t norb, const B<N>& s, const std::vector<uint32_t>& as) {
  L<N> a = junk<N>(), b = junk<N>(), c = junk<N>();
  macis::generate_singles_spin_as(norb, s, a, as);
  macis::generate_singles_doubles_spin_as(norb, s, b, c, as);
  auto w1 = spin_exc(s, as, 1), w2 = spin_exc(s, as, 2);
  expect("generate_singles_spin_as", a, w1), expect("generate_singles_doubles_spin_as, singles", b, w1), expect("generate_singles_doubles_spin_as, doubles", c, w2);
}
template <size_t N> void residues(const B<N>& s) {
  L<N> r, w;
  macis::generate_residues(s, r);
  for(size_t i = 0; i < N; ++i) if(s[i]) for(size_t j = 0; j < i; ++j) if(s[j]) { auto d = s; d.reset(i), d.reset(j), w.push_back(d); }
  expect("generate_residues", r, w);
}
// operators on bit strings
template <size_t N> int move(B<N>& d, int to, int from) {  // a+_to a_from
  auto below = [&](int o) { int c = 0; for(int i = 0; i < o; ++i) c += d[i]; return c & 1 ? -1 : 1; };
  if(!d[from]) return 0;
  int s = below(from);
  d.reset(from);
  if(d[to]) return 0;
  s *= below(to);
  d.set(to);
  return s;
}
template <size_t N> void signs(const B<N>& ket, const std::vector<uint32_t>& orb) {
  for(auto q : orb) if(ket[q]) for(auto p : orb) if(!ket[p]) {
    mc::executions(2);
    auto bra = ket;
    const int w = move(bra, p, q);
    if(macis::single_excitation_sign(ket, p, q) != w) mc::fail("sign of %u -> %u on %s is %g, not %d", q, p, str(ket).c_str(), macis::single_excitation_sign(ket, p, q), w);
    auto [o, v, s] = macis::single_excitation_sign_indices(bra, ket, bra ^ ket);
    if(o != q || v != p || s != w) mc::fail("excitation %u -> %u (sign %d) of %s is labelled %u -> %u, sign %g", q, p, w, str(ket).c_str(), o, v, (double)s);
    if(macis::first_occupied_flipped(ket, bra ^ ket) != q) mc::fail("first occupied flipped orbital of %s is not %u", str(ket).c_str(), q);
  }
  for(auto& bra : exc(ket, orb, 2)) {
    mc::executions(1);
    auto [o1, v1, o2, v2, s] = macis::doubles_sign_indices(bra, ket, bra ^ ket);
    auto d = ket;
    int w = move(d, v1, o1);
    if(w) w *= move(d, v2, o2);
    if(!w || d != bra || s != w) mc::fail("double excitation %s -> %s is labelled %u -> %u, %u -> %u, sign %g: that operator gives sign %d and %s", str(ket).c_str(), str(bra).c_str(), o1, v1, o2, v2, (double)s, w, str(d).c_str());
    if(macis::doubles_sign(bra, ket, bra ^ ket) != s) mc::fail("doubles_sign of %s -> %s differs from doubles_sign_indices", str(ket).c_str(), str(bra).c_str());
  }
}
template <size_t N> B<N> embed(u64 a, u64 b, const std::vector<uint32_t>& orb) {
  B<N> d;
  for(size_t i = 0; i < orb.size(); ++i) {
    if(a >> i & 1) d.set(orb[i]);
    if(b >> i & 1) d.set(orb[i] + N / 2);
  }
  return d;
}
template <size_t N> void plain() {
  mc::suite(mc::fmt("orbitals-%zu", N).c_str(), [&] {
    for(size_t n = 0; n <= std::min<size_t>(N, mc::thorough ? 9 : 7); ++n)
      for(u64 s = 0; s < (u64(1) << n); s += 8)
        mc::test([&] { return mc::fmt("%zu orbitals, states from %llx", n, (unsigned long long)s); }, [&] {
          mc::nontrivial();
          for(u64 t = s; t < std::min(s + 8, u64(1) << n); ++t) orbitals<N>(n, B<N>(t));
        });
    if(N <= 128) for(size_t n : std::set<size_t>{std::min<size_t>(N, 31), std::min<size_t>(N, 32), std::min<size_t>(N, 33), std::min<size_t>(N, 64), N})  // few electrons or few holes at the upper end
      for(u64 p = 0; p < 64; ++p)
        mc::test([&] { return mc::fmt("%zu orbitals, upper six %llx", n, (unsigned long long)p); }, [&] {
          if(fock::pc(p) > 2) return;
          mc::nontrivial();
          auto b = n >= 6 ? B<N>(p) << (n - 6) : B<N>(p);
          orbitals<N>(n, b);
          B<N> m;
          for(size_t i = 0; i < n; ++i) m.set(i);
          orbitals<N>(n, ~b & m);
        });
  });
  mc::suite(mc::fmt("active-%zu", N).c_str(), [&] {
    const int n = 6;
    for(u64 as = 0; as < (1 << n); ++as)
      mc::test([&] { return mc::fmt("active orbitals %llx", (unsigned long long)as); }, [&] {
        mc::nontrivial();
        for(int st : {1, N >= 64 ? 10 : N >= 32 ? 5 : N >= 16 ? 2 : 1}) {
          std::vector<uint32_t> A, all;
          for(int i = 0; i < n; ++i) { all.push_back(i * st); if(as >> i & 1) A.push_back(i * st); }
          for(u64 s = 0; s < (1 << n); ++s) orbitals_as<N>(N, embed<N>(s, 0, all), A);
        }
      });
  });
  mc::suite(mc::fmt("sign-%zu", N).c_str(), [&] {
    const int w = std::min<int>(N, mc::thorough ? 10 : 8);
    for(size_t pos = 0; pos + w <= N; pos += std::max<size_t>(1, N <= 64 && mc::thorough ? 1 : 2))
      mc::test([&] { return mc::fmt("positions from %zu on", pos); }, [&] {
        mc::nontrivial();
        std::vector<uint32_t> orb;
        for(int i = 0; i < w; ++i) orb.push_back(pos + i);
        for(u64 p = 0; p < (u64(1) << w); ++p) {
          auto d = B<N>(p) << pos;
          signs<N>(d, orb);
        }
      });
    for(u64 p = 0; p < 256; ++p)  // positions far apart, the rest filled
      mc::test([&] { return mc::fmt("far positions, %llx", (unsigned long long)p); }, [&] {
        mc::nontrivial();
        std::set<uint32_t> o{0, 1, N / 4, N / 2 - 1, N / 2, N / 2 + 1, 3 * N / 4, N - 1};
        std::vector<uint32_t> orb(o.begin(), o.end());
        for(int fill = 0; fill < 4; ++fill) {
          B<N> d;
          for(size_t i = 0; i < N; ++i) d[i] = fill == 1 || (fill == 2 && i % 2) || (fill == 3 && i % 3 == 1);
          for(size_t i = 0; i < orb.size(); ++i) d[orb[i]] = p >> i & 1;
          signs<N>(d, orb);
        }
      });
  });
}
template <size_t N> void spins() {
  for(int n = 0; n <= (mc::thorough ? 6 : 5); ++n)
    mc::suite(mc::fmt("spin-%zu-%d", N, n).c_str(), [&] {
      for(u64 a = 0; a < (u64(1) << n); ++a)
        mc::test([&] { return mc::fmt("%d orbitals, alpha string %llx", n, (unsigned long long)a); }, [&] {
          mc::nontrivial();
          for(u64 b = 0; b < (u64(1) << n); ++b) {
            auto d = embed<N>(a, b, range(n));
            spin<N>(n, d), residues<N>(d);
          }
        });
    });
  mc::suite(mc::fmt("upper-%zu", N).c_str(), [&] {  // last orbitals of each spin
    for(size_t n : {N / 2, N / 2 - 1})
      for(u64 p = 0; p < 64; ++p)
        mc::test([&] { return mc::fmt("%zu orbitals, pattern %llx", n, (unsigned long long)p); }, [&] {
          if(N > 64 && fock::pc(p) > 2) return;
          mc::nontrivial();
          std::vector<uint32_t> up{uint32_t(n - 3), uint32_t(n - 2), uint32_t(n - 1)};
          auto d = embed<N>(p & 7, p >> 3, up);
          if(fock::pc(p) <= 3) spin<N>(n, d);
          residues<N>(d);
          std::vector<uint32_t> as{0, 1, uint32_t(n / 2)};
          for(auto u : up) as.push_back(u);
          spin_as<N>(n, d, as);
          for(auto i : as) d.flip(i), d.flip(i + N / 2);
          spin_as<N>(n, d, as), residues<N>(d);
        });
  });
  mc::suite(mc::fmt("active-spin-%zu", N).c_str(), [&] {
    const int n = 4;
    for(u64 as = 0; as < (1 << n); ++as) for(u64 a = 0; a < (1 << n); ++a)
      mc::test([&] { return mc::fmt("active orbitals %llx, alpha string %llx", (unsigned long long)as, (unsigned long long)a); }, [&] {
        mc::nontrivial();
        std::vector<uint32_t> A;
        for(int i = 0; i < n; ++i) if(as >> i & 1) A.push_back(i);
        for(u64 b = 0; b < (1 << n); ++b) spin_as<N>(n, embed<N>(a, b, range(n)), A);
      });
  });
}
template <size_t N> void spaces() {
  mc::suite(mc::fmt("space-%zu", N).c_str(), [&] {
    const int m = mc::thorough ? 7 : 6;
    for(int n = 0; n <= m; ++n) for(int a = 0; a <= n; ++a) for(int b = 0; b <= n; ++b)
      mc::test([&] { return mc::fmt("%d orbitals, %d + %d electrons", n, a, b); }, [&] {
        mc::nontrivial();
        L<N> w;
        for(u64 x : fock::strings(n, a)) for(u64 y : fock::strings(n, b)) w.push_back(embed<N>(x, y, range(n)));
        expect("generate_hilbert_space", macis::generate_hilbert_space<N>(n, a, b), w);
        B<N> hf;
        for(int i = 0; i < a; ++i) hf.set(i);
        for(int i = 0; i < b; ++i) hf.set(i + N / 2);
        if(macis::canonical_hf_determinant<N>(a, b) != hf) mc::fail("canonical_hf_determinant gives %s", str(macis::canonical_hf_determinant<N>(a, b)).c_str());
      });
    for(size_t n : {N / 2 - 1, N / 2}) for(int a = 0; a <= 2; ++a)
      mc::test([&] { return mc::fmt("%zu orbitals, %d electrons of one spin", n, a); }, [&] {
        mc::nontrivial();
        L<N> w, v;
        for(size_t i = 0; i < n; ++i) { if(a < 2) { if(a || !i) { B<N> d; if(a) d.set(i); w.push_back(d); } } else for(size_t j = 0; j < i; ++j) { B<N> d; d.set(i), d.set(j), w.push_back(d); } }
        for(auto& x : w) v.push_back(x << N / 2);
        expect("generate_combs", macis::generate_combs<N>(n, a), w);
        expect("generate_hilbert_space", macis::generate_hilbert_space<N>(n, a, 0), w);
        expect("generate_hilbert_space", macis::generate_hilbert_space<N>(n, 0, a), v);
      });
    for(size_t a = 0; a <= N / 2; ++a)
      mc::test([&] { return mc::fmt("reference determinants of %zu electrons", a); }, [&] {
        mc::nontrivial();
        for(size_t b = 0; b <= N / 2; ++b) {
          B<N> hf;
          for(size_t i = 0; i < a; ++i) hf.set(i);
          for(size_t i = 0; i < b; ++i) hf.set(i + N / 2);
          mc::executions(1);
          if(macis::canonical_hf_determinant<N>(a, b) != hf) mc::fail("canonical_hf_determinant(%zu,%zu) gives %s", a, b, str(macis::canonical_hf_determinant<N>(a, b)).c_str());
        }
      });
  });
  mc::suite(mc::fmt("energies-%zu", N).c_str(), [&] {
    const int n = mc::thorough ? 7 : 6;
    for(int len = 1; len <= n; ++len)
      mc::test([&] { return mc::fmt("%d orbital energies", len); }, [&] {
        mc::nontrivial();
        u64 tot = 1;
        for(int i = 0; i < len; ++i) tot *= 3;
        for(u64 c = 0; c < tot; ++c) {
          std::vector<double> e(len);
          u64 t = c;
          for(auto& x : e) x = double(t % 3) - 1, t /= 3;
          for(int a = 0; a <= len; ++a) for(int b = 0; b <= len; ++b) {
            mc::executions(1);
            auto d = macis::canonical_hf_determinant<N>(a, b, e);
            int ca = 0, cb = 0;
            bool bad = false;
            for(int i = 0; i < len; ++i) { ca += d[i], cb += d[i + N / 2]; for(int j = 0; j < len; ++j) bad |= (e[i] > e[j] && d[i] && !d[j]) || (e[i] > e[j] && d[i + N / 2] && !d[j + N / 2]); }
            if(bad || ca != a || cb != b || int(d.count()) != a + b) mc::fail("energies %s, %d + %d electrons: occupied %s", mc::str(e).c_str(), a, b, str(d).c_str());
          }
        }
      });
    // more orbitals, up to the last one there is room for: the lowest of each spin are the first of the order
    for(size_t len = n + 1; len <= N / 2; len += len + 9 < N / 2 ? N / 32 + 1 : 1)
      mc::test([&] { return mc::fmt("%zu orbital energies in several orders", len); }, [&] {
        mc::nontrivial();
        for(size_t step = 1; step < len; step += step < 8 ? 1 : 5) for(size_t first : {size_t(0), len / 2, len - 1}) for(int way = 0; way < 2; ++way) {
          if(std::gcd(step, len) != 1) continue;
          std::vector<size_t> order;  // orbital of each level
          for(size_t i = 0; i < len; ++i) order.push_back((first + i * step) % len);
          std::vector<double> e(len);
          for(size_t i = 0; i < len; ++i) e[order[i]] = way ? std::ldexp(double(i), -40) - 2 : double(i) - 3.5;
          for(size_t a = 0; a <= len; ++a) {
            const size_t b = (a * 5 + step) % (len + 1);
            B<N> want;
            for(size_t i = 0; i < a; ++i) want.set(order[i]);
            for(size_t i = 0; i < b; ++i) want.set(order[i] + N / 2);
            mc::executions(1);
            auto d = macis::canonical_hf_determinant<N>(a, b, e);
            if(d != want) mc::fail("%zu + %zu electrons in %zu orbitals: occupied %s, not %s", a, b, len, str(d).c_str(), str(want).c_str());
          }
        }
      });
  });
}
void part1();
void part2();
void part3();
#if PART == 0
void mc_main() { plain<8>(), plain<16>(), plain<32>(); part1(), part2(), part3(); }
#elif PART == 1
void part1() { plain<64>(), plain<128>(), plain<256>(), spaces<256>(); }
#elif PART == 2
void part2() { spins<64>(), spaces<64>(); }
#else
void part3() { spins<128>(), spaces<128>(); }
#endif
