// I02: density matrix and wave function files.
#include "lin.hpp"
#include <macis/util/detail/rdm_files.hpp>
#include <macis/wavefunction_io.hpp>
using vec = std::vector<double>;
constexpr double G = 4711.25;
static size_t pw(size_t b, int e) { size_t r = 1; while(e--) r *= b; return r; }
double value(int kind, size_t i) {
  static const double odd[] = {0., -0., 1., -1., 1e-300, 1e300, std::numeric_limits<double>::infinity(), -2.2250738585072014e-308, 0.1, std::numeric_limits<double>::denorm_min(), 3.};
  if(kind < 0) return kind == -1 ? std::sin(1.3 * i + 0.7) : odd[i % 11];
  return double((int)i == kind);
}
bool same(const vec& a, const vec& b) { return a.size() == b.size() && !std::memcmp(a.data(), b.data(), a.size() * 8); }
void density(int n, int p1, int p2, int q1, int q2, int kind, int old) {
  mc::executions(1);
  auto f = mc::scratch() + "/rdm";
  std::remove(f.c_str());
  if(old) std::ofstream(f, std::ios::binary) << std::string(old == 1 ? 3 : 20000, 'x');
  const size_t a = n + p1, b = n + p2, c = n + q1, d = n + q2;
  vec D(a * a + 1, G), P(pw(b, 4) + 1, G), D2(c * c + 1, -G), P2(pw(d, 4) + 1, -G), wD = D2, wP = P2;
  size_t k = 0;
  for(int j = 0; j < n; ++j) for(int i = 0; i < n; ++i) wD[i + j * c] = D[i + j * a] = value(kind, k++);
  for(int l = 0; l < n; ++l) for(int m = 0; m < n; ++m) for(int j = 0; j < n; ++j) for(int i = 0; i < n; ++i)
    wP[i + d * (j + d * (m + d * l))] = P[i + b * (j + b * (m + b * l))] = value(kind, k++);
  auto D0 = D, P0 = P;
  macis::write_rdms_binary(f, n, D.data(), a, P.data(), b);
  if(!same(D, D0) || !same(P, P0)) mc::fail("writer modified its input");
  {
    std::ifstream in(f, std::ios::binary | std::ios::ate);
    if((size_t)in.tellg() > 64 + 8 * (pw(n, 2) + pw(n, 4))) mc::fail("%lld bytes for %d orbitals: the file holds more than the matrices", (long long)in.tellg(), n);
  }
  for(int rep = 0; rep < 2; ++rep) {
    macis::read_rdms_binary(f, n, D2.data(), c, P2.data(), d);
    if(!same(D2, wD)) mc::fail("one-body matrix differs: %s, expected %s", mc::str(D2).c_str(), mc::str(wD).c_str());
    if(!same(P2, wP))
      for(size_t i = 0; i < P2.size(); ++i)
        if(std::memcmp(&P2[i], &wP[i], 8)) mc::fail("two-body matrix: position (%zu,%zu,%zu,%zu) holds %g, expected %g", i % d, i / d % d, i / d / d % d, i / d / d / d, P2[i], wP[i]);
  }
  for(int m = 0; m <= n + 2; ++m) {
    if(m == n) continue;
    vec D3(pw(m + 1, 2)), P3(pw(m + 1, 4));
    bool threw = false;
    try { macis::read_rdms_binary(f, m, D3.data(), m + 1, P3.data(), m + 1); } catch(const std::exception&) { threw = true; }
    if(!threw) mc::fail("file of %d orbitals accepted for %d", n, m);
  }
}
template <size_t N>
void wavefunction(int norb, const std::vector<std::bitset<N>>& s, const vec& c, int old) {
  mc::executions(1);
  auto f = mc::scratch() + "/wfn";
  std::remove(f.c_str());
  if(old) std::ofstream(f) << std::string(old == 1 ? 5 : 9000, '1') << "\n";
  auto s0 = s;
  macis::write_wavefunction<N>(f, norb, s, c);
  for(int rep = 0; rep < 4; ++rep) {
    // into empty and used lists, shorter and longer
    const size_t before[4][2] = {{0, 0}, {3, 4}, {1, 1}, {s.size(), s.size() + 2}};
    std::vector<std::bitset<N>> t(before[rep][0], std::bitset<N>(5));
    vec d(before[rep][1], 9.);
    macis::read_wavefunction<N>(f, t, d);
    if(t != s) {
      std::string w;
      for(auto& x : t) w += x.to_string() + " ";
      mc::fail("%zu determinants read, %zu written; read %s", t.size(), s.size(), w.c_str());
    }
    if(!same(d, c)) mc::fail("coefficients %s read, %s written", mc::str(d).c_str(), mc::str(c).c_str());
  }
  std::ifstream is(f);
  size_t ns, no, na, nb;
  is >> ns >> no >> na >> nb;
  size_t a = 0, b = 0;
  for(size_t i = 0; i < N / 2; ++i) a += s[0][i], b += s[0][i + N / 2];
  if(ns != s.size() || (int)no != norb || na != a || nb != b) mc::fail("header %zu %zu %zu %zu", ns, no, na, nb);
  // length mismatch is refused
  auto bad = c;
  bad.push_back(1.);
  bool threw = false;
  try { macis::write_wavefunction<N>(f + "2", norb, s, bad); } catch(const std::exception&) { threw = true; }
  if(!threw) mc::fail("lists of different length accepted");
}
template <size_t N>
std::bitset<N> det(int norb, unsigned long code) {
  std::bitset<N> b;
  for(int i = 0; i < norb; ++i) b[i] = code >> i & 1, b[i + N / 2] = code >> (i + norb) & 1;
  return b;
}
double coeff(int i) {
  static const double v[] = {0., -0., 1., -1., 1. / 3, -2. / 3e5, 1e-12, 0.1, 123456789.123456789, 1e300, 5e-300, 0.99999999999999989, 4.9e-324, -1.1e-310, -1.7976931348623157e308};
  return v[i % 15];
}
template <size_t N>
void waves(const char* tag) {
  const int W = N / 2;
  mc::suite(mc::fmt("single-%s", tag).c_str(), [&] {
    for(int norb = 1; norb <= (mc::thorough ? 6 : 5); ++norb)
      for(unsigned long d = 0; d < (1ul << 2 * norb); ++d)
        mc::test([&] { return mc::fmt("%d orbitals, determinant %lu", norb, d); }, [&] {
          mc::nontrivial();
          for(int o = 0; o < 3; ++o) wavefunction<N>(norb, {det<N>(norb, d)}, {coeff(d + o)}, o);
        });
    for(int i = 0; i < W; ++i)
      for(int j = 0; j < W; ++j)
        mc::test([&] { return mc::fmt("alpha %d beta %d of %d", i, j, W); }, [&] {
          mc::nontrivial();
          std::bitset<N> b, f;
          b.set(i), b.set(j + W);
          f.set();
          wavefunction<N>(std::max(i, j) + 1, {b}, {coeff(i + j)}, 0);
          wavefunction<N>(W, {f ^ b, b, f}, {coeff(i), coeff(j), coeff(i + j)}, 0);
        });
  });
  mc::suite(mc::fmt("lists-%s", tag).c_str(), [&] {
    for(int norb = 1; norb <= 2; ++norb)
      for(int len = 2; len <= (norb == 1 ? (mc::thorough ? 6 : 5) : (mc::thorough ? 3 : 2)); ++len)
        for(unsigned long code = 0; code < (1ul << (2 * norb * len)); ++code)
          mc::test([&] { return mc::fmt("%d orbitals, %d determinants, code %lu", norb, len, code); }, [&] {
            mc::nontrivial();
            std::vector<std::bitset<N>> s;
            vec c;
            for(int i = 0; i < len; ++i) s.push_back(det<N>(norb, code >> (2 * norb * i) & ((1 << 2 * norb) - 1))), c.push_back(coeff(i * 5 + code % 15));
            wavefunction<N>(norb, s, c, 0);
          });
    for(int len : {10, 100, 1000})
      mc::test([&] { return mc::fmt("%d determinants", len); }, [&] {
        mc::nontrivial();
        std::vector<std::bitset<N>> s;
        vec c;
        for(int i = 0; i < len; ++i) s.push_back(det<N>(8, i * 2654435761ul)), c.push_back(std::sin(i * 1.1) * std::pow(10., i % 17 - 8));
        wavefunction<N>(8, s, c, 0);
        wavefunction<N>(W, s, c, 0);
      });
  });
}
void mc_main() {
  mc::suite("density", [&] {
    for(int n = 0; n <= 4; ++n)
      for(int pad = 0; pad < 81; ++pad)
        for(int kind = -2; kind < 0; ++kind)
          mc::test([&] { return mc::fmt("%d orbitals, paddings code %d, content %d", n, pad, kind); }, [&] {
            if(n) mc::nontrivial();
            for(int old = 0; old < 3; ++old) density(n, pad % 3, pad / 3 % 3, pad / 9 % 3, pad / 27, kind, old);
          });
    for(int n = 1; n <= (mc::thorough ? 5 : 4); ++n)
      for(int k = 0; k < n * n + (int)pw(n, 4); ++k)
        mc::test([&] { return mc::fmt("%d orbitals, only element %d", n, k); }, [&] {
          mc::nontrivial();
          for(int v = 0; v < 4; ++v) density(n, v & 1, v >> 1, (v + k) % 3, (v * 2 + k) % 3, k, 0);
        });
    for(int n : {6, 9, 16, 20})
      for(int v = 0; v < 6; ++v)
        mc::test([&] { return mc::fmt("%d orbitals, variant %d", n, v); }, [&] {
          mc::nontrivial();
          density(n, v % 3, v / 2, (v + 1) % 3, v & 1, -1 - (v & 1), v % 3);
        });
    mc::test([] { return std::string("different sizes one after the other in one file"); }, [] {
      mc::nontrivial();
      for(int a = 0; a <= 4; ++a) for(int b = 0; b <= 4; ++b) density(a, 0, 1, 1, 0, -1, 0), density(b, 1, 0, 0, 1, -2, 0);
    });
  });
  waves<64>("64");
  waves<128>("128");
}
