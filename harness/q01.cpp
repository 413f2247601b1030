// Q01: bit-string helpers.
#include "pre.hpp"
#include <macis/sd_operations.hpp>
using u64 = uint64_t;
using u128 = unsigned __int128;
template <size_t N> using B = std::bitset<N>;
template <size_t N> B<N> at(u64 pat, int pos) {  // the pattern placed with its bit 0 at pos (may stick out at both ends)
  B<N> b;
  for(int i = 0; i < 64; ++i) if(pat >> i & 1) if(pos + i >= 0 && pos + i < (int)N) b[pos + i] = 1;
  return b;
}
template <size_t N> std::string str(const B<N>& b) {
  std::string s = mc::fmt("%zu bits {", N);
  int c = 0;
  for(size_t i = 0; i < N; ++i) if(b[i]) s += mc::fmt("%s%zu", c++ ? "," : "", i);
  return s + "}";
}
template <size_t N> u128 low(const B<N>& b, size_t k) {
  u128 r = 0;
  for(size_t i = 0; i < std::min(N, k); ++i) if(b[i]) r |= u128(1) << i;
  return r;
}
template <size_t N, size_t M> bool same(const B<N>& a, const B<M>& b, size_t from, size_t cnt) {  // a[0..cnt) == b[from..) and nothing else in a
  for(size_t i = 0; i < N; ++i) if(a[i] != (i < cnt && from + i < M ? bool(b[from + i]) : false)) return false;
  return true;
}
template <size_t T, size_t N> void resize(const B<N>& b) {
  if constexpr(T <= N) {
    if(!same(macis::truncate_bitset<T>(b), b, 0, T)) mc::fail("truncate to %zu of %s gives %s", T, str(b).c_str(), str(macis::truncate_bitset<T>(b)).c_str());
  }
  if constexpr(T >= N) {
    if(!same(macis::expand_bitset<T>(b), b, 0, N)) mc::fail("expand to %zu of %s gives %s", T, str(b).c_str(), str(macis::expand_bitset<T>(b)).c_str());
  }
}
template <size_t N> void one(const B<N>& b) {
  auto id = [&] { return str(b); };
  std::vector<uint32_t> ix;
  for(size_t i = 0; i < N; ++i) if(b[i]) ix.push_back(i);
  if(ix.size()) {
    if(macis::ffs(b) != ix[0] + 1) mc::fail("ffs of %s gives %u", id().c_str(), macis::ffs(b));
    if(macis::fls(b) != ix.back()) mc::fail("fls of %s gives %u", id().c_str(), macis::fls(b));
  } else if(N <= 64 && macis::ffs(b) != 0) mc::fail("ffs of the empty string of %zu bits gives %u", N, macis::ffs(b));
  if(macis::bits_to_indices(b) != ix) mc::fail("bits_to_indices of %s gives %s", id().c_str(), mc::str(macis::bits_to_indices(b)).c_str());
  std::vector<uint32_t> r(3, 77);
  macis::bits_to_indices(b, r);
  if(r != ix) mc::fail("bits_to_indices (in place) of %s gives %s", id().c_str(), mc::str(r).c_str());
  if constexpr(N <= 64 || N == 128) {
    if(macis::fast_to_ullong(b) != u64(low(b, 64))) mc::fail("fast_to_ullong of %s gives %llx", id().c_str(), (unsigned long long)macis::fast_to_ullong(b));
    if(macis::fast_to_ulong(b) != u64(low(b, 64))) mc::fail("fast_to_ulong of %s gives %lx", id().c_str(), macis::fast_to_ulong(b));
  }
  if constexpr(N <= 128) {
    try {
      if(macis::to_uint128(b) != low(b, 128)) mc::fail("to_uint128 of %s gives %llx:%llx", id().c_str(), (unsigned long long)(macis::to_uint128(b) >> 64), (unsigned long long)macis::to_uint128(b));
    } catch(const std::overflow_error&) {  // refused rather than wrong, for widths the code has no path for
      if(N <= 64 || N == 128) mc::fail("to_uint128 of %s is refused", id().c_str());
    }
  }
  resize<1>(b), resize<5>(b), resize<8>(b), resize<16>(b), resize<31>(b), resize<32>(b), resize<33>(b), resize<48>(b), resize<63>(b), resize<64>(b);
  resize<65>(b), resize<96>(b), resize<127>(b), resize<128>(b), resize<129>(b), resize<192>(b), resize<256>(b), resize<320>(b);
  resize<N / 2>(b), resize<2 * N>(b);
  if constexpr(N == 64 || N == 128) {
    auto lo = macis::bitset_lo_word(b), hi = macis::bitset_hi_word(b);
    if(!same(lo, b, 0, N / 2)) mc::fail("low half of %s is %s", id().c_str(), str(lo).c_str());
    if(!same(hi, b, N / 2, N / 2)) mc::fail("high half of %s is %s", id().c_str(), str(hi).c_str());
    if((macis::expand_bitset<N>(lo) | macis::expand_bitset<N>(hi) << (N / 2)) != b) mc::fail("the halves of %s do not join", id().c_str());
  }
}
template <size_t N> void less(const B<N>& a, const B<N>& b) {
  bool want = false;
  for(int i = int(N) - 1; i >= 0; --i) if(a[i] != b[i]) { want = b[i]; break; }
  if(macis::bitset_less(a, b) != want || macis::bitset_less_comparator<N>()(a, b) != want) mc::fail("order of %s and %s is wrong", str(a).c_str(), str(b).c_str());
}
// occupied and virtual lists of the first norb orbitals
template <size_t N> void occ(const B<N>& b, size_t norb) {
  std::vector<uint32_t> o{1, 2}, v{5}, wo, wv;
  for(size_t i = 0; i < norb; ++i) (b[i] ? wo : wv).push_back(i);
  macis::bitset_to_occ_vir(norb, b, o, v);
  if(o != wo || v != wv) mc::fail("%s in %zu orbitals: occupied %s, virtual %s", str(b).c_str(), norb, mc::str(o).c_str(), mc::str(v).c_str());
}
template <size_t N> void occ_as(const B<N>& b, const std::vector<uint32_t>& as) {
  std::vector<uint32_t> o{1, 2}, v{5}, wo, wv;
  for(auto i : as) (b[i] ? wo : wv).push_back(i);
  macis::bitset_to_occ_vir_as(N, b, o, v, as);
  if(o != wo || v != wv) mc::fail("%s in orbitals %s: occupied %s, virtual %s", str(b).c_str(), mc::str(as).c_str(), mc::str(o).c_str(), mc::str(v).c_str());
}
template <size_t K, size_t N> void mask1() {
  auto m = macis::full_mask<K, N>();
  for(size_t i = 0; i < N; ++i) if(m[i] != (i < K)) mc::fail("full_mask<%zu,%zu> gives %s", K, N, str(m).c_str());
}
template <size_t N, size_t... K> void masks() { ([] { if constexpr(K >= 1 && K <= N) mask1<K, N>(); }(), ...); }

template <size_t N> void width() {
  // every pattern of W neighbouring positions, at every place; both on a background of zeros and of ones (window edges excluded)
  const int W = mc::thorough ? 12 : 8;
  mc::suite(mc::fmt("windows-%zu", N).c_str(), [&] {
    for(int pos = (int)N <= W ? 0 : -W + 1; pos < (int)N && (pos <= 0 || (int)N > W); ++pos)
      mc::test([&] { return mc::fmt("%d positions from %d on", W, pos); }, [&] {
        mc::nontrivial();
        for(u64 p = 0; p < (u64(1) << W); ++p) {
          auto b = at<N>(p, pos);
          one(b), one(~b);
          for(size_t far : {size_t(0), N / 2 - 1, N / 2, N - 1}) { auto c = b; c.set(far); one(c); }
          mc::executions(6);
        }
      });
  });
  mc::suite(mc::fmt("few-%zu", N).c_str(), [&] {  // every set of up to three positions
    for(size_t i = 0; i < N; ++i)
      mc::test([&] { return mc::fmt("first position %zu", i); }, [&] {
        mc::nontrivial();
        for(size_t j = i; j < N; ++j) for(size_t k = j; k < N; k += (mc::thorough || N <= 64 || k == j || k % 32 >= 31 || k % 32 == 0 ? 1 : 5)) {
          B<N> b;
          b.set(i), b.set(j), b.set(k);
          one(b), mc::executions(1);
        }
      });
  });
  mc::suite(mc::fmt("order-%zu", N).c_str(), [&] {
    const int w = mc::thorough ? 6 : 5;
    for(int pos = -w + 1; pos < (int)N; ++pos)
      mc::test([&] { return mc::fmt("pairs of %d positions from %d on", w, pos); }, [&] {
        mc::nontrivial();
        for(u64 p = 0; p < (u64(1) << w); ++p) for(u64 q = 0; q < (u64(1) << w); ++q) {
          auto a = at<N>(p, pos), b = at<N>(q, pos);
          less(a, b), less(~a, ~b);
          // a lower difference that must not matter, a higher one that decides
          for(size_t far : {size_t(0), N / 2 - 1, N / 2, N - 1}) { auto c = a; c.flip(far); less(c, b), less(b, c); }
          mc::executions(10);
        }
      });
  });
  mc::suite(mc::fmt("lists-%zu", N).c_str(), [&] {
    const int w = 8;
    for(size_t norb = 0; norb <= N; ++norb)
      mc::test([&] { return mc::fmt("%zu orbitals", norb); }, [&] {
        mc::nontrivial();
        for(int pos : {-4, 0, (int)norb / 2 - 4, (int)norb - w}) for(u64 p = 0; p < (u64(1) << w); ++p) {
          auto b = at<N>(p, pos);
          for(size_t i = norb; i < N; ++i) b[i] = 0;
          occ(b, norb);
          auto c = ~b;
          for(size_t i = norb; i < N; ++i) c[i] = 0;
          occ(c, norb), mc::executions(2);
        }
      });
    const int n = std::min<size_t>(N, 6);
    for(u64 s = 0; s < (u64(1) << n); ++s)
      mc::test([&] { return mc::fmt("orbitals of the set %llx", (unsigned long long)s); }, [&] {
        mc::nontrivial();
        std::vector<uint32_t> as;
        for(int i = 0; i < n; ++i) if(s >> i & 1) as.push_back(N - 1 - (n - 1 - i) * (N >= 36 ? 7 : 1) * 1);
        for(u64 p = 0; p < (u64(1) << n); ++p) {
          B<N> b;
          for(int i = 0; i < n; ++i) if(p >> i & 1) b.set(N - 1 - (n - 1 - i) * (N >= 36 ? 7 : 1));
          occ_as(b, as), mc::executions(1);
          auto r = as;
          std::reverse(r.begin(), r.end());
          occ_as(b, r);
        }
      });
  });
  mc::suite(mc::fmt("masks-%zu", N).c_str(), [&] {
    mc::test([&] { return mc::fmt("all masks of %zu bits", N); }, [&] {
      mc::nontrivial();
      for(size_t i = 0; i <= N; ++i) {
        auto m = macis::full_mask<N>(i);
        for(size_t j = 0; j < N; ++j) if(m[j] != (j < i)) mc::fail("full_mask<%zu>(%zu) gives %s", N, i, str(m).c_str());
      }
      masks<N, 1, 2, 3, 7, 8, 16, 24, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, N / 2 - 1, N / 2, N / 2 + 1, N - 1, N>();
    });
  });
}
template <size_t N> void canonical() {
  mc::suite(mc::fmt("text-%zu", N).c_str(), [&] {
    const int w = 4;
    for(size_t pos = 0; pos + w <= N / 2; ++pos)
      mc::test([&] { return mc::fmt("text of %zu bits, orbitals from %zu on", N, pos); }, [&] {
        mc::nontrivial();
        for(u64 p = 0; p < 256; ++p) {
          auto b = at<N>(p & 15, pos) | at<N>(p >> 4, pos + N / 2);
          for(int f = 0; f < 2; ++f) {
            std::string want(N / 2, '0');
            for(size_t i = 0; i < N / 2; ++i) want[i] = "0ud2"[int(b[i]) + 2 * int(b[i + N / 2])];
            mc::executions(1);
            if(macis::to_canonical_string(b) != want) mc::fail("%s is written as %s", str(b).c_str(), macis::to_canonical_string(b).c_str());
            if(macis::from_canonical_string<N>(want) != b) mc::fail("%s is read as %s", want.c_str(), str(macis::from_canonical_string<N>(want)).c_str());
            auto cut = want.substr(0, want.find_last_not_of('0') + 1);
            if(macis::from_canonical_string<N>(cut) != b) mc::fail("%s is read as %s", cut.c_str(), str(macis::from_canonical_string<N>(cut)).c_str());
            b = ~b;
          }
        }
      });
  });
}
template <class T> void integers(const char* nm) {
  mc::suite(nm, [&] {
    const int n = 8 * sizeof(T);
    for(int top = 0; top < n; ++top)
      mc::test([&] { return mc::fmt("highest bit %d", top); }, [&] {
        mc::nontrivial();
        for(int lo = 0; lo <= top; ++lo) for(int k = 0; k < 64; ++k) {
          T x = T(1) << top | T(1) << lo | (T(k) << top) >> 6;
          mc::executions(1);
          if(macis::fls(x) != (unsigned)top) mc::fail("fls(%llx) gives %u", (unsigned long long)x, macis::fls(x));
          if((int)macis::clz(x) != n - 1 - top) mc::fail("clz(%llx) gives %d", (unsigned long long)x, (int)macis::clz(x));
        }
      });
  });
}
// four translation units
void part1();
void part2();
void part3();
#if PART == 0
void mc_main() {
  width<8>(), width<16>(), width<31>(), width<32>(), width<33>();
  integers<unsigned>("unsigned"), integers<unsigned long>("unsigned-long"), integers<unsigned long long>("unsigned-long-long");
  part1(), part2(), part3();
}
#elif PART == 1
void part1() { width<48>(), width<63>(), width<64>(), width<65>(); }
#elif PART == 2
void part2() { width<96>(), width<127>(), width<128>(); }
#else
void part3() { width<129>(), width<192>(), width<256>(), canonical<64>(), canonical<128>(); }
#endif
