// Hamiltonian generators over reference integrals.
#pragma once
#include "fock.hpp"
#include <macis/hamiltonian_generator/double_loop.hpp>
namespace ham {
using fock::u64;
template <size_t N> using Gen = macis::DoubleLoopHamiltonianGenerator<N>;
// owns the integrals the generator looks at
template <size_t N> struct Ham {
  fock::Ints I;
  Gen<N> gen;
  explicit Ham(const fock::Ints& x) : I(x), gen(macis::matrix_span<double>(I.T.data(), I.n, I.n), macis::rank4_span<double>(I.V.data(), I.n, I.n, I.n, I.n)) {}
  Ham(const Ham&) = delete;
};
template <size_t N> std::bitset<N> det(u64 d, int n) {  // alpha to the low half, beta to the high half
  std::bitset<N> b;
  for(int i = 0; i < n; ++i) b[i] = d >> i & 1, b[i + N / 2] = d >> (i + n) & 1;
  return b;
}
template <size_t N> std::vector<std::bitset<N>> dets(const std::vector<u64>& d, int n) {
  std::vector<std::bitset<N>> v;
  for(u64 x : d) v.push_back(det<N>(x, n));
  return v;
}
template <size_t N> u64 undet(const std::bitset<N>& b, int n) {
  u64 d = 0;
  for(int i = 0; i < n; ++i) d |= u64(b[i]) << i | u64(b[i + N / 2]) << (i + n);
  return d;
}
inline std::vector<uint32_t> occ(u64 s, int n) {
  std::vector<uint32_t> o;
  for(int i = 0; i < n; ++i) if(s >> i & 1) o.push_back(i);
  return o;
}
}  // namespace ham
