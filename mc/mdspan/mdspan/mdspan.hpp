// Small stand-in for the part of the mdspan reference implementation that MACIS uses
// (the real one cannot be fetched offline). Same semantics, including the C++17 one that a
// strided span converts to a layout_left span by dropping its strides (a precondition violation
// there; it is left to show up as wrong data here too).
#pragma once
#include <array>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <limits>
#include <tuple>
#include <type_traits>
#include <utility>

#define MDSPAN_IMPL_STANDARD_NAMESPACE Kokkos
#define MDSPAN_IMPL_PROPOSED_NAMESPACE Experimental
#define MDSPAN_IMPL_PROPOSED_NAMESPACE_STRING "Experimental"

namespace Kokkos {
struct layout_left {};
struct layout_stride {};
struct full_extent_t {
  explicit full_extent_t() = default;
};
inline constexpr full_extent_t full_extent{};

template <class IndexT, size_t Rank_>
struct dextents {
  using index_type = IndexT;
  std::array<IndexT, Rank_> e{};
  static constexpr size_t rank() { return Rank_; }
  constexpr IndexT extent(size_t r) const { return e[r]; }
};

template <class T, class Ext, class Layout = layout_left>
class mdspan {
 public:
  static constexpr size_t Rk = Ext::rank();
  using index_type = typename Ext::index_type;
  using element_type = T;
  using value_type = std::remove_cv_t<T>;
  using size_type = std::make_unsigned_t<index_type>;
  using extents_type = Ext;
  using layout_type = Layout;

  constexpr mdspan() = default;
  template <class... Is, class = std::enable_if_t<sizeof...(Is) == Ext::rank() &&
                                                  (std::is_convertible_v<Is, typename Ext::index_type> && ...)>>
  constexpr explicit mdspan(T* p, Is... is) : p_(p), ext_{{static_cast<index_type>(is)...}} {
    index_type s = 1;
    for(size_t r = 0; r < Rk; ++r) str_[r] = s, s *= ext_.e[r];
  }
  constexpr mdspan(T* p, const Ext& e) : p_(p), ext_(e) {
    index_type s = 1;
    for(size_t r = 0; r < Rk; ++r) str_[r] = s, s *= ext_.e[r];
  }
  constexpr mdspan(T* p, const Ext& e, const std::array<index_type, Ext::rank()>& st) : p_(p), ext_(e), str_(st) {}

  template <class U, class L2, class = std::enable_if_t<std::is_convertible_v<U (*)[], T (*)[]>>>
  constexpr mdspan(const mdspan<U, Ext, L2>& o) : p_(o.data_handle()), ext_(o.extents()) {
    if constexpr(std::is_same_v<Layout, layout_left>) {
      index_type s = 1;
      for(size_t r = 0; r < Rk; ++r) str_[r] = s, s *= ext_.e[r];
    } else {
      for(size_t r = 0; r < Rk; ++r) str_[r] = o.stride(r);
    }
  }

  template <class... Is>
  constexpr T& operator()(Is... is) const {
    static_assert(sizeof...(Is) == Ext::rank());
    index_type off = 0;
    size_t r = 0;
    ((off += static_cast<index_type>(is) * str_[r++]), ...);
    return p_[off];
  }
#if defined(__cpp_multidimensional_subscript)
  template <class... Is>
  constexpr T& operator[](Is... is) const {
    return (*this)(is...);
  }
#endif
  static constexpr size_t rank() { return Rk; }
  static constexpr size_t rank_dynamic() { return Rk; }
  static constexpr size_t static_extent(size_t) { return size_t(-1); }
  constexpr index_type extent(size_t r) const { return ext_.e[r]; }
  constexpr const Ext& extents() const { return ext_; }
  constexpr index_type stride(size_t r) const { return str_[r]; }
  constexpr T* data_handle() const { return p_; }
  constexpr size_type size() const {
    size_type s = 1;
    for(size_t r = 0; r < Rk; ++r) s *= ext_.e[r];
    return s;
  }
  constexpr bool empty() const { return size() == 0; }
  constexpr bool is_exhaustive() const {
    index_type s = 1;
    for(size_t r = 0; r < Rk; ++r) {
      if(str_[r] != s) return false;
      s *= ext_.e[r];
    }
    return true;
  }

 private:
  T* p_ = nullptr;
  Ext ext_{};
  std::array<index_type, Ext::rank()> str_{};
};

namespace Experimental {
namespace impl {
template <class S>
constexpr bool is_int = std::is_convertible_v<S, size_t>;
template <class M, class S>
void slice(const M& m, size_t r, const S& s, size_t& off, size_t* e, size_t* st, size_t& k) {
  if constexpr(is_int<S>) {
    off += size_t(s) * m.stride(r);
  } else if constexpr(std::is_same_v<std::decay_t<S>, full_extent_t>) {
    e[k] = m.extent(r), st[k] = m.stride(r), ++k;
  } else {
    size_t b = size_t(std::get<0>(s)), n = size_t(std::get<1>(s)) - b;
    off += b * m.stride(r);
    e[k] = n, st[k] = m.stride(r), ++k;
  }
}
template <class Tuple, size_t... Ix>
constexpr bool keeps_left(std::index_sequence<Ix...>) {
  // full, full, ..., (full|range), then integers only
  bool ok = true, last_range = false, seen_int = false;
  auto step = [&](bool full, bool integer) {
    if(integer) {
      seen_int = true;
      return;
    }
    if(seen_int || last_range) ok = false;
    if(!full) last_range = true;
  };
  (step(std::is_same_v<std::decay_t<std::tuple_element_t<Ix, Tuple>>, full_extent_t>,
        is_int<std::decay_t<std::tuple_element_t<Ix, Tuple>>>),
   ...);
  return ok;
}
}  // namespace impl

template <class T, class Ext, class L, class... S>
constexpr auto submdspan(const mdspan<T, Ext, L>& m, S... s) {
  static_assert(sizeof...(S) == Ext::rank());
  constexpr size_t K = ((impl::is_int<S> ? 0 : 1) + ... + 0);
  using E2 = dextents<typename Ext::index_type, K>;
  size_t off = 0, k = 0, r = 0, e[Ext::rank() + 1], st[Ext::rank() + 1];
  (impl::slice(m, r++, s, off, e, st, k), ...);
  E2 ext;
  std::array<typename Ext::index_type, K> str{};
  for(size_t i = 0; i < K; ++i) ext.e[i] = e[i], str[i] = st[i];
  constexpr bool left = std::is_same_v<L, layout_left> &&
                        impl::keeps_left<std::tuple<S...>>(std::make_index_sequence<sizeof...(S)>{});
  using L2 = std::conditional_t<left, layout_left, layout_stride>;
  return mdspan<T, E2, L2>(m.data_handle() + off, ext, str);
}
}  // namespace Experimental
using Experimental::submdspan;
}  // namespace Kokkos
