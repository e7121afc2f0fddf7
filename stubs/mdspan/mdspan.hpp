// Minimal functional stand-in for the part of the reference mdspan that MACIS
// uses. mdspan is fetched from the network by the upstream build and is not
// installed here; this header only lets /repo's sources be parsed and typed.
#pragma once
#include <array>
#include <cstddef>
#include <tuple>
#include <type_traits>
#include <utility>
#define MDSPAN_IMPL_STANDARD_NAMESPACE Kokkos
#define MDSPAN_IMPL_PROPOSED_NAMESPACE Experimental
namespace Kokkos {
struct full_extent_t {};
inline constexpr full_extent_t full_extent{};
struct layout_left {};
template <typename Idx, size_t R>
struct dextents {
  using index_type = Idx;
  static constexpr size_t rank() { return R; }
};
template <typename T, typename Ext, typename Layout>
class mdspan {
 public:
  using element_type = T;
  using value_type = std::remove_cv_t<T>;
  using extents_type = Ext;
  using size_type = typename Ext::index_type;
  static constexpr size_t R = Ext::rank();
  T* p_ = nullptr;
  size_t n_[R] = {};
  size_t s_[R] = {};
  mdspan() = default;
  template <typename... I, typename = std::enable_if_t<sizeof...(I) == R>>
  explicit mdspan(T* p, I... n) : p_(p) {
    const size_t e[] = {static_cast<size_t>(n)...};
    size_t s = 1;
    for(size_t i = 0; i < R; ++i) {
      n_[i] = e[i];
      s_[i] = s;
      s *= e[i];
    }
  }
  template <typename U, typename = std::enable_if_t<std::is_same_v<const U, T>>>
  mdspan(const mdspan<U, Ext, Layout>& o) : p_(o.p_) {
    for(size_t i = 0; i < R; ++i) {
      n_[i] = o.n_[i];
      s_[i] = o.s_[i];
    }
  }
  T* data_handle() const { return p_; }
  size_t extent(size_t i) const { return n_[i]; }
  size_t stride(size_t i) const { return s_[i]; }
  static constexpr size_t rank() { return R; }
  size_t size() const {
    size_t x = 1;
    for(size_t i = 0; i < R; ++i) x *= n_[i];
    return x;
  }
  template <typename... I>
  T& operator()(I... i) const {
    static_assert(sizeof...(I) == R, "rank");
    return p_[off(std::make_index_sequence<R>{}, i...)];
  }
  template <size_t... K, typename... I>
  size_t off(std::index_sequence<K...>, I... i) const {
    return ((static_cast<size_t>(i) * s_[K]) + ...);
  }
};
}  // namespace Kokkos
namespace Kokkos::Experimental {
namespace detail {
template <typename A>
struct is_range : std::false_type {};
template <>
struct is_range<full_extent_t> : std::true_type {};
template <typename A, typename B>
struct is_range<std::pair<A, B>> : std::true_type {};
template <typename MD>
inline std::pair<size_t, size_t> lim(const MD& m, size_t k, full_extent_t) {
  return {0, m.extent(k)};
}
template <typename MD, typename A, typename B>
inline std::pair<size_t, size_t> lim(const MD&, size_t, std::pair<A, B> r) {
  return {static_cast<size_t>(r.first), static_cast<size_t>(r.second)};
}
template <typename MD, typename I,
          typename = std::enable_if_t<std::is_integral_v<I>>>
inline std::pair<size_t, size_t> lim(const MD&, size_t, I i) {
  return {static_cast<size_t>(i), static_cast<size_t>(i) + 1};
}
}  // namespace detail
template <typename T, typename Idx, size_t R, typename L, typename... S>
auto submdspan(const mdspan<T, dextents<Idx, R>, L>& m, S... s) {
  constexpr size_t NR = ((detail::is_range<S>::value ? 1 : 0) + ...);
  using out_t = mdspan<T, dextents<Idx, NR>, L>;
  out_t o;
  const bool keep[] = {detail::is_range<S>::value...};
  size_t k = 0;
  std::pair<size_t, size_t> b[] = {detail::lim(m, k++, s)...};
  o.p_ = m.p_;
  size_t j = 0;
  for(size_t i = 0; i < R; ++i) {
    o.p_ += b[i].first * m.s_[i];
    if(keep[i]) {
      o.n_[j] = b[i].second - b[i].first;
      o.s_[j] = m.s_[i];
      ++j;
    }
  }
  return o;
}
}  // namespace Kokkos::Experimental
