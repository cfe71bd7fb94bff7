#pragma once
// Stand-in for cista::for_each_field (aggregates of up to 16 fields).
#include <cstddef>
#include <type_traits>
#include <utility>
namespace cista {
namespace detail {
struct any { template <typename T> constexpr operator T() const; };
template <typename T, typename... A> constexpr std::size_t arity() {
  if constexpr (sizeof...(A) > 17) { return 0; }
  else if constexpr (!requires { T{std::declval<A>()..., any{}}; }) { return sizeof...(A); }
  else { return arity<T, A..., any>(); }
}
}  // namespace detail
template <typename T, typename Fn> void for_each_field(T& t, Fn&& f) {
  constexpr auto n = detail::arity<std::remove_const_t<T>>();
  if constexpr (n == 1) { auto& [x0] = t; f(x0); }
  else if constexpr (n == 2) { auto& [x0, x1] = t; f(x0); f(x1); }
  else if constexpr (n == 3) { auto& [x0, x1, x2] = t; f(x0); f(x1); f(x2); }
  else if constexpr (n == 4) { auto& [x0, x1, x2, x3] = t; f(x0); f(x1); f(x2); f(x3); }
  else if constexpr (n == 5) { auto& [x0, x1, x2, x3, x4] = t; f(x0); f(x1); f(x2); f(x3); f(x4); }
  else if constexpr (n == 6) { auto& [x0, x1, x2, x3, x4, x5] = t; f(x0); f(x1); f(x2); f(x3); f(x4); f(x5); }
  else if constexpr (n == 7) { auto& [x0, x1, x2, x3, x4, x5, x6] = t; f(x0); f(x1); f(x2); f(x3); f(x4); f(x5); f(x6); }
  else if constexpr (n == 8) { auto& [x0, x1, x2, x3, x4, x5, x6, x7] = t; f(x0); f(x1); f(x2); f(x3); f(x4); f(x5); f(x6); f(x7); }
  else if constexpr (n == 9) { auto& [x0, x1, x2, x3, x4, x5, x6, x7, x8] = t; f(x0); f(x1); f(x2); f(x3); f(x4); f(x5); f(x6); f(x7); f(x8); }
  else if constexpr (n == 10) { auto& [x0, x1, x2, x3, x4, x5, x6, x7, x8, x9] = t; f(x0); f(x1); f(x2); f(x3); f(x4); f(x5); f(x6); f(x7); f(x8); f(x9); }
  else if constexpr (n == 11) { auto& [x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10] = t; f(x0); f(x1); f(x2); f(x3); f(x4); f(x5); f(x6); f(x7); f(x8); f(x9); f(x10); }
  else if constexpr (n == 12) { auto& [x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11] = t; f(x0); f(x1); f(x2); f(x3); f(x4); f(x5); f(x6); f(x7); f(x8); f(x9); f(x10); f(x11); }
  else if constexpr (n == 13) { auto& [x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12] = t; f(x0); f(x1); f(x2); f(x3); f(x4); f(x5); f(x6); f(x7); f(x8); f(x9); f(x10); f(x11); f(x12); }
  else if constexpr (n == 14) { auto& [x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13] = t; f(x0); f(x1); f(x2); f(x3); f(x4); f(x5); f(x6); f(x7); f(x8); f(x9); f(x10); f(x11); f(x12); f(x13); }
  else if constexpr (n == 15) { auto& [x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14] = t; f(x0); f(x1); f(x2); f(x3); f(x4); f(x5); f(x6); f(x7); f(x8); f(x9); f(x10); f(x11); f(x12); f(x13); f(x14); }
  else if constexpr (n == 16) { auto& [x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15] = t; f(x0); f(x1); f(x2); f(x3); f(x4); f(x5); f(x6); f(x7); f(x8); f(x9); f(x10); f(x11); f(x12); f(x13); f(x14); f(x15); }
  else { static_assert(n == 1, "stub supports 1..16 fields"); }
}
template <typename T, typename Fn> void for_each_field(Fn&& f) { T t{}; for_each_field(t, std::forward<Fn>(f)); }
}  // namespace cista
