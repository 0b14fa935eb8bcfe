#pragma once
#include <optional>
#include <string_view>
#include <type_traits>
// Minimal stand-in: enumerator names of values 0..63 (no negative values are
// used by the code under test).
namespace magic_enum {
namespace detail {
template <auto V>
constexpr std::string_view raw() {
  std::string_view p = __PRETTY_FUNCTION__;
  auto b = p.find("V = ") + 4;
  auto e = p.find_first_of(";]", b);
  p = p.substr(b, e - b);
  if (p.empty() || p[0] == '(' || p[0] == '-' || (p[0] >= '0' && p[0] <= '9'))
    return {};
  auto c = p.rfind("::");
  return c == std::string_view::npos ? p : p.substr(c + 2);
}
template <typename E, int... I>
constexpr std::string_view name(int v, std::integer_sequence<int, I...>) {
  constexpr std::string_view t[] = {raw<static_cast<E>(I)>()...};
  return v >= 0 && v < static_cast<int>(sizeof...(I)) ? t[v]
                                                       : std::string_view{};
}
}  // namespace detail
template <typename E>
constexpr std::string_view enum_name(E e) {
  return detail::name<E>(static_cast<int>(e),
                         std::make_integer_sequence<int, 64>{});
}
template <typename E>
constexpr std::optional<E> enum_cast(std::string_view s) {
  for (int i = 0; i < 64; ++i)
    if (!s.empty() && enum_name(static_cast<E>(i)) == s)
      return static_cast<E>(i);
  return std::nullopt;
}
template <typename E>
constexpr std::optional<E> enum_cast(int v) {
  if (!enum_name(static_cast<E>(v)).empty()) return static_cast<E>(v);
  return std::nullopt;
}
template <typename E>
constexpr bool enum_contains(E e) {
  return !enum_name(e).empty();
}
}  // namespace magic_enum
