#pragma once
#include <cstdlib>
#include <limits>
#include <string>
#include "absl/strings/ascii.h"
namespace absl {
// Same contract as absl: optional surrounding blanks, whole string, in range.
template <typename T>
bool SimpleAtoi(std::string_view s, T* out) {
  s = StripAsciiWhitespace(s);
  bool neg = false;
  if (!s.empty() && (s[0] == '-' || s[0] == '+')) {
    neg = s[0] == '-';
    s.remove_prefix(1);
  }
  if (s.empty()) return false;
  __int128 v = 0;
  for (char c : s) {
    if (c < '0' || c > '9') return false;
    v = v * 10 + (c - '0');
    if (v > (static_cast<__int128>(1) << 100)) return false;
  }
  if (neg) v = -v;
  if (v < static_cast<__int128>(std::numeric_limits<T>::lowest()) ||
      v > static_cast<__int128>(std::numeric_limits<T>::max()))
    return false;
  *out = static_cast<T>(v);
  return true;
}
inline bool SimpleAtoi(std::string_view s, float* out) {
  std::string t(StripAsciiWhitespace(s));
  char* e;
  *out = std::strtof(t.c_str(), &e);
  return !t.empty() && *e == 0;
}
}  // namespace absl
