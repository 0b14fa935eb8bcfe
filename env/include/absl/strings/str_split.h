#pragma once
#include <vector>
#include "absl/strings/ascii.h"
namespace absl {
struct ByChar {
  explicit ByChar(char c) : c(c) {}
  char c;
};
struct Splitter_ {
  std::string_view s;
  char c;
  template <typename T>
  operator std::vector<T>() const {
    std::vector<T> r;
    size_t b = 0;
    while (true) {
      size_t e = s.find(c, b);
      if (e == std::string_view::npos) {
        r.emplace_back(s.substr(b));
        return r;
      }
      r.emplace_back(s.substr(b, e - b));
      b = e + 1;
    }
  }
};
inline Splitter_ StrSplit(std::string_view s, ByChar d) { return {s, d.c}; }
inline Splitter_ StrSplit(std::string_view s, char d) { return {s, d}; }
}  // namespace absl
