#pragma once
// A tiny stand-in for the few xtensor facilities the code under test uses:
// a row-major owning array, a strided view over foreign memory, cast and eye.
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <ostream>
#include <type_traits>
#include <vector>
#include "fmt/format.h"
#include "fmt/ranges.h"
namespace xt {
template <typename D>
struct xexpression {
  const D& derived_cast() const { return *static_cast<const D*>(this); }
};
struct no_ownership {};
inline std::vector<int64_t> rowMajor(const std::vector<int64_t>& s) {
  std::vector<int64_t> st(s.size());
  int64_t k = 1;
  for (size_t i = s.size(); i-- > 0;) {
    st[i] = s[i] == 1 ? 0 : k;
    k *= s[i];
  }
  return st;
}
inline size_t numel(const std::vector<int64_t>& s) {
  size_t n = 1;
  for (auto d : s) n *= static_cast<size_t>(d);
  return n;
}
template <typename T>
class xarray : public xexpression<xarray<T>> {
 public:
  using value_type = T;
  using S = std::conditional_t<std::is_same_v<T, bool>, uint8_t, T>;
  xarray() : d_(1) {}
  xarray(const T& v) : d_(1, v) {}
  static xarray from_shape(const std::vector<int64_t>& s) {
    xarray a;
    a.sh_ = s;
    a.st_ = rowMajor(s);
    a.d_.assign(numel(s), S{});
    return a;
  }
  template <typename Sh>
  static xarray from_shape(const Sh& s) {
    return from_shape(std::vector<int64_t>(s.begin(), s.end()));
  }
  xarray(std::initializer_list<T> l) : d_(l.begin(), l.end()) {
    sh_ = {static_cast<int64_t>(l.size())};
    st_ = rowMajor(sh_);
  }
  const std::vector<int64_t>& shape() const { return sh_; }
  int64_t shape(size_t i) const { return sh_[i]; }
  const std::vector<int64_t>& strides() const { return st_; }
  size_t size() const { return d_.size(); }
  size_t dimension() const { return sh_.size(); }
  T* data() { return reinterpret_cast<T*>(d_.data()); }
  const T* data() const { return reinterpret_cast<const T*>(d_.data()); }
  T& operator[](size_t i) { return data()[i]; }
  const T& operator[](size_t i) const { return data()[i]; }
  const T& front() const { return data()[0]; }
  T* begin() { return data(); }
  T* end() { return data() + size(); }
  const T* begin() const { return data(); }
  const T* end() const { return data() + size(); }

 private:
  std::vector<int64_t> sh_, st_;
  std::vector<S> d_;
};
template <typename T>
class strided : public xexpression<strided<T>> {
 public:
  using value_type = std::remove_const_t<T>;
  strided(T* p, std::vector<int64_t> sh, std::vector<int64_t> st)
      : p_(p), sh_(std::move(sh)), st_(std::move(st)) {}
  const std::vector<int64_t>& shape() const { return sh_; }
  size_t size() const { return numel(sh_); }
  T& at(size_t k) const {
    int64_t off = 0;
    for (size_t i = sh_.size(); i-- > 0;) {
      off += st_[i] * static_cast<int64_t>(k % sh_[i]);
      k /= sh_[i];
    }
    return p_[off];
  }
  T& front() const { return at(0); }
  T& operator[](size_t k) const { return at(k); }
  template <typename A>
  strided& operator=(const A& a) {
    for (size_t i = 0; i < size(); ++i) at(i) = a[i];
    return *this;
  }

 private:
  T* p_;
  std::vector<int64_t> sh_, st_;
};
template <typename T>
strided<T> adapt(T* p, size_t, no_ownership, std::vector<int64_t> sh,
                 std::vector<int64_t> st) {
  return strided<T>(p, std::move(sh), std::move(st));
}
template <typename T, typename E>
xarray<T> cast(const E& e) {
  auto r = xarray<T>::from_shape(e.shape());
  for (size_t i = 0; i < r.size(); ++i) r[i] = static_cast<T>(e[i]);
  return r;
}
template <typename E>
const E& eval(const E& e) {
  return e;
}
template <typename T>
xarray<T> eye(const std::vector<size_t>& s, int k = 0) {
  auto r = xarray<T>::from_shape(s);
  for (size_t i = 0; i < s[0]; ++i)
    for (size_t j = 0; j < s[1]; ++j)
      r[i * s[1] + j] = static_cast<int64_t>(j) == static_cast<int64_t>(i) + k;
  return r;
}
template <typename T>
std::ostream& operator<<(std::ostream& os, const xarray<T>& a) {
  for (size_t i = 0; i < a.size(); ++i) os << +a[i] << ' ';
  return os;
}
}  // namespace xt
