#pragma once
#include "venv/env.h"
namespace yacl {
template <typename B = uint64_t>
class dynamic_bitset {
  static constexpr size_t W = sizeof(B) * 8;

 public:
  class reference {
   public:
    reference(B& b, size_t i) : b_(b), m_(static_cast<B>(1) << i) {}
    reference& operator=(bool v) {
      b_ = v ? (b_ | m_) : (b_ & ~m_);
      return *this;
    }
    reference& operator=(const reference& o) { return *this = static_cast<bool>(o); }
    operator bool() const { return (b_ & m_) != 0; }

   private:
    B& b_;
    B m_;
  };
  dynamic_bitset() = default;
  explicit dynamic_bitset(size_t n) { resize(n); }
  size_t size() const { return n_; }
  void resize(size_t n) {
    n_ = n;
    b_.resize((n + W - 1) / W, 0);
  }
  bool empty() const { return n_ == 0; }
  B* data() { return b_.data(); }
  const B* data() const { return b_.data(); }
  size_t num_blocks() const { return b_.size(); }
  template <class It>
  void append(It f, It l) {
    for (; f != l; ++f) b_.push_back(*f);
    n_ = b_.size() * W;
  }
  void append(B v) { append(&v, &v + 1); }
  reference operator[](size_t i) {
    if (i >= n_) throw std::out_of_range("dynamic_bitset");
    return reference(b_[i / W], i % W);
  }
  bool operator[](size_t i) const {
    if (i >= n_) throw std::out_of_range("dynamic_bitset");
    return ((b_[i / W] >> (i % W)) & 1) != 0;
  }

 private:
  std::vector<B> b_;
  size_t n_ = 0;
};
}  // namespace yacl
