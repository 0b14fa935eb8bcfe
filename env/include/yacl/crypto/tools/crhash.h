#pragma once
#include "venv/env.h"
namespace yacl::crypto {
inline uint128_t CrHash_128(uint128_t x) { return venv::prf(70, x, 0, 0); }
inline void ParaCrHashInplace_128(absl::Span<uint128_t> v) {
  for (auto& x : v) x = CrHash_128(x);
}
}  // namespace yacl::crypto
