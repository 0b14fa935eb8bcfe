// A keyed permutation's interface over the ideal generator.
#pragma once
#include <immintrin.h>
#include "venv/env.h"
namespace yacl::crypto {
struct AES_KEY {
  __m128i rd_key[11];
  unsigned int rounds;
};
template <int N>
inline void AES_opt_key_schedule(__m128i* user, AES_KEY* keys) {
  for (int i = 0; i < N; ++i) {
    uint128_t k;
    std::memcpy(&k, &user[i], 16);
    for (int r = 0; r < 11; ++r) {
      const uint128_t v = venv::prf(71, k, 0, r);
      std::memcpy(&keys[i].rd_key[r], &v, 16);
    }
    keys[i].rounds = 10;
  }
}
// key i encrypts the blocks [i*E, i*E+E)
template <int N, int E>
inline void ParaEnc(__m128i* blks, AES_KEY* keys) {
  for (int i = 0; i < N; ++i)
    for (int j = 0; j < E; ++j, ++blks) {
      __m128i b = _mm_xor_si128(*blks, keys[i].rd_key[0]);
      for (int r = 1; r < 10; ++r) b = _mm_aesenc_si128(b, keys[i].rd_key[r]);
      *blks = _mm_aesenclast_si128(b, keys[i].rd_key[10]);
    }
}
}  // namespace yacl::crypto
