#pragma once
// Idealised public key encryption (correctness only): Enc(m) = tag || m.
#include "venv/env.h"
namespace yacl::crypto {
class PkeEncryptor {
 public:
  virtual ~PkeEncryptor() = default;
  virtual std::vector<uint8_t> Encrypt(ByteContainerView m) = 0;
};
class PkeDecryptor {
 public:
  virtual ~PkeDecryptor() = default;
  virtual std::vector<uint8_t> Decrypt(ByteContainerView c) = 0;
};
class Sm2Encryptor : public PkeEncryptor {
 public:
  explicit Sm2Encryptor(ByteContainerView) {}
  std::vector<uint8_t> Encrypt(ByteContainerView m) override {
    std::vector<uint8_t> r(m.begin(), m.end());
    for (auto& b : r) b ^= 0xc3;  // a ciphertext does not show the plaintext
    r.insert(r.begin(), 0x5a);
    return r;
  }
};
class Sm2Decryptor : public PkeDecryptor {
 public:
  explicit Sm2Decryptor(ByteContainerView) {}
  std::vector<uint8_t> Decrypt(ByteContainerView c) override {
    if (c.size() < 1 || c[0] != 0x5a) throw RuntimeError("bad ciphertext");
    std::vector<uint8_t> r(c.begin() + 1, c.end());
    for (auto& b : r) b ^= 0xc3;
    return r;
  }
};
}  // namespace yacl::crypto
