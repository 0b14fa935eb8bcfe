#pragma once
#include "venv/env.h"
// Idealised public key encryption: key pairs are names, ciphertexts wrap the
// plaintext; nothing in the properties depends on more than correctness.
namespace yacl::crypto {
inline std::pair<Buffer, Buffer> GenSm2KeyPairToPemBuf() {
  return {Buffer(std::string_view("pub-stub")),
          Buffer(std::string_view("priv-stub"))};
}
}  // namespace yacl::crypto
