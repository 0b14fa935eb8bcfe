// Names of SEAL that headers of the tree mention.  Nothing that computes with
// them is linked: homomorphic multiplication is an ideal functionality.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <memory>
namespace seal {
enum class seal_byte : unsigned char {};
class Modulus {};
class SecretKey {};
class PublicKey {};
class KSwitchKeys {};
class GaloisKeys {};
class Ciphertext {};
class Plaintext {};
class EncryptionParameters {};
class UniformRandomGenerator {};
using parms_id_type = std::array<std::uint64_t, 4>;
constexpr parms_id_type parms_id_zero{};
class SEALContext {
 public:
  class ContextData {};
};
namespace util {
inline std::uint64_t barrett_reduce_128(const std::uint64_t*, const Modulus&) { return 0; }
inline std::uint64_t barrett_reduce_64(std::uint64_t, const Modulus&) { return 0; }
}  // namespace util
}  // namespace seal
