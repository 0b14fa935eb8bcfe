// The few out-of-line symbols of LLVM's header-only support code.
#include <cstdlib>
#include <cstring>
#include "llvm/ADT/Hashing.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/Support/ErrorHandling.h"
namespace llvm {
namespace hashing::detail {
uint64_t fixed_seed_override = 0;
}
void* allocate_buffer(size_t n, size_t) { return ::operator new(n); }
void deallocate_buffer(void* p, size_t, size_t) { ::operator delete(p); }
template <class S>
void SmallVectorBase<S>::grow_pod(void* first, size_t min, size_t tsize) {
  size_t cap = 2 * static_cast<size_t>(this->Capacity) + 1;
  if (cap < min) cap = min;
  void* p;
  if (this->BeginX == first) {
    p = std::malloc(cap * tsize);
    std::memcpy(p, this->BeginX, this->Size * tsize);
  } else {
    p = std::realloc(this->BeginX, cap * tsize);
  }
  this->BeginX = p;
  this->Capacity = static_cast<S>(cap);
}
template <class S>
void* SmallVectorBase<S>::mallocForGrow(void*, size_t min, size_t tsize, size_t& cap) {
  cap = 2 * static_cast<size_t>(this->Capacity) + 1;
  if (cap < min) cap = min;
  return std::malloc(cap * tsize);
}
template class SmallVectorBase<uint32_t>;
template class SmallVectorBase<uint64_t>;
void install_fatal_error_handler(fatal_error_handler_t, void*) {}
void remove_fatal_error_handler() {}
}  // namespace llvm

#include <stdexcept>
#include "absl/base/config.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
namespace base_internal {
[[noreturn]] void ThrowStdOutOfRange(const char* m) { throw std::out_of_range(m); }
}  // namespace base_internal
ABSL_NAMESPACE_END
}  // namespace absl
