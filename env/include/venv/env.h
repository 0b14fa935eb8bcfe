// The controlled environment that stands in for yacl (network, randomness,
// thread pool, buffers) when /repo's sources are compiled for model checking.
#pragma once
#include <array>
#include <atomic>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <ostream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include "absl/strings/ascii.h"
#include "absl/strings/numbers.h"
#include "absl/strings/string_view.h"
#include "absl/types/span.h"
#include "fmt/format.h"
#include "fmt/ostream.h"
#include "fmt/ranges.h"
#include "spdlog/spdlog.h"
#include "vmc/vmc.h"

// ---------------------------------------------------------------- int128 ----
using int128_t = __int128;
using uint128_t = unsigned __int128;

namespace yacl {
constexpr uint128_t MakeUint128(uint64_t hi, uint64_t lo) {
  return (static_cast<uint128_t>(hi) << 64) | lo;
}
constexpr int128_t MakeInt128(int64_t hi, uint64_t lo) {
  return static_cast<int128_t>((static_cast<uint128_t>(hi) << 64) | lo);
}
constexpr int128_t Int128Max() {
  return static_cast<int128_t>((static_cast<uint128_t>(1) << 127) - 1);
}
constexpr int128_t Int128Min() {
  return static_cast<int128_t>(static_cast<uint128_t>(1) << 127);
}
constexpr uint128_t Uint128Max() { return ~static_cast<uint128_t>(0); }
constexpr uint128_t Uint128Min() { return 0; }
inline constexpr std::pair<int64_t, uint64_t> DecomposeInt128(int128_t v) {
  return {static_cast<int64_t>(v >> 64), static_cast<uint64_t>(v)};
}
inline constexpr std::pair<uint64_t, uint64_t> DecomposeUInt128(uint128_t v) {
  return {static_cast<uint64_t>(v >> 64), static_cast<uint64_t>(v)};
}
}  // namespace yacl

namespace std {
inline ostream& operator<<(ostream& os, int128_t x) {
  return os << fmt::format("{}", x);
}
inline ostream& operator<<(ostream& os, uint128_t x) {
  return os << fmt::format("{}", x);
}
}  // namespace std

// ------------------------------------------------------------- exceptions ---
namespace yacl {
namespace internal {
inline std::string Format() { return ""; }
template <typename S>
std::string Format(const S& s) {
  return std::string(s);
}
template <typename S, typename A, typename... Args>
std::string Format(const S& f, const A& a, const Args&... args) {
  return fmt::format(fmt::runtime(std::string_view(f)), a, args...);
}
}  // namespace internal

class Exception : public std::exception {
 public:
  Exception() = default;
  explicit Exception(std::string msg) : msg_(std::move(msg)) {}
  explicit Exception(const char* msg) : msg_(msg) {}
  const char* what() const noexcept override { return msg_.c_str(); }
  const std::string& stack_trace() const noexcept { return trace_; }

 private:
  std::string msg_;
  std::string trace_;
};
#define VENV_EXC(N)            \
  class N : public Exception { \
    using Exception::Exception; \
  }
VENV_EXC(RuntimeError);
VENV_EXC(LogicError);
VENV_EXC(IoError);
VENV_EXC(NetworkError);
VENV_EXC(InvalidFormat);
VENV_EXC(ArgumentError);
VENV_EXC(NotImplementedError);
VENV_EXC(LinkError);
VENV_EXC(EnforceNotMet);
#undef VENV_EXC

template <typename T>
T CheckNotNull(T t, const char* file = "", int line = 0) {
  if (t == nullptr) {
    throw EnforceNotMet(fmt::format("must be non null"));
  }
  return t;
}
}  // namespace yacl

#define YACL_THROW_HELPER_(E, ...) \
  throw E(fmt::format("[{}:{}] {}", __FILE__, __LINE__, \
                      ::yacl::internal::Format(__VA_ARGS__)))
#define YACL_THROW(...) YACL_THROW_HELPER_(::yacl::RuntimeError, __VA_ARGS__)
#define YACL_THROW_WITH_STACK(...) \
  YACL_THROW_HELPER_(::yacl::RuntimeError, __VA_ARGS__)
#define YACL_THROW_LOGIC_ERROR(...) \
  YACL_THROW_HELPER_(::yacl::LogicError, __VA_ARGS__)
#define YACL_THROW_IO_ERROR(...) \
  YACL_THROW_HELPER_(::yacl::IoError, __VA_ARGS__)
#define YACL_THROW_NETWORK_ERROR(...) \
  YACL_THROW_HELPER_(::yacl::NetworkError, __VA_ARGS__)
#define YACL_THROW_INVALID_FORMAT(...) \
  YACL_THROW_HELPER_(::yacl::InvalidFormat, __VA_ARGS__)
#define YACL_THROW_ARGUMENT_ERROR(...) \
  YACL_THROW_HELPER_(::yacl::ArgumentError, __VA_ARGS__)
#define YACL_ENFORCE(COND, ...)                                             \
  do {                                                                      \
    if (__builtin_expect(!(COND), 0)) {                                     \
      throw ::yacl::EnforceNotMet(                                          \
          fmt::format("[Enforce fail at {}:{}] {}. {}", __FILE__, __LINE__, \
                      #COND, ::yacl::internal::Format(__VA_ARGS__)));       \
    }                                                                       \
  } while (false)
#define YACL_ENFORCE_OP_(OP, X, Y, ...)                                     \
  do {                                                                      \
    if (__builtin_expect(!((X)OP(Y)), 0)) {                                 \
      throw ::yacl::EnforceNotMet(                                          \
          fmt::format("[Enforce fail at {}:{}] {} " #OP " {}. {}", __FILE__, \
                      __LINE__, #X, #Y,                                     \
                      ::yacl::internal::Format(__VA_ARGS__)));              \
    }                                                                       \
  } while (false)
#define YACL_ENFORCE_EQ(x, y, ...) YACL_ENFORCE_OP_(==, x, y, ##__VA_ARGS__)
#define YACL_ENFORCE_NE(x, y, ...) YACL_ENFORCE_OP_(!=, x, y, ##__VA_ARGS__)
#define YACL_ENFORCE_LE(x, y, ...) YACL_ENFORCE_OP_(<=, x, y, ##__VA_ARGS__)
#define YACL_ENFORCE_LT(x, y, ...) YACL_ENFORCE_OP_(<, x, y, ##__VA_ARGS__)
#define YACL_ENFORCE_GE(x, y, ...) YACL_ENFORCE_OP_(>=, x, y, ##__VA_ARGS__)
#define YACL_ENFORCE_GT(x, y, ...) YACL_ENFORCE_OP_(>, x, y, ##__VA_ARGS__)

// -------------------------------------------------------------- scope guard -
namespace yacl {
template <typename F>
class ScopeGuard {
 public:
  explicit ScopeGuard(F&& f) : f_(std::forward<F>(f)) {}
  ScopeGuard(ScopeGuard&& o) noexcept : f_(std::move(o.f_)), on_(o.on_) {
    o.on_ = false;
  }
  ~ScopeGuard() {
    if (on_) f_();
  }

 private:
  F f_;
  bool on_ = true;
};
template <typename F>
ScopeGuard<F> MakeScopeGuard(F&& f) {
  return ScopeGuard<F>(std::forward<F>(f));
}
}  // namespace yacl
#define VENV_CAT_(a, b) a##b
#define VENV_CAT(a, b) VENV_CAT_(a, b)
#define ON_SCOPE_EXIT(...) \
  auto VENV_CAT(venv_guard_, __COUNTER__) = ::yacl::MakeScopeGuard(__VA_ARGS__)

// ------------------------------------------------------------------ buffer --
namespace venv {
// Byte that fills fresh (uninitialised) buffers: an environment choice.
extern uint8_t g_fill;
// Who decides at which address the memory of a buffer lies (none: the heap).
extern void* (*g_alloc)(size_t);
extern bool (*g_free)(void*);  // false: not allocated by g_alloc
}  // namespace venv

namespace yacl {
class Buffer final {
 public:
  Buffer() = default;
  explicit Buffer(int64_t size) { alloc(size); }
  Buffer(const void* p, size_t size) {
    alloc(size);
    if (size) std::memcpy(ptr_, p, size);
  }
  explicit Buffer(std::string_view s) : Buffer(s.data(), s.size()) {}
  explicit Buffer(const std::string& s) : Buffer(s.data(), s.size()) {}
  explicit Buffer(const std::vector<uint8_t>& s) : Buffer(s.data(), s.size()) {}
  Buffer(void* p, size_t size, const std::function<void(void*)>& d)
      : ptr_(static_cast<std::byte*>(p)), size_(size), cap_(size), del_(d) {}
  Buffer(const Buffer& o) : Buffer(o.data(), o.size()) {}
  Buffer(Buffer&& o) noexcept { swap(o); }
  Buffer& operator=(const Buffer& o) {
    if (this != &o) {
      Buffer t(o);
      swap(t);
    }
    return *this;
  }
  Buffer& operator=(Buffer&& o) noexcept {
    Buffer t(std::move(o));
    swap(t);
    return *this;
  }
  ~Buffer() { reset(); }
  template <typename T = void>
  T* data() {
    return reinterpret_cast<T*>(ptr_);
  }
  template <typename T = void>
  const T* data() const {
    return reinterpret_cast<const T*>(ptr_);
  }
  int64_t size() const { return size_; }
  int64_t capacity() const { return cap_; }
  void reset() {
    if (ptr_) {
      if (del_) {
        del_(ptr_);
      } else if (venv::g_free == nullptr || !venv::g_free(ptr_)) {
        delete[] ptr_;
      }
    }
    ptr_ = nullptr;
    size_ = cap_ = 0;
    del_ = nullptr;
  }
  void* release() {
    void* p = ptr_;
    ptr_ = nullptr;
    size_ = cap_ = 0;
    return p;
  }
  void reserve(int64_t n) {
    if (n > cap_) {
      Buffer t(n);
      if (size_) std::memcpy(t.ptr_, ptr_, size_);
      t.size_ = size_;
      swap(t);
    }
  }
  void resize(int64_t n) {
    reserve(n);
    size_ = n;
  }
  operator std::string_view() const {
    return {reinterpret_cast<const char*>(ptr_), static_cast<size_t>(size_)};
  }
  bool operator==(const Buffer& o) const {
    return size_ == o.size_ &&
           (size_ == 0 || std::memcmp(ptr_, o.ptr_, size_) == 0);
  }
  bool operator!=(const Buffer& o) const { return !(*this == o); }
  friend std::ostream& operator<<(std::ostream& os, const Buffer& b) {
    return os << std::string_view(b);
  }

 private:
  void swap(Buffer& o) noexcept {
    std::swap(ptr_, o.ptr_);
    std::swap(size_, o.size_);
    std::swap(cap_, o.cap_);
    std::swap(del_, o.del_);
  }
  void alloc(int64_t n) {
    if (n < 0) throw std::bad_array_new_length();
    ptr_ = !n ? nullptr : venv::g_alloc ? static_cast<std::byte*>(venv::g_alloc(n)) : new std::byte[n];
    size_ = cap_ = n;
    if (n) std::memset(ptr_, venv::g_fill, n);
  }
  std::byte* ptr_ = nullptr;
  int64_t size_ = 0;
  int64_t cap_ = 0;
  std::function<void(void*)> del_;
};

class ByteContainerView {
 public:
  ByteContainerView() = default;
  ByteContainerView(const void* p, size_t n)
      : p_(static_cast<const uint8_t*>(p)), n_(n) {}
  ByteContainerView(const char* s) : ByteContainerView(s, std::strlen(s)) {}
  ByteContainerView(const Buffer& b)
      : ByteContainerView(b.data(), static_cast<size_t>(b.size())) {}
  template <typename C,
            typename = std::enable_if_t<
                !std::is_same_v<std::decay_t<C>, Buffer> &&
                sizeof(*std::declval<const C&>().data()) == 1 &&
                std::is_integral_v<decltype(std::declval<const C&>().size())>>>
  ByteContainerView(const C& c) : ByteContainerView(c.data(), c.size()) {}
  const uint8_t* data() const { return p_; }
  size_t size() const { return n_; }
  size_t length() const { return n_; }
  bool empty() const { return n_ == 0; }
  const uint8_t* begin() const { return p_; }
  const uint8_t* end() const { return p_ + n_; }
  const uint8_t& operator[](size_t i) const { return p_[i]; }
  explicit operator std::string() const {
    return std::string(reinterpret_cast<const char*>(p_), n_);
  }
  operator std::string_view() const {
    return {reinterpret_cast<const char*>(p_), n_};
  }
  ByteContainerView subspan(size_t pos, size_t n = -1) const {
    return {p_ + pos, std::min(n, n_ - pos)};
  }
  bool operator==(const ByteContainerView& o) const {
    return std::string_view(*this) == std::string_view(o);
  }

 private:
  const uint8_t* p_ = nullptr;
  size_t n_ = 0;
};

template <typename T>
using UninitAlignedVector = std::vector<T>;
template <typename T>
using AlignedVector = std::vector<T>;
}  // namespace yacl

// ---------------------------------------------------------------- parallel --
namespace venv {
// How parallel loops are cut into chunks and in which order the chunks run.
//  0: one chunk            1: unit chunks ascending   2: unit chunks descending
//  3: two chunks, second first     4: every chunk is its own fiber
extern int g_par_mode;
extern int g_num_threads;
// Randomness drawn is attributed to this party instead of the running one
// (-1: nobody taking part in the protocol).
constexpr int kNoOverride = -100;
extern int g_as_party;
}  // namespace venv

namespace yacl {
inline int get_num_threads() { return venv::g_num_threads; }
inline void set_num_threads(int n) {}
inline bool in_parallel_region() { return false; }
namespace internal {
// returns the list of chunks in execution order
std::vector<std::pair<int64_t, int64_t>> Chunks(int64_t b, int64_t e);
void RunFibers(const std::vector<std::function<void()>>& fns);
}  // namespace internal

template <class F>
inline void parallel_for(int64_t begin, int64_t end, int64_t /*grain*/,
                         const F& f) {
  if (begin >= end) return;
  if (venv::g_par_mode == 0) {
    f(begin, end);
    return;
  }
  auto cs = internal::Chunks(begin, end);
  if (venv::g_par_mode == 4 && vmc::active()) {
    std::vector<std::function<void()>> fns;
    for (auto [b, e] : cs) fns.push_back([&f, b = b, e = e] { f(b, e); });
    internal::RunFibers(fns);
    return;
  }
  for (auto [b, e] : cs) f(b, e);
}
template <class F>
inline void parallel_for(int64_t begin, int64_t end, const F& f) {
  parallel_for(begin, end, 1, f);
}
template <class T, class F, class SF>
inline T parallel_reduce(int64_t begin, int64_t end, int64_t /*grain*/,
                         const F& f, const SF& sf) {
  auto cs = internal::Chunks(begin, end);
  std::vector<std::pair<int64_t, T>> parts;
  for (auto [b, e] : cs) parts.emplace_back(b, f(b, e));
  std::sort(parts.begin(), parts.end(),
            [](auto& x, auto& y) { return x.first < y.first; });
  T r = parts.at(0).second;
  for (size_t i = 1; i < parts.size(); ++i) r = sf(r, parts[i].second);
  return r;
}

class ElapsedTimer {
 public:
  explicit ElapsedTimer(bool = true) {}
  void Restart() {}
  void Pause() {}
  void Resume() {}
  double CountMs() const { return 0; }
  double CountSec() const { return 0; }
  int64_t CountUs() const { return 0; }
};
}  // namespace yacl

// -------------------------------------------------------------------- link --
namespace venv {
struct World;  // the network of one run
struct Msg {
  int world;
  int src, dst;
  std::string key, tag;
  std::string data;
};
// Observer / adversary: called for every message as it is put on the wire.
// May change the payload.  Return false to drop the message.
extern std::function<bool(Msg&)> g_wire;
// Observer of every message as it is delivered (party, msg).
}  // namespace venv

namespace yacl::link {
struct Statistics {
  std::atomic<size_t> sent_bytes = 0U;
  std::atomic<size_t> sent_actions = 0U;
  std::atomic<size_t> recv_bytes = 0U;
  std::atomic<size_t> recv_actions = 0U;
};

struct ContextDesc {
  struct Party {
    std::string id, host;
  };
  std::string id;
  std::vector<Party> parties;
  uint32_t recv_timeout_ms = 0;
};

class Context {
 public:
  Context(std::shared_ptr<venv::World> w, std::string id, size_t rank,
          std::vector<size_t> ranks);
  std::string Id() const { return id_; }
  size_t WorldSize() const { return ranks_.size(); }
  size_t Rank() const { return rank_; }
  size_t PrevRank(size_t stride = 1) const {
    return (rank_ + WorldSize() - stride % WorldSize()) % WorldSize();
  }
  size_t NextRank(size_t stride = 1) const {
    return (rank_ + stride) % WorldSize();
  }
  std::string PartyIdByRank(size_t r) const { return fmt::format("{}", r); }
  void ConnectToMesh() {}
  void SendAsync(size_t dst, ByteContainerView v, std::string_view tag);
  void SendAsyncThrottled(size_t dst, ByteContainerView v,
                          std::string_view tag) {
    SendAsync(dst, v, tag);
  }
  void Send(size_t dst, ByteContainerView v, std::string_view tag) {
    SendAsync(dst, v, tag);
  }
  Buffer Recv(size_t src, std::string_view tag);
  std::unique_ptr<Context> Spawn(const std::string& id = "");
  std::unique_ptr<Context> SubWorld(std::string_view id,
                                    const std::vector<std::string>&);
  std::shared_ptr<const Statistics> GetStats() const { return stats_; }
  void PrintStats() {}
  void SetRecvTimeout(uint32_t) {}
  void SetThrottleWindowSize(size_t) {}
  uint32_t GetRecvTimeout() const { return 0; }
  void WaitLinkTaskFinish() {}
  std::string NextId() { return fmt::format("{}:{}", id_, ++counter_); }
  // internal keyed variants used by the collectives
  void SendInternal(size_t dst, const std::string& key, ByteContainerView v,
                    std::string_view tag);
  Buffer RecvInternal(size_t src, const std::string& key,
                      std::string_view tag);

 private:
  friend struct WorldPeek;
  std::shared_ptr<venv::World> world_;
  std::string id_;
  size_t rank_;
  std::vector<size_t> ranks_;
  size_t counter_ = 0;
  size_t child_counter_ = 0;
  std::map<std::pair<size_t, size_t>, size_t> p2p_;
  std::shared_ptr<Statistics> stats_;
};

class TraceLogger {
 public:
  template <typename T>
  static void SetLogger(T&&) {}
  static void LinkTrace(...) {}
};

std::vector<Buffer> AllGather(const std::shared_ptr<Context>& ctx,
                              ByteContainerView in, std::string_view tag);
std::vector<std::vector<Buffer>> AllGather(
    const std::shared_ptr<Context>& ctx,
    const std::vector<ByteContainerView>& in, std::string_view tag);
std::vector<Buffer> Gather(const std::shared_ptr<Context>& ctx,
                           ByteContainerView in, size_t root,
                           std::string_view tag);
Buffer Broadcast(const std::shared_ptr<Context>& ctx, ByteContainerView in,
                 size_t root, std::string_view tag);
Buffer Scatter(const std::shared_ptr<Context>& ctx,
               const std::vector<ByteContainerView>& in, size_t root,
               std::string_view tag);
void Barrier(const std::shared_ptr<Context>& ctx, std::string_view tag);

namespace test {
std::vector<std::shared_ptr<Context>> SetupWorld(const std::string& id,
                                                 size_t n);
inline std::vector<std::shared_ptr<Context>> SetupWorld(size_t n) {
  return SetupWorld("w", n);
}
}  // namespace test
}  // namespace yacl::link

namespace venv {
using LinkPtr = std::shared_ptr<yacl::link::Context>;
// A fresh network. All contexts of one world share one mailbox.
std::vector<LinkPtr> makeWorld(size_t n, const std::string& id = "w");
// Messages sent but never received in the given world, as readable strings.
std::vector<std::string> undelivered(const LinkPtr& l);
// Running transcript hash of everything party `rank` received.
}  // namespace venv

// -------------------------------------------------------------- randomness --
namespace venv {
// The pseudo random function every generator below is defined by:
// 128-bit block number `ctr` of stream (type, seed, iv).
uint128_t prf(uint32_t type, uint128_t seed, uint128_t iv, uint64_t ctr);
// Observer/override for every PRF draw of n bytes.  Return true if `out` was
// filled.  Used to enumerate randomness and to record its use.
struct Draw {
  uint32_t type;
  uint128_t seed, iv;
  uint64_t ctr;
  uint8_t* out;
  size_t n;
  int party;
};
extern std::function<bool(const Draw&)> g_draw;
// Observer/override of fresh secure randomness.
extern std::function<bool(uint8_t* out, size_t n, int party)> g_secure;
// Told of every digest computed.
extern std::function<void(const std::vector<uint8_t>&)> g_digest;
// Restart the per-party streams of fresh randomness.
void resetRandom(uint64_t stream = 0);
void secureBytes(void* out, size_t n);
uint64_t fillPrf(uint32_t type, uint128_t seed, uint128_t iv, uint64_t ctr,
                 uint8_t* out, size_t n);
}  // namespace venv

namespace yacl {
namespace crypto {
class SymmetricCrypto {
 public:
  enum class CryptoType : int {
    AES128_ECB,
    AES128_CBC,
    AES128_CTR,
    SM4_ECB,
    SM4_CBC,
    SM4_CTR,
  };
  SymmetricCrypto(CryptoType type, uint128_t key, uint128_t iv = 0)
      : type_(type), key_(key), iv_(iv) {}
  uint128_t Encrypt(uint128_t in) const {
    return venv::prf(100 + static_cast<int>(type_), key_, in, 0);
  }
  void Encrypt(absl::Span<const uint128_t> in,
               absl::Span<uint128_t> out) const {
    for (size_t i = 0; i < in.size(); ++i) out[i] = Encrypt(in[i]);
  }
  void Encrypt(absl::Span<const uint8_t> in, absl::Span<uint8_t> out) const {
    for (size_t i = 0; i + 16 <= in.size(); i += 16) {
      uint128_t a, b;
      std::memcpy(&a, in.data() + i, 16);
      b = Encrypt(a);
      std::memcpy(out.data() + i, &b, 16);
    }
  }
  CryptoType GetType() const { return type_; }

 private:
  CryptoType type_;
  uint128_t key_, iv_;
};

inline uint64_t FillPRandBytes(SymmetricCrypto::CryptoType type, uint128_t seed,
                               uint128_t iv, uint64_t count, uint8_t* out,
                               size_t n) {
  return venv::fillPrf(static_cast<uint32_t>(type), seed, iv, count, out, n);
}
template <typename T>
uint64_t FillPRand(SymmetricCrypto::CryptoType type, uint128_t seed,
                   uint128_t iv, uint64_t count, absl::Span<T> out) {
  return FillPRandBytes(type, seed, iv, count,
                        reinterpret_cast<uint8_t*>(out.data()),
                        out.size() * sizeof(T));
}
template <typename T>
uint64_t FillPRandWithLtN(SymmetricCrypto::CryptoType type, uint128_t seed,
                          uint128_t iv, uint64_t count, absl::Span<T> out,
                          T n) {
  auto r = FillPRand(type, seed, iv, count, out);
  for (auto& v : out) v = v % n;
  return r;
}
template <typename T>
uint64_t FillPRandWithMersennePrime(SymmetricCrypto::CryptoType type,
                                    uint128_t seed, uint128_t iv,
                                    uint64_t count, absl::Span<T> out) {
  auto r = FillPRand(type, seed, iv, count, out);
  constexpr size_t e = sizeof(T) == 4 ? 31 : sizeof(T) == 8 ? 61 : 127;
  const T p = (static_cast<T>(1) << e) - 1;
  for (auto& v : out) {
    v &= p;
    if (v == p) v = 0;
  }
  return r;
}
inline void PrgAesCtrBytes(uint128_t seed, uint8_t* out, size_t n) {
  venv::fillPrf(static_cast<uint32_t>(SymmetricCrypto::CryptoType::AES128_CTR),
                seed, 0, 0, out, n);
}
template <typename T>
void PrgAesCtr(uint128_t seed, absl::Span<T> out) {
  PrgAesCtrBytes(seed, reinterpret_cast<uint8_t*>(out.data()),
                 out.size() * sizeof(T));
}

enum class PRG_MODE { kNistAesCtrDrbg, kAesEcb, kSm4Ecb };

template <typename T, size_t BATCH_SIZE = 128>
class Prg {
 public:
  explicit Prg(uint128_t seed = 0, PRG_MODE = PRG_MODE::kAesEcb)
      : seed_(seed) {}
  Prg(uint128_t seed, uint64_t ctr, PRG_MODE = PRG_MODE::kAesEcb)
      : seed_(seed), ctr_(ctr) {}
  T operator()() {
    T v{};
    ctr_ = venv::fillPrf(50, seed_, 0, ctr_, reinterpret_cast<uint8_t*>(&v),
                         sizeof(T));
    if constexpr (std::is_same_v<T, bool>) {
      uint8_t b;
      std::memcpy(&b, &v, 1);
      return (b & 1) != 0;
    } else {
      return v;
    }
  }
  template <typename Y>
  void Fill(absl::Span<Y> out) {
    ctr_ = venv::fillPrf(50, seed_, 0, ctr_,
                         reinterpret_cast<uint8_t*>(out.data()),
                         out.size() * sizeof(Y));
  }
  uint128_t Seed() const { return seed_; }
  uint64_t Counter() const { return ctr_; }
  void SetSeed(uint128_t s) {
    seed_ = s;
    ctr_ = 0;
  }

 private:
  uint128_t seed_;
  uint64_t ctr_ = 0;
};

inline uint64_t RandU64(bool = true) {
  uint64_t v;
  venv::secureBytes(&v, sizeof v);
  return v;
}
inline uint32_t RandU32(bool = true) {
  uint32_t v;
  venv::secureBytes(&v, sizeof v);
  return v;
}
inline uint128_t RandU128(bool = true) {
  uint128_t v;
  venv::secureBytes(&v, sizeof v);
  return v;
}
inline uint32_t SecureRandU32() { return RandU32(); }
inline uint64_t SecureRandU64() { return RandU64(); }
inline uint128_t SecureRandU128() { return RandU128(); }
inline uint128_t SecureRandSeed() { return RandU128(); }
inline uint128_t FastRandSeed() { return RandU128(); }
inline uint64_t FastRandU64() { return RandU64(); }
inline uint128_t RandSeed(bool = true) { return RandU128(); }
template <typename BitsT>
BitsT RandBits(uint64_t n, bool = true) {
  BitsT r(n);
  for (uint64_t i = 0; i < n; ++i) {
    uint8_t b;
    venv::secureBytes(&b, 1);
    r[i] = (b & 1) != 0;
  }
  return r;
}
inline std::vector<uint8_t> RandBytes(uint64_t n, bool = true) {
  std::vector<uint8_t> v(n);
  venv::secureBytes(v.data(), n);
  return v;
}
template <typename T, std::enable_if_t<std::is_standard_layout_v<T>, int> = 0>
std::vector<T> RandVec(uint64_t n, bool = true) {
  std::vector<T> v(n);
  venv::secureBytes(v.data(), n * sizeof(T));
  return v;
}
template <typename RandomIt>
void ReplayShuffle(RandomIt first, RandomIt last, uint128_t seed,
                   uint64_t* ctr) {
  auto n = last - first;
  for (auto i = n - 1; i > 0; --i) {
    uint64_t r;
    *ctr = venv::fillPrf(60, seed, 0, *ctr, reinterpret_cast<uint8_t*>(&r),
                         sizeof r);
    std::swap(first[i], first[r % (i + 1)]);
  }
}

enum class HashAlgorithm : int { BLAKE3, SHA224, SHA256, SHA512, SM3, BLAKE2B };
class HashInterface {
 public:
  virtual ~HashInterface() = default;
  virtual HashAlgorithm GetHashAlgorithm() const = 0;
  virtual size_t DigestSize() const = 0;
  virtual HashInterface& Reset() = 0;
  virtual HashInterface& Update(ByteContainerView data) = 0;
  virtual std::vector<uint8_t> CumulativeHash() const = 0;
};
// Idealised collision-free-in-practice hash (not cryptographic).
class Blake3Hash : public HashInterface {
 public:
  HashAlgorithm GetHashAlgorithm() const override {
    return HashAlgorithm::BLAKE3;
  }
  size_t DigestSize() const override { return 32; }
  HashInterface& Reset() override {
    s_.clear();
    return *this;
  }
  HashInterface& Update(ByteContainerView d) override {
    s_.append(reinterpret_cast<const char*>(d.data()), d.size());
    return *this;
  }
  std::vector<uint8_t> CumulativeHash() const override;

 private:
  std::string s_;
};
using Sha256Hash = Blake3Hash;
using Sm3Hash = Blake3Hash;
inline std::array<uint8_t, 32> Blake3(ByteContainerView d) {
  Blake3Hash h;
  h.Update(d);
  auto v = h.CumulativeHash();
  std::array<uint8_t, 32> r;
  std::copy(v.begin(), v.end(), r.begin());
  return r;
}
inline std::array<uint8_t, 32> Sha256(ByteContainerView d) { return Blake3(d); }
inline std::array<uint8_t, 32> Sm3(ByteContainerView d) { return Blake3(d); }
inline uint128_t Blake3_128(ByteContainerView d) {
  auto a = Blake3(d);
  uint128_t r;
  std::memcpy(&r, a.data(), 16);
  return r;
}
}  // namespace crypto

// --------------------------------------------------------------- serialize --
template <typename T>
void SerializeOne_(std::string& s, const T& v) {
  if constexpr (std::is_trivially_copyable_v<T>) {
    s.append(reinterpret_cast<const char*>(&v), sizeof(T));
  } else {
    uint64_t n = v.size();
    s.append(reinterpret_cast<const char*>(&n), 8);
    s.append(reinterpret_cast<const char*>(v.data()),
             n * sizeof(*v.data()));
  }
}
template <typename T>
void DeserializeOne_(ByteContainerView b, size_t& pos, T& v) {
  if constexpr (std::is_trivially_copyable_v<T>) {
    YACL_ENFORCE(pos + sizeof(T) <= b.size());
    std::memcpy(&v, b.data() + pos, sizeof(T));
    pos += sizeof(T);
  } else {
    uint64_t n;
    YACL_ENFORCE(pos + 8 <= b.size());
    std::memcpy(&n, b.data() + pos, 8);
    pos += 8;
    v.resize(n);
    YACL_ENFORCE(pos + n * sizeof(*v.data()) <= b.size());
    std::memcpy(v.data(), b.data() + pos, n * sizeof(*v.data()));
    pos += n * sizeof(*v.data());
  }
}
template <typename... Args>
Buffer SerializeVars(const Args&... args) {
  std::string s;
  (SerializeOne_(s, args), ...);
  return Buffer(s);
}
template <typename T>
T DeserializeVars(ByteContainerView b) {
  T v{};
  size_t pos = 0;
  DeserializeOne_(b, pos, v);
  return v;
}
template <typename T, typename T2, typename... Args>
std::tuple<T, T2, Args...> DeserializeVars(ByteContainerView b) {
  std::tuple<T, T2, Args...> t;
  size_t pos = 0;
  std::apply([&](auto&... v) { (DeserializeOne_(b, pos, v), ...); }, t);
  return t;
}
inline Buffer SerializeUint128(uint128_t v) { return Buffer(&v, sizeof v); }
inline uint128_t DeserializeUint128(ByteContainerView b) {
  YACL_ENFORCE(b.size() == 16);
  uint128_t v;
  std::memcpy(&v, b.data(), 16);
  return v;
}
inline Buffer SerializeInt128(int128_t v) { return Buffer(&v, sizeof v); }
inline int128_t DeserializeInt128(ByteContainerView b) {
  return static_cast<int128_t>(DeserializeUint128(b));
}

// ---------------------------------------------------------------- platform --
inline bool hasAVX() { return true; }
inline bool hasBMI2() { return true; }
inline uint64_t pdep_u64(uint64_t a, uint64_t mask) {
  uint64_t r = 0;
  for (uint64_t bb = 1; mask != 0; bb += bb) {
    if (a & bb) r |= mask & -mask;
    mask &= mask - 1;
  }
  return r;
}
inline uint64_t pext_u64(uint64_t a, uint64_t mask) {
  uint64_t r = 0;
  for (uint64_t bb = 1; mask != 0; bb += bb) {
    if (a & mask & -mask) r |= bb;
    mask &= mask - 1;
  }
  return r;
}
}  // namespace yacl

namespace yacl::crypto {
inline uint64_t DummyUpdateRandomCount(uint64_t count, size_t buffer_size) {
  return count + (buffer_size + 15) / 16;
}
}  // namespace yacl::crypto
