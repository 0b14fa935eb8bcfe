// A closed system of N parties running the real protocol code: contexts,
// argument construction in every layout, reveal, and post-conditions that hold
// for every operation.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "vh/vh.h"
#include "venv/env.h"

#include "libspu/core/context.h"
#include "libspu/core/ndarray_ref.h"
#include "libspu/core/type.h"
#include "libspu/core/value.h"
#include "libspu/mpc/ab_api.h"
#include "libspu/mpc/api.h"
#include "libspu/mpc/common/communicator.h"
#include "libspu/mpc/common/prg_state.h"
#include "libspu/mpc/common/pv2k.h"
#include "libspu/mpc/io_interface.h"

namespace vn {
using spu::FieldType;
using spu::FM128;
using spu::FM32;
using spu::FM64;
using spu::NdArrayRef;
using spu::Shape;
using spu::SPUContext;
using spu::Value;
using U = uint128_t;

inline int bitsOf(FieldType f) { return f == FM32 ? 32 : f == FM64 ? 64 : 128; }
inline U maskOf(int k) { return k >= 128 ? ~U(0) : (U(1) << k) - 1; }
inline const char* fname(FieldType f) {
  return f == FM32 ? "FM32" : f == FM64 ? "FM64" : "FM128";
}
inline std::string hex(U v) {
  return v >> 64 ? fmt::format("0x{:x}{:016x}", uint64_t(v >> 64), uint64_t(v))
                 : fmt::format("0x{:x}", uint64_t(v));
}
inline int128_t sgn(U v, int k) {  // two's complement value of a k bit word
  v &= maskOf(k);
  if (k < 128 && (v >> (k - 1)) & 1) v |= ~maskOf(k);
  return static_cast<int128_t>(v);
}

// ---- plain tensors ---------------------------------------------------------
inline NdArrayRef mkArr(const spu::Type& ty, const Shape& shape,
                        const std::vector<U>& v) {
  NdArrayRef a(ty, shape);
  const size_t es = a.elsize();
  auto* p = a.data<uint8_t>();
  for (int64_t i = 0; i < shape.numel(); ++i)
    std::memcpy(p + i * es, &v[i], std::min<size_t>(es, 16));
  return a;
}
inline NdArrayRef mkPub(FieldType f, const Shape& shape,
                        const std::vector<U>& v) {
  return mkArr(spu::makeType<spu::mpc::Pub2kTy>(f), shape, v);
}
// Logical contents read through shape/strides/offset, independent of the
// container's own indexing code.
inline std::vector<U> readArr(const NdArrayRef& a) {
  std::vector<U> out;
  const auto& sh = a.shape();
  int64_t n = 1;
  for (size_t d = 0; d < sh.size(); ++d) n *= sh[d];
  const size_t es = a.elsize();
  const auto* base =
      n == 0 ? nullptr : a.buf()->data<uint8_t>() + a.offset();
  std::vector<int64_t> idx(sh.size(), 0);
  for (int64_t i = 0; i < n; ++i) {
    int64_t off = 0;
    for (size_t d = 0; d < sh.size(); ++d) off += idx[d] * a.strides()[d];
    U v = 0;
    std::memcpy(&v, base + off * static_cast<int64_t>(es),
                std::min<size_t>(es, 16));
    out.push_back(v);
    for (int d = static_cast<int>(sh.size()) - 1; d >= 0; --d) {
      if (++idx[d] < sh[d]) break;
      idx[d] = 0;
    }
  }
  return out;
}

// ---- the parties -----------------------------------------------------------
struct Conf {
  std::string name;
  size_t npc = 2;
  spu::RuntimeConfig rc;
  std::function<std::unique_ptr<SPUContext>(
      const spu::RuntimeConfig&, const std::shared_ptr<yacl::link::Context>&)>
      make;
  std::function<std::unique_ptr<spu::mpc::IoInterface>(FieldType, size_t)> io;
  // What must hold between the parties' shares of one value ("" if it does).
  std::function<std::string(const std::vector<NdArrayRef>&)> consistent;
  int draw_profiles = 5;
  bool no_scalars = false;  // shape {} is explored separately
  std::function<std::shared_ptr<void>()> service;  // started with the parties
  FieldType pub = FM64;  // field of public / private values
  std::string str() const {
    return fmt::format("{}-{}pc-{}", name, npc, fname(rc.field));
  }
};

// When set, its seed bytes etc. during set-up stay at the default profile.
class Net {
 public:
  explicit Net(const Conf& c) : conf(c) {
    if (c.service) service = c.service();
    links = venv::makeWorld(c.npc);
    ctxs.resize(c.npc);
    auto r = runRaw([&](size_t i) { ctxs[i] = c.make(c.rc, links[i]); });
    if (!r.ok()) vh::fail(fmt::format("{}: setup failed: {}", c.str(), r.str()));
    drained("setup");
  }
  // The same parties in contexts forked from those of another one.
  Net(const Conf& c, Net& parent) : conf(c), service(parent.service) {
    ctxs.resize(c.npc);
    auto r = runRaw([&](size_t i) { ctxs[i] = parent.ctxs[i]->fork(); });
    if (!r.ok()) vh::fail(fmt::format("{}: fork failed: {}", c.str(), r.str()));
    for (auto& x : ctxs) links.push_back(x->lctx());
    drained("fork");
  }
  vmc::RunResult runRaw(const std::function<void(size_t)>& fn) {
    std::vector<std::function<void()>> b;
    for (size_t i = 0; i < conf.npc; ++i) b.push_back([&fn, i] { fn(i); });
    auto r = vmc::run(b);
    vh::add("scheduler_steps", r.switches);
    return r;
  }
  // Runs fn at every party; any error, deadlock or unconsumed message fails.
  void run(const std::string& what,
           const std::function<void(SPUContext*, size_t)>& fn) {
    auto r = runRaw([&](size_t i) { fn(ctxs[i].get(), i); });
    if (!r.ok())
      vh::fail(fmt::format("{} {}: {}", conf.str(), what, r.str()));
    drained(what);
  }
  void drained(const std::string& what) {
    auto u = venv::undelivered(links[0]);
    if (!u.empty())
      vh::fail(fmt::format("{} {}: {} message(s) never received, e.g. {}",
                           conf.str(), what, u.size(), u[0]));
  }
  Conf conf;
  std::shared_ptr<void> service;
  std::vector<venv::LinkPtr> links;
  std::vector<std::unique_ptr<SPUContext>> ctxs;
};

// ---- arguments -------------------------------------------------------------
enum Layout { kCompact, kStrided, kReversed, kTransposed, kBroadcast, kLayouts };
inline const char* layoutName(int l) {
  static const char* n[] = {"compact", "strided", "reversed", "transposed",
                            "broadcast"};
  return n[l];
}
// kind: p public, s secret (p2s), a arithmetic share, b boolean share,
//       v/w private of party 0 / the last party
struct Arg {
  char kind = 'p';
  std::vector<U> data;
  Shape shape;
  int layout = kCompact;
  spu::DataType dtype = spu::DT_INVALID;
};

inline Value toKind(SPUContext* ctx, const Value& p, char kind) {
  switch (kind) {
    case 'p':
      return p;
    case 's':
      return spu::mpc::p2s(ctx, p);
    case 'a':
      return spu::mpc::p2a(ctx, p);
    case 'b':
      return spu::mpc::p2b(ctx, p);
    case 'v':
      return spu::mpc::p2v(ctx, p, 0);
    case 'w':
      return spu::mpc::p2v(ctx, p, ctx->lctx()->WorldSize() - 1);
  }
  std::abort();
}

inline Value mkArg(SPUContext* ctx, FieldType f, const Arg& a) {
  const int64_t n = a.shape.numel();
  auto conv = [&](const Shape& s, const std::vector<U>& d) {
    return toKind(ctx, Value(mkPub(f, s, d), a.dtype), a.kind);
  };
  switch (a.layout) {
    case kStrided: {
      if (a.shape.ndim() == 0) break;
      Shape s = a.shape;
      s.back() = s.back() * 2 + 1;
      std::vector<U> d(static_cast<size_t>(s.numel()));
      // junk everywhere except in the selected cells
      for (size_t i = 0; i < d.size(); ++i) d[i] = 0x1234567 + i * 77;
      const int64_t last = a.shape.back(), plast = s.back();
      // a B share's width depends on the widest element: keep junk narrow
      U m = 0;
      for (auto v : a.data) m |= v;
      for (auto& v : d) v = m ? (v & 1) * (m & (~m + 1)) : 0;
      for (int64_t i = 0; i < n; ++i)
        d[i / last * plast + 1 + i % last * 2] = a.data[i];
      Value v = conv(s, d);
      spu::Index st(s.size(), 0), en(s.begin(), s.end());
      spu::Strides sr(s.size(), 1);
      st.back() = 1;
      sr.back() = 2;
      return Value(v.data().slice(st, en, sr), a.dtype);
    }
    case kReversed: {
      if (a.shape.ndim() == 0) break;
      std::vector<U> d(a.data.rbegin(), a.data.rend());
      Value v = conv(a.shape, d);
      spu::Axes ax;
      for (size_t i = 0; i < a.shape.size(); ++i) ax.push_back(i);
      return Value(v.data().reverse(ax), a.dtype);
    }
    case kTransposed: {
      if (a.shape.size() != 2) break;
      Shape s{a.shape[1], a.shape[0]};
      std::vector<U> d(a.data.size());
      for (int64_t i = 0; i < a.shape[0]; ++i)
        for (int64_t j = 0; j < a.shape[1]; ++j)
          d[j * a.shape[0] + i] = a.data[i * a.shape[1] + j];
      Value v = conv(s, d);
      return Value(v.data().transpose({1, 0}), a.dtype);
    }
    case kBroadcast: {
      if (n == 0) break;
      Value v = conv({1}, {a.data[0]});
      return Value(v.data().reshape({}).broadcast_to(a.shape, {}), a.dtype);
    }
    default:
      break;
  }
  return conv(a.shape, a.data);
}
inline std::vector<U> logical(const Arg& a) {
  if (a.layout == kBroadcast && !a.data.empty())
    return std::vector<U>(a.data.size(), a.data[0]);
  return a.data;
}

inline Value reveal(SPUContext* ctx, const Value& v) {
  if (v.isPublic()) return v;
  if (v.isPrivate()) return spu::mpc::v2p(ctx, v);
  return spu::mpc::s2p(ctx, v);
}

// ---- randomness profiles ---------------------------------------------------
// Every draw is answered from one of these; draws of the same stream position
// are answered identically for every party.
struct Profile {
  // 0 hash  1 all zero  2 all one  3 0x80..  4 0x7f..  5 one  (per element
  // width unknown: patterns repeat per 8 bytes)
  static void fill(int k, uint8_t* out, size_t n) {
    for (size_t i = 0; i < n; ++i) {
      uint8_t b = 0;
      switch (k) {
        case 1: b = 0; break;
        case 2: b = 0xff; break;
        case 3: b = i % 4 == 3 ? 0x80 : 0; break;
        case 4: b = i % 4 == 3 ? 0x7f : 0xff; break;
        case 5: b = i % 16 == 0 ? 1 : 0; break;
      }
      out[i] = b;
    }
  }
};
struct ScopedRandom {
  // One profile for all draws (0: leave alone).
  explicit ScopedRandom(int profile) {
    if (profile == 0) return;
    venv::g_draw = [profile](const venv::Draw& d) {
      Profile::fill(profile, d.out, d.n);
      return true;
    };
    venv::g_secure = [profile](uint8_t* o, size_t n, int) {
      Profile::fill(profile, o, n);
      return true;
    };
  }
  ~ScopedRandom() {
    venv::g_draw = nullptr;
    venv::g_secure = nullptr;
  }
};
// Every distinct stream position is a choice point of the explorer.
struct ChoiceRandom {
  std::map<std::tuple<uint32_t, U, U, uint64_t>, int> memo;
  long fresh = 0;
  explicit ChoiceRandom(int profiles) {
    venv::g_draw = [this, profiles](const venv::Draw& d) {
      auto key = std::make_tuple(d.type, d.seed, d.iv, d.ctr);
      auto it = memo.find(key);
      int k;
      if (it == memo.end()) {
        k = vmc::choose(profiles, "draw");
        memo[key] = k;
      } else {
        k = it->second;
      }
      if (k == 0) return false;
      Profile::fill(k, d.out, d.n);
      return true;
    };
    venv::g_secure = [this, profiles](uint8_t* o, size_t n, int) {
      int k = vmc::choose(profiles, "secure");
      if (k == 0) return false;
      Profile::fill(k, o, n);
      return true;
    };
  }
  ~ChoiceRandom() {
    venv::g_draw = nullptr;
    venv::g_secure = nullptr;
  }
};

// ---- interesting ring elements ----------------------------------------------
inline std::vector<U> edges(int k, bool many) {
  const U m = maskOf(k);
  std::vector<U> e = {0,
                      1,
                      2,
                      3,
                      m,
                      m - 1,
                      U(1) << (k - 1),
                      (U(1) << (k - 1)) - 1,
                      (U(1) << (k - 1)) + 1,
                      U(1) << (k / 2),
                      (U(1) << (k / 2)) - 1,
                      (m << (k / 2)) & m,
                      U(1) << (k - 2),
                      ((U(1) << (k - 2)) ^ m) + 1,
                      m / 3,
                      m / 3 * 2,
                      (U(0x0123456789abcdefULL) << 64 | 0xfedcba9876543210ULL) & m,
                      (U(0xdeadbeefcafebabeULL) << 64 | 0x9e3779b97f4a7c15ULL) & m};
  if (many) {
    for (int i = 2; i < k; i += k / 16) e.push_back(U(1) << i);
    for (int i = 3; i < k; i += k / 16) e.push_back(m ^ (U(1) << i));
    for (int i = 5; i < k; i += k / 8) e.push_back((U(1) << i) - 1);
    for (int i = 6; i < k; i += k / 8) e.push_back((m << i) & m);
  }
  for (auto& v : e) v &= m;
  return e;
}
}  // namespace vn
