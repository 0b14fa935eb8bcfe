// C04: what goes in comes out.  Every protocol's makeShares/combineShares over
// plaintext types, layouts, owners and randomness; the colocated IO's
// synchronisation over all small histories.
#define USE_SEMI2K
#define USE_ABY3
#define USE_SECURENN
#define USE_SPDZ2K
#define USE_SWIFT
#define USE_REF2K
#include "net.h"
#include "protos.h"

#include "libspu/core/encoding.h"
#include "libspu/device/io.h"
#include "libspu/mpc/cheetah/io.h"
#include "libspu/mpc/factory.h"
using namespace vn;
using namespace spu;

namespace {
using Half = half_float::half;

struct IoConf {
  std::string name;
  ProtocolKind kind;
  size_t npc;
  int threshold;  // largest coalition that must learn nothing
};
std::vector<IoConf> ioConfs() {
  return {{"ref2k", ProtocolKind::REF2K, 2, 0},
          {"semi2k", ProtocolKind::SEMI2K, 2, 1},
          {"semi2k", ProtocolKind::SEMI2K, 3, 2},
          {"semi2k", ProtocolKind::SEMI2K, 5, 4},
          {"aby3", ProtocolKind::ABY3, 3, 1},
          {"cheetah", ProtocolKind::CHEETAH, 2, 1},
          {"securenn", ProtocolKind::SECURENN, 3, 1},
          {"swift", ProtocolKind::SWIFT, 3, 1}};
}

// memory layouts of a tensor: slot of every element
struct Lay {
  std::string name;
  Shape shape;
  Strides strides;
  std::vector<int64_t> slot;
  int64_t slots = 0;
};
Lay mkLay(const std::string& name, Shape sh, Strides st) {
  Lay l{name, sh, st, {}, 0};
  int64_t lo = 0, hi = 0;
  std::vector<int64_t> ix(sh.size(), 0);
  for (int64_t i = 0; i < sh.numel(); ++i) {
    int64_t o = 0;
    for (size_t d = 0; d < sh.size(); ++d) o += ix[d] * st[d];
    l.slot.push_back(o);
    lo = std::min(lo, o);
    hi = std::max(hi, o);
    for (int d = static_cast<int>(sh.size()) - 1; d >= 0; --d) {
      if (++ix[d] < sh[d]) break;
      ix[d] = 0;
    }
  }
  for (auto& s : l.slot) s -= lo;
  l.slots = hi - lo + 1;
  return l;
}
// layouts of the same 12 elements as {3,4}, one dimensional, and degenerate
std::vector<Lay> inLayouts() {
  return {mkLay("vector", {12}, {1}),         mkLay("every third", {12}, {3}),
          mkLay("reversed", {12}, {-1}),      mkLay("matrix", {3, 4}, {4, 1}),
          mkLay("transposed", {3, 4}, {1, 3}), mkLay("padded", {3, 4}, {11, 2}),
          mkLay("cube", {2, 3, 2}, {6, 2, 1}), mkLay("scalar", {}, {}),
          mkLay("one", {1, 1}, {1, 1}),        mkLay("empty", {0}, {1}),
          mkLay("empty2", {3, 0}, {1, 1}),     mkLay("broadcast", {3, 4}, {0, 1})};
}

template <class T>
std::vector<T> valuesOf() {
  if constexpr (std::is_same_v<T, bool>) return {true, false, false, true, true, true, false, true, false, false, true, false};
  if constexpr (std::is_same_v<T, float> || std::is_same_v<T, double> || std::is_same_v<T, Half>) {
    std::vector<T> r;
    for (double d : {0.0, 1.0, -1.0, 0.5, -0.5, 2.25, -3.75, 100.0, -128.5, 0.00390625, -0.00390625, 31.125})
      r.push_back(T(d));
    return r;
  }
  if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>) {
    using L = std::numeric_limits<T>;
    return {T(0), T(1), T(2), L::max(), T(L::max() - 1), L::min(), T(L::min() + 1), T(L::max() / 3), T(L::max() / 5 * 4),
            T(77), T(100), T(5)};
  }
  return {};
}

size_t shareBytes(const Value& v) {
  size_t n = 0;
  for (auto& c : v.toProto(1 << 20).chunks) n += c.content().size();
  return n;
}

// Same share, reached through a view with other strides.
Value viewed(const Value& v, int how) {
  auto re = [&](const NdArrayRef& a) -> NdArrayRef {
    if (how == 0 || a.shape().ndim() == 0 || a.numel() == 0) return a;
    if (how == 1) {  // junk between the elements
      Shape s = a.shape();
      s.back() = s.back() * 2 + 1;
      NdArrayRef big(a.eltype(), s);
      std::memset(big.data(), 0x3c, s.numel() * a.elsize());
      Index st(s.size(), 0), en(s.begin(), s.end());
      Strides sr(s.size(), 1);
      st.back() = 1;
      sr.back() = 2;
      auto w = big.slice(st, en, sr);
      auto c = a.clone();
      // element by element through the strides
      std::vector<int64_t> ix(a.shape().size(), 0);
      auto* base = w.buf()->data<uint8_t>() + w.offset();
      for (int64_t i = 0; i < a.numel(); ++i) {
        int64_t o = 0;
        for (size_t d = 0; d < ix.size(); ++d) o += ix[d] * w.strides()[d];
        std::memcpy(base + o * static_cast<int64_t>(a.elsize()), c.data<uint8_t>() + i * a.elsize(), a.elsize());
        for (int d = static_cast<int>(ix.size()) - 1; d >= 0; --d) {
          if (++ix[d] < a.shape()[d]) break;
          ix[d] = 0;
        }
      }
      return w;
    }
    Axes ax;
    for (size_t i = 0; i < a.shape().size(); ++i) ax.push_back(i);
    return a.reverse(ax).clone().reverse(ax);  // negative strides, same contents
  };
  if (v.isComplex()) return Value(re(v.data()), re(*v.imag()), v.dtype());
  return Value(re(v.data()), v.dtype());
}

struct World {
  std::unique_ptr<device::IoClient> io;
  World(const IoConf& c, FieldType f, bool colo, int fxp) {
    RuntimeConfig rc;
    rc.protocol = c.kind;
    rc.field = f;
    rc.fxp_fraction_bits = fxp;
    rc.experimental_enable_colocated_optimization = colo;
    io = std::make_unique<device::IoClient>(c.npc, rc);
  }
};

template <class T>
void roundTrips(const IoConf& c, FieldType f, PtType pt, int lanes) {
  // lanes 2: complex
  const auto vals = valuesOf<T>();
  const auto lays = inLayouts();
  for (bool colo : {false, true})
    for (int fxp : {0, 8, 14}) {
      if (fxp == 14 && f == FM32) continue;
      World w(c, f, colo, fxp);
      for (auto vis : {VIS_PUBLIC, VIS_SECRET})
        for (int owner = -1; owner < static_cast<int>(c.npc); ++owner)
          for (int prof = 0; prof < 6; ++prof) {
            if (vis == VIS_PUBLIC && (prof > 0 || owner > 0)) continue;
            for (size_t li = 0; li < lays.size(); ++li) {
              const auto& l = lays[li];
              if (prof > 0 && li > 3) continue;
              if (fxp != 8 && (li > 6 || prof > 1)) continue;
              std::string at = fmt::format("{} {}pc {} {} vis={} owner={} colo={} fxp={} random={} {}", c.name, c.npc,
                                           fname(f), int(pt), int(vis), owner, colo, fxp, prof, l.name);
              vh::where(at);
              const int64_t n = l.shape.numel();
              std::vector<T> mem(std::max<int64_t>(1, l.slots) * lanes, vals[1]);
              for (size_t i = 0; i < mem.size(); ++i) mem[i] = vals[(i * 5 + 3) % vals.size()];
              std::vector<T> want(n * lanes);
              auto& data = mem;
              const int64_t first = n ? l.slot[0] : 0;
              for (int64_t i = 0; i < n; ++i)
                for (int q = 0; q < lanes; ++q) {
                  if (l.name != "broadcast") data[l.slot[i] * lanes + q] = vals[(i + q * 7) % vals.size()];
                }
              for (int64_t i = 0; i < n; ++i)
                for (int q = 0; q < lanes; ++q) want[i * lanes + q] = data[l.slot[i] * lanes + q];
              std::vector<uint8_t> bytes(mem.size() * sizeof(T));
              for (size_t i = 0; i < mem.size(); ++i) {
                T t = mem[i];
                std::memcpy(&bytes[i * sizeof(T)], &t, sizeof(T));
              }
              const auto before = bytes;
              PtBufferView bv(bytes.data() + first * lanes * sizeof(T), pt, l.shape, l.strides);
              std::vector<Value> sh;
              {
                ScopedRandom sr(prof);
                sh = w.io->makeShares(bv, vis, owner);
              }
              VH_CHECK(bytes == before, "{}: the input changed", at);
              VH_CHECK(sh.size() == c.npc, "{}: {} shares", at, sh.size());
              const size_t size = w.io->getShareSize(bv, vis, owner);
              for (auto& s : sh) {
                VH_CHECK(s.shape() == l.shape, "{}: share shape {}", at, s.shape());
                VH_CHECK(s.isComplex() == (lanes == 2), "{}: complex {}", at, s.isComplex());
                VH_CHECK(vis == VIS_PUBLIC ? s.isPublic() : (s.isSecret() || (colo && owner >= 0 && s.isPrivate())),
                         "{}: visibility {}", at, int(s.vtype()));
                VH_CHECK(s.storage_type() == sh[0].storage_type() && s.dtype() == sh[0].dtype(),
                         "{}: share types differ", at);
                VH_CHECK(shareBytes(s) == size, "{}: getShareSize {} but the share has {} bytes", at, size,
                         shareBytes(s));
                if (s.isPrivate())
                  VH_CHECK(s.owner() == owner, "{}: owner {}", at, s.owner());
              }
              VH_CHECK(w.io->getPtType(sh) == pt, "{}: getPtType {}", at, int(w.io->getPtType(sh)));
              // the shares travel as messages, and may arrive as views
              for (int how = 0; how < 4; ++how) {
                std::vector<Value> in;
                for (auto& s : sh)
                  in.push_back(how == 3 ? Value::fromProto(s.toProto(64)) : viewed(s, how));
                for (size_t lo = 0; lo < lays.size(); ++lo) {
                  const auto& o = lays[lo];
                  if (o.shape != l.shape || o.name == "broadcast") continue;
                  std::vector<uint8_t> out(std::max<int64_t>(1, o.slots) * lanes * sizeof(T), 0x5a);
                  PtBufferView ov(out.data() + (n ? o.slot[0] : 0) * lanes * sizeof(T), pt, o.shape, o.strides);
                  w.io->combineShares(in, &ov);
                  std::vector<bool> touched(out.size() / sizeof(T), false);
                  for (int64_t i = 0; i < n; ++i)
                    for (int q = 0; q < lanes; ++q) {
                      T r;
                      std::memcpy(&r, &out[(o.slot[i] * lanes + q) * sizeof(T)], sizeof(T));
                      touched[o.slot[i] * lanes + q] = true;
                      VH_CHECK(r == want[i * lanes + q], "{} shares as {} into {}: element {} lane {} differs: {} -> {}",
                               at, how, o.name, i, q, double(want[i * lanes + q]), double(r));
                    }
                  for (size_t t = 0; t < touched.size(); ++t)
                    if (!touched[t])
                      for (size_t b = 0; b < sizeof(T); ++b)
                        VH_CHECK(out[t * sizeof(T) + b] == 0x5a, "{}: wrote between the elements", at);
                }
                vh::eval(vh::hash(at) * 31 + how);
              }
            }
          }
    }
}

template <class T>
void typeUnit(const std::string& tn, PtType pt, int lanes = 1) {
  for (auto& c : ioConfs())
    for (auto f : {FM32, FM64, FM128}) {
      if (c.kind == ProtocolKind::SWIFT && f == FM128) continue;
      if (c.kind == ProtocolKind::CHEETAH && f == FM128) continue;
      vh::unit(fmt::format("io/{}-{}/{}/{}", c.name, c.npc, fname(f), tn), [=] {
        if (lanes == 1 && !std::is_same_v<T, float> && !std::is_same_v<T, double> && sizeof(T) * 8 > static_cast<size_t>(bitsOf(f))) {
          // does not fit: must be refused
          World w(c, f, false, 8);
          T v{};
          bool threw = false;
          try {
            w.io->makeShares(PtBufferView(&v, pt, Shape{1}, Strides{1}), VIS_SECRET);
          } catch (const std::exception&) {
            threw = true;
          }
          VH_CHECK(threw, "{} {}: a type wider than the ring was accepted", c.name, tn);
          vh::eval(vh::hash(c.name + tn));
          return;
        }
        roundTrips<T>(c, f, pt, lanes);
      });
    }
}

// ---- no coalition below the threshold learns anything ------------------------
// Randomness restricted to a subgroup of order 4, secrets too: the complete
// distribution of every coalition's shares must not depend on the secret.
std::string shareString(const Value& v) {
  std::string s;
  auto one = [&](const NdArrayRef& a) {
    auto c = a.clone();
    s.append(reinterpret_cast<const char*>(c.data<uint8_t>()), c.numel() * c.elsize());
  };
  one(v.data());
  if (v.isComplex()) one(*v.imag());
  return s;
}
struct SubgroupRandom {
  std::map<std::tuple<uint32_t, U, U, uint64_t>, int> memo;
  static void fill(int k, uint8_t* out, size_t n) {
    std::memset(out, 0, n);
    if (n == 1) out[0] = k;
    if (n == 4 || n == 8 || n == 16) out[n - 1] = k << 6;
  }
  SubgroupRandom() {
    venv::g_draw = [this](const venv::Draw& d) {
      auto key = std::make_tuple(d.type, d.seed, d.iv, d.ctr);
      auto it = memo.find(key);
      if (it == memo.end()) it = memo.emplace(key, vmc::choose(4, "draw")).first;
      fill(it->second, d.out, d.n);
      return true;
    };
  }
  ~SubgroupRandom() { venv::g_draw = nullptr; }
};
void privacy() {
  for (auto& c : ioConfs()) {
    if (c.threshold == 0) continue;
    for (auto f : {FM32, FM64, FM128})
      vh::unit(fmt::format("hiding/{}-{}/{}", c.name, c.npc, fname(f)), [=] {
        if ((c.kind == ProtocolKind::SWIFT || c.kind == ProtocolKind::CHEETAH) && f == FM128) return;
        RuntimeConfig rc;
        rc.protocol = c.kind;
        rc.field = f;
        rc.fxp_fraction_bits = 8;
        auto ringIo = mpc::Factory::CreateIO(rc, c.npc);
        // a ring element, or a plaintext buffer
        auto one = [&](const NdArrayRef* raw, const PtBufferView& bv) {
          // coalition -> multiset of views
          std::map<std::string, std::map<std::string, long>> dist;
          World w(c, f, false, 8);
          vmc::Explorer ex;
          ex.bound = 1 << 20;
          long n = 0;
          ex.explore([&] {
            venv::resetRandom();
            SubgroupRandom r;
            std::vector<Value> sh;
            if (raw)
              for (auto& x : ringIo->toShares(*raw, VIS_SECRET)) sh.emplace_back(x, DT_I64);
            else
              sh = w.io->makeShares(bv, VIS_SECRET);
            for (unsigned m = 1; m < (1u << c.npc); ++m) {
              if (__builtin_popcount(m) > c.threshold) continue;
              std::string view;
              for (size_t i = 0; i < c.npc; ++i)
                if (m >> i & 1) view += shareString(sh[i]);
              ++dist[fmt::format("{:b}", m)][view];
            }
            ++n;
            return true;
          });
          vh::add("random_tapes", n);
          VH_CHECK(n > 1, "{}: sharing used no randomness", c.name);
          return dist;
        };
        std::map<std::string, std::map<std::string, long>> first;
        for (int s = 0; s < 4; ++s) {
          U v = U(s) << (bitsOf(f) - 2);
          vh::where(fmt::format("{} {}pc {} secret {}", c.name, c.npc, fname(f), hex(v)));
          auto raw = mkArr(makeType<RingTy>(f), {1}, {v});
          auto d = one(&raw, PtBufferView(&v, PT_I32, Shape{1}, Strides{1}));
          if (s == 0) first = d;
          for (auto& [m, x] : d)
            VH_CHECK(x == first[m], "{} {}pc {}: the shares of coalition {} depend on the secret {}", c.name, c.npc,
                     fname(f), m, hex(v));
          vh::eval(vh::hash(c.name + fname(f)) + s);
        }
        // single bits
        for (int s = 0; s < 2; ++s) {
          uint8_t b = s;
          auto d = one(nullptr, PtBufferView(&b, PT_I1, Shape{1}, Strides{1}));
          if (s == 0) first = d;
          if (c.kind == ProtocolKind::ABY3)
            for (auto& [m, x] : d)
              VH_CHECK(x == first[m], "{} {}pc {}: the bit shares of coalition {} depend on the secret", c.name, c.npc,
                       fname(f), m);
          vh::eval(vh::hash(c.name + fname(f) + "bit") + s);
        }
      });
  }
}

// ---- shares are usable by the protocol ---------------------------------------
// Every party takes its own share; opening inside the protocol gives the value.
void usable() {
  for (auto f : {FM32, FM64, FM128}) {
    std::vector<Conf> cs = {semi2k(2, f), semi2k(3, f), aby3(f), securenn(f), ref2k(2, f)};
    if (f != FM128) cs.push_back(swift(f));
    for (auto& c : cs)
      for (bool colo : {false, true})
        vh::unit(fmt::format("usable/{}/{}", c.str(), colo), [=] {
          auto cc = c;
          cc.rc.experimental_enable_colocated_optimization = colo;
          Net net(cc);
          device::IoClient io(c.npc, cc.rc);
          std::vector<int32_t> v = {0, 1, -1, 2147483647, -2147483647 - 1, 77, -12345, 4};
          std::vector<uint8_t> bits = {1, 0, 0, 1, 1, 0, 1, 0};
          for (int what = 0; what < 2; ++what)
            for (auto vis : {VIS_PUBLIC, VIS_SECRET})
              for (int owner = -1; owner < static_cast<int>(c.npc); ++owner)
                for (int prof = 0; prof < 6; ++prof) {
                  std::vector<Value> sh;
                  {
                    ScopedRandom sr(prof);
                    PtBufferView bv = what ? PtBufferView(bits.data(), PT_I1, Shape{2, 4}, Strides{4, 1})
                                           : PtBufferView(v.data(), PT_I32, Shape{2, 4}, Strides{4, 1});
                    sh = io.makeShares(bv, vis, owner);
                  }
                  std::string at = fmt::format("{} colo={} vis={} owner={} random={} bits={}", c.str(), colo, int(vis), owner,
                                               prof, what);
                  vh::where(at);
                  std::vector<std::vector<U>> got(c.npc), sq(c.npc);
                  std::vector<Value> back(c.npc);
                  net.run(at, [&](SPUContext* ctx, size_t i) {
                    got[i] = readArr(reveal(ctx, sh[i]).data());
                    // and after a computation
                    auto s = sh[i].isPublic() ? mpc::p2s(ctx, sh[i]) : sh[i].isPrivate() ? mpc::v2s(ctx, sh[i]) : sh[i];
                    auto q = mpc::mul_ss(ctx, s, s);
                    sq[i] = readArr(reveal(ctx, q).data());
                    back[i] = Value(q.data(), DT_I32);
                  });
                  const U m = maskOf(bitsOf(f));
                  for (size_t j = 0; j < v.size(); ++j) {
                    U x = what ? U(bits[j]) : static_cast<U>(static_cast<int128_t>(v[j])) & m;
                    for (size_t i = 0; i < c.npc; ++i) {
                      VH_CHECK((got[i][j] & m) == x, "{}: party {} opens {} expected {}", at, i, hex(got[i][j] & m), hex(x));
                      VH_CHECK((sq[i][j] & m) == ((x * x) & m), "{}: party {} square of {} is {}", at, i, hex(x),
                               hex(sq[i][j]));
                    }
                  }
                  // the result goes back out
                  std::vector<int32_t> out(v.size());
                  PtBufferView ov(out.data(), PT_I32, Shape{2, 4}, Strides{4, 1});
                  io.combineShares(back, &ov);
                  for (size_t j = 0; j < v.size(); ++j) {
                    uint32_t x = what ? bits[j] : static_cast<uint32_t>(v[j]);
                    VH_CHECK(static_cast<uint32_t>(out[j]) == x * x, "{}: combined {} expected {}", at, out[j],
                             static_cast<int32_t>(x * x));
                  }
                  vh::eval(vh::hash(at));
                }
        });
  }
  // spdz2k has an IO of its own
  for (auto f : {FM32, FM64})
    for (size_t n : {2, 3, 4})
      vh::unit(fmt::format("usable/spdz2k-{}/{}", n, fname(f)), [=] {
        auto io = mpc::spdz2k::makeSpdz2kIo(f, n);
        auto e = edges(bitsOf(f), true);
        auto raw = mkArr(makeType<RingTy>(f), {static_cast<int64_t>(e.size())}, e);
        for (auto vis : {VIS_PUBLIC, VIS_SECRET})
          for (int owner = -1; owner < static_cast<int>(n); ++owner)
            for (int prof = 0; prof < 6; ++prof) {
              ScopedRandom sr(prof);
              auto sh = io->toShares(raw, vis, owner);
              VH_CHECK(sh.size() == n, "spdz2k: {} shares", sh.size());
              for (auto& s : sh)
                VH_CHECK(s.eltype().size() == io->getShareType(vis, owner).size() && s.shape() == raw.shape(),
                         "spdz2k: share type");
              for (int how = 0; how < 3; ++how) {
                std::vector<NdArrayRef> in;
                for (auto& s : sh) in.push_back(viewed(Value(s, DT_I32), how).data());
                auto r = readArr(io->fromShares(in));
                for (size_t i = 0; i < e.size(); ++i)
                  VH_CHECK((r[i] & maskOf(bitsOf(f))) == e[i], "spdz2k {}pc {} vis={} random={} view {}: {} became {}", n,
                           fname(f), int(vis), prof, how, hex(e[i]), hex(r[i]));
                vh::eval(vh::hash(fmt::format("spdz2k{}{}{}{}{}{}", n, int(f), int(vis), owner, prof, how)));
              }
            }
      });
}

// Opened results of every share form leave through combineShares.
void outputs() {
  for (auto f : {FM32, FM64, FM128}) {
    std::vector<Conf> cs = {semi2k(2, f), semi2k(3, f), aby3(f), securenn(f), ref2k(2, f)};
    if (f != FM128) cs.push_back(swift(f));
    for (auto& c : cs)
      vh::unit(fmt::format("outputs/{}", c.str()), [=] {
        Net net(c);
        device::IoClient io(c.npc, c.rc);
        const int k = bitsOf(f);
        auto e = edges(k, false);
        e.resize(18);
        const bool has_b = c.name != "ref2k";
        for (char kind : std::string(has_b ? "pabvw" : "psvw"))
          for (int lay = 0; lay < kLayouts; ++lay)
            for (int narrow = 0; narrow < 4; ++narrow)
              for (int prof = 0; prof < 6; ++prof) {
                if (prof && lay > 1) continue;
                Arg a;
                a.kind = kind;
                a.shape = {3, 6};
                a.layout = lay;
                a.data = e;
                const U m = narrow == 1 ? 1 : narrow == 2 ? 0xff : narrow == 3 ? maskOf(k / 2) : maskOf(k);
                for (auto& v : a.data) v &= m;
                std::string at = fmt::format("{} output kind={} {} narrow={} random={}", c.str(), kind, layoutName(lay), narrow,
                                             prof);
                vh::where(at);
                std::vector<Value> sh(c.npc);
                {
                  ScopedRandom sr(prof);
                  net.run(at, [&](SPUContext* ctx, size_t i) { sh[i] = mkArg(ctx, f, a); });
                }
                auto want = logical(a);
                std::vector<uint8_t> out(18 * k / 8);
                if (f == FM128) {
                  // no 128 bit plaintext type
                  std::vector<NdArrayRef> raw;
                  for (auto& s : sh) raw.push_back(s.data());
                  auto r = readArr(c.io(f, c.npc)->fromShares(raw));
                  std::memcpy(out.data(), r.data(), out.size());
                } else {
                  for (auto& s : sh) s = Value(s.data(), f == FM32 ? DT_U32 : DT_U64);
                  PtBufferView ov(out.data(), f == FM32 ? PT_U32 : PT_U64, Shape{3, 6}, Strides{6, 1});
                  io.combineShares(sh, &ov);
                }
                for (int j = 0; j < 18; ++j) {
                  U r = 0;
                  std::memcpy(&r, &out[j * k / 8], k / 8);
                  VH_CHECK(r == want[j], "{}: element {} is {} expected {}", at, j, hex(r), hex(want[j]));
                }
                vh::eval(vh::hash(at));
              }
      });
  }
}

// ---- colocated IO -------------------------------------------------------------
// Histories of host and device operations at every party.
struct Ev {
  int kind;  // 0 hostSetVar, 1 sync, 2 deviceSetVar
  int name = 0, party = 0, vis = 0;
};
void colocated() {
  for (bool colo : {false, true})
    for (int proto = 0; proto < 3; ++proto)
      for (int firstEv = 0; firstEv < 3; ++firstEv)
        vh::unit(fmt::format("colocated/{}/{}/{}", proto, colo, firstEv), [=] {
          auto c = proto == 0 ? semi2k(2, FM64) : proto == 1 ? aby3(FM64) : semi2k(3, FM32);
          c.rc.experimental_enable_colocated_optimization = colo;
          c.rc.fxp_fraction_bits = 8;
          const char* names[] = {"x", "yy"};
          vmc::Explorer ex;
          ex.bound = 1 << 20;
          const int depth = vh::thorough() ? 6 : 5;
          Net net(c);
          ex.explore([&] {
            std::vector<Ev> h;
            for (int d = 0; d < depth - 1; ++d) {
              int lim = static_cast<int>(2 * c.npc) + 1;
              int k;
              if (d == 0) {
                // split over units
                int per = (lim + 2) / 3;
                int lo = firstEv * per, hi = std::min(lim, lo + per);
                if (lo >= hi) return true;
                k = lo + vmc::choose(hi - lo, "event");
              } else {
                k = vmc::choose(lim, "event");
              }
              if (k == lim - 1)
                h.push_back({1});
              else
                h.push_back({0, k % 2, k / 2, static_cast<int>((h.size() + k) % 3)});
            }
            h.push_back({1});
            std::string what = "history";
            for (auto& e : h)
              what += e.kind == 1 ? " sync" : fmt::format(" P{}.{}{}", e.party, names[e.name], e.vis);
            vh::where(c.str() + " " + what);
            // model: pending per party, then the symbol table
            std::vector<std::map<int, std::pair<int, int>>> pend(c.npc);
            std::map<int, std::pair<int, int>> table;  // name -> (value id, vis)
            bool expectThrow = false;
            size_t stop = h.size();
            for (size_t i = 0; i < h.size() && !expectThrow; ++i) {
              if (h[i].kind == 0) {
                pend[h[i].party][h[i].name] = {static_cast<int>(i), h[i].vis};
              } else {
                std::map<int, int> cnt;
                for (auto& p : pend)
                  for (auto& [n, v] : p) ++cnt[n];
                for (auto& [n, k] : cnt)
                  if (k > 1) expectThrow = true, stop = i;
                for (auto& p : pend) {
                  for (auto& [n, v] : p) table[n] = v;
                  p.clear();
                }
              }
            }
            auto valueOf = [](int id) {
              std::vector<float> r;
              for (int j = 0; j < 6; ++j) r.push_back((id + 1) * (j % 2 ? -1.5f : 2.25f) + j);
              return r;
            };
            auto intsOf = [](int id) {
              std::vector<int32_t> r;
              for (int j = 0; j < 6; ++j) r.push_back((id + 1) * (j % 2 ? -1000003 : 77) + j);
              return r;
            };
            std::vector<int> threw(c.npc, 0);
            std::vector<std::string> bad(c.npc);
            auto body = [&](SPUContext* ctx, size_t me) {
              device::ColocatedIo io(ctx);
              for (size_t i = 0; i < h.size(); ++i) {
                auto& e = h[i];
                if (e.kind == 1) {
                  try {
                    io.sync();
                  } catch (const std::exception& x) {
                    threw[me] = 1 + static_cast<int>(i);
                    return;
                  }
                } else if (e.party == static_cast<int>(me)) {
                  auto vis = e.vis == 0 ? VIS_PUBLIC : VIS_SECRET;
                  auto fv = valueOf(i);
                  auto iv = intsOf(i);
                  if (e.vis == 2) {
                    // a strided view of the host's memory
                    std::vector<int32_t> wide(12, 999);
                    for (int j = 0; j < 6; ++j) wide[j * 2] = iv[j];
                    io.hostSetVar(names[e.name], PtBufferView(wide.data(), PT_I32, Shape{2, 3}, Strides{6, 2}), vis);
                    auto got = io.hostGetVar(names[e.name]);
                    if (got.shape() != Shape{2, 3}) bad[me] = "host value shape";
                    for (auto& z : wide) z = 0;  // the host's buffer is its own again
                  } else {
                    io.hostSetVar(names[e.name], PtBufferView(fv.data(), PT_F32, Shape{2, 3}, Strides{3, 1}), vis);
                  }
                }
              }
              for (int n = 0; n < 2; ++n) {
                if (io.deviceHasVar(names[n]) != (table.count(n) > 0)) bad[me] = fmt::format("{} present: {}", names[n], io.deviceHasVar(names[n]));
                if (!table.count(n) || !io.deviceHasVar(names[n])) continue;
                auto v = io.deviceGetVar(names[n]);
                auto [id, vis] = table[n];
                auto r = readArr(reveal(ctx, v).data());
                auto fv = valueOf(id);
                auto iv = intsOf(id);
                for (int j = 0; j < 6; ++j) {
                  int128_t want = vis == 2 ? iv[j] : static_cast<int64_t>(fv[j] * 256);
                  if (sgn(r[j], bitsOf(c.pub)) != want)
                    bad[me] = fmt::format("{} element {} is {}", names[n], j, hex(r[j]));
                }
                if (v.shape() != Shape{2, 3}) bad[me] = "shape";
                if (v.dtype() != (vis == 2 ? DT_I32 : DT_F32)) bad[me] = "data type";
                if ((vis == 0) != v.isPublic()) bad[me] = "visibility";
                if (vis == 0) {
                  // public: the host reads it back
                  auto arr = io.hostGetVar(names[n]);
                  auto fl = readArr(arr);
                  for (int j = 0; j < 6; ++j) {
                    float g;
                    std::memcpy(&g, &fl[j], 4);
                    if (g != fv[j]) bad[me] = "hostGetVar";
                  }
                }
              }
            };
            if (expectThrow) {
              Net own(c);  // messages of the failed sync stay behind
              auto r = own.runRaw([&](size_t i) { body(own.ctxs[i].get(), i); });
              for (size_t i = 0; i < c.npc; ++i)
                VH_CHECK(threw[i] == static_cast<int>(stop) + 1, "{} {}: two parties set one name but party {} goes on ({}; {})",
                         c.str(), what, i, threw[i], r.str());
            } else {
              net.run(what, body);
              for (size_t i = 0; i < c.npc; ++i) {
                VH_CHECK(threw[i] == 0, "{} {}: party {} refuses", c.str(), what, i);
                VH_CHECK(bad[i].empty(), "{} {}: party {}: {}", c.str(), what, i, bad[i]);
              }
            }
            vh::eval(vh::hash(c.str() + what));
            return true;
          });
        });
}
}  // namespace

void vh_units() {
  typeUnit<bool>("i1", PT_I1);
  typeUnit<int8_t>("i8", PT_I8);
  typeUnit<uint8_t>("u8", PT_U8);
  typeUnit<int16_t>("i16", PT_I16);
  typeUnit<uint16_t>("u16", PT_U16);
  typeUnit<int32_t>("i32", PT_I32);
  typeUnit<uint32_t>("u32", PT_U32);
  typeUnit<int64_t>("i64", PT_I64);
  typeUnit<uint64_t>("u64", PT_U64);
  typeUnit<Half>("f16", PT_F16);
  typeUnit<float>("f32", PT_F32);
  typeUnit<double>("f64", PT_F64);
  typeUnit<float>("cf32", PT_CF32, 2);
  typeUnit<double>("cf64", PT_CF64, 2);
  privacy();
  usable();
  outputs();
  colocated();
}
