// Ideal oblivious transfer extensions: what the sender and the receiver hold
// afterwards is exactly the functionality; how it is computed is not modelled.
#pragma once
#include "venv/env.h"
#include "yacl/base/dynamic_bitset.h"
namespace venv {
// The sizes of the two LPN instances and what each consumes (the real ones
// are millions of transfers long).
struct FerretSize {
  size_t n, reserve;
};
extern FerretSize g_ferret_pre, g_ferret_main;
// Called with the base transfers an extension consumes and with those it makes
// (the sender's blocks).
extern std::function<void(absl::Span<const uint128_t> used, absl::Span<const uint128_t> made)> g_ferret;
}  // namespace venv

namespace yacl::crypto {
class OtSendStore {
 public:
  std::vector<uint128_t> blocks;
  uint128_t delta = 0;
};
class OtRecvStore {
 public:
  std::vector<uint128_t> blocks;
  std::vector<uint8_t> choices;
};
inline OtSendStore MakeCompactOtSendStore(std::vector<uint128_t> b, uint128_t delta) { return {std::move(b), delta}; }
inline OtRecvStore MakeCompactOtRecvStore(std::vector<uint128_t> b) {
  OtRecvStore s;
  for (auto v : b) s.choices.push_back(static_cast<uint8_t>(v & 1));
  s.blocks = std::move(b);
  return s;
}

enum class LpnNoiseAsm { RegularNoise, UniformNoise };
class LpnParam {
 public:
  uint64_t n, k, t, reserve;
  LpnNoiseAsm noise_asm;
  LpnParam(uint64_t n0, uint64_t k0, uint64_t t0, LpnNoiseAsm a) : k(k0), t(t0), noise_asm(a) {
    const auto& s = n0 > 1000000 ? venv::g_ferret_main : venv::g_ferret_pre;
    n = s.n;
    reserve = s.reserve;
  }
};
inline uint64_t FerretCotHelper(const LpnParam& p, uint64_t ot_num) { return p.reserve + ot_num; }

namespace ideal {
using Link = std::shared_ptr<yacl::link::Context>;
// sender: n random blocks r; receiver: r ^ choice * delta
inline void cotSend(const Link& l, absl::Span<uint128_t> out, uint128_t delta, bool lsb0) {
  auto c = l->Recv(l->NextRank(), "ideal-ot:choices");
  YACL_ENFORCE(c.size() == static_cast<int64_t>(out.size()), "the parties disagree on the number of transfers");
  const uint128_t seed = RandU128();
  std::vector<uint128_t> msg(out.size());
  for (size_t i = 0; i < out.size(); ++i) {
    uint128_t r = venv::prf(72, seed, 0, i);
    if (lsb0) r &= ~static_cast<uint128_t>(1);
    out[i] = r;
    msg[i] = c.data<uint8_t>()[i] ? r ^ delta : r;
  }
  l->SendAsync(l->NextRank(), ByteContainerView(msg.data(), msg.size() * 16), "ideal-ot:blocks");
}
template <class C>
void cotRecv(const Link& l, const C& choices, absl::Span<uint128_t> out) {
  std::vector<uint8_t> c(out.size());
  for (size_t i = 0; i < c.size(); ++i) c[i] = choices[i] ? 1 : 0;
  l->SendAsync(l->NextRank(), ByteContainerView(c.data(), c.size()), "ideal-ot:choices");
  auto m = l->Recv(l->NextRank(), "ideal-ot:blocks");
  YACL_ENFORCE(m.size() == static_cast<int64_t>(out.size() * 16), "the parties disagree on the number of transfers");
  if (!out.empty()) std::memcpy(out.data(), m.data(), m.size());
}
}  // namespace ideal

class SoftspokenOtExtSender {
 public:
  explicit SoftspokenOtExtSender(uint64_t k = 2, uint64_t step = 0) {}
  void OneTimeSetup(const ideal::Link&) {
    if (!set_) delta_ = RandU128();
    set_ = true;
  }
  uint128_t GetDelta() const { return delta_; }
  void Send(const ideal::Link& l, absl::Span<std::array<uint128_t, 2>> out, bool cot = false) {
    YACL_ENFORCE(set_ && cot);
    std::vector<uint128_t> r(out.size());
    ideal::cotSend(l, absl::MakeSpan(r), delta_, false);
    for (size_t i = 0; i < r.size(); ++i) out[i] = {r[i], r[i] ^ delta_};
  }

 private:
  bool set_ = false;
  uint128_t delta_ = 0;
};
class SoftspokenOtExtReceiver {
 public:
  explicit SoftspokenOtExtReceiver(uint64_t k = 2, uint64_t step = 0) {}
  void OneTimeSetup(const ideal::Link&) { set_ = true; }
  void Recv(const ideal::Link& l, const dynamic_bitset<uint128_t>& choices, absl::Span<uint128_t> out,
            bool cot = false) {
    YACL_ENFORCE(set_ && cot && choices.size() == out.size());
    ideal::cotRecv(l, choices, out);
  }

 private:
  bool set_ = false;
};

inline OtRecvStore BaseOtRecv(const ideal::Link&, const dynamic_bitset<uint128_t>& c, uint32_t n) {
  OtRecvStore s;
  for (uint32_t i = 0; i < n; ++i) s.choices.push_back(c[i]);
  s.blocks.push_back(c.data()[0]);
  return s;
}
inline OtSendStore BaseOtSend(const ideal::Link&, uint32_t) { return {}; }
inline void IknpOtExtSend(const ideal::Link& l, const OtRecvStore& s, absl::Span<std::array<uint128_t, 2>> out,
                          bool cot = false) {
  std::vector<uint128_t> r(out.size());
  ideal::cotSend(l, absl::MakeSpan(r), s.blocks.at(0), false);
  for (size_t i = 0; i < r.size(); ++i) out[i] = {r[i], r[i] ^ s.blocks[0]};
}
inline void IknpOtExtRecv(const ideal::Link& l, const OtSendStore&, const dynamic_bitset<uint128_t>& c,
                          absl::Span<uint128_t> out, bool cot = false) {
  ideal::cotRecv(l, c, out);
}

// Ferret: consumes `reserve` correlated transfers (the receiver's least
// significant bit is its choice) and makes n with random choices.
inline void FerretOtExtSend_cheetah(const ideal::Link& l, const OtSendStore& base, const LpnParam& p, uint64_t n,
                                    absl::Span<uint128_t> out) {
  YACL_ENFORCE(base.blocks.size() == p.reserve && n == p.n && out.size() >= n && (base.delta & 1) == 1);
  auto rb = l->Recv(l->NextRank(), "ideal-ferret:base");
  YACL_ENFORCE(rb.size() == static_cast<int64_t>(p.reserve * 16));
  for (size_t i = 0; i < p.reserve; ++i) {
    const uint128_t v = rb.data<uint128_t>()[i];
    YACL_ENFORCE(v == (base.blocks[i] ^ ((v & 1) ? base.delta : 0)),
                 "ferret is started with transfers that are not correlated");
  }
  ideal::cotSend(l, out.subspan(0, n), base.delta, true);
  if (venv::g_ferret) venv::g_ferret(base.blocks, out.subspan(0, n));
}
inline void FerretOtExtRecv_cheetah(const ideal::Link& l, const OtRecvStore& base, const LpnParam& p, uint64_t n,
                                    absl::Span<uint128_t> out) {
  YACL_ENFORCE(base.blocks.size() == p.reserve && n == p.n && out.size() >= n);
  l->SendAsync(l->NextRank(), ByteContainerView(base.blocks.data(), base.blocks.size() * 16), "ideal-ferret:base");
  const uint128_t seed = RandU128();
  std::vector<uint8_t> c(n);
  for (size_t i = 0; i < n; ++i) c[i] = venv::prf(73, seed, 0, i / 64) >> (i % 64) & 1;
  ideal::cotRecv(l, c, out.subspan(0, n));
}
}  // namespace yacl::crypto
