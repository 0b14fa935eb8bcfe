// The controlled environment: network, randomness, parallel loops.
#include "venv/env.h"

#include <algorithm>
#include <set>

namespace venv {

uint8_t g_fill = 0xA5;
void* (*g_alloc)(size_t) = nullptr;
bool (*g_free)(void*) = nullptr;
int g_par_mode = 0;
int g_num_threads = 1;
int g_as_party = kNoOverride;
std::function<bool(Msg&)> g_wire;
std::function<bool(const Draw&)> g_draw;
std::function<bool(uint8_t*, size_t, int)> g_secure;
std::function<void(const std::vector<uint8_t>&)> g_digest;

// ---------------------------------------------------------------- network --
struct World {
  int id = 0;
  size_t n = 0;
  // (src, dst, key) -> queue
  std::map<std::tuple<size_t, size_t, std::string>, std::deque<std::string>> box;
  // received messages may be tag-checked by name only
};

namespace {
int g_world_id = 0;
}  // namespace

std::vector<LinkPtr> makeWorld(size_t n, const std::string& id) {
  auto w = std::make_shared<World>();
  w->id = g_world_id++;
  w->n = n;
  std::vector<size_t> ranks(n);
  for (size_t i = 0; i < n; ++i) ranks[i] = i;
  std::vector<LinkPtr> out;
  for (size_t i = 0; i < n; ++i)
    out.push_back(std::make_shared<yacl::link::Context>(w, id, i, ranks));
  return out;
}
}  // namespace venv

namespace yacl::link {

Context::Context(std::shared_ptr<venv::World> w, std::string id, size_t rank,
                 std::vector<size_t> ranks)
    : world_(std::move(w)),
      id_(std::move(id)),
      rank_(rank),
      ranks_(std::move(ranks)),
      stats_(std::make_shared<Statistics>()) {}

void Context::SendInternal(size_t dst, const std::string& key,
                           ByteContainerView v, std::string_view tag) {
  YACL_ENFORCE(dst < WorldSize() && dst != rank_, "bad destination {}", dst);
  stats_->sent_actions++;
  stats_->sent_bytes += v.size();
  venv::Msg m{world_->id,
              static_cast<int>(ranks_[rank_]),
              static_cast<int>(ranks_[dst]),
              key,
              std::string(tag),
              std::string(v)};
  if (venv::g_wire && !venv::g_wire(m)) return;
  world_->box[{ranks_[rank_], ranks_[dst], key}].push_back(std::move(m.data));
  vmc::point("send");
}

Buffer Context::RecvInternal(size_t src, const std::string& key,
                             std::string_view tag) {
  YACL_ENFORCE(src < WorldSize() && src != rank_, "bad source {}", src);
  auto k = std::make_tuple(ranks_[src], ranks_[rank_], key);
  auto* w = world_.get();
  auto it = w->box.find(k);
  if (it == w->box.end()) {
    try {
      vmc::block([w, &k] { return w->box.count(k) > 0; },
                 fmt::format("recv {}<-{} key={} tag={}", rank_, src, key, tag));
    } catch (const vmc::Stuck& s) {
      throw IoError("receive timeout: " + s.what);
    }
    it = w->box.find(k);
  }
  Buffer b(it->second.front());
  it->second.pop_front();
  if (it->second.empty()) w->box.erase(it);
  stats_->recv_actions++;
  stats_->recv_bytes += b.size();
  return b;
}

void Context::SendAsync(size_t dst, ByteContainerView v, std::string_view tag) {
  size_t seq = ++p2p_[{rank_, dst}];
  SendInternal(dst, fmt::format("{}:P2P-{}:{}->{}", id_, seq, rank_, dst), v,
               tag);
}
Buffer Context::Recv(size_t src, std::string_view tag) {
  size_t seq = ++p2p_[{src, rank_}];
  return RecvInternal(src, fmt::format("{}:P2P-{}:{}->{}", id_, seq, src, rank_),
                      tag);
}
std::unique_ptr<Context> Context::Spawn(const std::string& id) {
  std::string cid =
      id.empty() ? fmt::format("{}-{}", id_, child_counter_++) : id;
  return std::make_unique<Context>(world_, cid, rank_, ranks_);
}
std::unique_ptr<Context> Context::SubWorld(std::string_view id,
                                           const std::vector<std::string>& ps) {
  std::vector<size_t> ranks;
  size_t me = ps.size();
  for (size_t i = 0; i < ps.size(); ++i) {
    for (size_t r = 0; r < WorldSize(); ++r) {
      if (PartyIdByRank(r) == ps[i]) {
        ranks.push_back(ranks_[r]);
        if (r == rank_) me = i;
      }
    }
  }
  return std::make_unique<Context>(
      world_, fmt::format("{}-{}", id_, id), me, ranks);
}

std::vector<Buffer> AllGather(const std::shared_ptr<Context>& ctx,
                              ByteContainerView in, std::string_view tag) {
  auto key = ctx->NextId() + ":ALLGATHER";
  const size_t n = ctx->WorldSize();
  for (size_t i = 0; i < n; ++i)
    if (i != ctx->Rank()) ctx->SendInternal(i, key, in, tag);
  std::vector<Buffer> out(n);
  for (size_t i = 0; i < n; ++i)
    out[i] = i == ctx->Rank() ? Buffer(in.data(), in.size())
                              : ctx->RecvInternal(i, key, tag);
  return out;
}
std::vector<std::vector<Buffer>> AllGather(
    const std::shared_ptr<Context>& ctx,
    const std::vector<ByteContainerView>& in, std::string_view tag) {
  std::vector<std::vector<Buffer>> out;
  for (auto& v : in) out.push_back(AllGather(ctx, v, tag));
  return out;
}
std::vector<Buffer> Gather(const std::shared_ptr<Context>& ctx,
                           ByteContainerView in, size_t root,
                           std::string_view tag) {
  auto key = ctx->NextId() + ":GATHER";
  const size_t n = ctx->WorldSize();
  std::vector<Buffer> out;
  if (ctx->Rank() == root) {
    out.resize(n);
    for (size_t i = 0; i < n; ++i)
      out[i] = i == root ? Buffer(in.data(), in.size())
                         : ctx->RecvInternal(i, key, tag);
  } else {
    ctx->SendInternal(root, key, in, tag);
  }
  return out;
}
Buffer Broadcast(const std::shared_ptr<Context>& ctx, ByteContainerView in,
                 size_t root, std::string_view tag) {
  auto key = ctx->NextId() + ":BCAST";
  if (ctx->Rank() == root) {
    for (size_t i = 0; i < ctx->WorldSize(); ++i)
      if (i != root) ctx->SendInternal(i, key, in, tag);
    return Buffer(in.data(), in.size());
  }
  return ctx->RecvInternal(root, key, tag);
}
Buffer Scatter(const std::shared_ptr<Context>& ctx,
               const std::vector<ByteContainerView>& in, size_t root,
               std::string_view tag) {
  auto key = ctx->NextId() + ":SCATTER";
  if (ctx->Rank() == root) {
    YACL_ENFORCE(in.size() == ctx->WorldSize());
    for (size_t i = 0; i < ctx->WorldSize(); ++i)
      if (i != root) ctx->SendInternal(i, key, in[i], tag);
    return Buffer(in[root].data(), in[root].size());
  }
  return ctx->RecvInternal(root, key, tag);
}
void Barrier(const std::shared_ptr<Context>& ctx, std::string_view tag) {
  AllGather(ctx, ByteContainerView("", 0), tag);
}
namespace test {
std::vector<std::shared_ptr<Context>> SetupWorld(const std::string& id,
                                                 size_t n) {
  return venv::makeWorld(n, id);
}
}  // namespace test

struct WorldPeek {
  static const venv::World* get(const Context& c) { return c.world_.get(); }
};
}  // namespace yacl::link

namespace venv {
std::vector<std::string> undelivered(const LinkPtr& l) {
  std::vector<std::string> out;
  for (auto& [k, q] : yacl::link::WorldPeek::get(*l)->box)
    out.push_back(fmt::format("{}->{} {} x{}", std::get<0>(k), std::get<1>(k),
                              std::get<2>(k), q.size()));
  return out;
}

// ------------------------------------------------------------- randomness --
namespace {
uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
int who() { return g_as_party == kNoOverride ? vmc::self_party() : g_as_party; }
std::map<int, uint64_t> g_sec_ctr;
uint64_t g_sec_stream = 0;
}  // namespace

uint128_t prf(uint32_t type, uint128_t seed, uint128_t iv, uint64_t ctr) {
  uint64_t a = mix(static_cast<uint64_t>(seed) ^ mix(type));
  a = mix(a ^ static_cast<uint64_t>(seed >> 64));
  a = mix(a ^ static_cast<uint64_t>(iv));
  a = mix(a ^ static_cast<uint64_t>(iv >> 64));
  a = mix(a ^ ctr);
  uint64_t b = mix(a ^ 0x5851f42d4c957f2dULL);
  return (static_cast<uint128_t>(b) << 64) | mix(a + 77);
}

uint64_t fillPrf(uint32_t type, uint128_t seed, uint128_t iv, uint64_t ctr,
                 uint8_t* out, size_t n) {
  const uint64_t blocks = (n + 15) / 16;
  if (g_draw && g_draw(Draw{type, seed, iv, ctr, out, n, who()})) {
    return ctr + blocks;
  }
  for (uint64_t i = 0; i < blocks; ++i) {
    uint128_t v = prf(type, seed, iv, ctr + i);
    std::memcpy(out + i * 16, &v, std::min<size_t>(16, n - i * 16));
  }
  return ctr + blocks;
}

void resetRandom(uint64_t stream) {
  g_sec_ctr.clear();
  g_sec_stream = stream;
}

void secureBytes(void* out, size_t n) {
  int p = who();
  if (g_secure && g_secure(static_cast<uint8_t*>(out), n, p)) return;
  uint64_t& c = g_sec_ctr[p];
  for (size_t i = 0; i < n; i += 16) {
    uint128_t v = prf(999, g_sec_stream, static_cast<uint128_t>(p) + 1, c++);
    std::memcpy(static_cast<uint8_t*>(out) + i, &v, std::min<size_t>(16, n - i));
  }
}
}  // namespace venv

namespace yacl::crypto {
std::vector<uint8_t> Blake3Hash::CumulativeHash() const {
  // 256 bit mixing hash; idealised, not cryptographic.
  uint64_t h[4] = {1, 2, 3, 4};
  auto feed = [&](uint64_t v) {
    for (int i = 0; i < 4; ++i) h[i] = venv::mix(h[i] ^ v ^ h[(i + 1) & 3] * 31);
  };
  feed(s_.size());
  for (size_t i = 0; i < s_.size(); i += 8) {
    uint64_t v = 0;
    std::memcpy(&v, s_.data() + i, std::min<size_t>(8, s_.size() - i));
    feed(v);
  }
  feed(0x1234567);
  std::vector<uint8_t> out(32);
  std::memcpy(out.data(), h, 32);
  if (venv::g_digest) venv::g_digest(out);
  return out;
}
}  // namespace yacl::crypto

// ---------------------------------------------------------------- parallel --
namespace yacl::internal {
std::vector<std::pair<int64_t, int64_t>> Chunks(int64_t b, int64_t e) {
  std::vector<std::pair<int64_t, int64_t>> r;
  switch (venv::g_par_mode) {
    case 1:
    case 2:
    case 4:
      for (int64_t i = b; i < e; ++i) r.emplace_back(i, i + 1);
      if (venv::g_par_mode == 2) std::reverse(r.begin(), r.end());
      break;
    case 3: {
      int64_t m = b + (e - b) / 2;
      if (m < e) r.emplace_back(m, e);
      if (b < m) r.emplace_back(b, m);
      break;
    }
    default:
      r.emplace_back(b, e);
  }
  return r;
}
void RunFibers(const std::vector<std::function<void()>>& fns) {
  std::vector<vmc::Fiber*> fs;
  for (auto& f : fns) fs.push_back(vmc::spawn(f));
  for (auto* f : fs) vmc::join(f);
}
}  // namespace yacl::internal
