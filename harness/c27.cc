// C27: a product of matrices that is split into blocks to bound memory is the
// product, for every shape, limit, form of the operands and layout.
#define USE_SEMI2K
#define USE_ABY3
#define USE_REF2K
#define USE_SWIFT
#include "protoops.h"
#include "protos.h"

#include "libspu/core/config.h"
#include "libspu/kernel/hal/polymorphic.h"
#include "libspu/kernel/hal/prot_wrapper.h"
#include "libspu/kernel/hal/ring.h"
using namespace vn;
namespace spu::kernel::hal {
extern size_t kMmulMemLimit;
}

namespace {
struct Limit {
  size_t old = spu::kernel::hal::kMmulMemLimit;
  explicit Limit(size_t n) { spu::kernel::hal::kMmulMemLimit = n; }
  ~Limit() { spu::kernel::hal::kMmulMemLimit = old; }
};
struct Proto {
  Conf c;
  std::string kinds;  // forms of operands
};
std::vector<Proto> protos() {
  std::vector<Proto> r;
  for (auto f : {FM32, FM64, FM128}) {
    r.push_back({semi2k(2, f), "spvw"});
    r.push_back({aby3(f), "spvw"});
    r.push_back({ref2k(2, f), "sp"});
    if (f != FM128) r.push_back({swift(f), "sp"});
  }
  r.push_back({semi2k(3, FM64), "sp"});
  return r;
}
using Dims = std::array<int64_t, 3>;
void one(Net& net, Dims d, char ka, char kb, int la, int lb, int vecs, size_t limit, int salt) {
  using spu::kernel::hal::_mmul;
  const int k = bitsOf(net.conf.pub);
  const auto e = edges(k, false);
  auto [M, K, N] = d;
  Arg x, y;
  x.kind = ka, y.kind = kb;
  x.layout = la, y.layout = lb;
  x.shape = vecs & 1 ? Shape{K} : Shape{M, K};
  y.shape = vecs & 2 ? Shape{K} : Shape{K, N};
  for (int64_t i = 0; i < M * K; ++i) x.data.push_back(e[(i * 5 + salt) % e.size()]);
  for (int64_t i = 0; i < K * N; ++i) y.data.push_back(e[(i * 7 + salt * 3 + 1) % e.size()]);
  Limit lim(limit);
  auto w = fmt::format("mmul[{}{}] {}x{}x{}{}{} {}/{} blocks below {} bytes", ka, kb, M, K, N, vecs & 1 ? " left vector" : "",
                       vecs & 2 ? " right vector" : "", layoutName(la), layoutName(lb), limit);
  vh::where(net.conf.str() + " " + w);
  std::vector<std::vector<U>> got(net.conf.npc);
  std::vector<std::string> bad(net.conf.npc);
  net.run(w, [&](SPUContext* c, size_t i) {
    auto a = mkArg(c, net.conf.pub, x), b = mkArg(c, net.conf.pub, y);
    auto r = _mmul(c, a, b);
    const bool pub = ka == 'p' && kb == 'p', priv = !pub && ka != 's' && kb != 's' && (ka == 'p' || kb == 'p' || ka == kb);
    if (pub != r.isPublic()) bad[i] = "visibility";
    if (priv != r.isPrivate()) bad[i] = "visibility";
    if (r.shape() != Shape{M, N}) bad[i] = fmt::format("shape {}", r.shape());
    if (r.dtype() != spu::DT_INVALID) bad[i] = "dtype";
    got[i] = readArr(reveal(c, r).data());
  });
  auto X = logical(x), Y = logical(y);
  for (size_t q = 0; q < net.conf.npc; ++q) {
    VH_CHECK(bad[q].empty(), "{} {}: wrong {}", net.conf.str(), w, bad[q]);
    for (int64_t i = 0; i < M; ++i)
      for (int64_t j = 0; j < N; ++j) {
        U s = 0;
        for (int64_t t = 0; t < K; ++t) s += X[i * K + t] * Y[t * N + j];
        VH_CHECK((s & maskOf(k)) == (got[q][i * N + j] & maskOf(k)), "{} {}: element {},{} is {} not {} at party {}", net.conf.str(), w, i, j,
                 hex(got[q][i * N + j]), hex(s & maskOf(k)), q);
      }
  }
  vh::eval(vh::hash(net.conf.str() + w), M * N * K > 1);
}
}  // namespace

void vh_units() {
  for (auto& p : protos()) {
    const int64_t top = vh::thorough() ? 7 : p.c.pub == FM64 ? 5 : 4;
    for (int64_t M = 0; M <= top; ++M)
      vh::unit(fmt::format("shapes/{}/{}", p.c.str(), M), [=] {
        int salt = static_cast<int>(M);
        for (bool off : {false, true}) {
          auto c = p.c;
          c.rc.experimental_disable_mmul_split = off;
          Net net(c);
          for (int64_t K = 0; K <= top; ++K)
            for (int64_t N = 0; N <= top; ++N)
              for (char ka : p.kinds)
                for (char kb : p.kinds) {
                  if (off && (ka != 's' || kb != 's')) continue;
                  // an element of the operands, in any form, is at most 16 or
                  // (two shares of 16) 32 bytes
                  std::vector<size_t> limits;
                  const int w = bitsOf(c.pub) / 8;
                  for (int n : {1, 2, 3, 4, 5, 7, 9, 12, 16, 24, 32, 48}) limits.push_back(size_t(n) * w * 2);
                  for (size_t li = 0; li < limits.size(); ++li) {
                    if (limits[li] > size_t(2 * w * ((M + N) * K + 2)) && limits[li] != limits[0]) break;
                    if (off && li != 2) continue;
                    if (!vh::thorough() && (ka != 's' || kb != 's') && (li + salt) % 3) {
                      ++salt;
                      continue;
                    }
                    static const int lays[] = {kCompact, kTransposed, kStrided, kReversed, kBroadcast};
                    one(net, {M, K, N}, ka, kb, lays[salt % 5], lays[salt / 5 % 5], 0, limits[li], salt);
                    ++salt;
                    for (int vecs = 1; vecs < 4; ++vecs)
                      if ((!(vecs & 1) || M == 1) && (!(vecs & 2) || N == 1) && K)
                        one(net, {M, K, N}, ka, kb, salt % 2 ? kCompact : kStrided, salt % 3 ? kCompact : kReversed, vecs, limits[li], salt);
                  }
                }
        }
      });
    // long and thin ones, where only one side is cut
    vh::unit(fmt::format("skewed/{}", p.c.str()), [=] {
      Net net(p.c);
      int salt = 0;
      const int w = bitsOf(p.c.pub) / 8;
      for (auto d : std::vector<Dims>{{1, 17, 1}, {2, 33, 2}, {1, 40, 3}, {17, 1, 1}, {1, 1, 17}, {9, 1, 8}, {20, 2, 3}, {3, 2, 30}, {16, 1, 16}, {1, 2, 16}, {1, 16, 1}})
        for (char ka : p.kinds)
          for (char kb : p.kinds)
            for (int n : {1, 2, 3, 5, 8, 13, 20, 40, 80}) {
              if (p.kinds.size() > 2 && (ka == 'w' || kb == 'w') && n > 5) continue;
              one(net, d, ka, kb, salt % 4, salt / 4 % 4, 0, size_t(n) * w * 2, salt);
              ++salt;
            }
    });
  }
}
