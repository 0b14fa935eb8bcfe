// Sorting, top-k, shuffles, permutations and grouping against plain reference
// algorithms.
#define USE_REF2K
#define USE_SEMI2K
#define USE_ABY3
#include "hn.h"

#include "libspu/kernel/hal/constants.h"
#include "libspu/kernel/hal/polymorphic.h"
#include "libspu/kernel/hal/prot_wrapper.h"
#include "libspu/kernel/hlo/basic_binary.h"
#include "libspu/kernel/hlo/group_by_agg.h"
#include "libspu/kernel/hlo/permute.h"
#include "libspu/kernel/hlo/rank.h"
#include "libspu/kernel/hlo/shuffle.h"
#include "libspu/kernel/hlo/sort.h"
using namespace vn;
namespace hal = spu::kernel::hal;
namespace hlo = spu::kernel::hlo;
using Vals = std::vector<Value>;
using namespace spu;  // data types

namespace {
using Dir = hal::SortDirection;
using RC = spu::RuntimeConfig;
const char* mname(RC::SortMethod m) {
  return m == RC::SORT_RADIX ? "radix" : m == RC::SORT_QUICK ? "quick" : m == RC::SORT_NETWORK ? "network" : "default";
}
// All sequences of length n over the alphabet.
std::vector<Ix> seqs(int n, const std::vector<int64_t>& al) { return tuples(std::vector<std::vector<int64_t>>(n, al)); }

// Rows of one tensor.
T rows(const std::vector<Ix>& r) {
  T t{{static_cast<int64_t>(r.size()), r.empty() ? 0 : static_cast<int64_t>(r[0].size())}, {}};
  for (auto& x : r) t.v.insert(t.v.end(), x.begin(), x.end());
  return t;
}

// Checks one sorted group of columns: keys in order, rows preserved, and the
// original order of equal keys if stable.
void checkSorted(const Net& net, const std::string& w, const std::vector<In>& in, const std::vector<Out>& o, int nk, bool asc, bool stable, int axis) {
  const auto& sh = in[0].t.shape;
  const int64_t W = sh[axis];
  for (size_t c = 0; c < in.size(); ++c) {
    VH_CHECK(o[c].shape == sh, "{} {}: shape {} expected {}", net.conf.str(), w, o[c].shape, sh);
    VH_CHECK(o[c].dt == in[c].dt, "{} {}: data type of operand {}", net.conf.str(), w, c);
  }
  Shape outer = sh;
  outer[axis] = 1;
  eachIx(outer, [&](const Ix& base) {
    std::vector<Ix> a, b;
    for (int64_t i = 0; i < W; ++i) {
      Ix ix = base;
      ix[axis] = i;
      Ix ra, rb;
      for (size_t c = 0; c < in.size(); ++c) {
        ra.push_back(in[c].t.at(ix));
        rb.push_back(o[c].v[in[c].t.lin(ix)]);
      }
      a.push_back(ra);
      b.push_back(rb);
    }
    auto less = [&](const Ix& x, const Ix& y) {
      for (int k = 0; k < nk; ++k)
        if (x[k] != y[k]) return asc ? x[k] < y[k] : x[k] > y[k];
      return false;
    };
    std::string str;
    if (true) {
      for (auto& x : a) str += fmt::format("{} ", fmt::join(x, ","));
      str += "-> ";
      for (auto& x : b) str += fmt::format("{} ", fmt::join(x, ","));
    }
    for (int64_t i = 0; i + 1 < W; ++i) VH_CHECK(!less(b[i + 1], b[i]), "{} {}: not in order: {}", net.conf.str(), w, str);
    if (stable) {
      std::stable_sort(a.begin(), a.end(), less);
      VH_CHECK(a == b, "{} {}: not stable: {}", net.conf.str(), w, str);
    }
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    VH_CHECK(a == b, "{} {}: rows were not preserved: {}", net.conf.str(), w, str);
  });
}

struct Variant {
  RC::SortMethod m;
  int64_t threshold;
};
std::vector<Conf> confs(std::vector<FieldType> fs) {
  auto r = hloConfs(fs);
  if (!vh::thorough()) r.push_back(fullConf(semi2k(3, FM64)));
  return r;
}
bool perms(const Conf& c) { return c.name.rfind("ref2k", 0) != 0; }

void simpleSort(const Conf& base, Variant va) {
  Conf c = base;
  c.rc.sort_method = va.m;
  c.rc.quick_sort_threshold = va.threshold;
  const std::string tag = fmt::format("{}{}/{}", mname(va.m), va.m == RC::SORT_QUICK ? fmt::format("{}", va.threshold) : "", c.str());
  const bool quick_net = va.m == RC::SORT_QUICK || va.m == RC::SORT_NETWORK;
  // every sequence of zeros and ones (which decides a data oblivious network)
  // and of three values, with an index as payload
  vh::unit("sequences/" + tag, [=] {
    Net net(c);
    size_t n = 0;
    for (int len = 1; len <= (vh::thorough() ? 9 : quick_net ? 7 : 6); ++len) {
      auto rs = seqs(len, {0, 1});
      if (len <= 3) rs = seqs(len, {-1, 0, 2});
      if (len == 4 && vh::thorough()) rs = seqs(len, {-1, 0, 2});
      // chunks of rows
      for (size_t b = 0; b < rs.size(); b += 16) {
        std::vector<Ix> part(rs.begin() + b, rs.begin() + std::min(rs.size(), b + 16));
        ++n;
        In key{perms(c) ? (n % 2 ? 'a' : 'b') : 's', n % 3 ? DT_I32 : DT_I8, rows(part), n % 2 ? kCompact : kStrided, {}};
        In pay{n % 3 == 1 ? 'p' : n % 3 == 2 ? 'v' : perms(c) ? 'a' : 's', DT_I32, T::iota(key.t.shape), kCompact, {}};
        const bool asc = n % 2;
        auto w = fmt::format("sort {} chunk {} {}{}", len, b, asc ? "ascending" : "descending", pay.kind);
        auto o = exec(net, w, {key, pay}, [&](SPUContext* cx, auto& v) {
          return hlo::SimpleSort(cx, v, 1, asc ? Dir::Ascending : Dir::Descending, 1);
        });
        checkSorted(net, w, {key, pay}, o, 1, asc, false, 1);
        if (vh::timeUp()) return;
      }
    }
  });
  // key kinds, number of keys, payload kinds, data types, stability, hints
  vh::unit("keys/" + tag, [=] {
    Net net(c);
    const auto ks = kindsOf(c);
    std::vector<std::string> combos;
    for (char a : ks) combos.push_back({a});
    for (char a : ks)
      for (char b : ks) combos.push_back({a, b});
    for (char a : ks)
      for (char b : ks)
        for (char d : ks)
          if (vh::thorough() || (combos.size() % 3 == 0) || (a != 'b' && b != 'b' && d != 'b' && (a == b || b == d))) combos.push_back({a, b, d});
          else combos.push_back("");
    size_t n = 0;
    const int64_t one = int64_t(1) << c.rc.fxp_fraction_bits;
    for (auto& cb : combos) {
      if (cb.empty()) continue;
      for (int mode = 0; mode < (cb.size() == 1 ? 8 : cb.size() == 2 || (cb[0] == 'a' && cb[2] == 'a' && cb[1] != 'a') ? 2 : 1); ++mode) {
        ++n;
        const bool asc = (n + mode / 4) % 2;
        const bool all_pub = cb.find_first_not_of('p') == std::string::npos;
        const bool stable = (n % 3 == 0) && (perms(c) || all_pub);
        // data types and their values
        std::vector<In> in;
        int64_t vb = -1;
        for (size_t k = 0; k < cb.size(); ++k) {
          In x;
          x.kind = cb[k];
          std::vector<int64_t> al;
          switch ((n + k + mode) % 5) {
            case 0: x.dt = DT_I32, al = {-5, 3, 100, -70000}; break;
            case 1: x.dt = DT_U8, al = {0, 200, 7, 127}; break;
            case 2: x.dt = DT_F32, al = {one, -one, one / 3, 0}; break;
            case 3: x.dt = DT_I8, al = {-128, 127, 0, -1}; break;
            default: x.dt = DT_U32, al = {0, 1, 70000, 5}; break;
          }
          if (mode == 1 || (cb.size() > 1 && n % 4 == 0)) {  // hint: numbers of 8 bits
            vb = 8;
            if (n / 4 % 2 || cb.size() == 3) x.dt = DT_U8, al = {0, 200, 7, 128}; else x.dt = DT_I8, al = {-128, 127, 3, -1};
          }
          // 8 rows of 6: all patterns of ties that matter
          x.t.shape = {3, 6};
          for (int64_t i = 0; i < 18; ++i) x.t.v.push_back(al[(i * (3 + 2 * k) / (k + 1) + i / 4 + k + mode) % (i < 6 ? 2 : i < 12 ? 4 : 3)]);
          x.layout = (n + k) % 3;
          in.push_back(x);
        }
        if (vb > 0)  // one common signedness
          for (auto& x : in) VH_CHECK(x.dt == in[0].dt, "harness");
        for (int p = 0; p < static_cast<int>(n % 3); ++p) {
          In x;
          x.kind = ks[(n / 3 + p) % ks.size()];
          x.dt = p ? DT_F32 : DT_I32;
          x.t = T::iota({3, 6}, 1000 * p, p ? -3 : 7);
          in.push_back(x);
        }
        auto w = fmt::format("keys {} mode {} {}{} payloads {} bits {}", cb, mode, asc ? "ascending" : "descending", stable ? " stable" : "", in.size() - cb.size(), vb);
        auto o = exec(net, w, in, [&](SPUContext* cx, auto& v) {
          return hlo::SimpleSort(cx, v, 1, asc ? Dir::Ascending : Dir::Descending, cb.size(), vb, stable);
        });
        checkSorted(net, w, in, o, cb.size(), asc, stable, 1);
        if (vh::timeUp()) return;
      }
    }
  });
  // extreme keys, full words, and every axis
  vh::unit("extremes/" + tag, [=] {
    Net net(c);
    const int k = bitsOf(c.rc.field) == 32 ? 32 : 64;
    const int64_t big = k == 32 ? (1 << 30) - 1 : (int64_t(1) << 62) - 1;
    for (char kd : kindsOf(c))
      for (bool asc : {true, false}) {
        In key{kd, k == 32 ? DT_I32 : DT_I64, T{{9}, {big, -big, 0, -1, 1, big - 1, -big / 2, big / 3, -big}}, kCompact, {}};
        In pay{'p', DT_I32, T::iota({9}), kCompact, {}};
        auto w = fmt::format("extreme keys {} {}", kd, asc);
        auto o = exec(net, w, {key, pay}, [&](SPUContext* cx, auto& v) { return hlo::SimpleSort(cx, v, 0, asc ? Dir::Ascending : Dir::Descending, 1); });
        checkSorted(net, w, {key, pay}, o, 1, asc, false, 0);
        if (k == 64 || true) {
          In uk{kd, k == 32 ? DT_U32 : DT_U64, T{{6}, {big, 0, 1, big - 1, big / 3, 1}}, kCompact, {}};
          pay.t = T::iota({6});
          w = fmt::format("extreme unsigned keys {} {}", kd, asc);
          auto o2 = exec(net, w, {uk, pay}, [&](SPUContext* cx, auto& v) { return hlo::SimpleSort(cx, v, 0, asc ? Dir::Ascending : Dir::Descending, 1); });
          checkSorted(net, w, {uk, pay}, o2, 1, asc, false, 0);
        }
      }
    for (auto& sh : std::vector<Shape>{{3, 2, 2}, {1, 4}, {4, 1}, {5}, {1}, {0}, {0, 3}, {3, 0}, {2, 3, 1}})
      for (int axis = 0; axis < static_cast<int>(sh.size()); ++axis) {
        In key{perms(c) ? 'a' : 's', DT_I32, T::make(sh, [&](const Ix& ix) { int64_t h = 3; for (auto q : ix) h = h * 7 + q * 5; return h % 4; }), kStrided, {}};
        In pay{'p', DT_I32, T::iota(sh), kReversed, {}};
        auto w = fmt::format("sort axis {} of {}", axis, sh);
        auto o = exec(net, w, {key, pay}, [&](SPUContext* cx, auto& v) { return hlo::SimpleSort(cx, v, axis, Dir::Ascending, 1); });
        checkSorted(net, w, {key, pay}, o, 1, true, false, axis);
      }
  });
  // longer vectors: sizes around powers of two, worst cases of the partition
  vh::unit("lengths/" + tag, [=] {
    Net net(c);
    for (int64_t len : {8, 9, 15, 16, 17, 31, 33, 40})
      for (int pat = 0; pat < 4; ++pat) {
        if (!vh::thorough() && len > 17 && pat > 1) continue;
        T t{{len}, {}};
        for (int64_t i = 0; i < len; ++i) t.v.push_back(pat == 0 ? i : pat == 1 ? len - i : pat == 2 ? 5 : (i * 37 + 11) % 13);
        In key{perms(c) ? 'a' : 's', DT_I8, t, kCompact, {}}, pay{'p', DT_I32, T::iota({len}), kCompact, {}};
        auto w = fmt::format("sort {} pattern {}", len, pat);
        auto o = exec(net, w, {key, pay}, [&](SPUContext* cx, auto& v) { return hlo::SimpleSort(cx, v, 0, Dir::Ascending, 1, 8); });
        checkSorted(net, w, {key, pay}, o, 1, true, false, 0);
        if (vh::timeUp()) return;
      }
  });
  // all shuffles of three elements, all random comparison bits
  // (radix sort, the default, shuffles once per two bits of the key)
  const bool radix = va.m == RC::SORT_RADIX;
  if (perms(c) && va.m != RC::SORT_DEFAULT && va.m != RC::SORT_NETWORK && (vh::thorough() || c.npc == 2 || !radix))
    vh::unit("shuffles/" + tag, [=] {
      for (auto& seq : std::vector<Ix>{{2, 1, 1}, {1, 1, 1}, {3, 2, 1}, {1, 2, 1}}) {
        vmc::Explorer ex;
        ex.bound = vh::thorough() ? 3 : radix ? 1 : 2;
        ex.explore([&] {
          venv::resetRandom();
          std::map<std::tuple<U, uint64_t>, uint64_t> memo;
          venv::g_draw = [&](const venv::Draw& d) {
            if (d.type != 60) return false;  // only the draws of permutations
            auto key = std::make_tuple(d.seed, d.ctr);
            auto it = memo.find(key);
            if (it == memo.end()) it = memo.emplace(key, vmc::choose(3, "shuffle")).first;
            std::memset(d.out, 0, d.n);
            std::memcpy(d.out, &it->second, std::min<size_t>(8, d.n));
            return true;
          };
          Net net(c);
          In key{'a', DT_I8, T{{3}, seq}, kCompact, {}}, pay{'a', DT_I32, T::iota({3}), kCompact, {}};
          auto w = fmt::format("sort {} shuffled", fmt::join(seq, ","));
          auto o = exec(net, w, {key, pay}, [&](SPUContext* cx, auto& v) { return hlo::SimpleSort(cx, v, 0, Dir::Ascending, 1, 4); });
          venv::g_draw = nullptr;
          checkSorted(net, w, {key, pay}, o, 1, true, false, 0);
          return !vh::timeUp();
        });
        vh::add("schedules", ex.execs);
      }
    });
}

// Comparator sorts.
void compSort(const Conf& c) {
  vh::unit("comparator/" + c.str(), [=] {
    Net net(c);
    size_t n = 0;
    for (char kd : kindsOf(c))
      for (int which = 0; which < 3; ++which)
        for (int axis : {0, 1}) {
          ++n;
          In a{kd, DT_I32, T::make({4, 5}, [&](const Ix& x) { return (x[0] * 7 + x[1] * 3 + which) % 5 - 2; }), kCompact, {}};
          In b{kd, DT_I32, T::make({4, 5}, [&](const Ix& x) { return (x[0] * 5 + x[1] * x[1]) % 3; }), kStrided, {}};
          In p{kindsOf(c)[n % 4], DT_I32, T::iota({4, 5}), kCompact, {}};
          for (bool stable : {false, true}) {
            const bool pub = kd == 'p';
            if (stable && !pub) continue;
            auto w = fmt::format("comparator {} {} axis {}{}", which, kd, axis, stable ? " stable" : "");
            std::vector<In> in = {a, b, p};
            auto o = exec(net, w, in, [&](SPUContext* cx, auto& v) {
              return hlo::Sort(cx, v, axis, stable, [&](absl::Span<const Value> x) {
                switch (which) {
                  case 0: return hlo::Less(cx, x[0], x[1]);
                  case 1: return hlo::Greater(cx, x[2], x[3]);
                  default: return hlo::Less(cx, hlo::Add(cx, x[0], x[2]), hlo::Add(cx, x[1], x[3]));
                }
              }, pub ? VIS_PUBLIC : VIS_SECRET);
            });
            // bring the sort key to the front
            In key = which == 1 ? b : a;
            Out ok = which == 1 ? o[1] : o[0];
            if (which == 2)
              for (size_t i = 0; i < key.t.v.size(); ++i) key.t.v[i] = a.t.v[i] + b.t.v[i], ok.v[i] = o[0].v[i] + o[1].v[i];
            checkSorted(net, w, {key, a, b, p}, {ok, o[0], o[1], o[2]}, 1, which != 1, stable, axis);
          }
        }
  });
}

void topk(const Conf& c) {
  vh::unit("topk/" + c.str(), [=] {
    Net net(c);
    const auto ks = kindsOf(c);
    size_t n = 0;
    const int64_t one = int64_t(1) << c.rc.fxp_fraction_bits;
    for (int len = 1; len <= (vh::thorough() ? 6 : 5); ++len)
      for (int lo = 1; lo <= len; ++lo)
        for (int hi = -1; hi <= len; ++hi) {
          if (hi != -1 && hi < lo) continue;
          for (bool largest : {true, false})
            for (bool vo : {true, false}) {
              ++n;
              const char kd = ks[n % ks.size()];
              // a tensor of rows
              std::vector<Ix> rs;
              auto all = len <= 3 ? seqs(len, {-1, 0, 2}) : seqs(len, {0, 3});
              for (size_t i = 0; i < 8; ++i) rs.push_back(all[(i * 7 + n * 3) % all.size()]);
              In x{kd, n % 3 == 2 ? DT_F32 : DT_I32, rows(rs), n % 2 ? kCompact : kStrided, {}};
              if (x.dt == DT_F32) for (auto& q : x.t.v) q *= one / 2;
              if (n % 4 == 0) x.t.shape = {2, 4, len};
              auto w = fmt::format("topk {} of {} lo {} hi {} largest {} value only {}", kd, x.t.shape, lo, hi, largest, vo);
              auto o = exec(net, w, {x}, [&](SPUContext* cx, auto& v) { return hlo::TopK(cx, v[0], lo, hi, largest, vo); });
              const int64_t K = hi == -1 ? lo : hi;
              VH_CHECK(o.size() == (vo ? 1u : 2u), "{} {}: {} results", c.str(), w, o.size());
              Shape sh = x.t.shape;
              sh.back() = K;
              for (auto& y : o) VH_CHECK(y.shape == sh, "{} {}: shape {}", c.str(), w, y.shape);
              VH_CHECK(o[0].dt == x.dt, "{} {}: data type", c.str(), w);
              for (int64_t r = 0; r < 8; ++r) {
                Ix row(x.t.v.begin() + r * len, x.t.v.begin() + (r + 1) * len), want = row;
                std::sort(want.begin(), want.end());
                if (largest) std::reverse(want.begin(), want.end());
                Ix got(o[0].v.begin() + r * K, o[0].v.begin() + (r + 1) * K);
                Ix g1(got.begin(), got.begin() + lo), w1(want.begin(), want.begin() + lo);
                VH_CHECK(got[lo - 1] == want[lo - 1] || lo == K, "{} {}: element {} of {} is {}", c.str(), w, lo, fmt::join(row, ","), fmt::join(got, ","));
                std::sort(g1.begin(), g1.end());
                std::sort(w1.begin(), w1.end());
                VH_CHECK(g1 == w1, "{} {}: first {} of {} are {}", c.str(), w, lo, fmt::join(row, ","), fmt::join(got, ","));
                auto gs = got;
                Ix w2(want.begin(), want.begin() + K);
                std::sort(gs.begin(), gs.end());
                std::sort(w2.begin(), w2.end());
                VH_CHECK(gs == w2, "{} {}: of {} are {}", c.str(), w, fmt::join(row, ","), fmt::join(got, ","));
                if (!vo) {
                  std::set<int64_t> seen;
                  for (int64_t i = 0; i < K; ++i) {
                    int64_t id = o[1].v[r * K + i];
                    VH_CHECK(id >= 0 && id < len && seen.insert(id).second && row[id] == got[i], "{} {}: of {} are {} at wrong index {}", c.str(), w, fmt::join(row, ","), fmt::join(got, ","), id);
                  }
                }
              }
              if (vh::timeUp()) return;
            }
        }
  });
}

void permutations(const Conf& c) {
  if (!perms(c)) return;
  vh::unit("permute/" + c.str(), [=] {
    Net net(c);
    const std::string ks = "pabvw";
    size_t n = 0;
    for (int len = 1; len <= (vh::thorough() ? 5 : 4); ++len) {
      Ix p(len);
      std::iota(p.begin(), p.end(), 0);
      size_t np = 0;
      do {
        ++np;
        for (char kp : ks)
          for (char kx : ks) {
            ++n;
            if (!vh::thorough() && len == 4 && (np + n) % 4) continue;
            In perm{kp, n % 2 ? DT_I32 : c.rc.field == FM32 ? DT_I32 : DT_I64, T{{len}, p}, n % 2 ? kCompact : kStrided, {}};
            const int axis = n % 2;
            Shape sh = axis ? Shape{2, len} : Shape{len, 2};
            In x{kx, DT_I32, T::iota(sh), n % 3 ? kCompact : kReversed, {}}, y{kx, DT_F32, T::iota(sh, -50, 9), kCompact, {}};
            auto w = fmt::format("permute {} by {} ({}) axis {}", kx, kp, fmt::join(p, ","), axis);
            auto o = exec(net, w, {x, y, perm}, [&](SPUContext* cx, auto& v) {
              Vals in = {v[0], v[1]};
              auto a = hlo::Permute(cx, in, v[2], axis), b = hlo::InvPermute(cx, in, v[2], axis);
              a.insert(a.end(), b.begin(), b.end());
              return a;
            });
            auto inv = p;
            for (int i = 0; i < len; ++i) inv[p[i]] = i;
            auto by = [&](const T& t, const Ix& q) {
              return T::make(sh, [&](Ix ix) {
                ix[axis] = q[ix[axis]];
                return t.at(ix);
              });
            };
            expectT(net, w, o[0], by(x.t, p), DT_I32);
            expectT(net, w, o[1], by(y.t, p), DT_F32);
            expectT(net, w + " inverse", o[2], by(x.t, inv), DT_I32);
            expectT(net, w + " inverse", o[3], by(y.t, inv), DT_F32);
            if (vh::timeUp()) return;
          }
      } while (std::next_permutation(p.begin(), p.end()));
    }
  });
  vh::unit("secret permutation/" + c.str(), [=] {
    Net net(c);
    for (int stream = 0; stream < 6; ++stream)
      for (int64_t len : {1, 2, 3, 5, 8, 17})
        for (char k : {'a', 'b'}) {
          venv::resetRandom(stream);
          In x{k, DT_I32, T::iota({len}), stream % 2 ? kCompact : kStrided, {}};
          auto w = fmt::format("secret permutation of {} {} stream {}", len, k, stream);
          auto o = exec(net, w, {x}, [&](SPUContext* cx, auto& v) {
            auto r = hal::_rand_perm_s(cx, {len});
            auto s = hal::_perm_ss(cx, v[0], r), u = hal::_inv_perm_ss(cx, v[0], r);
            return Vals{s, hal::_inv_perm_ss(cx, s, r), hal::_perm_ss(cx, u, r), hal::_perm_ss(cx, hal::_p2s(cx, hal::iota(cx, DT_I32, len)), r)};
          });
          T want = x.t;
          for (int64_t i = 0; i < len; ++i) want.v[i] = x.t.v[o[3].v[i]];
          expectT(net, w, o[0], want);
          expectT(net, w + " undone", o[1], x.t);
          expectT(net, w + " redone", o[2], x.t);
          auto s = o[3].v;
          std::sort(s.begin(), s.end());
          for (int64_t i = 0; i < len; ++i) VH_CHECK(s[i] == i, "{} {}: not a permutation", c.str(), w);
        }
  });
}
void shuffle(const Conf& c) {
  vh::unit("shuffle/" + c.str(), [=] {
    Net net(c);
    std::map<Ix, int> seen;
    for (int stream = 0; stream < 40; ++stream)
      for (auto& sh : std::vector<Shape>{{3}, {2, 4}, {5, 2}, {1, 1}, {0}, {6}})
        for (int axis = 0; axis < static_cast<int>(sh.size()); ++axis) {
          if (stream > 6 && sh != Shape{3}) continue;
          venv::resetRandom(stream);
          Net fresh(c);
          // the plaintext protocol starts every context with the same seed
          Net& net1 = perms(c) ? fresh : net;
          const auto ks = kindsOf(c);
          In x{ks[stream % ks.size()], DT_I32, T::iota(sh), kStrided, {}}, y{ks[(stream / 5 + axis) % ks.size()], DT_F32, T::iota(sh, 9, -5), kCompact, {}};
          auto w = fmt::format("shuffle {} axis {} {}{} stream {}", sh, axis, x.kind, y.kind, stream);
          auto o = exec(net1, w, {x, y}, [&](SPUContext* cx, auto& v) { return hlo::Shuffle(cx, v, axis); });
          if (sh.numel() == 0) continue;
          // every line along the axis is a permutation, the same for both
          for (int i : {0, 1}) VH_CHECK(o[i].shape == sh && o[i].dt == (i ? DT_F32 : DT_I32), "{} {}: shape or type", c.str(), w);
          Shape outer = sh;
          outer[axis] = 1;
          eachIx(outer, [&](const Ix& b) {
            Ix pi;
            std::set<int64_t> used;
            for (int64_t i = 0; i < sh[axis]; ++i) {
              Ix q = b;
              q[axis] = i;
              int64_t lin = x.t.lin(q), at = -1;
              for (int64_t j = 0; j < sh[axis]; ++j) {
                Ix z = b;
                z[axis] = j;
                if (x.t.at(z) == o[0].v[lin] && y.t.at(z) == o[1].v[lin]) at = j;
              }
              VH_CHECK(at >= 0 && used.insert(at).second, "{} {}: elements were not preserved", c.str(), w);
              pi.push_back(at);
            }
            if (sh == Shape{3}) seen[pi]++;
          });
        }
    VH_CHECK(seen.size() == 6, "{}: only {} of the 6 permutations occur in 40 shuffles", c.str(), seen.size());
  });
}

void groupBy(const Conf& c) {
  if (!perms(c)) return;
  vh::unit("group by/" + c.str(), [=] {
    Net net(c);
    const int64_t one = int64_t(1) << c.rc.fxp_fraction_bits;
    size_t n = 0;
    for (int len = 1; len <= 4; ++len)
      for (auto& k1 : seqs(len, len == 4 && !vh::thorough() ? Ix{-3, 8} : Ix{-3, 0, 8}))
        for (int nk = 1; nk <= 2; ++nk)
          for (bool avg : {false, true}) {
            ++n;
            if (!vh::thorough() && n % 3 && len > 2) continue;
            const char kk = std::string("pvw")[n % 3];
            const char kp = std::string("pabvw")[n / 3 % 5];
            std::vector<In> in = {In{kk, DT_I32, T{{len}, k1}, n % 2 ? kCompact : kStrided, {}}};
            if (nk == 2) {
              In s{kk, DT_I8, T{{len}, {}}, kCompact, {}};
              for (int i = 0; i < len; ++i) s.t.v.push_back((i + static_cast<int>(n)) % 2 - 1);
              in.push_back(s);
            }
            const size_t npay = 1 + n % 2;
            const bool drop = avg && n % 2;
            for (size_t q = 0; q < npay; ++q) {
              In p{kp, q ? DT_F32 : DT_I32, T::iota({len}, q ? one / 4 : 10, q ? one / 2 : 3), q ? kReversed : kCompact, {}};
              in.push_back(p);
            }
            auto w = fmt::format("group by {} keys {} ({}) payloads {} {}{}", nk, kk, fmt::join(k1, ","), kp, avg ? "average" : "sum", drop ? " drop" : "");
            auto o = exec(net, w, in, [&](SPUContext* cx, auto& v) {
              hlo::GroupByAggOptions opt;
              opt.unsafe_output_order_drop_rest = drop;
              std::vector<int64_t> vb;
              auto s = absl::MakeSpan(v);
              return hlo::GroupByAgg(cx, s.subspan(0, nk), s.subspan(nk), avg ? hlo::AggFunc::Avg : hlo::AggFunc::Sum, absl::MakeSpan(vb), opt);
            });
            std::map<Ix, std::pair<int64_t, Ix>> ref;
            for (int i = 0; i < len; ++i) {
              Ix k;
              for (int q = 0; q < nk; ++q) k.push_back(in[q].t.v[i]);
              auto& r = ref[k];
              r.second.resize(npay);
              r.first++;
              for (size_t q = 0; q < npay; ++q) r.second[q] += in[nk + q].t.v[i];
            }
            VH_CHECK(o.size() == nk + npay, "{} {}: {} results", c.str(), w, o.size());
            const int64_t outlen = drop ? ref.size() : len;
            for (auto& x : o) VH_CHECK(x.shape == Shape{outlen}, "{} {}: shape {}", c.str(), w, x.shape);
            int64_t i = 0;
            for (auto& [k, r] : ref) {
              for (int q = 0; q < nk; ++q) VH_CHECK(o[q].v[i] == k[q] && o[q].dt == in[q].dt, "{} {}: key {} of group {} is {}, expected {}", c.str(), w, q, i, o[q].v[i], k[q]);
              for (size_t q = 0; q < npay; ++q) {
                const auto& g = o[nk + q];
                if (!avg) {
                  VH_CHECK(g.v[i] == r.second[q] && g.dt == in[nk + q].dt, "{} {}: payload {} of group {} is {}, expected {}", c.str(), w, q, i, g.v[i], r.second[q]);
                } else {
                  double want = static_cast<double>(r.second[q]) * (q ? 1.0 : static_cast<double>(one)) / static_cast<double>(r.first);
                  VH_CHECK(std::abs(g.v[i] - want) <= std::abs(want) * 0.001 + 60, "{} {}: average {} of group {} is {}, expected {}", c.str(), w, q, i, g.v[i], want);
                }
              }
              ++i;
            }
            if (vh::timeUp()) return;
          }
  });
}
}  // namespace

void vh_units() {
  for (auto& c : confs({FM64, FM32})) {
    std::vector<Variant> vs = {{RC::SORT_DEFAULT, 32}, {RC::SORT_NETWORK, 32}};
    if (perms(c)) vs = {{RC::SORT_DEFAULT, 32}, {RC::SORT_RADIX, 32}, {RC::SORT_NETWORK, 32}, {RC::SORT_QUICK, 0}, {RC::SORT_QUICK, 1}, {RC::SORT_QUICK, 2}, {RC::SORT_QUICK, 32}};
    if (c.npc == 3 && c.name == "semi2k") vs = {{RC::SORT_RADIX, 32}, {RC::SORT_QUICK, 0}};
    for (auto& v : vs) {
      if (c.rc.field == FM32 && !vh::thorough() && v.m != RC::SORT_RADIX && v.threshold != 2) continue;
      simpleSort(c, v);
    }
    compSort(c);
    topk(c);
    permutations(c);
    shuffle(c);
    groupBy(c);
  }
  for (auto& c : hloConfs({FM128})) {
    if (!perms(c)) continue;
    simpleSort(c, {RC::SORT_RADIX, 32});
    topk(c);
    permutations(c);
    groupBy(c);
  }
}
