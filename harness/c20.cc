// C20: structural and indexing operations move exactly the right elements.
#define USE_REF2K
#define USE_SEMI2K
#define USE_ABY3
#include "hn.h"

#include "libspu/kernel/hlo/casting.h"
#include "libspu/kernel/hlo/const.h"
#include "libspu/kernel/hlo/geometrical.h"
#include "libspu/kernel/hlo/indexing.h"
#include "libspu/kernel/hal/shape_ops.h"
using namespace vn;
namespace hlo = spu::kernel::hlo;
namespace hal = spu::kernel::hal;
using spu::Axes;
using spu::Index;
using spu::Sizes;
using spu::Strides;

namespace {
Index ix(const Ix& v) { return Index(v.begin(), v.end()); }
Sizes sz(const Ix& v) { return Sizes(v.begin(), v.end()); }
Strides st(const Ix& v) { return Strides(v.begin(), v.end()); }
Axes ax(const Ix& v) { return Axes(v.begin(), v.end()); }
Shape shp(const Ix& v) { return Shape(v.begin(), v.end()); }
const std::vector<Shape> kShapes = {{}, {1}, {3}, {0}, {2, 3}, {3, 1}, {1, 2}, {2, 0}, {2, 1, 3}, {1, 3, 2}};

// Every operation on one operand, in every layout, visibility and as complex.
template <class F, class R>
void unary(Net& net, const std::string& what, const Shape& s, F fn, R ref) {
  for (char k : kindsOf(net.conf))
    for (int lay : {kCompact, kStrided, kReversed, kTransposed}) {
      In a{k, spu::DT_I32, T::iota(s), lay, {}};
      auto w = fmt::format("{} [{}] {} {}", what, k, s, layoutName(lay));
      auto o = exec(net, w, {a}, [&](SPUContext* c, auto& v) { return std::vector<Value>{fn(c, v[0])}; });
      expectT(net, w, o[0], ref(a.t), spu::DT_I32);
    }
  // complex: both parts move
  In z{net.conf.name == "ref2k" ? 's' : 'a', spu::DT_F32, T::iota(s), kStrided, T::iota(s, -1000, 3).v};
  auto o = exec(net, what + " complex", {z}, [&](SPUContext* c, auto& v) { return std::vector<Value>{fn(c, v[0])}; });
  expectT(net, what + " complex", o[0], ref(z.t), spu::DT_F32);
  auto im = ref(T{s, z.im});
  VH_CHECK(o[0].im == im.v, "{} {}: imaginary part", net.conf.str(), what);
}

void geometrical(const Conf& c) {
  auto nm = c.str();
  vh::unit("slice/" + nm, [=] {
    Net net(c);
    for (auto& s : std::vector<Shape>{{1}, {4}, {0}, {2, 3}, {3, 1}, {2, 2, 2}}) {
      std::vector<std::vector<int64_t>> dom;
      std::vector<std::array<int64_t, 3>> per;  // start, end, stride
      std::vector<std::vector<std::array<int64_t, 3>>> all;
      for (auto d : s) {
        per.clear();
        for (int64_t a = 0; a <= d; ++a)
          for (int64_t b = a; b <= d; ++b)
            for (int64_t q = 1; q <= 3; ++q) {
              if (q > 1 && b - a < 2) continue;
              if (s.size() > 2 && (q > 2 || (q == 2 && a))) continue;
              per.push_back({a, b, q});
            }
        all.push_back(per);
      }
      std::vector<std::vector<int64_t>> id;
      for (auto& p : all) id.push_back(rangeOf(0, static_cast<int64_t>(p.size()) - 1));
      for (auto& t : tuples(id)) {
        Ix a, b, q, n;
        for (size_t d = 0; d < t.size(); ++d) {
          auto [x, y, z] = all[d][t[d]];
          a.push_back(x);
          b.push_back(y);
          q.push_back(z);
          n.push_back((y - x + z - 1) / z);
        }
        unary(net, fmt::format("Slice {} {} {}", a, b, q), s,
              [&](SPUContext* cx, const Value& v) { return hlo::Slice(cx, v, ix(a), ix(b), st(q)); },
              [&](const T& x) {
                return T::make(shp(n), [&](const Ix& i) {
                  Ix j(i);
                  for (size_t d = 0; d < j.size(); ++d) j[d] = a[d] + i[d] * q[d];
                  return x.at(j);
                });
              });
      }
    }
  });
  vh::unit("axes/" + nm, [=] {
    Net net(c);
    for (auto& s : kShapes) {
      // transpose, reverse, reshape, broadcast
      Ix p = rangeOf(0, static_cast<int64_t>(s.size()) - 1);
      do {
        unary(net, fmt::format("Transpose {}", p), s,
              [&](SPUContext* cx, const Value& v) { return hlo::Transpose(cx, v, ax(p)); },
              [&](const T& x) {
                Ix n;
                for (auto d : p) n.push_back(s[d]);
                return T::make(shp(n), [&](const Ix& i) {
                  Ix j(i.size());
                  for (size_t d = 0; d < i.size(); ++d) j[p[d]] = i[d];
                  return x.at(j);
                });
              });
      } while (std::next_permutation(p.begin(), p.end()));
      for (unsigned m = 0; m < (1u << s.size()); ++m) {
        Ix d;
        for (size_t i = 0; i < s.size(); ++i)
          if (m >> i & 1) d.push_back(i);
        unary(net, fmt::format("Reverse {}", d), s,
              [&](SPUContext* cx, const Value& v) { return hlo::Reverse(cx, v, ax(d)); },
              [&](const T& x) {
                return T::make(s, [&](const Ix& i) {
                  Ix j(i);
                  for (auto q : d) j[q] = s[q] - 1 - i[q];
                  return x.at(j);
                });
              });
      }
      for (auto& to : std::vector<Shape>{{}, {1}, {3}, {6}, {2, 3}, {3, 2}, {1, 6}, {6, 1}, {3, 1, 2}, {1, 1}, {0}, {2, 0}, {1, 3}, {3, 1}}) {
        if (to.numel() != s.numel()) continue;
        unary(net, fmt::format("Reshape to {}", to), s,
              [&](SPUContext* cx, const Value& v) { return hlo::Reshape(cx, v, to); },
              [&](const T& x) { return T{to, x.v}; });
      }
      for (auto& to : std::vector<Shape>{{}, {1}, {3}, {2, 3}, {3, 2}, {2, 3, 2}, {1, 2, 3}, {3, 3, 3}, {2, 1, 3}, {2, 0}, {0}}) {
        if (to.size() < s.size()) continue;
        // every strictly increasing choice of target axes
        for (unsigned m = 0; m < (1u << to.size()); ++m) {
          if (__builtin_popcount(m) != static_cast<int>(s.size())) continue;
          Ix d;
          bool ok = true;
          for (size_t i = 0; i < to.size(); ++i)
            if (m >> i & 1) d.push_back(i);
          for (size_t i = 0; i < d.size(); ++i) ok &= s[i] == to[d[i]] || s[i] == 1;
          if (!ok) continue;
          unary(net, fmt::format("Broadcast to {} at {}", to, d), s,
                [&](SPUContext* cx, const Value& v) { return hlo::Broadcast(cx, v, to, ax(d)); },
                [&](const T& x) {
                  return T::make(to, [&](const Ix& i) {
                    Ix j;
                    for (size_t q = 0; q < d.size(); ++q) j.push_back(s[q] == 1 ? 0 : i[d[q]]);
                    return x.at(j);
                  });
                });
        }
      }
    }
  });
  vh::unit("pad/" + nm, [=] {
    Net net(c);
    std::string ks = kindsOf(c);
    for (auto& s : std::vector<Shape>{{1}, {3}, {0}, {2, 2}, {1, 3}})
      for (auto& t : tuples(std::vector<std::vector<int64_t>>(s.size(), rangeOf(0, s.size() == 1 ? 26 : 11)))) {
        Ix lo, hi, in, n;
        for (size_t d = 0; d < t.size(); ++d) {
          lo.push_back(t[d] % 3);
          hi.push_back(t[d] / 3 % 3);
          in.push_back(t[d] / 9);
          if (s.size() == 1) {
            lo.back() -= 1;
            hi.back() -= 1;
          }
          n.push_back(lo[d] + hi[d] + s[d] + std::max<int64_t>(0, s[d] - 1) * in[d]);
        }
        bool ok = true;
        for (auto x : n) ok &= x >= 0;
        // edge padding may only remove what is there
        if (!ok) continue;
        bool neg = std::any_of(lo.begin(), lo.end(), [](auto x) { return x < 0; }) ||
                   std::any_of(hi.begin(), hi.end(), [](auto x) { return x < 0; });
        if (neg) continue;
        for (char k : ks)
          for (char q : ks) {
            In a{k, spu::DT_I32, T::iota(s), kStrided, {}}, b{q, spu::DT_I32, T{{}, {-5}}, kCompact, {}};
            auto w = fmt::format("Pad [{}{}] {} {} {} {}", k, q, s, lo, hi, in);
            auto o = exec(net, w, {a, b}, [&](SPUContext* cx, auto& v) {
              return std::vector<Value>{hlo::Pad(cx, v[0], v[1], sz(lo), sz(hi), sz(in))};
            });
            auto want = T::make(shp(n), [&](const Ix&) { return -5; });
            eachIx(s, [&](const Ix& i) {
              Ix j(i);
              for (size_t d = 0; d < i.size(); ++d) j[d] = lo[d] + i[d] * (in[d] + 1);
              want.at(j) = a.t.at(i);
            });
            expectT(net, w, o[0], want, spu::DT_I32);
          }
      }
  });
  vh::unit("concat/" + nm, [=] {
    Net net(c);
    std::string ks = kindsOf(c);
    for (auto& base : std::vector<Shape>{{2}, {2, 3}, {1, 2, 2}})
      for (int64_t axis = 0; axis < static_cast<int64_t>(base.size()); ++axis)
        for (int count = 1; count <= 3; ++count)
          for (auto& t : tuples(std::vector<std::vector<int64_t>>(count, rangeOf(0, static_cast<int64_t>(ks.size()) * 3 - 1)))) {
            if (count == 3 && (t[0] + t[1] * 2 + t[2]) % 5 != 0 && !vh::thorough()) continue;
            std::vector<In> in;
            int64_t total = 0;
            std::string w = fmt::format("Concatenate axis {}", axis);
            for (int i = 0; i < count; ++i) {
              Shape s = base;
              s[axis] = t[i] % 3;
              in.push_back({ks[t[i] / 3], spu::DT_I32, T::iota(s, 100 * i), i % 2 ? kStrided : kReversed, {}});
              total += s[axis];
              w += fmt::format(" {}{}", in.back().kind, s);
            }
            auto o = exec(net, w, in, [&](SPUContext* cx, auto& v) {
              return std::vector<Value>{hlo::Concatenate(cx, v, axis)};
            });
            Shape n = base;
            n[axis] = total;
            auto want = T::make(n, [&](const Ix& i) {
              Ix j(i);
              for (auto& x : in) {
                if (j[axis] < x.t.shape[axis]) return x.t.at(j);
                j[axis] -= x.t.shape[axis];
              }
              return int64_t(0);
            });
            expectT(net, w, o[0], want, spu::DT_I32);
          }
    // complex
    In x{'p', spu::DT_F32, T::iota({2, 2}), kCompact, T::iota({2, 2}, 5).v}, y{'p', spu::DT_F32, T::iota({1, 2}, 50), kCompact, T::iota({1, 2}, 9).v};
    auto o = exec(net, "Concatenate complex", {x, y}, [&](SPUContext* cx, auto& v) { return std::vector<Value>{hlo::Concatenate(cx, v, 0)}; });
    auto both = [](std::vector<int64_t> a, const std::vector<int64_t>& b) {
      a.insert(a.end(), b.begin(), b.end());
      return a;
    };
    VH_CHECK(o[0].v == both(x.t.v, y.t.v) && o[0].im == both(x.im, y.im), "{}: complex concatenate", c.str());
  });
  vh::unit("linear/" + nm, [=] {
    Net net(c);
    // masks and index lists
    for (int64_t n : {0, 1, 4})
      for (unsigned m = 0; m < (1u << n); ++m) {
        std::vector<uint8_t> mask;
        Ix idx;
        for (int64_t i = 0; i < n; ++i) {
          mask.push_back((m >> i & 1) * (i + 1));
          if (m >> i & 1) idx.push_back(i);
        }
        for (char k : kindsOf(c))
          for (int lay : {kCompact, kStrided, kReversed}) {
            In a{k, spu::DT_I32, T::iota({n}), lay, {}};
            auto w = fmt::format("FilterByMask [{}] {} {}", k, mask, layoutName(lay));
            auto o = exec(net, w, {a}, [&](SPUContext* cx, auto& v) { return std::vector<Value>{hlo::FilterByMask(cx, v[0], mask)}; });
            expectT(net, w, o[0], T::make({static_cast<int64_t>(idx.size())}, [&](const Ix& i) { return a.t.v[idx[i[0]]]; }));
          }
      }
    for (auto& s : std::vector<Shape>{{3}, {1}})
      for (int64_t len = 0; len <= 3; ++len)
        for (auto& t : tuples(std::vector<std::vector<int64_t>>(len, rangeOf(0, s.numel() - 1))))
          for (char k : kindsOf(c))
            for (char q : kindsOf(c)) {
              In a{k, spu::DT_I32, T::iota(s), kStrided, {}}, b{q, spu::DT_I32, T::iota({len}, -50, 3), kReversed, {}};
              auto w = fmt::format("LinearGather/Scatter [{}{}] {} {}", k, q, s, t);
              auto o = exec(net, w, {a, b}, [&](SPUContext* cx, auto& v) {
                auto g = hlo::LinearGather(cx, v[0], ix(t));
                Value into = v[0].clone();
                hlo::LinearScatterInPlace(cx, into, v[1], ix(t));
                return std::vector<Value>{g, into};
              });
              expectT(net, w, o[0], T::make({len}, [&](const Ix& i) { return a.t.v[t[i[0]]]; }));
              auto want = a.t;
              for (int64_t i = 0; i < len; ++i) want.v[t[i]] = b.t.v[i];
              expectT(net, w, o[1], want);
            }
    // iota and constants
    for (int64_t n : {0, 1, 2, 9}) {
      for (auto dt : {spu::DT_I8, spu::DT_I32, spu::DT_I64, spu::DT_U32, spu::DT_F32}) {
        auto o = exec(net, fmt::format("Iota {} {}", int(dt), n), {}, [&](SPUContext* cx, auto&) { return std::vector<Value>{hlo::Iota(cx, dt, n)}; });
        int64_t sc = dt == spu::DT_F32 ? int64_t(1) << c.rc.fxp_fraction_bits : 1;
        expectT(net, "Iota", o[0], T::make({n}, [&](const Ix& i) { return i[0] * sc; }), dt);
      }
      auto o = exec(net, fmt::format("Constant {}", n), {}, [&](SPUContext* cx, auto&) {
        std::vector<int32_t> d;
        for (int64_t i = 0; i < n; ++i) d.push_back(i * -3);
        return std::vector<Value>{hlo::Constant(cx, d, {n}), hlo::Constant(cx, 7, {2, n})};
      });
      expectT(net, "Constant", o[0], T::make({n}, [&](const Ix& i) { return i[0] * -3; }), spu::DT_I32);
      expectT(net, "Constant", o[1], T::make({2, n}, [&](const Ix&) { return 7; }), spu::DT_I32);
    }
  });
}

int64_t clamp(int64_t x, int64_t hi) { return std::max<int64_t>(0, std::min(x, hi)); }

// Start indices by rank: every combination of values, every mix of kinds.
void dynamic(const Conf& c, bool update) {
  std::string ks = kindsOf(c);
  const std::string secret = c.name == "ref2k" ? "s" : "ab";
  for (auto& s : std::vector<Shape>{{4}, {1}, {2, 3}, {3, 2, 2}, {3, 1}})
    vh::unit(fmt::format("{}/{}/{}", update ? "dynamic update" : "dynamic slice", c.str(), s), [=] {
      Net net(c);
      std::vector<std::vector<int64_t>> sizes;
      for (auto d : s) sizes.push_back(rangeOf(1, d));
      std::vector<int64_t> starts = {-5, -1, 0, 1, 2, 9};
      if (s.size() == 3) starts = {-2, 0, 1, 7};
      int n = 0;
      for (auto& size : tuples(sizes))
        for (auto& start : tuples(std::vector<std::vector<int64_t>>(s.size(), starts)))
          for (unsigned pub = 0; pub < (1u << s.size()); ++pub) {
            const bool all_pub = pub + 1 == (1u << s.size());
            if (update && (pub & 1) && !all_pub) continue;  // decided by the first index
            // rotate through the kinds of operand, index type and update
            ++n;
            if (s.size() == 3 && !vh::thorough() && n % 17 != 0 && !(all_pub && n % 3 == 0)) continue;
            if (s.size() == 2 && !vh::thorough() && n % 4 != 0) continue;
            for (size_t oi = 0; oi < ks.size(); ++oi) {
              if (s.size() > 1 && static_cast<int>(oi) != n / 17 % static_cast<int>(ks.size())) continue;
              const auto dt = n % 3 == 0 ? spu::DT_I64 : spu::DT_I32;
              const auto odt = n % 2 == 0 ? spu::DT_I32 : spu::DT_F32;
              std::vector<In> in = {{ks[oi], odt, T::iota(s, 100, -7), n % 2 ? kStrided : kCompact, {}}};
              std::string w = fmt::format("{} [{}] {} size {} start {} public {:b} {}", update ? "DynamicUpdateSlice" : "DynamicSlice",
                                          ks[oi], s, size, start, pub, int(dt));
              if (update)
                in.push_back({ks[n % ks.size()], odt, T::iota(shp(size), -900, 11), n % 2 ? kCompact : kStrided, {}});
              for (size_t d = 0; d < s.size(); ++d)
                in.push_back({(pub >> d & 1) ? 'p' : secret[(n + d) % secret.size()], dt, T{{}, {start[d]}}, kCompact, {}});
              auto o = exec(net, w, in, [&](SPUContext* cx, auto& v) {
                std::vector<Value> at(v.begin() + (update ? 2 : 1), v.end());
                return std::vector<Value>{update ? hlo::DynamicUpdateSlice(cx, v[0], v[1], at)
                                                 : hlo::DynamicSlice(cx, v[0], sz(size), at)};
              });
              Ix from;
              for (size_t d = 0; d < s.size(); ++d) from.push_back(clamp(start[d], s[d] - size[d]));
              auto plus = [&](const Ix& i) {
                Ix j(i);
                for (size_t d = 0; d < i.size(); ++d) j[d] += from[d];
                return j;
              };
              if (update) {
                auto want = in[0].t;
                eachIx(shp(size), [&](const Ix& i) { want.at(plus(i)) = in[1].t.at(i); });
                expectT(net, w, o[0], want, odt);
              } else {
                expectT(net, w, o[0], T::make(shp(size), [&](const Ix& i) { return in[0].t.at(plus(i)); }), odt);
              }
            }
          }
    });
  // a secret result for a secret index
  vh::unit(fmt::format("{}/{}/visibility", update ? "dynamic update" : "dynamic slice", c.str()), [=] {
    if (update) return;
    Net net(c);
    for (char k : ks)
      for (char q : secret) {
        std::vector<In> in = {{k, spu::DT_I32, T::iota({4}), kCompact, {}}, {q, spu::DT_I32, T{{}, {2}}, kCompact, {}}};
        auto o = exec(net, fmt::format("visibility {}{}", k, q), in, [&](SPUContext* cx, auto& v) {
          return std::vector<Value>{hlo::DynamicSlice(cx, v[0], {1}, {v.data() + 1, 1})};
        });
        VH_CHECK(o[0].vis == spu::VIS_SECRET, "{}: a slice at a secret index is not secret", c.str());
      }
  });
}

void updateSlice(const Conf& c) {
  vh::unit("update slice/" + c.str(), [=] {
    Net net(c);
    std::string ks = kindsOf(c);
    for (auto& s : std::vector<Shape>{{3}, {2, 3}, {2, 2, 2}}) {
      std::vector<std::vector<int64_t>> sizes;
      for (auto d : s) sizes.push_back(rangeOf(0, d));
      for (auto& size : tuples(sizes)) {
        std::vector<std::vector<int64_t>> starts;
        for (size_t d = 0; d < s.size(); ++d) starts.push_back(rangeOf(0, s[d] - size[d]));
        for (auto& at : tuples(starts))
          for (char k : ks)
            for (char q : ks) {
              if (s.size() == 3 && q != ks[1] && k != q) continue;
              std::vector<In> in = {{k, spu::DT_I32, T::iota(s), kStrided, {}}, {q, spu::DT_I32, T::iota(shp(size), -77), kReversed, {}}};
              auto w = fmt::format("UpdateSlice [{}{}] {} {} at {}", k, q, s, size, at);
              auto o = exec(net, w, in, [&](SPUContext* cx, auto& v) { return std::vector<Value>{hlo::UpdateSlice(cx, v[0], v[1], ix(at))}; });
              auto want = in[0].t;
              eachIx(shp(size), [&](const Ix& i) {
                Ix j(i);
                for (size_t d = 0; d < i.size(); ++d) j[d] += at[d];
                want.at(j) = in[1].t.at(i);
              });
              expectT(net, w, o[0], want, spu::DT_I32);
            }
      }
    }
  });
}

// Every gather over small operands, against the definition.
void gather(const Conf& c) {
  for (auto& s : std::vector<Shape>{{4}, {2, 3}, {2, 3, 2}})
    vh::unit(fmt::format("gather/{}/{}", c.str(), s), [=] {
      Net net(c);
      std::string ks = kindsOf(c);
      const int r = static_cast<int>(s.size());
      int n = 0;
      // ordered choices of indexed axes
      std::vector<Ix> maps;
      for (unsigned m = 1; m < (1u << r); ++m) {
        Ix p;
        for (int i = 0; i < r; ++i)
          if (m >> i & 1) p.push_back(i);
        do maps.push_back(p);
        while (std::next_permutation(p.begin(), p.end()));
      }
      std::vector<std::vector<int64_t>> szs;
      for (auto d : s) szs.push_back(rangeOf(1, d));
      for (auto& map : maps)
        for (auto& size : tuples(szs))
          for (unsigned col = 0; col < (1u << r); ++col) {
            Ix collapsed, offs;
            bool ok = true;
            for (int i = 0; i < r; ++i)
              if (col >> i & 1) {
                collapsed.push_back(i);
                ok &= size[i] == 1;
              } else {
                offs.push_back(size[i]);
              }
            if (!ok) continue;
            for (int brank = 0; brank <= 2; ++brank) {
              const Ix bshape = brank == 0 ? Ix{} : brank == 1 ? Ix{3} : Ix{2, 2};
              const int orank = brank + static_cast<int>(offs.size());
              for (unsigned om = 0; om < (1u << orank); ++om) {
                if (__builtin_popcount(om) != static_cast<int>(offs.size())) continue;
                Ix odims, rshape(orank);
                for (int i = 0, a = 0, b = 0; i < orank; ++i)
                  if (om >> i & 1) {
                    odims.push_back(i);
                    rshape[i] = offs[a++];
                  } else {
                    rshape[i] = bshape[b++];
                  }
                for (int ivd = 0; ivd <= brank; ++ivd)
                  for (int implicit = 0; implicit < (map.size() == 1 && ivd == brank ? 2 : 1); ++implicit) {
                    ++n;
                    if (r == 3 && !vh::thorough() && n % 23 != 0) continue;
                    Ix ishape(bshape);
                    if (!implicit) ishape.insert(ishape.begin() + ivd, static_cast<int64_t>(map.size()));
                    // indices inside and outside the operand
                    auto idx = T::make(shp(ishape), [&](const Ix& i) {
                      int64_t h = n;
                      for (auto x : i) h = h * 31 + x * 7 + 3;
                      return h % 7 - 2;
                    });
                    hlo::GatherConfig cfg;
                    cfg.sliceSizes = sz(size);
                    cfg.indexVectorDim = ivd;
                    cfg.offsetDims = ax(odims);
                    cfg.collapsedSliceDims = ax(collapsed);
                    cfg.startIndexMap = ax(map);
                    std::vector<In> in = {{ks[n % ks.size()], spu::DT_I32, T::iota(s), n % 3 ? kStrided : kReversed, {}},
                                          {'p', n % 2 ? spu::DT_I64 : spu::DT_I32, idx, n % 5 ? kCompact : kStrided, {}}};
                    const bool cplx = n % 7 == 0 && in[0].kind != 'b';  // both parts must have one type
                    if (cplx) {
                      in[0].dt = spu::DT_F32;
                      in[0].im = T::iota(s, -5000, 13).v;
                    }
                    auto w = fmt::format("Gather {} map {} size {} collapsed {} offset {} ivd {} indices {}{} kind {}", s, map, size,
                                         collapsed, odims, ivd, shp(ishape), implicit ? " implicit" : "", in[0].kind);
                    auto o = exec(net, w, in, [&](SPUContext* cx, auto& v) { return std::vector<Value>{hlo::Gather(cx, v[0], v[1], cfg, shp(rshape))}; });
                    auto ref = [&](const T& x) {
                      return T::make(shp(rshape), [&](const Ix& i) {
                        Ix batch, off;
                        for (int d = 0; d < orank; ++d) (om >> d & 1 ? off : batch).push_back(i[d]);
                        Ix at(r, 0);
                        for (size_t q = 0; q < map.size(); ++q) {
                          Ix j(batch);
                          if (!implicit) j.insert(j.begin() + ivd, q);
                          at[map[q]] = idx.at(j);
                        }
                        for (int d = 0, a = 0; d < r; ++d) {
                          at[d] = clamp(at[d], s[d] - size[d]);
                          if (!(col >> d & 1)) at[d] += off[a++];
                        }
                        return x.at(at);
                      });
                    };
                    expectT(net, w, o[0], ref(in[0].t));
                    if (cplx) VH_CHECK(o[0].im == ref(T{s, in[0].im}).v, "{} {}: imaginary part", c.str(), w);
                  }
              }
            }
          }
    });
}
}  // namespace

void vh_units() {
  for (auto& c : hloConfs({FM64})) {
    geometrical(c);
    dynamic(c, false);
    dynamic(c, true);
    updateSlice(c);
    if (c.npc != 3 || vh::thorough()) gather(c);
  }
  // FM32 cannot hold the 64-bit integers of indices
  for (auto& c : hloConfs({FM128})) {
    if (c.name == "ref2k") continue;
    dynamic(c, false);
    dynamic(c, true);
    if (vh::thorough()) geometrical(c);
  }
}
