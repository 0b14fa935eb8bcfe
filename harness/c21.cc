// Reductions, windows, convolutions, contractions and select-and-scatter over
// all small shapes and parameters, against direct definitions on plain tensors.
#define USE_REF2K
#define USE_SEMI2K
#define USE_ABY3
#include "hn.h"

#include "libspu/kernel/hal/constants.h"
#include "libspu/kernel/hal/polymorphic.h"
#include "libspu/kernel/hal/ring.h"
#include "libspu/kernel/hlo/basic_binary.h"
#include "libspu/kernel/hlo/convolution.h"
#include "libspu/kernel/hlo/reduce.h"
#include "libspu/kernel/hlo/select_and_scatter.h"
using namespace vn;
namespace hal = spu::kernel::hal;
namespace hlo = spu::kernel::hlo;
using spu::Axes;
using spu::Sizes;
using spu::Strides;
using Vals = std::vector<Value>;

namespace {
template <class C>
C to(const std::vector<int64_t>& v) {
  return C(v.begin(), v.end());
}
struct Red {
  const char* name;
  int kind;  // 0 sum, 1 max, 2 min, 3 product
};
const Red kReds[] = {{"sum", 0}, {"max", 1}, {"min", 2}, {"product", 3}};
int64_t app(int k, int64_t a, int64_t b) {
  return k == 0 ? a + b : k == 1 ? std::max(a, b) : k == 2 ? std::min(a, b) : a * b;
}
Value appV(SPUContext* c, int k, const Value& a, const Value& b) {
  return k == 0 ? hal::add(c, a, b) : k == 1 ? hal::max(c, a, b) : k == 2 ? hal::min(c, a, b) : hal::mul(c, a, b);
}
// distinguishes every multiset of elements under each reduction
T valuesFor(int k, const Shape& s, int64_t salt) {
  T t{s, {}};
  int64_t n = s.numel();
  for (int64_t i = 0; i < n; ++i) {
    if (k == 0)
      t.v.push_back(int64_t(1) << (i + 1));
    else if (k == 3)
      t.v.push_back(i % 3 == 2 ? -1 : 1 + (i + salt) % 3);
    else
      t.v.push_back((i * 37 + salt * 11) % 53 - 26);
  }
  return t;
}

void reduces(const Conf& c) {
  const auto ks = kindsOf(c);
  for (auto& red : kReds)
    vh::unit(fmt::format("reduce/{}/{}", c.str(), red.name), [=] {
      Net net(c);
      std::vector<Shape> shapes;
      for (int64_t n = 1; n <= (vh::thorough() ? 19 : 13); ++n) shapes.push_back({n});
      for (auto& t : tuples({rangeOf(1, 3), rangeOf(1, 4)})) shapes.push_back(to<Shape>(t));
      for (auto& t : tuples({rangeOf(1, 2), rangeOf(1, 3), rangeOf(2, 3)})) shapes.push_back(to<Shape>(t));
      shapes.push_back({});
      size_t n = 0;
      for (auto& s : shapes)
        for (unsigned m = 0; m < (1u << s.size()); ++m)
          for (bool rev : {false, true})
            for (bool ignore : {false, true}) {
              std::vector<int64_t> dims;
              for (size_t d = 0; d < s.size(); ++d)
                if (m >> d & 1) dims.push_back(d);
              if (rev) {
                if (dims.size() < 2) continue;
                std::reverse(dims.begin(), dims.end());
              }
              ++n;
              In x{ks[n % ks.size()], spu::DT_I32, valuesFor(red.kind, s, n), n % 3 ? kStrided : kReversed, {}};
              In i{ks[n / 5 % ks.size()], spu::DT_I32, T{{}, {red.kind == 3 ? 5 : red.kind ? int64_t(n % 41) - 20 : 1}}, kCompact, {}};
              auto w = fmt::format("Reduce {} {} dims {} kinds {}{}{}", red.name, s, dims, x.kind, i.kind, ignore ? " without init" : "");
              auto o = exec(net, w, {x, i}, [&](SPUContext* cx, auto& v) {
                return hlo::Reduce(cx, {v.data(), 1}, {v.data() + 1, 1}, to<Axes>(dims),
                                   [&](absl::Span<const Value> a, absl::Span<const Value> b) { return Vals{appV(cx, red.kind, a[0], b[0])}; }, ignore);
              });
              Shape os(s);
              for (auto d : dims) os[d] = 1;
              std::vector<char> seen(os.numel());
              T want{os, std::vector<int64_t>(os.numel())};
              eachIx(s, [&](const Ix& ix) {
                Ix j(ix);
                for (auto d : dims) j[d] = 0;
                auto l = want.lin(j);
                want.v[l] = seen[l] ? app(red.kind, want.v[l], x.t.at(ix)) : x.t.at(ix);
                seen[l] = 1;
              });
              if (!ignore)
                for (auto& e : want.v) e = app(red.kind, e, i.t.v[0]);
              expectT(net, w, o[0], want, spu::DT_I32);
            }
    });
  // several operands: (maximum, sum of a second operand, index of the maximum)
  vh::unit("reduce many/" + c.str(), [=] {
    Net net(c);
    size_t n = 0;
    for (auto& t : tuples({rangeOf(1, 3), rangeOf(1, 5)}))
      for (int axis : {0, 1}) {
        ++n;
        const auto s = to<Shape>(t);
        In x{ks[n % ks.size()], spu::DT_I32, valuesFor(1, s, n), kStrided, {}}, y{ks[n / 2 % ks.size()], spu::DT_I64, valuesFor(0, s, n), kReversed, {}},
            z{'p', spu::DT_I32, T::make(s, [&](const Ix& i) { return i[axis]; }), kCompact, {}};
        In i0{'p', spu::DT_I32, T{{}, {-100}}, kCompact, {}}, i1{'p', spu::DT_I64, T{{}, {1}}, kCompact, {}}, i2{'p', spu::DT_I32, T{{}, {77}}, kCompact, {}};
        auto w = fmt::format("Reduce many {} axis {} kinds {}{}", s, axis, x.kind, y.kind);
        auto o = exec(net, w, {x, y, z, i0, i1, i2}, [&](SPUContext* cx, auto& v) {
          return hlo::Reduce(cx, {v.data(), 3}, {v.data() + 3, 3}, Axes{axis}, [&](absl::Span<const Value> a, absl::Span<const Value> b) {
            auto p = hal::_prefer_a(cx, hal::greater(cx, a[0], b[0]));
            return Vals{hal::select(cx, p, a[0], b[0]), hal::add(cx, a[1], b[1]), hal::select(cx, p, a[2], b[2])};
          });
        });
        Shape os(s);
        os[axis] = 1;
        auto pick = [&](int what) {
          return T::make(os, [&](const Ix& ix) {
            int64_t best = -100, at = 77, sum = 1;
            for (int64_t q = 0; q < s[axis]; ++q) {
              Ix j(ix);
              j[axis] = q;
              if (x.t.at(j) > best) best = x.t.at(j), at = q;
              sum += y.t.at(j);
            }
            return what == 0 ? best : what == 1 ? sum : at;
          });
        };
        expectT(net, w, o[0], pick(0), spu::DT_I32);
        expectT(net, w, o[1], pick(1), spu::DT_I64);
        expectT(net, w, o[2], pick(2), spu::DT_I32);
      }
  });
}

struct Win {
  Shape in, win, out;
  std::vector<int64_t> stride, wdil, bdil;
  std::vector<std::pair<int64_t, int64_t>> pad;
  bool ok = true;
  void finish() {
    for (size_t d = 0; d < in.size(); ++d) {
      int64_t b = (in[d] - 1) * bdil[d] + 1 + pad[d].first + pad[d].second, w = (win[d] - 1) * wdil[d] + 1;
      ok = ok && b >= w;
      out.push_back(b >= w ? (b - w) / stride[d] + 1 : 0);
    }
  }
  // the element of the (dilated, padded) operand under a window, -1: init
  int64_t under(const T& x, const Ix& o, const Ix& wi, int64_t init) const {
    Ix j(in.size());
    for (size_t d = 0; d < in.size(); ++d) {
      int64_t p = o[d] * stride[d] + wi[d] * wdil[d] - pad[d].first;
      if (p < 0 || p % bdil[d] || p / bdil[d] >= in[d]) return init;
      j[d] = p / bdil[d];
    }
    return x.at(j);
  }
  hlo::ReduceWindowConfig cfg() const {
    hlo::ReduceWindowConfig c;
    c.window_shape = win;
    c.window_strides = to<Strides>(stride);
    c.window_dilations = to<Sizes>(wdil);
    c.base_dilations = to<Sizes>(bdil);
    c.window_padding = pad;
    return c;
  }
  std::string str() const { return fmt::format("{} window {} stride {} dilation {} base {} pad {}", in, win, stride, wdil, bdil, pad); }
};
std::vector<Win> windows1() {
  std::vector<Win> r;
  for (auto& t : tuples({rangeOf(1, 5), rangeOf(1, 4), rangeOf(1, 3), rangeOf(1, 2), rangeOf(1, 2), rangeOf(0, 2), rangeOf(0, 2)})) {
    Win w{{t[0]}, {t[1]}, {}, {t[2]}, {t[3]}, {t[4]}, {{t[5], t[6]}}};
    w.finish();
    if (w.ok) r.push_back(w);
  }
  return r;
}
std::vector<Win> windows2() {
  std::vector<Win> r;
  for (auto& t : tuples({{1, 3}, {2, 4}, {1, 2}, {1, 2, 3}, {1, 2}, {1, 3}, {0, 1}, {0, 1}, {1, 2}, {1, 2}})) {
    Win w{{t[0], t[1]}, {t[2], t[3]}, {}, {t[4], t[5]}, {t[8], 1}, {1, t[9]}, {{t[6], t[7]}, {t[7], t[6]}}};
    w.finish();
    if (w.ok) r.push_back(w);
  }
  return r;
}

void windows(const Conf& c) {
  const auto ks = kindsOf(c);
  for (int rank : {1, 2})
    for (auto& red : kReds)
      vh::unit(fmt::format("reduce window/{}/{}/{}", c.str(), red.name, rank), [=] {
        Net net(c);
        size_t n = 0;
        for (auto& win : rank == 1 ? windows1() : windows2()) {
          ++n;
          if (!vh::thorough() && red.kind > 1 && n % 2 != 0) continue;
          In x{ks[n % ks.size()], spu::DT_I32, valuesFor(red.kind, win.in, n), n % 3 ? kStrided : kReversed, {}};
          In i{ks[n / 5 % ks.size()], spu::DT_I32, T{{}, {red.kind == 3 ? 2 : red.kind ? int64_t(n % 41) - 20 : 1}}, kCompact, {}};
          auto w = fmt::format("ReduceWindow {} {} kinds {}{}", red.name, win.str(), x.kind, i.kind);
          auto o = exec(net, w, {x, i}, [&](SPUContext* cx, auto& v) {
            return hlo::ReduceWindow(cx, {v.data(), 1}, {v.data() + 1, 1}, win.out, win.cfg(),
                                     [&](absl::Span<const Value> a, absl::Span<const Value> b) { return Vals{appV(cx, red.kind, a[0], b[0])}; });
          });
          expectT(net, w, o[0], T::make(win.out, [&](const Ix& ix) {
                    int64_t a = i.t.v[0];
                    eachIx(win.win, [&](const Ix& wi) { a = app(red.kind, a, win.under(x.t, ix, wi, i.t.v[0])); });
                    return a;
                  }), spu::DT_I32);
        }
      });
  vh::unit("reduce window without init/" + c.str(), [=] {
    Net net(c);
    size_t n = 0;
    for (auto& win : windows1()) {
      if (win.wdil[0] != 1 || win.bdil[0] != 1 || win.pad[0].first || win.pad[0].second) continue;
      ++n;
      In x{ks[n % ks.size()], spu::DT_I32, valuesFor(0, win.in, n), kStrided, {}}, i{'p', spu::DT_I32, T{{}, {1}}, kCompact, {}};
      auto w = "ReduceWindow without init " + win.str();
      auto o = exec(net, w, {x, i}, [&](SPUContext* cx, auto& v) {
        return hlo::ReduceWindow(cx, {v.data(), 1}, {v.data() + 1, 1}, win.out, win.cfg(),
                                 [&](absl::Span<const Value> a, absl::Span<const Value> b) { return Vals{hal::add(cx, a[0], b[0])}; }, true);
      });
      expectT(net, w, o[0], T::make(win.out, [&](const Ix& ix) {
                int64_t a = 0;
                eachIx(win.win, [&](const Ix& wi) { a += win.under(x.t, ix, wi, 0); });
                return a;
              }));
    }
  });
}

void checkArg(Net& net, const std::string& w, const Win& win, const T& x, const std::vector<Out>& o) {
  const int64_t W = win.win.numel();
  Shape is(win.out);
  is.push_back(W);
  VH_CHECK(o[0].shape == win.out && o[1].shape == is, "{} {}: shapes {} {}", net.conf.str(), w, o[0].shape, o[1].shape);
  size_t l = 0;
  eachIx(win.out, [&](const Ix& ix) {
    std::vector<int64_t> e;
    eachIx(win.win, [&](const Ix& wi) { e.push_back(win.under(x, ix, wi, 0)); });
    int64_t m = *std::max_element(e.begin(), e.end()), hot = 0;
    VH_CHECK(o[0].v[l] == m, "{} {}: maximum {} expected {}", net.conf.str(), w, o[0].v[l], m);
    for (int64_t q = 0; q < W; ++q) {
      auto b = o[1].v[l * W + q];
      VH_CHECK(b == 0 || (b == 1 && e[q] == m), "{} {}: window {} position {} is marked {}", net.conf.str(), w, l, q, b);
      hot += b;
    }
    VH_CHECK(hot == 1, "{} {}: window {} has {} marks", net.conf.str(), w, l, hot);
    ++l;
  });
}
void argmax(const Conf& c) {
  const auto ks = kindsOf(c);
  auto one = [=](Net& net, const Win& win, const T& t, size_t n) {
    In x{ks[n % ks.size()], n % 2 ? spu::DT_I32 : spu::DT_F32, t, n % 3 ? kStrided : kCompact, {}};
    auto w = fmt::format("ArgMax {} kind {} values {}", win.str(), x.kind, t.v);
    auto o = exec(net, w, {x}, [&](SPUContext* cx, auto& v) {
      auto r = hlo::ArgMax(cx, v[0], win.out, win.cfg());
      return Vals{r.first, r.second};
    });
    VH_CHECK(o[0].dt == x.dt, "{} {}: data type", net.conf.str(), w);
    checkArg(net, w, win, t, o);
  };
  vh::unit("argmax/" + c.str(), [=] {
    Net net(c);
    size_t n = 0;
    for (auto& t : tuples({rangeOf(1, 5), rangeOf(1, 4), rangeOf(1, 3)})) {
      Win win{{t[0]}, {t[1]}, {}, {t[2]}, {1}, {1}, {{0, 0}}};
      win.finish();
      if (!win.ok) continue;
      for (auto& v : tuples(std::vector<std::vector<int64_t>>(t[0], {-5, 0, 7}))) {
        if (!vh::thorough() && t[0] > 3 && ++n % 7) continue;
        one(net, win, T{win.in, v}, ++n);
      }
    }
  });
  vh::unit("argmax 2x2/" + c.str(), [=] {
    Net net(c);
    size_t n = 0;
    for (auto& t : tuples({rangeOf(1, 2), rangeOf(2, 5), rangeOf(2, 5), rangeOf(1, 2), rangeOf(1, 3), rangeOf(1, 3)})) {
      Win win{{t[0], t[1], t[2], t[3]}, {1, 2, 2, 1}, {}, {1, t[4], t[5], 1}, {1, 1, 1, 1}, {1, 1, 1, 1}, {{0, 0}, {0, 0}, {0, 0}, {0, 0}}};
      win.finish();
      ++n;
      if (!vh::thorough() && n % 3) continue;
      one(net, win, valuesFor(1, win.in, n), n);
    }
    // all orders and ties within one window
    for (auto& v : tuples(std::vector<std::vector<int64_t>>(4, {-4, 0, 1, 9}))) {
      Win win{{1, 2, 2, 1}, {1, 2, 2, 1}, {}, {1, 1, 1, 1}, {1, 1, 1, 1}, {1, 1, 1, 1}, {{0, 0}, {0, 0}, {0, 0}, {0, 0}}};
      win.finish();
      one(net, win, T{win.in, v}, ++n);
    }
  });
}

void scatters(const Conf& c) {
  const auto ks = kindsOf(c);
  vh::unit("select and scatter/" + c.str(), [=] {
    Net net(c);
    size_t n = 0;
    auto run = [&](const Win& win, const T& base, bool ge) {
      ++n;
      T src = T::iota(win.out, 1000, 1001);
      const auto dt = n % 2 ? spu::DT_I32 : spu::DT_F32;
      In b{ks[n % ks.size()], dt, base, n % 3 ? kStrided : kCompact, {}};
      In s{ks[n / 2 % ks.size()], dt, src, kReversed, {}}, z{'p', dt, T{{}, {0}}, kCompact, {}};
      auto w = fmt::format("SelectAndScatter {} {} kinds {}{} base {}", ge ? "ge" : "le", win.str(), b.kind, s.kind, base.v);
      auto o = exec(net, w, {b, s, z}, [&](SPUContext* cx, auto& v) {
        return Vals{hlo::SelectAndScatter(
            cx, v[0], v[1], v[2], win.win, to<Strides>(win.stride), win.pad,
            [&](const Value& x, const Value& y) { return hal::_prefer_a(cx, ge ? hal::greater_equal(cx, x, y) : hal::less_equal(cx, x, y)); },
            [&](const Value& x, const Value& y) { return hal::add(cx, x, y); })};
      });
      T want{win.in, std::vector<int64_t>(win.in.numel())};
      T mark{win.in, std::vector<int64_t>(win.in.numel())};
      T hot{win.out, {}};
      std::vector<int64_t> onehot;
      eachIx(win.out, [&](const Ix& ix) {
        Ix best;
        int64_t bv = 0;
        Ix bw;
        eachIx(win.win, [&](const Ix& wi) {
          Ix j(ix);
          for (size_t d = 0; d < j.size(); ++d) j[d] = ix[d] * win.stride[d] + wi[d];
          int64_t v = ge ? base.at(j) : -base.at(j);
          if (best.empty() || v > bv) best = j, bv = v, bw = wi;
        });
        want.at(best) += src.at(ix);
        eachIx(win.win, [&](const Ix& wi) { onehot.push_back(wi == bw); });
      });
      expectT(net, w, o[0], want, dt);
      // the same from the one hot positions
      Shape hs(win.out);
      hs.push_back(win.win.numel());
      In h{ks[n % ks.size()], spu::DT_I1, T{hs, onehot}, kStrided, {}};
      w = fmt::format("MaxPoolScatter {} kinds {}{}", win.str(), h.kind, s.kind);
      o = exec(net, w, {h, s}, [&](SPUContext* cx, auto& v) {
        return Vals{hlo::MaxPoolScatter(cx, v[0], v[1], win.win, win.in, to<Strides>(win.stride), win.pad)};
      });
      expectT(net, w, o[0], want, dt);
    };
    // one axis: all orders of the base
    for (auto& t : tuples({rangeOf(1, 5), rangeOf(1, 3), rangeOf(1, 4)})) {
      Win win{{t[0]}, {t[1]}, {}, {t[2]}, {1}, {1}, {{0, 0}}};
      win.finish();
      if (!win.ok || (t[0] - t[1]) % t[2]) continue;  // the windows must cover the base
      auto perm = rangeOf(-2, t[0] - 3);
      size_t q = 0;
      do {
        if (t[0] > 3 && !vh::thorough() && q++ % 5) continue;
        run(win, T{win.in, perm}, q % 2);
      } while (std::next_permutation(perm.begin(), perm.end()));
    }
    for (auto& t : tuples({rangeOf(1, 4), rangeOf(2, 4), rangeOf(1, 2), rangeOf(1, 3), rangeOf(1, 3), rangeOf(1, 2)})) {
      Win win{{t[0], t[1]}, {t[2], t[3]}, {}, {t[4], t[5]}, {1, 1}, {1, 1}, {{0, 0}, {0, 0}}};
      win.finish();
      if (!win.ok || (t[0] - t[2]) % t[4] || (t[1] - t[3]) % t[5]) continue;
      run(win, valuesFor(1, win.in, n), n % 2);
    }
  });
}

void contractions(const Conf& c) {
  const auto ks = kindsOf(c);
  const int64_t one = int64_t(1) << c.rc.fxp_fraction_bits;
  // integers and mixed products are exact; fixed point within a few ulp
  auto types = std::vector<std::pair<spu::DataType, spu::DataType>>{
      {spu::DT_I32, spu::DT_I64}, {spu::DT_F32, spu::DT_I32}, {spu::DT_I64, spu::DT_F32}, {spu::DT_F32, spu::DT_F32}};
  auto check = [=](const Net& net, const std::string& w, const Out& o, const Shape& s, const std::vector<int128_t>& want, int ty, const std::vector<int64_t>& terms) {
    VH_CHECK(o.shape == s, "{} {}: shape {} expected {}", net.conf.str(), w, o.shape, s);
    const auto dt = ty == 0 ? spu::DT_I64 : spu::DT_F32;
    VH_CHECK(o.dt == dt, "{} {}: data type {}", net.conf.str(), w, int(o.dt));
    for (size_t i = 0; i < want.size(); ++i) {
      if (ty < 3) {
        VH_CHECK(o.v[i] == static_cast<int64_t>(want[i]), "{} {}: element {}: {} expected {}", net.conf.str(), w, i, o.v[i], static_cast<int64_t>(want[i]));
      } else {
        auto q = static_cast<int64_t>(want[i] >> net.conf.rc.fxp_fraction_bits);
        VH_CHECK(std::abs(o.v[i] - q) <= 2, "{} {}: element {}: {} expected {}", net.conf.str(), w, i, o.v[i], q);
      }
    }
  };
  auto val = [=](const Shape& s, spu::DataType dt, int64_t salt) {
    T t{s, {}};
    for (int64_t i = 0; i < s.numel(); ++i) {
      int64_t x = (i * i * 7 + salt * 13 + i * 3) % 19 - 9;
      t.v.push_back(dt == spu::DT_F32 ? x * one / 4 + (i % 5) * 3 - 4 : x);
    }
    return t;
  };
  vh::unit("dot/" + c.str(), [=] {
    Net net(c);
    size_t n = 0;
    for (auto& t : tuples({rangeOf(0, 3), rangeOf(1, 5), rangeOf(0, 3)}))
      for (char ka : ks)
        for (char kb : ks) {
          ++n;
          const int64_t m = t[0], k = t[1], q = t[2];
          const int ty = n % 4;
          Shape sa = m ? Shape{m, k} : Shape{k}, sb = q ? Shape{k, q} : Shape{k};
          In a{ka, types[ty].first, val(sa, types[ty].first, n), n % 3 == 0 ? kCompact : n % 3 == 1 ? kTransposed : kStrided, {}};
          In b{kb, types[ty].second, val(sb, types[ty].second, n + 5), n % 3 == 1 ? kReversed : n % 3 ? kTransposed : kCompact, {}};
          auto w = fmt::format("Dot {} {} types {} kinds {}{}", sa, sb, ty, ka, kb);
          auto o = exec(net, w, {a, b}, [&](SPUContext* cx, auto& v) { return Vals{hlo::Dot(cx, v[0], v[1])}; });
          const int64_t M = std::max<int64_t>(m, 1), N = std::max<int64_t>(q, 1);
          std::vector<int128_t> want(M * N);
          for (int64_t i = 0; i < M; ++i)
            for (int64_t j = 0; j < N; ++j)
              for (int64_t x = 0; x < k; ++x) want[i * N + j] += static_cast<int128_t>(a.t.v[i * k + x]) * b.t.v[x * N + j];
          check(net, w, o[0], {M, N}, want, ty, {});
        }
  });
  vh::unit("dot general/" + c.str(), [=] {
    Net net(c);
    size_t n = 0;
    for (auto& t : tuples({rangeOf(1, 3), rangeOf(1, 2), rangeOf(1, 3), rangeOf(1, 2)})) {
      const int64_t B = t[0], m = t[1], k = t[2], q = t[3];
      for (int rep = 0; rep < 6; ++rep) {
        ++n;
        const int ty = n % 4;
        In a{ks[n % ks.size()], types[ty].first, val({B, m, k}, types[ty].first, n), n % 3 ? kTransposed : kStrided, {}};
        In b{ks[n / 3 % ks.size()], types[ty].second, val({B, k, q}, types[ty].second, n + 5), n % 3 == 1 ? kReversed : kCompact, {}};
        auto w = fmt::format("DotGeneral {} types {} kinds {}{}", t, ty, a.kind, b.kind);
        auto o = exec(net, w, {a, b}, [&](SPUContext* cx, auto& v) { return Vals{hlo::DotGeneral(cx, v[0], v[1])}; });
        std::vector<int128_t> want;
        for (int64_t p = 0; p < B; ++p)
          for (int64_t i = 0; i < m; ++i)
            for (int64_t j = 0; j < q; ++j) {
              int128_t s = 0;
              for (int64_t x = 0; x < k; ++x) s += static_cast<int128_t>(a.t.at({p, i, x})) * b.t.at({p, x, j});
              want.push_back(s);
            }
        check(net, w, o[0], {B, m, q}, want, ty, {});
      }
    }
  });
  vh::unit("convolution/" + c.str(), [=] {
    Net net(c);
    size_t n = 0;
    for (auto& t : tuples({rangeOf(1, 2), rangeOf(1, 4), rangeOf(1, 4), rangeOf(1, 2), rangeOf(1, 3), rangeOf(1, 3), rangeOf(1, 2), rangeOf(1, 3), rangeOf(1, 3)})) {
      const int64_t N = t[0], H = t[1], W = t[2], C = t[3], h = t[4], w_ = t[5], O = t[6], sh = t[7], sw = t[8];
      if (h > H || w_ > W) continue;
      ++n;
      if (!vh::thorough() && c.npc == 3 && n % 2) continue;
      const int ty = n % 2 ? 0 : 3;
      const int64_t hh = (H - h) / sh + 1, ww = (W - w_) / sw + 1;
      In a{ks[n % ks.size()], types[ty].first, val({N, H, W, C}, types[ty].first, n), n % 3 ? kTransposed : kStrided, {}};
      In b{ks[n / 3 % ks.size()], types[ty].second, val({h, w_, C, O}, types[ty].second, n + 5), n % 3 == 1 ? kReversed : kCompact, {}};
      auto w = fmt::format("Convolution2D {} types {} kinds {}{}", t, ty, a.kind, b.kind);
      auto o = exec(net, w, {a, b}, [&](SPUContext* cx, auto& v) {
        hlo::ConvolutionConfig cfg;
        cfg.window_strides = {sh, sw};
        return Vals{hlo::Convolution2D(cx, v[0], v[1], cfg, {N, hh, ww, O})};
      });
      std::vector<int128_t> want;
      eachIx({N, hh, ww, O}, [&](const Ix& i) {
        int128_t s = 0;
        eachIx({h, w_, C}, [&](const Ix& j) {
          s += static_cast<int128_t>(a.t.at({i[0], i[1] * sh + j[0], i[2] * sw + j[1], j[2]})) * b.t.at({j[0], j[1], j[2], i[3]});
        });
        want.push_back(s);
      });
      check(net, w, o[0], {N, hh, ww, O}, want, ty, {});
    }
  });
}
}  // namespace

void vh_units() {
  for (auto& c : hloConfs({FM64})) {
    reduces(c);
    windows(c);
    argmax(c);
    scatters(c);
    contractions(c);
  }
  if (vh::thorough())
    for (auto& c : hloConfs({FM32, FM128})) {
      if (c.name == "ref2k") continue;
      reduces(c);
      windows(c);
      argmax(c);
    }
}
