// C25: arithmetic on plain arrays of ring elements, bit tricks and boolean
// circuits, on which every protocol is built.
#include <fcntl.h>
#include <unistd.h>

#include <set>

#include "net.h"

#include "libspu/core/bit_utils.h"
#include "libspu/mpc/utils/circuits.h"
#include "libspu/mpc/utils/linalg.h"
#include "libspu/mpc/utils/ring_ops.h"
using namespace vn;
namespace mp = spu::mpc;
using spu::Sizes;

namespace {
// ---- views -----------------------------------------------------------------
// A tensor as a view into a larger buffer; the cells beside it hold junk.
struct View {
  NdArrayRef base, v;
  std::vector<U> junk;  // the base before the operation
};
View view(FieldType f, const Shape& sh, const std::vector<U>& x, int layout) {
  auto ty = spu::makeType<spu::RingTy>(f);
  View r;
  const int64_t n = sh.numel();
  auto keep = [&] { r.junk = readArr(r.base); };
  if (layout == kStrided && sh.ndim() > 0) {
    Shape s = sh;
    s.back() = s.back() * 2 + 1;
    std::vector<U> d(s.numel());
    for (size_t i = 0; i < d.size(); ++i) d[i] = 0x55aa1234 + i * 77;
    const int64_t last = sh.back(), plast = s.back();
    for (int64_t i = 0; i < n; ++i) d[i / last * plast + 1 + i % last * 2] = x[i];
    r.base = mkArr(ty, s, d);
    spu::Index st(s.size(), 0), en(s.begin(), s.end());
    spu::Strides sr(s.size(), 1);
    st.back() = 1, sr.back() = 2;
    if (n) {
      r.v = r.base.slice(st, en, sr);
      keep();
      return r;
    }
  }
  if (layout == kReversed && sh.ndim() > 0) {
    r.base = mkArr(ty, sh, {x.rbegin(), x.rend()});
    spu::Axes ax(sh.ndim());
    std::iota(ax.begin(), ax.end(), 0);
    r.v = r.base.reverse(ax);
    keep();
    return r;
  }
  if (layout == kTransposed && sh.ndim() >= 2) {
    // the axes the other way round
    Shape s(sh.rbegin(), sh.rend());
    std::vector<U> d(n);
    spu::Index ix(sh.ndim(), 0);
    for (int64_t i = 0; i < n; ++i) {
      int64_t o = 0;
      for (int64_t a = sh.ndim() - 1; a >= 0; --a) o = o * sh[a] + ix[a];
      d[o] = x[i];
      for (int64_t a = sh.ndim() - 1; a >= 0 && ++ix[a] == sh[a]; --a) ix[a] = 0;
    }
    r.base = mkArr(ty, s, d);
    spu::Axes ax(sh.ndim());
    for (size_t a = 0; a < ax.size(); ++a) ax[a] = ax.size() - 1 - a;
    r.v = r.base.transpose(ax);
    keep();
    return r;
  }
  if (layout == kBroadcast && n > 0 && sh.ndim() > 0) {
    r.base = mkArr(ty, {1}, {x[0]});
    r.v = r.base.reshape({}).broadcast_to(sh, {});
    keep();
    return r;
  }
  r.base = r.v = mkArr(ty, sh, x);
  keep();
  return r;
}
std::vector<U> contents(const std::vector<U>& x, const Shape& sh, int layout) {
  return layout == kBroadcast && sh.numel() > 0 && sh.ndim() > 0 ? std::vector<U>(x.size(), x[0]) : x;
}
const std::vector<Shape>& shapes() {
  static const std::vector<Shape> s = {{}, {1}, {0}, {3}, {2, 3}, {3, 1}, {1, 4}, {2, 0}, {2, 3, 2}, {1, 1, 5}};
  return s;
}
const int kLays[] = {kCompact, kStrided, kReversed, kTransposed, kBroadcast};
std::string show(const std::vector<U>& v) {
  std::string s;
  for (auto u : v) s += hex(u) + " ";
  return s;
}
// every cell of the base that the view does not denote is as it was
void untouched(const View& a, const std::vector<U>& was, const std::string& w) {
  auto now = readArr(a.base);
  std::multiset<U> x(now.begin(), now.end()), y(a.junk.begin(), a.junk.end());
  auto v = readArr(a.v);
  for (auto u : v) x.erase(x.find(u));
  for (auto u : was) y.erase(y.find(u));
  VH_CHECK(x == y, "{}: cells beside the view changed", w);
}

using Fn2 = std::function<NdArrayRef(const NdArrayRef&, const NdArrayRef&)>;
using In2 = std::function<void(NdArrayRef&, const NdArrayRef&)>;
using Ref2 = std::function<U(U, U)>;
// Binary operations: every pair of values, every shape and pair of layouts,
// in a new array and in place, also on itself.
void binary(FieldType f, const std::string& name, const Fn2& fn, const In2& in, const Ref2& ref) {
  const int k = bitsOf(f);
  const auto e = edges(k, vh::thorough());
  const U m = maskOf(k);
  auto check = [&](const std::vector<U>& got, const std::vector<U>& x, const std::vector<U>& y, const std::string& w) {
    VH_CHECK(got.size() == x.size(), "{}: {} elements instead of {}", w, got.size(), x.size());
    for (size_t i = 0; i < x.size(); ++i) {
      const U want = ref(x[i] & m, y[i] & m) & m;
      VH_CHECK(got[i] == want, "{}: {} of {} and {} is {} and not {}", w, name, hex(x[i]), hex(y[i]), hex(got[i]), hex(want));
    }
  };
  {  // all pairs
    std::vector<U> x, y;
    for (auto a : e)
      for (auto b : e) x.push_back(a & m), y.push_back(b & m);
    auto w = fmt::format("{} {} all pairs", name, fname(f));
    vh::where(w);
    for (int par = 0; par < 4; ++par) {
      venv::g_par_mode = par;
      const Shape sh = {int64_t(x.size())};
      auto a = view(f, sh, x, kCompact), b = view(f, sh, y, kCompact);
      check(readArr(fn(a.v, b.v)), x, y, w);
      in(a.v, b.v);
      check(readArr(a.v), x, y, w + " in place");
    }
    vh::eval(vh::hash(w), true);
    vh::add("pairs", x.size());
  }
  int t = 0;
  for (auto& sh : shapes())
    for (int la : kLays)
      for (int lb : kLays) {
        ++t;
        venv::g_par_mode = t % 4;
        std::vector<U> x, y;
        for (int64_t i = 0; i < sh.numel(); ++i) x.push_back(e[(i * 5 + t) % e.size()] & m), y.push_back(e[(i * 3 + t * 7 + 1) % e.size()] & m);
        auto a = view(f, sh, x, la), b = view(f, sh, y, lb);
        x = contents(x, sh, la), y = contents(y, sh, lb);
        auto w = fmt::format("{} {} {} {}/{}", name, fname(f), sh, layoutName(la), layoutName(lb));
        vh::where(w);
        auto z = fn(a.v, b.v);
        VH_CHECK(z.shape() == sh, "{}: shape {}", w, z.shape());
        check(readArr(z), x, y, w);
        VH_CHECK(readArr(a.base) == a.junk && readArr(b.base) == b.junk, "{}: an operand changed", w);
        if (la != kBroadcast) {
          auto c = view(f, sh, x, la);
          in(c.v, b.v);
          check(readArr(c.v), x, y, w + " in place");
          untouched(c, x, w + " in place");
          VH_CHECK(readArr(b.base) == b.junk, "{} in place: the other operand changed", w);
          auto d = view(f, sh, x, la);
          in(d.v, d.v);
          check(readArr(d.v), x, x, w + " on itself");
        }
        vh::eval(vh::hash(w), sh.numel() > 1);
      }
}
// Unary operations with a parameter.
void unary(FieldType f, const std::string& name, const std::function<NdArrayRef(const NdArrayRef&)>& fn,
           const std::function<void(NdArrayRef&)>& in, const std::function<U(U, int64_t)>& ref, bool deep, int64_t only = -1) {
  const int k = bitsOf(f);
  const auto e = edges(k, true);
  const U m = maskOf(k);
  int t = 0;
  auto go = [&](const Shape& sh, int la, const std::vector<U>& xs) {
    ++t;
    venv::g_par_mode = t % 4;
    auto a = view(f, sh, xs, la);
    auto x = contents(xs, sh, la);
    auto w = fmt::format("{} {} {} {}", name, fname(f), sh, layoutName(la));
    vh::where(w);
    auto check = [&](const std::vector<U>& got, const std::string& how) {
      for (size_t i = 0; i < x.size(); ++i)
        VH_CHECK(got[i] == (ref(x[i] & m, i) & m), "{}{}: of {} is {} and not {}", w, how, hex(x[i]), hex(got[i]), hex(ref(x[i] & m, i) & m));
    };
    auto z = fn(a.v);
    VH_CHECK(z.shape() == sh, "{}: shape {}", w, z.shape());
    check(readArr(z), "");
    VH_CHECK(readArr(a.base) == a.junk, "{}: the operand changed", w);
    if (la != kBroadcast && in) {
      in(a.v);
      check(readArr(a.v), " in place");
      untouched(a, x, w + " in place");
    }
    vh::eval(vh::hash(w), sh.numel() > 1);
  };
  std::vector<U> all;
  for (auto u : e) all.push_back(u & m);
  if (only < 0) go({int64_t(all.size())}, kCompact, all);
  if (!deep && only < 0) return;
  for (auto& sh : shapes())
    for (int la : kLays) {
      if (only >= 0 && sh.numel() != only) continue;
      std::vector<U> x;
      for (int64_t i = 0; i < sh.numel(); ++i) x.push_back(e[(i * 5 + t) % e.size()] & m);
      go(sh, la, x);
    }
}
U shl(U x, int64_t b, int k) { return b >= k ? 0 : (x << b) & maskOf(k); }
U shr(U x, int64_t b, int k) { return b >= k ? 0 : x >> b; }
U sar(U x, int64_t b, int k) {
  U r = shr(x, b, k);
  if ((x >> (k - 1)) & 1)
    for (int64_t i = 0; i < b; ++i) r |= U(1) << (k - 1 - i);
  return r;
}

void words(FieldType f) {
  const int k = bitsOf(f);
  binary(f, "add", mp::ring_add, mp::ring_add_, [](U a, U b) { return a + b; });
  binary(f, "sub", mp::ring_sub, mp::ring_sub_, [](U a, U b) { return a - b; });
  binary(
      f, "mul", [](const NdArrayRef& a, const NdArrayRef& b) { return mp::ring_mul(a, b); },
      [](NdArrayRef& a, const NdArrayRef& b) { mp::ring_mul_(a, b); }, [](U a, U b) { return a * b; });
  binary(f, "and", mp::ring_and, mp::ring_and_, [](U a, U b) { return a & b; });
  binary(f, "xor", mp::ring_xor, mp::ring_xor_, [](U a, U b) { return a ^ b; });
  binary(f, "equal", mp::ring_equal, mp::ring_equal_, [](U a, U b) -> U { return a == b; });
  binary(
      f, "assign",
      [](const NdArrayRef& a, const NdArrayRef& b) {
        auto z = a.clone();
        mp::ring_assign(z, b);
        return z;
      },
      [](NdArrayRef& a, const NdArrayRef& b) { mp::ring_assign(a, b); }, [](U, U b) { return b; });
  unary(f, "neg", mp::ring_neg, mp::ring_neg_, [](U a, int64_t) { return 0 - a; }, true);
  unary(f, "not", mp::ring_not, mp::ring_not_, [](U a, int64_t) { return ~a; }, true);
  for (auto c : edges(k, false)) {
    unary(
        f, "mul by " + hex(c), [&](const NdArrayRef& a) { return mp::ring_mul(a, c); }, [&](NdArrayRef& a) { mp::ring_mul_(a, c); },
        [&](U a, int64_t) { return a * c; }, true);
    unary(
        f, "mul of a temporary by " + hex(c), [&](const NdArrayRef& a) { return mp::ring_mul(a.clone(), c); }, nullptr,
        [&](U a, int64_t) { return a * c; }, false);
  }
  for (int64_t b = 0; b < k; ++b) {
    const bool deep = b % 13 == 5 || b == 0 || b == k - 1;
    Sizes s{b};
    unary(
        f, fmt::format("lshift {}", b), [&](const NdArrayRef& a) { return mp::ring_lshift(a, s); }, [&](NdArrayRef& a) { mp::ring_lshift_(a, s); },
        [&](U a, int64_t) { return shl(a, b, k); }, deep);
    unary(
        f, fmt::format("rshift {}", b), [&](const NdArrayRef& a) { return mp::ring_rshift(a, s); }, [&](NdArrayRef& a) { mp::ring_rshift_(a, s); },
        [&](U a, int64_t) { return shr(a, b, k); }, deep);
    unary(
        f, fmt::format("arshift {}", b), [&](const NdArrayRef& a) { return mp::ring_arshift(a, s); },
        [&](NdArrayRef& a) { mp::ring_arshift_(a, s); }, [&](U a, int64_t) { return sar(a, b, k); }, deep);
    for (int64_t n : {1, 3, 4, 6, 12}) {  // a shift for every element
      Sizes v;
      for (int64_t i = 0; i < n; ++i) v.push_back((b + i * 11) % k);
      unary(
          f, fmt::format("lshifts from {} of {}", b, n), [&](const NdArrayRef& a) { return mp::ring_lshift(a, v); },
          [&](NdArrayRef& a) { mp::ring_lshift_(a, v); }, [&](U a, int64_t i) { return shl(a, v[i], k); }, true, n);
      unary(
          f, fmt::format("rshifts from {} of {}", b, n), [&](const NdArrayRef& a) { return mp::ring_rshift(a, v); },
          [&](NdArrayRef& a) { mp::ring_rshift_(a, v); }, [&](U a, int64_t i) { return shr(a, v[i], k); }, true, n);
      unary(
          f, fmt::format("arshifts from {} of {}", b, n), [&](const NdArrayRef& a) { return mp::ring_arshift(a, v); },
          [&](NdArrayRef& a) { mp::ring_arshift_(a, v); }, [&](U a, int64_t i) { return sar(a, v[i], k); }, true, n);
    }
  }
}
void ranges(FieldType f) {
  const int k = bitsOf(f);
  for (int lo = 0; lo < k; ++lo)
    for (int hi = lo + 1; hi <= k; ++hi) {
      if (vh::timeUp()) return;
      const bool deep = (lo * 7 + hi) % 97 == 0;
      const U in = maskOf(hi) & ~maskOf(lo);
      unary(
          f, fmt::format("bits {}..{}", lo, hi), [&](const NdArrayRef& a) { return mp::ring_bitmask(a, lo, hi); },
          [&](NdArrayRef& a) { mp::ring_bitmask_(a, lo, hi); }, [&](U a, int64_t) { return a & in; }, deep);
      unary(
          f, fmt::format("reversed {}..{}", lo, hi), [&](const NdArrayRef& a) { return mp::ring_bitrev(a, lo, hi); },
          [&](NdArrayRef& a) { mp::ring_bitrev_(a, lo, hi); },
          [&](U a, int64_t) {
            U r = a & ~in;
            for (int i = lo; i < hi; ++i)
              if ((a >> i) & 1) r |= U(1) << (lo + hi - 1 - i);
            return r;
          },
          deep);
    }
}
void others(FieldType f) {
  const int k = bitsOf(f);
  const auto e = edges(k, true);
  const U m = maskOf(k);
  for (auto& sh : shapes()) {
    const int64_t n = sh.numel();
    VH_CHECK(readArr(mp::ring_zeros(f, sh)) == std::vector<U>(n, 0) && readArr(mp::ring_ones(f, sh)) == std::vector<U>(n, 1), "zeros, ones of {}", sh);
    VH_CHECK(mp::ring_zeros(f, sh).shape() == sh && mp::ring_ones(f, sh).shape() == sh, "zeros, ones of {}", sh);
    for (int la : kLays)
      for (int lb : kLays)
        for (int s = 0; s < 6; ++s) {
          std::vector<U> x, y;
          for (int64_t i = 0; i < n; ++i) x.push_back(e[(i * 5 + s * 11) % e.size()] & m), y.push_back(e[(i * 3 + s) % e.size()] & m);
          auto a = view(f, sh, x, la), b = view(f, sh, y, lb);
          x = contents(x, sh, la), y = contents(y, sh, lb);
          auto w = fmt::format("{} {} {}/{} {}", fname(f), sh, layoutName(la), layoutName(lb), s);
          vh::where(w);
          venv::g_par_mode = s % 4;
          std::vector<uint8_t> c, got = mp::ring_cast_boolean(a.v);
          for (int64_t i = 0; i < n; ++i) c.push_back((i + s) % 2);
          for (int64_t i = 0; i < n; ++i) VH_CHECK(got[i] == (x[i] & 1), "cast_boolean {}", w);
          auto z = mp::ring_select(c, a.v, b.v);
          auto zs = readArr(z);
          for (int64_t i = 0; i < n; ++i) VH_CHECK(zs[i] == (c[i] ? y[i] : x[i]), "select {}", w);
          std::vector<NdArrayRef> arrs;
          std::vector<U> sum(n, 0);
          for (int q = 0; q < 1 + s; ++q) {
            arrs.push_back(q % 2 ? b.v : a.v);
            for (int64_t i = 0; i < n; ++i) sum[i] = (sum[i] + (q % 2 ? y[i] : x[i])) & m;
            VH_CHECK(readArr(mp::ring_sum(arrs)) == sum, "sum of {} arrays {}", q + 1, w);
          }
          VH_CHECK(readArr(a.base) == a.junk && readArr(b.base) == b.junk, "{}: an operand changed", w);
          vh::eval(vh::hash(w), n > 1);
        }
  }
  // equal up to a distance; every "no" is printed with the elements
  fflush(stdout);
  const int out = dup(1), null = open("/dev/null", O_WRONLY);
  dup2(null, 1);
  struct Restore {
    int out, null;
    ~Restore() {
      fflush(stdout);
      dup2(out, 1);
      close(out), close(null);
    }
  } restore{out, null};
  auto e2 = e;
  for (auto u : e) e2.push_back((u + 1) & m), e2.push_back((0 - u) & m);
  for (auto u : e2)
    for (auto v : e2)
      for (uint64_t err : {uint64_t(0), uint64_t(1), uint64_t(2), uint64_t(1) << 20, uint64_t(1) << 30}) {
        const U d = (u - v) & m, dist = std::min<U>(d, (0 - d) & m);
        vh::where(fmt::format("{} {} and {} within {}", fname(f), hex(u & m), hex(v & m), err));
        for (int pos = 0; pos < 3; ++pos) {
          std::vector<U> x(3, 7), y(3, 7);
          x[pos] = u & m, y[pos] = v & m;
          const bool got = mp::ring_all_equal(view(f, {3}, x, kLays[pos]).v, view(f, {3}, y, kCompact).v, err);
          VH_CHECK(got == (dist <= err), "{}: {} and {} are said to be {}equal within {}", fname(f), hex(u & m), hex(v & m), got ? "" : "un", err);
        }
        vh::eval(vh::hash(fmt::format("{} {} {} {}", fname(f), hex(u), hex(v), err)), u != v);
      }
  VH_CHECK(mp::ring_all_equal(mp::ring_zeros(f, {0}), mp::ring_zeros(f, {0})), "nothing is equal to nothing");
}
// random arrays, for every choice of up to two deviating words
void random(FieldType f) {
  const int k = bitsOf(f);
  const U m = maskOf(k);
  const auto e = edges(k, false);
  for (auto& sh : shapes()) {
    vmc::Explorer ex;
    ex.bound = 2;
    int step = 0;
    ex.explore([&] {
      ChoiceRandom cr(6);
      const int64_t n = sh.numel();
      std::vector<U> x;
      for (int64_t i = 0; i < n; ++i) x.push_back(e[(i + step) % e.size()] & m);
      const int la = kLays[step % 5];
      ++step;
      auto a = view(f, sh, x, la);
      x = contents(x, sh, la);
      for (size_t parts : {2, 3, 4}) {
        auto s = mp::ring_rand_additive_splits(a.v, parts);
        auto b = mp::ring_rand_boolean_splits(a.v, parts);
        VH_CHECK(s.size() == parts && b.size() == parts, "splits");
        std::vector<U> sum(n, 0), xr(n, 0);
        for (size_t p = 0; p < parts; ++p) {
          auto q = readArr(s[p]), r = readArr(b[p]);
          for (int64_t i = 0; i < n; ++i) sum[i] = (sum[i] + q[i]) & m, xr[i] ^= r[i];
        }
        VH_CHECK(sum == x, "{} {}: the additive splits add up to {} and not {}", fname(f), sh, show(sum), show(x));
        VH_CHECK(xr == x, "{} {}: the boolean splits add up to {} and not {}", fname(f), sh, show(xr), show(x));
      }
      for (auto u : readArr(mp::ring_randbit(f, sh))) VH_CHECK(u <= 1, "{}: {} is drawn as a bit", fname(f), hex(u));
      for (auto [lo, hi] : std::vector<std::pair<U, U>>{{0, 0}, {0, 1}, {3, 10}, {1, maskOf(k - 1)}, {maskOf(k) - 5, maskOf(k)}})
        for (auto u : readArr(mp::ring_rand_range(f, sh, lo, hi)))
          VH_CHECK(u >= lo && u <= hi, "{}: {} is drawn from {}..{}", fname(f), hex(u), hex(lo), hex(hi));
      VH_CHECK(readArr(a.base) == a.junk, "the operand changed");
      vh::eval(vh::hash(fmt::format("{} {} {}", fname(f), sh, step)), n > 1);
      return true;
    });
    vh::add("draw_choices", ex.execs);
  }
}
void products(FieldType f) {
  const int k = bitsOf(f);
  const auto e = edges(k, false);
  const U m = maskOf(k);
  int t = 0;
  const int64_t top = vh::thorough() ? 5 : 4;
  for (int64_t M = 0; M <= top; ++M)
    for (int64_t K = 0; K <= top; ++K)
      for (int64_t N = 0; N <= top; ++N)
        for (int la : kLays)
          for (int lb : kLays) {
            ++t;
            venv::g_par_mode = t % 4;
            std::vector<U> x, y;
            for (int64_t i = 0; i < M * K; ++i) x.push_back(e[(i * 5 + t) % e.size()] & m);
            for (int64_t i = 0; i < K * N; ++i) y.push_back(e[(i * 3 + t * 7 + 1) % e.size()] & m);
            auto a = view(f, {M, K}, x, la), b = view(f, {K, N}, y, lb);
            x = contents(x, {M, K}, la), y = contents(y, {K, N}, lb);
            auto w = fmt::format("{} {}x{}x{} {}/{}", fname(f), M, K, N, layoutName(la), layoutName(lb));
            vh::where(w);
            std::vector<U> want(M * N, 0);
            for (int64_t i = 0; i < M; ++i)
              for (int64_t j = 0; j < N; ++j)
                for (int64_t q = 0; q < K; ++q) want[i * N + j] = (want[i * N + j] + x[i * K + q] * y[q * N + j]) & m;
            auto z = mp::ring_mmul(a.v, b.v);
            VH_CHECK(z.shape() == Shape({M, N}), "product {}: shape {}", w, z.shape());
            VH_CHECK(readArr(z) == want, "product {}: {} and not {}", w, show(readArr(z)), show(want));
            const int lc = kLays[t % 4];
            std::vector<U> junk(M * N);
            for (size_t i = 0; i < junk.size(); ++i) junk[i] = 0x7777 + i;
            auto c = view(f, {M, N}, junk, lc);
            mp::ring_mmul_(c.v, a.v, b.v);
            VH_CHECK(readArr(c.v) == want, "product {} into {}: {} and not {}", w, layoutName(lc), show(readArr(c.v)), show(want));
            untouched(c, junk, w);
            VH_CHECK(readArr(a.base) == a.junk && readArr(b.base) == b.junk, "{}: an operand changed", w);
            vh::eval(vh::hash(w), M * N * K > 1);
          }
}

// ---- bit tricks and circuits -------------------------------------------------
template <class T>
T refDeintl(T in, int stride, int nbits) {
  // blocks of 2^stride bits: even ones to the lower half, odd ones above
  T r = 0;
  const int B = 1 << stride;
  int lo = 0, hi = nbits / 2;
  for (int b = 0; b * B < nbits; ++b)
    for (int i = 0; i < B; ++i) {
      const T bit = (in >> (b * B + i)) & 1;
      int& to = b % 2 ? hi : lo;
      r |= T(bit << to);
      ++to;
    }
  return r;
}
template <class T>
void interleave() {
  const int K = sizeof(T) * 8;
  auto one = [&](T in, int stride, int nb) {
    const T got = spu::BitDeintl<T>(in, stride, nb == K ? -1 : nb), want = refDeintl<T>(in, stride, nb);
    VH_CHECK(got == want, "{} bits: BitDeintl({}, {}, {}) = {}, not {}", K, hex(in), stride, nb, hex(got), hex(want));
    const T back = spu::BitIntl<T>(got, stride, nb == K ? -1 : nb);
    VH_CHECK(back == in, "{} bits: BitIntl({}, {}, {}) = {}, not {}", K, hex(got), stride, nb, hex(back), hex(in));
  };
  for (int nb = 2; nb <= K; nb *= 2)
    for (int st = 0; (1 << st) < nb; ++st) {
      if (nb <= 16)
        for (uint32_t v = 0; v < (1u << nb); ++v) one(T(v), st, nb);
      for (int i = 0; i < nb; ++i)
        for (int j = 0; j <= i; ++j) one(T((T(1) << i) | (T(1) << j)), st, nb);
      one(T(maskOf(nb)), st, nb);
      vh::eval(vh::hash(fmt::format("intl {} {} {}", K, nb, st)), true);
    }
  if constexpr (sizeof(T) == 8)
    for (int st = 0; st < 6; ++st)
      for (int i = 0; i < 64; ++i)
        for (int j = 0; j <= i; ++j) {
          const T in = (T(1) << i) | (T(1) << j);
          VH_CHECK(spu::detail::BitDeintlWithPdepext(in, st) == refDeintl<T>(in, st, 64), "pext {} {}", hex(in), st);
          VH_CHECK(spu::detail::BitIntlWithPdepext(refDeintl<T>(in, st, 64), st) == in, "pdep {} {}", hex(in), st);
        }
}
void logs() {
  auto floor2 = [](uint64_t n) {
    int r = 0;
    while (n >>= 1) ++r;
    return r;
  };
  auto one = [&](uint64_t n) {
    const int fl = floor2(n), ce = n <= 1 ? 0 : floor2(n - 1) + 1;
    VH_CHECK(spu::Log2Floor(n) == fl && spu::Log2Ceil(n) == ce, "logarithm of {}: {} {}", n, spu::Log2Floor(n), spu::Log2Ceil(n));
    VH_CHECK(spu::BitWidth<uint64_t>(n) == size_t(n ? fl + 1 : 0), "width of {}", n);
    VH_CHECK(spu::BitWidth<uint128_t>(n) == size_t(n ? fl + 1 : 0), "width of {}", n);
  };
  for (uint64_t n = 0; n < 70000; ++n) one(n);
  for (int i = 0; i < 64; ++i)
    for (int d = -2; d <= 2; ++d) one((uint64_t(1) << i) + d);
  for (int i = 0; i < 128; ++i) {
    VH_CHECK(spu::BitWidth<uint128_t>(U(1) << i) == size_t(i + 1), "width of 2^{}", i);
    VH_CHECK(spu::BitWidth<uint128_t>((U(1) << i) - 1) == size_t(i), "width of 2^{}-1", i);
  }
  vh::eval(vh::hash("logs"), true);
}
// A word of a boolean circuit; operations on bits beyond its width, or shifts
// that ask for more than there is, are noticed.
template <class T>
mp::CircuitBasicBlock<T> block() {
  mp::CircuitBasicBlock<T> c;
  c._xor = [](T const& a, T const& b) -> T { return a ^ b; };
  c._and = [](T const& a, T const& b) -> T { return a & b; };
  const int64_t K = sizeof(T) * 8;
  c.lshift = [K](T const& a, const Sizes& s) -> T {
    VH_CHECK(s.size() == 1 && s[0] >= 0, "shift by {}", s[0]);
    return s[0] >= K ? T(0) : T(a << s[0]);
  };
  c.rshift = [K](T const& a, const Sizes& s) -> T {
    VH_CHECK(s.size() == 1 && s[0] >= 0, "shift by {}", s[0]);
    return s[0] >= K ? T(0) : T(a >> s[0]);
  };
  c.init_like = [](T const&, uint128_t v) -> T { return T(v); };
  c.set_nbits = [](T& a, size_t n) { a = T(a & T(maskOf(n))); };
  return c;
}
template <class T>
void adders(const std::vector<std::pair<T, T>>& in, size_t nbits, const std::string& w) {
  auto c = block<T>();
  const T m = T(maskOf(nbits));
  for (auto [x, y] : in) {
    x &= m, y &= m;
    const T want = T((x + y) & m);
    const T ks = mp::kogge_stone<T>(c, x, y, nbits), sk = mp::sklansky<T>(c, x, y, nbits);
    VH_CHECK(T(ks & m) == want, "{}: kogge_stone({}, {}, {}) = {}, not {}", w, hex(x), hex(y), nbits, hex(T(ks & m)), hex(want));
    VH_CHECK(T(sk & m) == want, "{}: sklansky({}, {}, {}) = {}, not {}", w, hex(x), hex(y), nbits, hex(T(sk & m)), hex(want));
    const T co = mp::carry_out<T>(c, x, y, nbits);
    const int carry = nbits == 128 ? (U(x) + U(y) < U(x)) : int(((U(x) + U(y)) >> nbits) & 1);
    VH_CHECK(co == T(carry), "{}: carry_out({}, {}, {}) = {}, not {}", w, hex(x), hex(y), nbits, hex(co), carry);
  }
  vh::add("sums", in.size());
  vh::eval(vh::hash(w + std::to_string(nbits)), true);
}
template <class T>
std::vector<std::pair<T, T>> runs(size_t nbits) {
  // a carry born at i, passed on from i+1 to j-1 by either operand, killed at
  // j, with or without a second one above
  std::vector<std::pair<T, T>> r;
  for (size_t i = 0; i < nbits; ++i)
    for (size_t j = i + 1; j <= nbits; ++j)
      for (int who = 0; who < 4; ++who) {
        T pass = T(T(maskOf(j)) & ~T(maskOf(i + 1)));
        T alt = T(U(0xAAAAAAAAAAAAAAAAull) << 64 | 0xAAAAAAAAAAAAAAAAull);
        T x = T(T(1) << i), y = x;
        if (who == 0) x |= pass;
        if (who == 1) y |= pass;
        if (who >= 2) x |= T(pass & alt), y |= T(pass & ~alt);
        if (who == 3 && j + 1 < nbits) x |= T(T(1) << (j + 1)), y |= T(T(1) << (j + 1));
        r.emplace_back(x, y);
      }
  r.emplace_back(T(0), T(0));
  r.emplace_back(T(maskOf(nbits)), T(0));
  r.emplace_back(T(maskOf(nbits)), T(maskOf(nbits)));
  return r;
}
void circuits() {
  // all pairs up to 8 bits
  for (size_t nb = 1; nb <= 8; ++nb) {
    std::vector<std::pair<uint8_t, uint8_t>> v;
    for (uint32_t x = 0; x < (1u << nb); ++x)
      for (uint32_t y = 0; y < (1u << nb); ++y) v.emplace_back(x, y);
    adders<uint8_t>(v, nb, "u8");
    if (nb <= 7) {
      std::vector<std::pair<uint32_t, uint32_t>> u(v.begin(), v.end());
      adders<uint32_t>(u, nb, "u32");
    }
  }
  for (size_t nb = 1; nb <= 16; ++nb) adders<uint16_t>(runs<uint16_t>(nb), nb, "u16");
  for (size_t nb = 1; nb <= 32; ++nb) adders<uint32_t>(runs<uint32_t>(nb), nb, "u32");
  for (size_t nb = 1; nb <= 64; ++nb) adders<uint64_t>(runs<uint64_t>(nb), nb, "u64");
  for (size_t nb = 1; nb <= 128; nb += vh::thorough() || nb < 8 || nb > 120 ? 1 : 7) adders<uint128_t>(runs<uint128_t>(nb), nb, "u128");
  // even and odd bits apart: linear, so the images of single bits decide
  auto c = block<uint128_t>();
  for (size_t nb = 2; nb <= 128; nb += 2)
    for (size_t i = 0; i < nb; ++i)
      for (size_t j = 0; j <= i; ++j) {
        const U in = (U(1) << i) | (U(1) << j);
        if (!(nb == 128 || (nb & (nb - 1)) == 0) && nb > 64) continue;
        const U got = mp::odd_even_split<uint128_t>(c, in, nb) & maskOf(nb), want = refDeintl<uint128_t>(in, 0, nb);
        VH_CHECK(got == want, "odd_even_split({}, {}) = {}, not {}", hex(in), nb, hex(got), hex(want));
      }
}
}  // namespace

void vh_units() {
  for (auto f : {FM32, FM64, FM128}) {
    vh::unit(fmt::format("words/{}", fname(f)), [=] { words(f); });
    vh::unit(fmt::format("ranges/{}", fname(f)), [=] { ranges(f); });
    vh::unit(fmt::format("others/{}", fname(f)), [=] { others(f); });
    vh::unit(fmt::format("random/{}", fname(f)), [=] { random(f); });
    vh::unit(fmt::format("products/{}", fname(f)), [=] { products(f); });
  }
  vh::unit("interleave/u8", [] { interleave<uint8_t>(); });
  vh::unit("interleave/u16", [] { interleave<uint16_t>(); });
  vh::unit("interleave/u32", [] { interleave<uint32_t>(); });
  vh::unit("interleave/u64", [] { interleave<uint64_t>(); });
  vh::unit("interleave/u128", [] { interleave<uint128_t>(); });
  vh::unit("logarithms", [] { logs(); });
  vh::unit("circuits", [] { circuits(); });
}
