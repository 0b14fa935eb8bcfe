// Typed element-wise operations: all pairs (triples) of an operand alphabet for
// every data type, visibility and layout, against exact arithmetic on the
// encoded numbers.
#define USE_REF2K
#define USE_SEMI2K
#define USE_ABY3
#include "hn.h"

#include "libspu/kernel/hal/constants.h"
#include "libspu/kernel/hal/polymorphic.h"
#include "libspu/kernel/hlo/basic_binary.h"
#include "libspu/kernel/hlo/basic_ternary.h"
#include "libspu/kernel/hlo/basic_unary.h"
#include "libspu/kernel/hlo/casting.h"
#include "libspu/kernel/hlo/shift.h"
using namespace vn;
namespace hal = spu::kernel::hal;
namespace hlo = spu::kernel::hlo;
using Vals = std::vector<Value>;
using namespace spu;  // data types

namespace {
using I = int128_t;
using Ref2 = std::function<I(I, I)>;
bool isF(DataType d) { return d == DT_F16 || d == DT_F32 || d == DT_F64; }
const char* nm(DataType d) {
  switch (d) {
    case DT_I1: return "i1";
    case DT_I8: return "i8";
    case DT_U8: return "u8";
    case DT_I16: return "i16";
    case DT_U16: return "u16";
    case DT_I32: return "i32";
    case DT_U32: return "u32";
    case DT_I64: return "i64";
    case DT_U64: return "u64";
    case DT_F16: return "f16";
    case DT_F32: return "f32";
    case DT_F64: return "f64";
    default: return "?";
  }
}
// encoded operand values of a type; `wide` for operations that do not multiply
std::vector<int64_t> alphabet(const Conf& c, DataType d, bool wide) {
  const int f = c.rc.fxp_fraction_bits;
  const int64_t one = int64_t(1) << f;
  const int k = c.rc.field == FM32 ? 32 : 64;
  switch (d) {
    case DT_I1: return {0, 1};
    case DT_U8: return {0, 1, 2, 3, 100, 128, 255};
    case DT_I8: return {0, 1, -1, 2, 5, -7, 127, -128};
    case DT_I16: return {0, 1, -1, 3, 300, -700, 32767, -32768};
    case DT_U16: return {0, 1, 2, 300, 40000, 65535};
    default: break;
  }
  if (!isF(d)) {
    std::vector<int64_t> r = {0, 1, -1, 2, -3, 7, 100, -1000};
    if (d == DT_U32 || d == DT_U64) r = {0, 1, 2, 3, 7, 100, 1000};
    if (wide) {
      r.push_back((int64_t(1) << (k == 32 ? 29 : 31)) - 1);
      if (d == DT_I32) r.push_back(-(int64_t(1) << (k == 32 ? 29 : 31)));
      if (d == DT_I64 && k == 64) {
        r.push_back((int64_t(1) << 62) - 1);
        r.push_back(-(int64_t(1) << 61) + 5);
      }
    }
    return r;
  }
  std::vector<int64_t> r = {0, 1, -1, one, -one, one / 2, -one / 2, one + 1, -one - 1, one - 1, -one + 1, 3 * one / 2, -3 * one / 2, 5 * one / 2, 10 * one + 3};
  if (k == 64) {
    r.push_back(-37 * one - one / 3);
    r.push_back(1000 * one + 77);
  }
  if (wide) {
    r.push_back((int64_t(1) << (k - 3)) - 1);
    r.push_back(-(int64_t(1) << (k - 3)) + 3);
  }
  return r;
}
// operand layouts: dimension d of the product of n alphabets
struct Grid {
  std::vector<T> t;
  size_t n = 1;
};
Grid product(const std::vector<std::vector<int64_t>>& a) {
  Grid g;
  for (auto& x : a) g.n *= x.size();
  g.t.resize(a.size());
  for (size_t d = 0; d < a.size(); ++d) {
    g.t[d].shape = {static_cast<int64_t>(g.n)};
    size_t inner = 1;
    for (size_t q = d + 1; q < a.size(); ++q) inner *= a[q].size();
    for (size_t i = 0; i < g.n; ++i) g.t[d].v.push_back(a[d][i / inner % a[d].size()]);
  }
  return g;
}
void near(const Net& net, const std::string& w, const std::vector<In>& in, const Out& o, DataType dt, const std::function<I(const std::vector<I>&)>& ref, int64_t tol) {
  VH_CHECK(o.shape == in[0].t.shape, "{} {}: shape {}", net.conf.str(), w, o.shape);
  VH_CHECK(o.dt == dt, "{} {}: data type {} expected {}", net.conf.str(), w, nm(o.dt), nm(dt));
  for (size_t i = 0; i < in[0].t.v.size(); ++i) {
    std::vector<I> a;
    std::string s;
    for (auto& x : in) {
      a.push_back(x.t.v[i]);
      s += fmt::format(" {}", x.t.v[i]);
    }
    I want = ref(a), d = o.v[i] - want;
    VH_CHECK(d <= tol && d >= -tol, "{} {}: of{}: {} expected {}", net.conf.str(), w, s, o.v[i], static_cast<int64_t>(want));
  }
}
DataType common(DataType a, DataType b) { return isF(a) != isF(b) ? (isF(a) ? a : b) : std::max(a, b); }
I rdiv(I a, I b) {  // floor
  I q = a / b;
  return (a % b && (a < 0) != (b < 0)) ? q - 1 : q;
}
I ipow(I x, I y) {
  if (y < 0) return x == 1 ? 1 : x == -1 ? (y % 2 ? -1 : 1) : 0;
  U r = 1, b = static_cast<U>(x);
  for (; y; y >>= 1, b *= b)
    if (y & 1) r *= b;
  return static_cast<I>(r);
}

struct Op2 {
  const char* name;
  Value (*fn)(SPUContext*, const Value&, const Value&);
  int types;  // 1 integers, 2 fixed point, 4 mixed, 8 only equal types, 16 i1
  bool wide;
  int res;  // 0 common type, 1 bool, 2 type of the first operand
  Ref2 ref;
};
std::vector<Op2> ops2() {
  return {
      {"add", hlo::Add, 7, true, 0, [](I a, I b) { return a + b; }},
      {"sub", hlo::Sub, 7, true, 0, [](I a, I b) { return a - b; }},
      {"mul", hlo::Mul, 7, false, 0, nullptr},
      {"equal", hlo::Equal, 7 | 16, true, 1, [](I a, I b) { return I(a == b); }},
      {"not equal", hlo::NotEqual, 7 | 16, true, 1, [](I a, I b) { return I(a != b); }},
      {"less", hlo::Less, 7 | 16, true, 1, [](I a, I b) { return I(a < b); }},
      {"less equal", hlo::LessEqual, 7, true, 1, [](I a, I b) { return I(a <= b); }},
      {"greater", hlo::Greater, 7, true, 1, [](I a, I b) { return I(a > b); }},
      {"greater equal", hlo::GreaterEqual, 7, true, 1, [](I a, I b) { return I(a >= b); }},
      {"max", hlo::Max, 3 | 8 | 16, true, 0, [](I a, I b) { return std::max(a, b); }},
      {"min", hlo::Min, 3 | 8 | 16, true, 0, [](I a, I b) { return std::min(a, b); }},
      {"and", hlo::And, 1 | 8 | 16, true, 2, [](I a, I b) { return a & b; }},
      {"or", hlo::Or, 1 | 8 | 16, true, 2, [](I a, I b) { return a | b; }},
      {"xor", hlo::Xor, 1 | 8 | 16, true, 2, [](I a, I b) { return a ^ b; }},
  };
}
std::vector<std::pair<DataType, DataType>> pairs(const Conf& c, int types) {
  std::vector<std::pair<DataType, DataType>> r;
  const bool f32 = c.rc.field == FM32;
  std::vector<DataType> is = {DT_I8, DT_U8, DT_I16, DT_U16, DT_I32, DT_U32};
  if (!f32) is.push_back(DT_I64), is.push_back(DT_U64);
  const std::vector<DataType> fs = {DT_F16, DT_F32, DT_F64};
  if (types & 1)
    for (auto a : is)
      for (auto b : is)
        if (a == b || (!(types & 8) && (a == DT_I32 || b == DT_I32))) r.push_back({a, b});
  if (types & 2) {
    r.push_back({DT_F32, DT_F32});
    r.push_back({DT_F64, DT_F64});
    r.push_back({DT_F16, DT_F16});
    if (!(types & 8)) r.push_back({DT_F32, DT_F64}), r.push_back({DT_F64, DT_F32});
  }
  if (types & 4)
    for (auto b : {DT_I8, DT_I32}) r.push_back({DT_F32, b}), r.push_back({b, DT_F64});
  if (types & 16) r.push_back({DT_I1, DT_I1});
  return r;
}
void binary(const Conf& c) {
  const auto ks = kindsOf(c);
  for (auto& op : ops2())
    vh::unit(fmt::format("{}/{}", op.name, c.str()), [=] {
      Net net(c);
      const int f = c.rc.fxp_fraction_bits;
      size_t n = 0;
      for (auto& [da, db] : pairs(c, op.types)) {
        const bool mixed = isF(da) != isF(db);
        const bool all = (da == DT_I32 && db == DT_I32) || (da == DT_F32 && db == DT_F32) || vh::thorough();
        // integers promoted to fixed point must stay in range
        auto aa = alphabet(c, da, op.wide && !mixed), ab = alphabet(c, db, op.wide && !mixed);
        if (!op.wide && c.rc.field == FM32)
          for (auto* x : {&aa, &ab})
            x->erase(std::remove_if(x->begin(), x->end(), [](int64_t v) { return std::abs(v) > 33000; }), x->end());
        if (mixed && c.rc.field == FM32) {  // 32 - 8 fraction bits
          for (auto* x : {&aa, &ab})
            x->erase(std::remove_if(x->begin(), x->end(), [](int64_t v) { return std::abs(v) > 40000; }), x->end());
        }
        auto g = product({aa, ab});
        if (!op.ref)  // products stay in range before they are truncated
          for (size_t i = 0; i < g.n; ++i)
            if (I p = I(g.t[0].v[i]) * g.t[1].v[i]; c.rc.field == FM64 && (p < 0 ? -p : p) >= I(1) << 61) g.t[1].v[i] = 1;
        for (char ka : ks)
          for (char kb : ks) {
            ++n;
            if (!all && n % 7 >= 2) continue;
            In a{ka, da, g.t[0], n % 3 ? kStrided : kCompact, {}}, b{kb, db, g.t[1], n % 4 ? kReversed : kStrided, {}};
            auto w = fmt::format("{} {}{} {}{}", op.name, nm(da), ka, nm(db), kb);
            auto o = exec(net, w, {a, b}, [&](SPUContext* cx, auto& v) { return Vals{op.fn(cx, v[0], v[1])}; });
            const auto dt = op.res == 1 ? DT_I1 : op.res == 2 ? da : common(da, db);
            const bool fmul = !op.ref && isF(da) && isF(db);
            near(net, w, {a, b}, o[0], dt, [&](auto& x) {
              I p = x[0], q = x[1];
              if (!op.ref) return fmul ? (p * q) >> f : p * q;
              if (mixed) (isF(da) ? q : p) <<= f;
              return op.ref(p, q);
            }, fmul ? 2 : 0);
          }
      }
    });
}

struct Op1 {
  const char* name;
  std::function<Value(SPUContext*, const Value&)> fn;
  int types;
  std::function<I(I, I one, int width)> ref;
  int tol = 0;
};
std::vector<Op1> ops1() {
  auto fl = [](I a, I one) { return rdiv(a, one) * one; };
  return {
      {"negate", hlo::Neg, 3, [](I a, I, int) { return -a; }},
      {"abs", hlo::Abs, 3, [](I a, I, int) { return a < 0 ? -a : a; }},
      {"floor", hlo::Floor, 2, [=](I a, I one, int) { return fl(a, one); }},
      {"ceil", hlo::Ceil, 2, [=](I a, I one, int) { return -fl(-a, one); }},
      {"round half away", hlo::Round_AFZ, 2, [=](I a, I one, int) { return a < 0 ? -fl(-a + one / 2, one) : fl(a + one / 2, one); }},
      {"round half even", hlo::Round_RNTE, 2,
       [=](I a, I one, int) {
         I lo = fl(a, one), r = a - lo;
         if (r * 2 > one || (r * 2 == one && (lo / one) % 2)) lo += one;
         return lo;
       }},
      {"sign", [](SPUContext* c, const Value& x) { return hlo::Sign(c, x, false); }, 1, [](I a, I, int) { return I(a > 0) - I(a < 0); }},
      {"sign without zero", [](SPUContext* c, const Value& x) { return hlo::Sign(c, x, true); }, 1, [](I a, I, int) { return I(a < 0 ? -1 : 1); }},
      {"sign", [](SPUContext* c, const Value& x) { return hlo::Sign(c, x, false); }, 2, [](I a, I o, int) { return (I(a > 0) - I(a < 0)) * o; }},
      {"sign without zero", [](SPUContext* c, const Value& x) { return hlo::Sign(c, x, true); }, 2, [](I a, I o, int) { return a < 0 ? -o : o; }},
      {"not", hlo::Not, 1, [](I a, I, int) { return ~a; }},
      {"not", hlo::Not, 16, [](I a, I, int) { return I(1) - a; }},
      {"popcnt", hlo::Popcnt, 1 | 16,
       [](I a, I, int width) {
         I n = 0;
         for (int i = 0; i < width; ++i) n += a >> i & 1;
         return n;
       }},
      {"square", hal::square, 1, [](I a, I, int) { return a * a; }},
      {"square", hal::square, 2, [](I a, I one, int) { return rdiv(a * a, one); }, 2},
  };
}
std::vector<DataType> singles(const Conf& c, int types) {
  std::vector<DataType> r;
  for (auto& p : pairs(c, types | 8))
    if (p.first == p.second) r.push_back(p.first);
  return r;
}
int widthOf(DataType d) {
  switch (d) {
    case DT_I1: return 1;
    case DT_I8: case DT_U8: return 8;
    case DT_I16: case DT_U16: case DT_F16: return 16;
    case DT_I32: case DT_U32: case DT_F32: return 32;
    default: return 64;
  }
}
void unary(const Conf& c) {
  const auto ks = kindsOf(c);
  vh::unit("unary/" + c.str(), [=] {
    Net net(c);
    const I one = I(1) << c.rc.fxp_fraction_bits;
    size_t n = 0;
    for (auto& op : ops1())
      for (auto d : singles(c, op.types)) {
        const bool sq = std::string(op.name) == "square";
        if (sq && c.rc.field == FM32 && d == DT_U16) continue;
        auto a = alphabet(c, d, !sq);
        if (sq && c.rc.field == FM64)
          a.erase(std::remove_if(a.begin(), a.end(), [](int64_t v) { return I(v) * v >= I(1) << 61; }), a.end());
        if (isF(d) && !sq)  // every fraction at a step, around two integers
          for (int64_t i = -40; i <= 40; ++i) a.push_back(static_cast<int64_t>(i * one / 16 + (i % 3)));
        for (char k : ks) {
          ++n;
          In x{k, d, T{{static_cast<int64_t>(a.size())}, a}, n % 3 ? kStrided : kReversed, {}};
          auto w = fmt::format("{} {}{}", op.name, nm(d), k);
          auto o = exec(net, w, {x}, [&](SPUContext* cx, auto& v) { return Vals{op.fn(cx, v[0])}; });
          near(net, w, {x}, o[0], d, [&](auto& v) { return op.ref(v[0], one, widthOf(d)); }, op.tol);
        }
      }
  });
}
void ternary(const Conf& c) {
  const auto ks = kindsOf(c);
  vh::unit("select/" + c.str(), [=] {
    Net net(c);
    size_t n = 0;
    for (auto d : singles(c, 1 | 2 | 16))
      for (char kp : ks)
        for (char ka : ks)
          for (char kb : ks) {
            if (++n % 3 && !vh::thorough() && d != DT_F32) continue;
            auto al = alphabet(c, d, true);
            if (c.rc.field == FM32 || true) al.resize(std::min<size_t>(al.size(), 9));
            auto g = product({{0, 1}, al, al});
            In p{kp, DT_I1, g.t[0], n % 2 ? kCompact : kStrided, {}}, a{ka, d, g.t[1], kStrided, {}}, b{kb, d, g.t[2], n % 3 ? kReversed : kCompact, {}};
            auto w = fmt::format("select {} {}{}{}", nm(d), kp, ka, kb);
            auto o = exec(net, w, {p, a, b}, [&](SPUContext* cx, auto& v) { return Vals{hlo::Select(cx, v[0], v[1], v[2])}; });
            near(net, w, {p, a, b}, o[0], d, [&](auto& v) { return v[0] ? v[1] : v[2]; }, 0);
          }
    // complex
    for (char kp : ks)
      for (char ka : ks) {
        if (ka == 'b') continue;
        In p{kp, DT_I1, T{{4}, {0, 1, 1, 0}}, kCompact, {}}, a{ka, DT_F32, T::iota({4}), kStrided, {5, 6, 7, 8}}, b{ka, DT_F32, T::iota({4}, -9), kReversed, {-1, -2, -3, -4}};
        auto w = fmt::format("complex select {}{}", kp, ka);
        auto o = exec(net, w, {p, a, b}, [&](SPUContext* cx, auto& v) {
          auto s = hlo::Select(cx, v[0], v[1], v[2]);
          return Vals{s, hlo::Real(cx, s), hlo::Imag(cx, s), hlo::Complex(cx, hlo::Imag(cx, v[1]), hlo::Real(cx, v[1]))};
        });
        T re = b.t, im{{4}, b.im};
        for (int i : {1, 2}) re.v[i] = a.t.v[i], im.v[i] = a.im[i];
        expectT(net, w, o[0], re, DT_F32);
        VH_CHECK(o[0].im == im.v, "{} {}: imaginary part", c.str(), w);
        expectT(net, w, o[1], re, DT_F32);
        expectT(net, w, o[2], im, DT_F32);
        VH_CHECK(o[3].v == a.im && o[3].im == a.t.v, "{} {}: complex of parts", c.str(), w);
      }
  });
  vh::unit("clamp/" + c.str(), [=] {
    Net net(c);
    size_t n = 0;
    for (auto d : singles(c, 3))
      for (char kx : ks)
        for (char kl : ks) {
          if (++n % 2 && !vh::thorough() && d != DT_F32) continue;
          const char kh = ks[n % ks.size()];
          auto al = alphabet(c, d, true);
          auto bd = alphabet(c, d, false);
          bd.resize(std::min<size_t>(bd.size(), 6));
          auto g = product({al, bd, bd});
          In x{kx, d, g.t[0], kStrided, {}}, lo{kl, d, g.t[1], kCompact, {}}, hi{kh, d, g.t[2], n % 3 ? kReversed : kCompact, {}};
          for (size_t i = 0; i < g.n; ++i)
            if (lo.t.v[i] > hi.t.v[i]) std::swap(lo.t.v[i], hi.t.v[i]);
          auto w = fmt::format("clamp {} {}{}{}", nm(d), kx, kl, kh);
          auto o = exec(net, w, {x, lo, hi}, [&](SPUContext* cx, auto& v) { return Vals{hlo::Clamp(cx, v[0], v[1], v[2])}; });
          near(net, w, {x, lo, hi}, o[0], d, [&](auto& v) { return std::min(std::max(v[0], v[1]), v[2]); }, 0);
        }
  });
}
void shifts(const Conf& c) {
  const auto ks = kindsOf(c);
  for (int op = 0; op < 3; ++op)
    vh::unit(fmt::format("{}/{}", op == 0 ? "shift left" : op == 1 ? "shift right" : "shift right arithmetic", c.str()), [=] {
      Net net(c);
      size_t n = 0;
      for (auto d : c.rc.field == FM32 ? std::vector<DataType>{DT_I8, DT_I16, DT_I32} : std::vector<DataType>{DT_I8, DT_I16, DT_I32, DT_I64})
        for (char kx : ks)
          for (char kb : ks) {
            ++n;
            if (kb != 'p' && d == DT_I64 && n % 4 && !vh::thorough()) continue;
            const int wd = widthOf(d);
            std::vector<int64_t> x = {0, 1, 5, 100, 77};
            if (op != 1) x.insert(x.end(), {-1, -2, -77, -128});  // a logical shift of a negative number depends on the ring
            std::vector<int64_t> s;
            for (int i = 0; i < wd; ++i)
              if (i < 9 || i % 8 == 7 || i % 16 == 1) s.push_back(i);
            auto g = product({x, s});
            In a{kx, d, g.t[0], n % 2 ? kStrided : kCompact, {}}, b{kb, n % 3 ? d : DT_I32, g.t[1], n % 3 ? kReversed : kCompact, {}};
            if (op == 0 && wd > 32)  // products stay below 2^63
              for (size_t i = 0; i < g.n; ++i)
                if (g.t[1].v[i] > 40) a.t.v[i] = g.t[1].v[i] > 62 ? 0 : a.t.v[i] & 1;
            auto w = fmt::format("shift {} {}{}{}", op, nm(d), kx, kb);
            auto o = exec(net, w, {a, b}, [&](SPUContext* cx, auto& v) {
              return Vals{op == 0 ? hlo::Lshift(cx, v[0], v[1]) : op == 1 ? hlo::Rshift(cx, v[0], v[1]) : hlo::ARshift(cx, v[0], v[1])};
            });
            const int rk = bitsOf(c.rc.field);
            near(net, w, {a, b}, o[0], d, [&](auto& v) {
              if (op) return v[0] >> static_cast<int>(v[1]);
              return static_cast<I>(sgn(static_cast<U>(v[0]) << static_cast<int>(v[1]) & maskOf(rk), rk));
            }, 0);
          }
    });
}
void division(const Conf& c) {
  const auto ks = kindsOf(c);
  vh::unit("integer division/" + c.str(), [=] {
    Net net(c);
    size_t n = 0;
    std::vector<int64_t> x = {0, 1, -1, 2, 3, -5, 7, 10, 31, -32, 100, -99}, y = {1, -1, 2, -2, 3, 5, -7, 10, 31, 32};
    if (c.rc.field != FM32) {
      x.insert(x.end(), {255, 256, 1000, -1023, 1024});
      y.insert(y.end(), {33, -100, 500, 1000});
    }
    for (auto d : {DT_I8, DT_I16, DT_I32, DT_I64})
      for (char ka : ks)
        for (char kb : ks) {
          if (d == DT_I64 && c.rc.field == FM32) continue;
          ++n;
          if (!vh::thorough() && d != DT_I32 && n % 4) continue;
          auto g = product({x, y});
          In a{ka, d, g.t[0], kStrided, {}}, b{kb, d, g.t[1], n % 3 ? kReversed : kCompact, {}};
          auto w = fmt::format("division {} {}{}", nm(d), ka, kb);
          auto o = exec(net, w, {a, b}, [&](SPUContext* cx, auto& v) { return Vals{hlo::Div(cx, v[0], v[1]), hlo::Remainder(cx, v[0], v[1])}; });
          near(net, w, {a, b}, o[0], d, [&](auto& v) { return v[0] / v[1]; }, 0);
          near(net, w + " remainder", {a, b}, o[1], d, [&](auto& v) { return v[0] % v[1]; }, 0);
        }
  });
  vh::unit("integer power/" + c.str(), [=] {
    Net net(c);
    size_t n = 0;
    for (auto d : {DT_I8, DT_I32, DT_I64})
      for (char ka : ks)
        for (char kb : ks) {
          if (d == DT_I64 && c.rc.field == FM32) continue;
          ++n;
          if (!vh::thorough() && d != DT_I32 && n % 4) continue;
          auto g = product({{0, 1, -1, 2, -2, 3, -3, 7}, {0, 1, 2, 3, 5, 8, 10, -1, -2, -3}});
          In a{ka, d, g.t[0], kStrided, {}}, b{kb, d, g.t[1], n % 3 ? kReversed : kCompact, {}};
          for (size_t i = 0; i < g.n; ++i)  // 0 to a negative power is undefined
            if (a.t.v[i] == 0 && b.t.v[i] < 0) b.t.v[i] = 4;
          auto w = fmt::format("power {} {}{}", nm(d), ka, kb);
          auto o = exec(net, w, {a, b}, [&](SPUContext* cx, auto& v) { return Vals{hlo::Power(cx, v[0], v[1])}; });
          near(net, w, {a, b}, o[0], d, [&](auto& v) { return ipow(v[0], v[1]); }, 0);
        }
  });
}
void casts(const Conf& c) {
  const auto ks = kindsOf(c);
  vh::unit("cast/" + c.str(), [=] {
    Net net(c);
    const int f = c.rc.fxp_fraction_bits;
    size_t n = 0;
    auto from = singles(c, 1 | 2 | 16);
    for (auto a : from)
      for (auto b : from) {
        if (b == DT_I1 && a != DT_I1) continue;          // conversion to a boolean is a comparison
        if (isF(a) && b == DT_F16 && a != b) continue;   // refused
        for (char k : ks)
          for (auto vis : {VIS_PUBLIC, VIS_SECRET}) {
            ++n;
            auto al = alphabet(c, a, isF(a) == isF(b));
            if (isF(a) && !isF(b))
              for (int64_t i = -40; i <= 40; ++i) al.push_back((i << f) / 16 + i % 3);
            if (!isF(a) && isF(b))
              al.erase(std::remove_if(al.begin(), al.end(), [&](int64_t v) { return std::abs(v) > (c.rc.field == FM32 ? 1 << 22 : 1 << 22); }), al.end());
            In x{k, a, T{{static_cast<int64_t>(al.size())}, al}, n % 3 ? kStrided : kReversed, {}};
            auto w = fmt::format("cast {}{} to {} {}", nm(a), k, nm(b), vis == VIS_PUBLIC ? "public" : "secret");
            auto o = exec(net, w, {x}, [&](SPUContext* cx, auto& v) { return Vals{hlo::Cast(cx, v[0], vis, b)}; });
            VH_CHECK(o[0].vis == vis, "{} {}: visibility {}", c.str(), w, int(o[0].vis));
            near(net, w, {x}, o[0], b, [&](auto& v) {
              if (isF(a) && !isF(b)) return v[0] / (I(1) << f);  // towards zero
              return isF(b) && !isF(a) ? v[0] << f : v[0];
            }, 0);
          }
      }
  });
  vh::unit("visibility/" + c.str(), [=] {
    Net net(c);
    for (char k : ks)
      for (auto d : {DT_I32, DT_F32, DT_I1})
        for (int lay : {kCompact, kStrided, kReversed}) {
          auto al = alphabet(c, d, true);
          In x{k, d, T{{static_cast<int64_t>(al.size())}, al}, lay, {}};
          auto w = fmt::format("visibility {}{} layout {}", nm(d), k, lay);
          std::vector<std::vector<int64_t>> owner(c.npc);
          auto o = exec(net, w, {x}, [&](SPUContext* cx, auto& v) {
            Vals r = {hlo::Bitcast(cx, v[0], d)};
            if (k != 's' && k != 'a' && k != 'b') r.push_back(hlo::Seal(cx, v[0]));
            if (k != 'p') {
              r.push_back(hlo::Reveal(cx, v[0]));
              for (size_t q = 0; q < c.npc; ++q) r.push_back(hlo::RevealTo(cx, v[0], q));
            }
            for (auto& y : r) owner[cx->lctx()->Rank()].push_back(y.isPrivate() ? y.owner() : -1);
            return r;
          });
          for (auto& y : o) expectT(net, w, y, x.t, d);
          for (auto& ow : owner) {
            VH_CHECK(ow == owner[0], "{} {}: parties disagree on owners", c.str(), w);
            if (k != 'p')
              for (size_t q = 0; q < c.npc; ++q)
                VH_CHECK(ow[ow.size() - c.npc + q] == static_cast<int64_t>(q), "{} {}: revealed to {} instead of {}", c.str(), w, ow[ow.size() - c.npc + q], q);
          }
          for (size_t q = 0; q < o.size(); ++q)
            VH_CHECK(q == 0 || o[q].vis == (owner[0][q] >= 0 ? VIS_PRIVATE : (q == 1 && k != 's' && k != 'a' && k != 'b') ? VIS_SECRET : VIS_PUBLIC),
                     "{} {}: visibility of result {}", c.str(), w, q);
        }
  });
}
}  // namespace

void vh_units() {
  std::vector<Conf> cs = hloConfs({FM64, FM32, FM128});
  // other precisions than the default ones
  for (auto& [f, bits] : std::vector<std::pair<FieldType, int>>{{FM128, 40}, {FM64, 10}, {FM64, 24}})
    for (auto c : hloConfs({f}))
      if (c.name == "semi2k" || vh::thorough()) {
        c.rc.fxp_fraction_bits = bits;
        c.name += fmt::format("-f{}", bits);
        cs.push_back(c);
      }
  for (auto& c : cs) {
    const bool def = c.name.find("-f") == std::string::npos;
    if (c.name == "ref2k" && c.rc.field == FM32) continue;
    binary(c);
    unary(c);
    casts(c);
    if (def || vh::thorough()) {
      ternary(c);
      shifts(c);
    }
    division(c);
  }
}
