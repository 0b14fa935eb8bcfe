// C02: plaintext buffers and their fixed point encoding.  Every value of the
// narrow plaintext types, a boundary alphabet of the wide ones, in every
// field, fraction width and layout, against exact integer arithmetic.
#include <cfenv>
#include <cmath>
#include <cstring>
#include <limits>
#include <set>

#include "venv/env.h"
#include "vh/vh.h"

#include "libspu/core/encoding.h"
#include "libspu/core/pt_buffer_view.h"
#include "libspu/core/type_util.h"
using namespace spu;

namespace {
using I = __int128;
using Half = half_float::half;

int bitsOf(FieldType f) { return f == FM32 ? 32 : f == FM64 ? 64 : 128; }
const char* fn(FieldType f) { return f == FM32 ? "FM32" : f == FM64 ? "FM64" : "FM128"; }

// Layouts of a list of values: compact, every other slot, reversed, a
// transposed matrix, a repeated scalar row, offset columns.
struct Layout {
  std::string name;
  Shape shape;
  Strides strides;
  std::vector<int64_t> slot;  // where element i lives
  int64_t slots = 0;
};
std::vector<Layout> layouts(int64_t n) {
  std::vector<Layout> out;
  auto mk = [&](std::string name, Shape sh, Strides st) {
    Layout l{std::move(name), sh, st, {}, 0};
    int64_t lo = 0, hi = 0;
    std::vector<int64_t> ix(sh.size(), 0);
    for (int64_t i = 0; i < sh.numel(); ++i) {
      int64_t o = 0;
      for (size_t d = 0; d < sh.size(); ++d) o += ix[d] * st[d];
      l.slot.push_back(o);
      lo = std::min(lo, o);
      hi = std::max(hi, o);
      for (int d = static_cast<int>(sh.size()) - 1; d >= 0; --d) {
        if (++ix[d] < sh[d]) break;
        ix[d] = 0;
      }
    }
    for (auto& s : l.slot) s -= lo;
    l.slots = hi - lo + 1;
    out.push_back(l);
  };
  mk("compact", {n}, {1});
  mk("every other", {n}, {2});
  mk("reversed", {n}, {-1});
  if (n % 2 == 0) {
    mk("matrix", {n / 2, 2}, {2, 1});
    mk("transposed", {n / 2, 2}, {1, n / 2});
    mk("padded rows", {n / 2, 1, 2}, {3, 3, 1});
    mk("reversed columns", {2, n / 2}, {n, -2});
    mk("size 1 axis with a stride", {1, n}, {n, 1});
  }
  return out;
}

struct Buf {
  std::vector<uint8_t> mem;
  int64_t base = 0;
};

template <class T>
PtBufferView viewOf(std::vector<uint8_t>& mem, const Layout& l, const std::vector<T>& v) {
  mem.assign(l.slots * sizeof(T), 0xa5);
  for (size_t i = 0; i < v.size(); ++i) {
    T t = v[i];
    std::memcpy(&mem[l.slot[i] * sizeof(T)], &t, sizeof(T));
  }
  return PtBufferView(mem.data() + (v.empty() ? 0 : l.slot[0] * sizeof(T)), PtTypeToEnum<T>::value, l.shape,
                      l.strides);
}

I ringAt(const NdArrayRef& a, int64_t i, int k) {
  I v = 0;
  std::memcpy(&v, a.buf()->data<uint8_t>() + a.offset() + i * (k / 8), k / 8);
  if (k < 128 && (v >> (k - 1)) & 1) v |= ~I(0) << (k - 1);
  return v;
}
std::string str(I v) {
  bool neg = v < 0;
  unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
  std::string s;
  do s.insert(s.begin(), char('0' + int(u % 10)));
  while ((u /= 10) != 0);
  return (neg ? "-" : "") + s;
}

template <class T>
struct Fl;
template <>
struct Fl<Half> {
  static constexpr int p = 11;
  static constexpr int emin = -24;
};
template <>
struct Fl<float> {
  static constexpr int p = 24;
  static constexpr int emin = -149;
};
template <>
struct Fl<double> {
  static constexpr int p = 53;
  static constexpr int emin = -1074;
};
template <class T>
long double big(T v) {
  return static_cast<long double>(static_cast<double>(v));
}

// The encoded word of x, as exact arithmetic says.
template <class T>
void checkFloat(T x, I enc, int k, int f, const std::string& at) {
  const I hi = (I(1) << (k - 2)) - 1, lo = -(I(1) << (k - 2));
  double d = static_cast<double>(x);
  if (std::isnan(d)) {
    VH_CHECK(enc == 0, "{}: NaN encodes to {}", at, str(enc));
    return;
  }
  long double e = std::isinf(d) ? (d > 0 ? ldexpl(1, 200) : -ldexpl(1, 200)) : ldexpl(big(x), f);
  if (e >= ldexpl(1, k - 2)) {
    // saturated; the bound itself may only be known to the type's precision
    I slack = k - 2 > 53 ? (I(1) << (k - 2 - 53)) : 0;
    VH_CHECK(enc <= hi && enc >= hi - slack, "{}: {} encodes to {}, not to the largest value", at, d, str(enc));
  } else if (e < -ldexpl(1, k - 2)) {
    VH_CHECK(enc == lo, "{}: {} encodes to {}, not to the smallest value", at, d, str(enc));
  } else {
    I t = static_cast<I>(truncl(e));
    if (static_cast<long double>(t) == e) {
      VH_CHECK(enc == t || (t > hi && enc == hi), "{}: {} encodes to {} expected {}", at, d, str(enc), str(t));
    } else {
      I t2 = e > 0 ? t + 1 : t - 1;
      VH_CHECK(enc == t || (enc == t2 && enc <= hi && enc >= lo), "{}: {} encodes to {} expected {}", at, d,
               str(enc), str(t));
    }
  }
}

// The plain value of word x, to the precision of the type.
template <class T>
void checkDecoded(I x, T got, int f, const std::string& at) {
  long double want = ldexpl(static_cast<long double>(x), -f);
  double g = static_cast<double>(got);
  long double mag = fabsl(want);
  const long double maxv = big(std::numeric_limits<T>::max());
  if (mag > maxv) {
    VH_CHECK((std::isinf(g) || fabs(g) == maxv) && (g > 0) == (want > 0), "{}: word {} decodes to {}", at, str(x), g);
    return;
  }
  int ex = mag == 0 ? -20000 : ilogbl(mag);
  long double ulp = ldexpl(1, std::max(ex - (Fl<T>::p - 1), Fl<T>::emin));
  long double tol = mag == 0 ? 0 : ulp;
  VH_CHECK(!std::isnan(g) && fabsl(static_cast<long double>(g) - want) <= tol, "{}: word {} decodes to {} expected {}",
           at, str(x), g, static_cast<double>(want));
  // exact when representable
  if (mag != 0 && fmodl(mag, ulp) == 0 && mag <= maxv)
    VH_CHECK(static_cast<long double>(g) == want, "{}: word {} decodes to {} expected {}", at, str(x), g,
             static_cast<double>(want));
}

// Encode the values v in every layout and decode into every layout.
template <class T>
void roundTrip(const std::vector<T>& v, FieldType field, int f, bool all_layouts) {
  const int k = bitsOf(field);
  const PtType pt = PtTypeToEnum<T>::value;
  auto ls = layouts(v.size());
  for (size_t li = 0; li < ls.size(); ++li) {
    if (!all_layouts && li > 0) break;
    const auto& l = ls[li];
    std::string at = fmt::format("{} {} fxp={} {}", pt, fn(field), f, l.name);
    vh::where(at);
    std::vector<uint8_t> mem;
    auto bv = viewOf(mem, l, v);
    const auto before = mem;
    DataType dt = DT_INVALID;
    NdArrayRef enc = encodeToRing(bv, field, f, &dt);
    VH_CHECK(mem == before, "{}: encoding changed its source", at);
    VH_CHECK(dt == getEncodeType(pt) && getDecodeType(dt) == pt, "{}: data type {}", at, dt);
    VH_CHECK(enc.shape() == l.shape, "{}: shape {}", at, enc.shape());
    VH_CHECK(enc.eltype() == makeType<RingTy>(field), "{}: type {}", at, enc.eltype());
    VH_CHECK(enc.isCompact(), "{}: not compact", at);
    for (size_t i = 0; i < v.size(); ++i) {
      I w = ringAt(enc, i, k);
      if constexpr (std::is_integral_v<T>) {
        I want = static_cast<I>(v[i]);
        if (k < 128) {
          I m = (I(1) << k) - 1;
          want &= m;
          if ((want >> (k - 1)) & 1) want |= ~m;
        }
        VH_CHECK(w == want, "{}: element {}: {} encodes to {}", at, i, str(static_cast<I>(v[i])), str(w));
      } else {
        checkFloat<T>(v[i], w, k, f, at);
      }
      uint64_t key = 0;
      T tt = v[i];
      std::memcpy(&key, &tt, std::min(sizeof(T), sizeof key));
      vh::eval(key * 1000003 + f * 64 + static_cast<int>(field) * 7 + li + (uint64_t)pt * 977);
    }
    // decode into every layout, and from a reversed view
    for (size_t lo = 0; lo < ls.size(); ++lo) {
      if (!all_layouts && lo > 0) break;
      const auto& o = ls[lo];
      NdArrayRef src = enc;
      if (o.shape != l.shape) src = enc.reshape(o.shape);
      for (int rev = 0; rev < 2; ++rev) {
        NdArrayRef s = src;
        if (rev == 1) {
          Axes ax;
          for (size_t d = 0; d < o.shape.size(); ++d) ax.push_back(d);
          s = src.reverse(ax);
        }
        std::vector<uint8_t> out(o.slots * sizeof(T), 0x5a);
        PtBufferView ov(out.data() + o.slot[0] * sizeof(T), pt, o.shape, o.strides);
        PtType got_pt = PT_INVALID;
        decodeFromRing(s, dt, f, &ov, &got_pt);
        VH_CHECK(got_pt == pt, "{}: decoded type {}", at, got_pt);
        std::vector<bool> touched(o.slots, false);
        for (size_t i = 0; i < v.size(); ++i) {
          T r;
          touched[o.slot[i]] = true;
          std::memcpy(&r, &out[o.slot[i] * sizeof(T)], sizeof(T));
          size_t from = rev ? v.size() - 1 - i : i;
          if constexpr (std::is_integral_v<T>) {
            VH_CHECK(r == v[from], "{} into {}: element {}: {} became {}", at, o.name, i, str(static_cast<I>(v[from])),
                     str(static_cast<I>(r)));
          } else {
            checkDecoded<T>(ringAt(enc, from, k), r, f, at + " into " + o.name);
          }
        }
        for (int64_t t = 0; t < o.slots; ++t)
          if (!touched[t])
            for (size_t b = 0; b < sizeof(T); ++b)
              VH_CHECK(out[t * sizeof(T) + b] == 0x5a, "{} into {}: decoding wrote between the elements", at, o.name);
      }
      vh::add("decodings");
    }
  }
}

// Decoding arbitrary words, also those no encoding produces.
template <class T>
void decodeWords(FieldType field, int f) {
  const int k = bitsOf(field);
  std::vector<I> w;
  for (int b = 0; b < k; ++b)
    for (int d = -2; d <= 2; ++d)
      for (int sg : {1, -1}) {
        I x = static_cast<I>((static_cast<unsigned __int128>(1) << b) + d) * sg;
        if (k < 128) {
          I m = (I(1) << k) - 1;
          x &= m;
          if ((x >> (k - 1)) & 1) x |= ~m;
        }
        w.push_back(x);
      }
  for (I x : {I(0x123456789abcdef), I(-0x7654321fedcba98)}) {
    if (k == 32) x = static_cast<int32_t>(x);
    w.push_back(x);
  }
  NdArrayRef a(makeType<RingTy>(field), {static_cast<int64_t>(w.size())});
  for (size_t i = 0; i < w.size(); ++i) std::memcpy(a.data<uint8_t>() + i * (k / 8), &w[i], k / 8);
  const PtType pt = PtTypeToEnum<T>::value;
  std::vector<uint8_t> out(w.size() * sizeof(T));
  PtBufferView ov(out.data(), pt, {static_cast<int64_t>(w.size())}, {1});
  decodeFromRing(a, getEncodeType(pt), f, &ov);
  std::string at = fmt::format("decoding {} {} fxp={}", pt, fn(field), f);
  for (size_t i = 0; i < w.size(); ++i) {
    T r;
    std::memcpy(&r, &out[i * sizeof(T)], sizeof(T));
    if constexpr (std::is_same_v<T, bool>) {
      VH_CHECK(r == ((w[i] & 1) != 0), "{}: word {} gives {}", at, str(w[i]), r);
    } else if constexpr (std::is_integral_v<T>) {
      VH_CHECK(r == static_cast<T>(w[i]), "{}: word {} gives {}", at, str(w[i]), str(static_cast<I>(r)));
    } else {
      checkDecoded<T>(w[i], r, f, at);
    }
    vh::eval(static_cast<uint64_t>(w[i]) * 31 + f * 7919 + (int)field + 11 * (int)pt);
  }
}

template <class T>
std::vector<T> floats() {
  std::vector<T> v;
  if constexpr (std::is_same_v<T, Half>) {
    for (int i = 0; i < 65536; ++i) {
      uint16_t u = i;
      Half h;
      std::memcpy(&h, &u, 2);
      v.push_back(h);
    }
  } else {
    // every exponent with a set of mantissas
    using B = std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>;
    const int mb = sizeof(T) == 4 ? 23 : 52;
    const int eb = sizeof(T) == 4 ? 8 : 11;
    std::vector<B> ms = {0, 1, (B(1) << mb) - 1, B(1) << (mb - 1), (B(1) << (mb - 1)) + 1, (B(1) << (mb - 1)) - 1,
                         static_cast<B>(0x5555555555555555ULL) & ((B(1) << mb) - 1)};
    if (vh::thorough())
      for (int b = 0; b < mb; ++b) ms.push_back(((B(1) << mb) - 1) & ~(B(1) << b)), ms.push_back(B(1) << b);
    for (B s : {0, 1})
      for (int e = 0; e < (1 << eb); ++e)
        for (B m : ms) {
          B u = (s << (mb + eb)) | (static_cast<B>(e) << mb) | m;
          T t;
          std::memcpy(&t, &u, sizeof t);
          v.push_back(t);
        }
    // around the encoding bounds
    for (int k : {32, 64, 128})
      for (int f : {0, 1, 8, 18, 26, 40}) {
        T b = static_cast<T>(ldexp(1.0, k - 2 - f));
        T x = b, y = b;
        for (int i = 0; i < 3; ++i) {
          for (T t : {x, y, -x, -y}) v.push_back(t);
          x = std::nextafter(x, T(0));
          y = std::nextafter(y, std::numeric_limits<T>::infinity());
        }
      }
    for (double d : {0.1, 1.0 / 3, 3.14159, 1234.5678, 99999.999, 1e-6, 0.999999}) {
      v.push_back(static_cast<T>(d));
      v.push_back(static_cast<T>(-d));
    }
  }
  if (v.size() % 2) v.push_back(T(0));
  return v;
}
template <class T>
std::vector<T> ints() {
  std::vector<T> v;
  if constexpr (std::is_same_v<T, bool>) {
    v = {false, true, true, false};
  } else if constexpr (sizeof(T) <= 2) {
    for (int64_t i = std::numeric_limits<T>::min(); i <= std::numeric_limits<T>::max(); ++i) v.push_back(i);
  } else {
    using UT = std::make_unsigned_t<T>;
    std::set<UT> s;
    for (size_t b = 0; b < sizeof(T) * 8; ++b)
      for (int d = -3; d <= 3; ++d) {
        s.insert((UT(1) << b) + d);
        s.insert(-((UT(1) << b) + d));
      }
    for (UT u : s) v.push_back(static_cast<T>(u));
    if (v.size() % 2) v.push_back(7);
  }
  return v;
}

template <class T>
void unitsFor(const char* name) {
  for (FieldType f : {FM32, FM64, FM128}) {
    if (std::is_integral_v<T> && sizeof(T) * 8 > static_cast<size_t>(bitsOf(f))) {
      vh::unit(fmt::format("{}/{}/too wide", name, fn(f)), [=] {
        T x{};
        bool threw = false;
        try {
          encodeToRing(PtBufferView(&x, PtTypeToEnum<T>::value, {}, {}), f, 8, nullptr);
        } catch (const std::exception&) {
          threw = true;
        }
        VH_CHECK(threw, "an integer wider than the ring was accepted");
        vh::eval(1);
      });
      continue;
    }
    vh::unit(fmt::format("{}/{}", name, fn(f)), [=] {
      const int k = bitsOf(f);
      std::vector<T> v;
      if constexpr (std::is_integral_v<T>)
        v = ints<T>();
      else
        v = floats<T>();
      for (int fx : {1, 2, 8, 14, 18, 26, 40, k - 3}) {
        if (fx > k - 3) continue;
        if (std::is_integral_v<T> && fx != 8 && fx != 18) continue;
        for (int mode = 0; mode < (fx == 18 || fx == 8 ? 3 : 1); ++mode) {
          venv::g_par_mode = mode;
          if constexpr (std::is_same_v<T, bool>) {
            roundTrip<bool>({false, true, true, false}, f, fx, true);
          } else {
            roundTrip<T>(v, f, fx, false);
            // a few values in every layout
            std::vector<T> few;
            for (size_t i = 0; i < 12; ++i) few.push_back(v[(i * 7919 + 13) % v.size()]);
            roundTrip<T>(few, f, fx, true);
            roundTrip<T>({v[3], v[5]}, f, fx, true);
            roundTrip<T>({v[1]}, f, fx, true);
          }
        }
        venv::g_par_mode = 0;
        decodeWords<T>(f, fx);
      }
      vh::sample(fmt::format("{} values of {} in {}", v.size(), name, fn(f)));
    });
  }
}

// Reading a view, and converting it to an array, addresses the right elements.
template <class T>
void views() {
  const PtType pt = PtTypeToEnum<T>::value;
  for (int64_t n : {1, 2, 4, 6}) {
    std::vector<T> v;
    for (int64_t i = 0; i < n; ++i) {
      if constexpr (std::is_same_v<T, bool>)
        v.push_back(i % 3 == 1);
      else
        v.push_back(static_cast<T>(static_cast<float>(i + 1)));
    }
    for (const auto& l : layouts(n)) {
      std::vector<uint8_t> mem(l.slots * sizeof(T), 1);
      for (int64_t i = 0; i < n; ++i) {
        T t = v[i];
        std::memcpy(&mem[l.slot[i] * sizeof(T)], &t, sizeof t);
      }
      PtBufferView bv(mem.data() + l.slot[0] * sizeof(T), pt, l.shape, l.strides);
      auto a = convertToNdArray(bv);
      VH_CHECK(a.shape() == l.shape && a.eltype() == makePtType(pt) && a.isCompact(), "converted {}", bv);
      std::vector<int64_t> ix(l.shape.size(), 0);
      for (int64_t i = 0; i < n; ++i) {
        T t;
        std::memcpy(&t, a.data<uint8_t>() + i * sizeof(T), sizeof t);
        VH_CHECK(t == v[i], "{} {}: converted element {}", pt, l.name, i);
        VH_CHECK(bv.get<T>(static_cast<size_t>(i)) == v[i], "{} {}: get({})", pt, l.name, i);
        VH_CHECK(bv.get<T>(Index(ix.begin(), ix.end())) == v[i], "{} {}: get(index) {}", pt, l.name, i);
        for (int d = static_cast<int>(ix.size()) - 1; d >= 0; --d) {
          if (++ix[d] < l.shape[d]) break;
          ix[d] = 0;
        }
      }
      // writing
      for (int64_t i = 0; i < n; ++i) {
        auto copy = mem;
        PtBufferView w(copy.data() + l.slot[0] * sizeof(T), pt, l.shape, l.strides);
        T t = v[(i + 1) % n];
        w.set<T>(static_cast<size_t>(i), t);
        auto want = mem;
        std::memcpy(&want[l.slot[i] * sizeof(T)], &t, sizeof t);
        VH_CHECK(copy == want, "{} {}: set({})", pt, l.name, i);
      }
      vh::eval(vh::hash(l.name) + n * 100 + (int)pt);
    }
  }
  // empty
  for (Shape sh : {Shape{0}, Shape{2, 0}}) {
    T x{};
    auto e = convertToNdArray(PtBufferView(&x, pt, sh, makeCompactStrides(sh)));
    VH_CHECK(e.numel() == 0 && e.shape() == sh, "empty {}", sh);
    auto r = encodeToRing(PtBufferView(&x, pt, sh, makeCompactStrides(sh)), FM64, 18, nullptr);
    VH_CHECK(r.numel() == 0 && r.shape() == sh, "empty {}", sh);
    vh::eval(sh.size());
  }
}
void misc() {
  vh::unit("views", [] {
#define CASE(PT, T, _) views<T>();
    CASE(PT_I1, bool, _)
    CASE(PT_I8, int8_t, _) CASE(PT_U8, uint8_t, _) CASE(PT_I16, int16_t, _) CASE(PT_U16, uint16_t, _)
        CASE(PT_I32, int32_t, _) CASE(PT_U32, uint32_t, _) CASE(PT_I64, int64_t, _) CASE(PT_U64, uint64_t, _)
            CASE(PT_F16, Half, _) CASE(PT_F32, float, _) CASE(PT_F64, double, _)
#undef CASE
  });
  vh::unit("bit sets", [] {
    // every bit set of up to 12 (16) bits
    const int nb = vh::thorough() ? 16 : 12;
    for (int n = 1; n <= nb; ++n)
      for (int x = 0; x < (1 << n); ++x) {
        std::vector<uint8_t> mem((n + 7) / 8, 0);
        std::memcpy(mem.data(), &x, mem.size());
        PtBufferView bv(mem.data(), PT_I1, {n}, {1}, true);
        auto a = convertToNdArray(bv);
        for (int i = 0; i < n; ++i) {
          VH_CHECK(bv.getBit(i) == (x >> i & 1), "bit {} of {}", i, x);
          VH_CHECK(a.at<bool>(i) == bool(x >> i & 1), "bit {} of {} converted", i, x);
        }
        vh::eval(n * 100000 + x);
      }
  });
  vh::unit("constructors", [] {
    for (bool b : {false, true}) {
      PtBufferView v(b);
      VH_CHECK(v.pt_type == PT_I1 && v.get<bool>(0) == b && v.shape.numel() == 1, "bool view");
      auto e = encodeToRing(v, FM64, 18, nullptr);
      VH_CHECK(e.numel() == 1 && ringAt(e, 0, 64) == (b ? 1 : 0), "bool encoding");
      vh::eval(b);
    }
    for (int64_t x : {0, 1, -1, 1 << 20}) {
      PtBufferView v(x);
      VH_CHECK(v.get<int64_t>(0) == x && v.pt_type == PT_I64, "scalar view");
      vh::eval(x);
    }
    std::vector<float> f = {1.5F, -2.5F, 0};
    PtBufferView v(f);
    VH_CHECK(v.shape == Shape{3} && v.pt_type == PT_F32, "vector view");
    for (size_t i = 0; i < 3; ++i) VH_CHECK(v.get<float>(i) == f[i], "vector view element");
    vh::eval(77);
  });
}
}  // namespace

void vh_units() {
  unitsFor<bool>("I1");
  unitsFor<int8_t>("I8");
  unitsFor<uint8_t>("U8");
  unitsFor<int16_t>("I16");
  unitsFor<uint16_t>("U16");
  unitsFor<int32_t>("I32");
  unitsFor<uint32_t>("U32");
  unitsFor<int64_t>("I64");
  unitsFor<uint64_t>("U64");
  unitsFor<Half>("F16");
  unitsFor<float>("F32");
  unitsFor<double>("F64");
  misc();
}
