// C31: executing a program computes what its operations say: every operation
// and attribute form through the real executor, and all small compositions.
#define USE_REF2K
#define USE_SEMI2K
#define USE_ABY3
#include "pp.h"

using namespace vn;
using namespace spu;
using mb::arrA;
using mb::boolA;
using mb::intA;
using F = std::function<double(double)>;
using I = int64_t;

namespace {
struct Cx {
  Conf c;
  Net net;
  I one;
  explicit Cx(const Conf& cc) : c(cc), net(cc), one(I(1) << cc.rc.fxp_fraction_bits) {}
  std::string ks() const { return c.name.rfind("ref2k", 0) == 0 ? "ps" : "psa"; }
  I fx(double d) const { return static_cast<I>(std::llround(d * static_cast<double>(one))); }
  double un(I w) const { return static_cast<double>(w) / static_cast<double>(one); }
};
bool fxp(DataType d) { return d == DT_F16 || d == DT_F32 || d == DT_F64; }
In mkF(const Cx& x, char k, const Shape& s, std::vector<double> v, DataType dt = DT_F32) {
  In in{k, dt, T{s, {}}, kCompact, {}};
  for (auto d : v) in.t.v.push_back(x.fx(d));
  return in;
}
In mkI(char k, const Shape& s, std::vector<I> v, DataType dt = DT_I32) { return In{k, dt, T{s, std::move(v)}, kCompact, {}}; }
In iotaI(char k, const Shape& s, I first = 1, I step = 3) { return In{k, DT_I32, T::iota(s, first, step), kCompact, {}}; }
bool anySec(const std::vector<In>& v) {
  for (auto& x : v)
    if (x.kind != 'p') return true;
  return false;
}
void visOf(const Cx& x, const std::string& w, const Out& o, bool secret) {
  VH_CHECK((o.vis == VIS_PUBLIC) == !secret, "{} {}: visibility {}", x.c.str(), w, int(o.vis));
}
// exact integers
void same(const Cx& x, const std::string& w, const Out& o, const T& want, DataType dt) { expectT(x.net, w, o, want, dt); }
// real numbers within rel*|want| + abs
void close(const Cx& x, const std::string& w, const Out& o, const Shape& s, const std::vector<double>& want, double rel, double abs, DataType dt = DT_F32) {
  VH_CHECK(o.shape == s, "{} {}: shape {}", x.c.str(), w, o.shape);
  VH_CHECK(o.dt == dt, "{} {}: data type {}", x.c.str(), w, int(o.dt));
  for (size_t i = 0; i < want.size(); ++i)
    VH_CHECK(std::fabs(x.un(o.v[i]) - want[i]) <= rel * std::fabs(want[i]) + abs, "{} {}: element {}: {} expected {}", x.c.str(), w, i, x.un(o.v[i]), want[i]);
}

// ---- element-wise ----
void unary(Cx& x) {
  struct FU {
    const char* op;
    F f;
    std::vector<double> in;
    double rel, abs;
  };
  std::vector<FU> fs = {
      {"reciprocal", [](double a) { return 1 / a; }, {0.5, 1, -2, 4.25}, 0.01, 0.002},
      {"negate", [](double a) { return -a; }, {0, 1.25, -2.5}, 0, 0},
      {"exponential", [](double a) { return std::exp(a); }, {-1, 0, 0.5, 2}, 0.02, 0.01},
      {"exponential_minus_one", [](double a) { return std::expm1(a); }, {-1, 0, 0.5, 2}, 0.02, 0.01},
      {"log", [](double a) { return std::log(a); }, {0.5, 1, 3, 20}, 0.01, 0.01},
      {"log_plus_one", [](double a) { return std::log1p(a); }, {0, 0.5, 3, 20}, 0.01, 0.01},
      {"floor", [](double a) { return std::floor(a); }, {-1.5, -1, 0.75, 2}, 0, 0},
      {"ceil", [](double a) { return std::ceil(a); }, {-1.5, -1, 0.75, 2}, 0, 0},
      {"abs", [](double a) { return std::fabs(a); }, {-1.5, 0, 2.25}, 0, 0},
      {"logistic", [](double a) { return 1 / (1 + std::exp(-a)); }, {-2, 0, 1.5}, 0.02, 0.02},
      {"tanh", [](double a) { return std::tanh(a); }, {-2, 0, 1.5}, 0.02, 0.02},
      {"rsqrt", [](double a) { return 1 / std::sqrt(a); }, {0.5, 1, 4, 9}, 0.02, 0.005},
      {"sqrt", [](double a) { return std::sqrt(a); }, {0.5, 1, 4, 9}, 0.02, 0.005},
      {"round_nearest_afz", [](double a) { return std::round(a); }, {-2.5, -1.5, -0.25, 0.5, 1.75}, 0, 0},
      {"round_nearest_even", [](double a) { return std::nearbyint(a); }, {-2.5, -1.5, -0.25, 0.5, 1.5, 2.5}, 0, 0},
      {"sine", [](double a) { return std::sin(a); }, {-1, 0, 0.5, 2}, 0.02, 0.02},
      {"cosine", [](double a) { return std::cos(a); }, {-1, 0, 0.5, 2}, 0.02, 0.02},
  };
  for (char k : x.ks()) {
    for (auto& f : fs) {
      PM p;
      auto in = mkF(x, k, {static_cast<I>(f.in.size())}, f.in);
      auto a = p.arg(in);
      p.finish({p.add(f.op, {a}, a.getType())});
      auto w = fmt::format("{} of {}", f.op, k);
      auto o = p.run(x.net, w);
      std::vector<double> want;
      for (auto d : f.in) want.push_back(f.f(d));
      close(x, w, o[0], in.t.shape, want, f.rel, f.abs);
      visOf(x, w, o[0], k != 'p');
    }
    for (auto dt : {DT_I32, DT_F32}) {
      for (bool iz : {false, true}) {
        PM p;
        auto in = dt == DT_I32 ? mkI(k, {3}, {-5, 0, 7}) : mkF(x, k, {3}, {-1.5, 0, 0.25});
        auto a = p.arg(in);
        p.finish({p.add("sign", {a}, a.getType(), {{"ignore_zero", boolA(iz)}})});
        auto w = fmt::format("sign of {} {} ignoring zero {}", k, int(dt), iz);
        auto o = p.run(x.net, w);
        I u = dt == DT_I32 ? 1 : x.one;
        same(x, w, o[0], T{{3}, {-u, iz ? u : 0, u}}, dt);
      }
    }
    {
      PM p;
      auto a = p.arg(mkI(k, {4}, {0, 1, 255, 4096 + 7}));
      auto b = p.arg(mkI(k, {2}, {0, 1}, DT_I1));
      auto c = p.arg(mkI(k, {3}, {0, -1, 6}));
      p.finish({p.add("popcnt", {a}, a.getType()), p.add("not", {b}, b.getType()), p.add("not", {c}, c.getType())});
      auto w = fmt::format("popcnt and not of {}", k);
      auto o = p.run(x.net, w);
      same(x, w, o[0], T{{4}, {0, 1, 8, 4}}, DT_I32);
      same(x, w, o[1], T{{2}, {1, 0}}, DT_I1);
      same(x, w, o[2], T{{3}, {-1, 0, -7}}, DT_I32);
    }
  }
}

void binary(Cx& x) {
  struct BI {
    const char* op;
    std::function<I(I, I)> f;
    bool cmp;
    bool nonneg;
  };
  std::vector<BI> is = {
      {"add", [](I a, I b) { return a + b; }, false, false},
      {"subtract", [](I a, I b) { return a - b; }, false, false},
      {"multiply", [](I a, I b) { return a * b; }, false, false},
      {"divide", [](I a, I b) { return a / b; }, false, false},
      {"remainder", [](I a, I b) { return a % b; }, false, false},
      {"maximum", [](I a, I b) { return std::max(a, b); }, false, false},
      {"minimum", [](I a, I b) { return std::min(a, b); }, false, false},
      {"and", [](I a, I b) { return a & b; }, false, false},
      {"or", [](I a, I b) { return a | b; }, false, false},
      {"xor", [](I a, I b) { return a ^ b; }, false, false},
      {"equal", [](I a, I b) { return I(a == b); }, true, false},
      {"not_equal", [](I a, I b) { return I(a != b); }, true, false},
      {"less", [](I a, I b) { return I(a < b); }, true, false},
      {"less_equal", [](I a, I b) { return I(a <= b); }, true, false},
      {"greater", [](I a, I b) { return I(a > b); }, true, false},
      {"greater_equal", [](I a, I b) { return I(a >= b); }, true, false},
      {"power", [](I a, I b) { I r = 1; while (b-- > 0) r *= a; return r; }, false, true},
  };
  const std::vector<I> as = {6, -7, 5, 5, -3, 0, 100}, bs = {3, 2, 5, -5, 4, 9, 7};
  for (char k : x.ks())
    for (char l : x.ks()) {
      for (auto& f : is) {
        PM p;
        auto av = as, bv = bs;
        if (f.nonneg) {
          for (auto& v : av) v = std::min<I>(std::llabs(v), 6);
          for (auto& v : bv) v = std::llabs(v) % 5;
        }
        auto a = p.arg(mkI(k, {7}, av)), b = p.arg(mkI(l, {7}, bv));
        bool sec = k != 'p' || l != 'p';
        p.finish({p.add(f.op, {a, b}, tyOf({7}, f.cmp ? DT_I1 : DT_I32, sec))});
        auto w = fmt::format("{} of {} and {}", f.op, k, l);
        auto o = p.run(x.net, w);
        T want{{7}, {}};
        for (int i = 0; i < 7; ++i) want.v.push_back(f.f(av[i], bv[i]));
        same(x, w, o[0], want, f.cmp ? DT_I1 : DT_I32);
        visOf(x, w, o[0], sec);
      }
      struct BF {
        const char* op;
        std::function<double(double, double)> f;
        bool cmp;
        double rel, abs;
      };
      std::vector<BF> fs = {{"add", [](double a, double b) { return a + b; }, false, 0, 0},
                            {"subtract", [](double a, double b) { return a - b; }, false, 0, 0},
                            {"multiply", [](double a, double b) { return a * b; }, false, 0, 2e-5},
                            {"divide", [](double a, double b) { return a / b; }, false, 0.01, 0.002},
                            {"remainder", [](double a, double b) { return std::fmod(a, b); }, false, 0.01, 0.002},
                            {"atan2", [](double a, double b) { return std::atan2(a, b); }, false, 0.02, 0.02},
                            {"maximum", [](double a, double b) { return std::max(a, b); }, false, 0, 0},
                            {"minimum", [](double a, double b) { return std::min(a, b); }, false, 0, 0},
                            {"less", [](double a, double b) { return double(a < b); }, true, 0, 0},
                            {"greater_equal", [](double a, double b) { return double(a >= b); }, true, 0, 0},
                            {"equal", [](double a, double b) { return double(a == b); }, true, 0, 0}};
      const std::vector<double> fa = {1.5, -2.25, 3, 0.75, 5.5}, fb = {0.4375, 1.25, 2, -1.5, 2.25};
      for (auto& f : fs) {
        PM p;
        auto a = p.arg(mkF(x, k, {5}, fa)), b = p.arg(mkF(x, l, {5}, fb));
        bool sec = k != 'p' || l != 'p';
        p.finish({p.add(f.op, {a, b}, tyOf({5}, f.cmp ? DT_I1 : DT_F32, sec))});
        auto w = fmt::format("fixed-point {} of {} and {}", f.op, k, l);
        auto o = p.run(x.net, w);
        if (f.cmp) {
          T want{{5}, {}};
          for (int i = 0; i < 5; ++i) want.v.push_back(I(f.f(fa[i], fb[i])));
          same(x, w, o[0], want, DT_I1);
        } else {
          std::vector<double> want;
          for (int i = 0; i < 5; ++i) want.push_back(f.f(fa[i], fb[i]));
          close(x, w, o[0], {5}, want, f.rel, f.abs);
        }
      }
      if (l == 'p') {
        for (int op = 0; op < 3; ++op) {
          PM p;
          const char* nm[] = {"shift_left", "shift_right_arithmetic", "shift_right_logical"};
          auto a = p.arg(mkI(k, {4}, {5, 64, op == 1 ? -64 : 7, 1})), b = p.arg(mkI('p', {4}, {1, 3, 2, 0}));
          p.finish({p.add(nm[op], {a, b}, tyOf({4}, DT_I32, k != 'p'))});
          auto w = fmt::format("{} of {}", nm[op], k);
          auto o = p.run(x.net, w);
          same(x, w, o[0], op == 0 ? T{{4}, {10, 512, 28, 1}} : T{{4}, {2, 8, op == 1 ? -16 : 1, 1}}, DT_I32);
        }
      }
      // select and clamp
      {
        PM p;
        auto pr = p.arg(mkI(k, {3}, {1, 0, 1}, DT_I1)), a = p.arg(mkI(l, {3}, {10, 20, 30})), b = p.arg(mkI(k, {3}, {-1, -2, -3}));
        bool sec = k != 'p' || l != 'p';
        p.finish({p.add("select", {pr, a, b}, tyOf({3}, DT_I32, sec)),
                  p.add("clamp", {b, a, p.arg(mkI(l, {3}, {15, 15, 40}))}, tyOf({3}, DT_I32, sec))});
        auto w = fmt::format("select and clamp of {} and {}", k, l);
        auto o = p.run(x.net, w);
        same(x, w, o[0], T{{3}, {10, -2, 30}}, DT_I32);
        same(x, w, o[1], T{{3}, {10, 15, 30}}, DT_I32);
      }
      {
        PM p;
        auto b = p.arg(mkI(l, {2}, {15, 12})), a = p.arg(mkI(k, {2}, {1, 20})), lo = p.arg(mkI(k, {2}, {3, 3}));
        bool sec = k != 'p' || l != 'p';
        p.finish({p.add("clamp", {lo, a, b}, tyOf({2}, DT_I32, sec)), p.add("broadcast_as", {p.arg(mkI(k, {}, {9})), b}, tyOf({2}, DT_I32, k != 'p'))});
        auto w = fmt::format("clamp of {} and {}", k, l);
        auto o = p.run(x.net, w);
        same(x, w, o[0], T{{2}, {3, 12}}, DT_I32);
        same(x, w, o[1], T{{2}, {9, 9}}, DT_I32);
      }
    }
}

// a * constant, on both sides, of every magnitude
void mulConst(Cx& x) {
  for (char k : x.ks())
    for (bool left : {false, true})
      for (bool splat : {true, false})
        for (double mag : {0.0, 3.0, 0.25, 1e-4, 2e-5, 1.4e-5, 1e-5, 3e-6, 1e-6, 9.5e-7, 1e-7, 5e-8, 1e-12, 1e-14, 1e-16, 1e-20, 1e-35})
          for (double sg : {1.0, -1.0}) {
            if (mag == 0 && sg < 0) continue;
            const double c = mag * sg;
            PM p;
            std::vector<double> in = {0, 1, -1, 1000.5, -30000};
            auto a = p.arg(mkF(x, k, {5}, in));
            auto cv = p.add("constant", {}, tyOf({5}, DT_F32, false),
                            {{"value", mb::dense<float>({5}, mb::f(32), splat ? std::vector<float>{float(c)} : std::vector<float>(5, float(c)), splat)}});
            p.finish({p.add("multiply", left ? std::vector<mb::V>{cv, a} : std::vector<mb::V>{a, cv}, tyOf({5}, DT_F32, k != 'p'))});
            auto w = fmt::format("{} times a {} constant {} on the {}", k, splat ? "splat" : "dense", c, left ? "left" : "right");
            auto o = p.run(x.net, w);
            // resolution of the product, or of the encoded constant times the number
            for (size_t i = 0; i < in.size(); ++i) {
              const bool scaled = splat && mag > 0 && mag < 4.0 / static_cast<double>(x.one);
              double tol = 3.0 / static_cast<double>(x.one) + std::fabs(in[i]) * (scaled ? mag * 2e-5 : 1.02 / static_cast<double>(x.one));
              double got = x.un(o[0].v[i]), want = in[i] * c;
              VH_CHECK(std::fabs(got - want) <= tol, "{} {}: {} gives {} expected {}", x.c.str(), w, in[i], got, want);
            }
            VH_CHECK(o[0].dt == DT_F32, "{} {}: data type", x.c.str(), w);
          }
  // an integer times a fixed-point constant (the compiler leaves the integer as it is)
  for (char k : x.ks())
    for (bool left : {false, true})
      for (double c : {3.0, 0.25, -0.25, 1e-5, -1e-5}) {
        PM p;
        std::vector<I> in = {0, 1, -1, 100000, -30000};
        auto a = p.arg(mkI(k, {5}, in));
        auto cv = p.add("constant", {}, tyOf({5}, DT_F32, false), {{"value", mb::dense<float>({5}, mb::f(32), {float(c)}, true)}});
        p.finish({p.add("multiply", left ? std::vector<mb::V>{cv, a} : std::vector<mb::V>{a, cv}, tyOf({5}, DT_F32, k != 'p'))});
        auto w = fmt::format("integer {} times a constant {} on the {}", k, c, left ? "left" : "right");
        auto o = p.run(x.net, w);
        VH_CHECK(o[0].dt == DT_F32, "{} {}: data type", x.c.str(), w);
        for (size_t i = 0; i < in.size(); ++i) {
          double got = x.un(o[0].v[i]), want = static_cast<double>(in[i]) * c, tol = 3.0 / static_cast<double>(x.one) + std::fabs(static_cast<double>(in[i])) * 1.02 / static_cast<double>(x.one);
          VH_CHECK(std::fabs(got - want) <= tol, "{} {}: {} gives {} expected {}", x.c.str(), w, static_cast<int64_t>(in[i]), got, want);
        }
      }
}

// ---- constants and conversions ----
template <class C>
void constants1(Cx& x, DataType dt, std::vector<C> v) {
  for (auto shape : std::vector<Shape>{{}, {4}, {2, 2}, {1, 4, 1}}) {
    for (bool splat : {true, false}) {
      PM p;
      auto n = static_cast<size_t>(shape.numel());
      auto vv = v;
      vv.resize(splat ? 1 : n);
      mb::I64s sh(shape.begin(), shape.end());
      {
        p.finish({p.add("constant", {}, tyOf(shape, dt, false), {{"value", mb::dense<C>(sh, elemTy(dt), vv, splat)}})});
      }
      auto w = fmt::format("constant of type {} shape {} splat {}", int(dt), shape, splat);
      auto o = p.run(x.net, w);
      T want{shape, {}};
      for (size_t i = 0; i < n; ++i) {
        C e = vv[splat ? 0 : i];
        want.v.push_back(fxp(dt) ? x.fx(static_cast<double>(e)) : static_cast<I>(e));
      }
      same(x, w, o[0], want, dt);
      visOf(x, w, o[0], false);
    }
  }
}
void constants(Cx& x) {
  constants1<int8_t>(x, DT_I8, {-128, 127, 0, 5});
  constants1<uint8_t>(x, DT_U8, {255, 1, 0, 128});
  constants1<int16_t>(x, DT_I16, {-32768, 32767, 3, 0});
  constants1<uint16_t>(x, DT_U16, {65535, 1, 2, 0});
  constants1<int32_t>(x, DT_I32, {-2147483647 - 1, 2147483647, 1, 0});
  constants1<uint32_t>(x, DT_U32, {4294967295U, 1, 0, 7});
  constants1<int64_t>(x, DT_I64, {-(I(1) << 60), I(1) << 60, 3, 0});
  constants1<uint64_t>(x, DT_U64, {uint64_t(1) << 61, 5, 0, 1});
  constants1<float>(x, DT_F32, {1.5F, -2.25F, 0.F, 1000.F});
  constants1<double>(x, DT_F64, {1.5, -2.25, 0., 1000.});
  // booleans: the buffer holds 0 or 255
  for (auto shape : std::vector<Shape>{{}, {3}, {3, 1}})
    for (int sp = 0; sp < 3; ++sp) {
      if (sp == 2 && shape.ndim() == 0) continue;
      PM p;
      std::vector<uint8_t> v = sp == 2 ? std::vector<uint8_t>{255, 0, 255} : std::vector<uint8_t>{uint8_t(sp ? 255 : 0)};
      p.finish({p.add("constant", {}, tyOf(shape, DT_I1, false), {{"value", mb::dense<uint8_t>(mb::I64s(shape.begin(), shape.end()), mb::i(1), v, sp != 2)}})});
      auto w = fmt::format("boolean constant shape {} form {}", shape, sp);
      auto o = p.run(x.net, w);
      T want{shape, {}};
      for (I i = 0; i < shape.numel(); ++i) want.v.push_back(v[sp == 2 ? i : 0] ? 1 : 0);
      same(x, w, o[0], want, DT_I1);
    }
  // complex
  for (bool splat : {true, false})
    for (auto shape : std::vector<Shape>{{2}, {2, 1}}) {
      PM p;
      std::vector<float> v = splat ? std::vector<float>{1.5F, -2.F} : std::vector<float>{1.5F, -2.F, 0.25F, 4.F};
      p.finish({p.add("constant", {}, tyOf(shape, DT_F32, false, true), {{"value", mb::dense<float>(mb::I64s(shape.begin(), shape.end()), mb::cplx(32), v, splat)}})});
      auto w = fmt::format("complex constant shape {} splat {}", shape, splat);
      auto o = p.run(x.net, w);
      same(x, w, o[0], T{shape, {x.fx(1.5), x.fx(splat ? 1.5 : 0.25)}}, DT_F32);
      VH_CHECK((o[0].im == std::vector<I>{x.fx(-2), x.fx(splat ? -2 : 4)}), "{} {}: imaginary part", x.c.str(), w);
    }
  // iota
  for (auto dt : {DT_I8, DT_U8, DT_I32, DT_I64, DT_F32, DT_F64})
    for (auto shape : std::vector<Shape>{{4}, {2, 3}, {3, 1, 2}})
      for (I d = 0; d < static_cast<I>(shape.ndim()); ++d)
        for (bool cx : {false, true}) {
          if (cx && !fxp(dt)) continue;
          PM p;
          p.finish({p.add("iota", {}, tyOf(shape, dt, false, cx), {{"iota_dimension", intA(d)}})});
          auto w = fmt::format("iota {} along {} of type {} complex {}", shape, d, int(dt), cx);
          auto o = p.run(x.net, w);
          same(x, w, o[0], T::make(shape, [&](const Ix& ix) { return fxp(dt) ? x.fx(double(ix[d])) : ix[d]; }), dt);
          if (cx) VH_CHECK(o[0].im == std::vector<I>(shape.numel(), 0), "{} {}: imaginary part", x.c.str(), w);
        }
  {
    PM p;
    p.finish({p.add("epsilon", {}, tyOf({2, 2}, DT_F32, false))});
    auto o = p.run(x.net, "epsilon");
    same(x, "epsilon", o[0], T{{2, 2}, {1, 1, 1, 1}}, DT_F32);
  }
}
void conversions(Cx& x) {
  for (char k : x.ks())
    for (bool to_secret : {false, true}) {
      if (!to_secret && k != 'p') continue;
      struct Cv {
        DataType from, to;
        std::vector<double> in, out;
      };
      std::vector<Cv> cs = {{DT_I32, DT_F32, {3, -4, 0}, {3, -4, 0}},     {DT_F32, DT_I32, {2.75, -2.75, 5}, {2, -2, 5}},
                            {DT_I32, DT_I64, {3, -4, 0}, {3, -4, 0}},     {DT_F32, DT_F64, {1.5, -2.5, 0}, {1.5, -2.5, 0}},
                            {DT_I1, DT_I32, {1, 0, 1}, {1, 0, 1}},        {DT_I1, DT_F32, {1, 0, 1}, {1, 0, 1}},
                            {DT_U8, DT_I32, {255, 7, 0}, {255, 7, 0}},    {DT_I32, DT_I1, {3, 0, -1}, {1, 0, 1}},
                            {DT_F64, DT_I16, {100.5, -3, 0}, {100, -3, 0}}};
      for (auto& q : cs) {
        PM p;
        auto in = fxp(q.from) ? mkF(x, k, {3}, q.in, q.from) : mkI(k, {3}, std::vector<I>(q.in.begin(), q.in.end()), q.from);
        auto a = p.arg(in);
        p.finish({p.add("convert", {a}, tyOf({3}, q.to, to_secret))});
        auto w = fmt::format("convert {} from {} to {}{}", k, int(q.from), int(q.to), to_secret ? " secret" : "");
        auto o = p.run(x.net, w);
        T want{{3}, {}};
        for (auto d : q.out) want.v.push_back(fxp(q.to) ? x.fx(d) : I(d));
        if (q.from == DT_F32 && q.to == DT_I32) {
          // rounding of negative numbers is not prescribed here
          for (size_t i = 0; i < 3; ++i) VH_CHECK(o[0].v[i] == want.v[i] || (q.in[i] < 0 && o[0].v[i] == want.v[i] - 1), "{} {}: {}", x.c.str(), w, o[0].v[i]);
          VH_CHECK(o[0].dt == q.to, "{} {}: data type", x.c.str(), w);
        } else {
          same(x, w, o[0], want, q.to);
        }
        visOf(x, w, o[0], to_secret);
      }
      // real to complex
      PM p;
      auto a = p.arg(mkF(x, k, {2}, {1.5, -3}));
      auto z = p.add("convert", {a}, tyOf({2}, DT_F32, to_secret, true));
      p.finish({z, p.add("real", {z}, tyOf({2}, DT_F32, to_secret)), p.add("imag", {z}, tyOf({2}, DT_F32, to_secret)),
                p.add("bitcast_convert", {a}, tyOf({2}, DT_I32, k != 'p'))});
      auto w = fmt::format("complex of {}{}", k, to_secret ? " secret" : "");
      auto o = p.run(x.net, w);
      same(x, w, o[0], T{{2}, {x.fx(1.5), x.fx(-3)}}, DT_F32);
      VH_CHECK(o[0].im == std::vector<I>({0, 0}), "{} {}: imaginary part", x.c.str(), w);
      same(x, w, o[1], T{{2}, {x.fx(1.5), x.fx(-3)}}, DT_F32);
      same(x, w, o[2], T{{2}, {0, 0}}, DT_F32);
      VH_CHECK(o[3].dt == DT_I32, "{} {}: bitcast data type", x.c.str(), w);
    }
  for (char k : x.ks())
    for (char l : x.ks()) {
      PM p;
      bool sec = k != 'p' || l != 'p';
      auto a = p.arg(mkF(x, k, {2}, {1.5, -3})), b = p.arg(mkF(x, l, {2}, {2, 0.5}));
      if ((k == 'p') != (l == 'p')) continue;
      auto z = p.add("complex", {a, b}, tyOf({2}, DT_F32, sec, true));
      p.finish({z, p.add("real", {z}, tyOf({2}, DT_F32, sec)), p.add("imag", {z}, tyOf({2}, DT_F32, sec))});
      if (k != l) continue;  // the parts share one type
      auto w = fmt::format("complex of {} and {}", k, l);
      auto o = p.run(x.net, w);
      same(x, w, o[0], T{{2}, {x.fx(1.5), x.fx(-3)}}, DT_F32);
      VH_CHECK(o[0].im == std::vector<I>({x.fx(2), x.fx(0.5)}), "{} {}: imaginary part", x.c.str(), w);
      same(x, w, o[1], T{{2}, {x.fx(1.5), x.fx(-3)}}, DT_F32);
      same(x, w, o[2], T{{2}, {x.fx(2), x.fx(0.5)}}, DT_F32);
    }
}

// ---- structure ----
void structure(Cx& x) {
  for (char k : x.ks()) {
    bool sec = k != 'p';
    auto one = [&](const std::string& what, const std::vector<In>& ins, const char* op, const Shape& out, mb::Attrs at, const std::function<I(const Ix&)>& ref) {
      PM p;
      std::vector<mb::V> a;
      for (auto& in : ins) a.push_back(p.arg(in));
      p.finish({p.add(op, a, tyOf(out, DT_I32, anySec(ins)), std::move(at))});
      auto w = fmt::format("{} {}", what, k);
      auto o = p.run(x.net, w);
      same(x, w, o[0], T::make(out, ref), DT_I32);
      visOf(x, w, o[0], anySec(ins));
    };
    auto t = iotaI(k, {2, 3, 4});
    const auto& tt = t.t;
    Ix perm = {0, 1, 2};
    do {
      Shape s = {tt.shape[perm[0]], tt.shape[perm[1]], tt.shape[perm[2]]};
      one(fmt::format("transpose {}", fmt::join(perm, "")), {t}, "transpose", s, {{"permutation", arrA(perm)}}, [&](const Ix& ix) {
        Ix j(3);
        for (int d = 0; d < 3; ++d) j[perm[d]] = ix[d];
        return tt.at(j);
      });
    } while (std::next_permutation(perm.begin(), perm.end()));
    for (int m = 0; m < 8; ++m) {
      Ix dims;
      for (int d = 0; d < 3; ++d)
        if (m >> d & 1) dims.push_back(d);
      one(fmt::format("reverse {}", fmt::join(dims, "")), {t}, "reverse", {2, 3, 4}, {{"dimensions", arrA(dims)}}, [&](const Ix& ix) {
        Ix j = ix;
        for (auto d : dims) j[d] = tt.shape[d] - 1 - j[d];
        return tt.at(j);
      });
    }
    for (auto& s : std::vector<Shape>{{24}, {4, 6}, {2, 2, 6}, {24, 1}, {2, 3, 4}})
      one(fmt::format("reshape {}", s), {t}, "reshape", s, {}, [&](const Ix& ix) {
        I lin = 0;
        for (size_t d = 0; d < s.size(); ++d) lin = lin * s[d] + ix[d];
        return tt.v[lin];
      });
    auto m = iotaI(k, {2, 3});
    one("broadcast to 4x2x3", {m}, "broadcast", {4, 2, 3}, {{"broadcast_dimensions", arrA({1, 2})}}, [&](const Ix& ix) { return m.t.at({ix[1], ix[2]}); });
    one("broadcast to 2x4x3", {m}, "broadcast", {2, 4, 3}, {{"broadcast_dimensions", arrA({0, 2})}}, [&](const Ix& ix) { return m.t.at({ix[0], ix[2]}); });
    one("broadcast to 2x3x2", {m}, "broadcast", {2, 3, 2}, {{"broadcast_dimensions", arrA({0, 1})}}, [&](const Ix& ix) { return m.t.at({ix[0], ix[1]}); });
    auto sc = mkI(k, {}, {42});
    one("broadcast a scalar", {sc}, "broadcast", {2, 2}, {{"broadcast_dimensions", arrA({})}}, [&](const Ix&) { return I(42); });
    for (I d : {I(0), I(1)})
      for (int n = 1; n <= 3; ++n) {
        std::vector<In> ins;
        Shape s = {2, 2};
        s[d] = 0;
        for (int q = 0; q < n; ++q) {
          Shape e = {2, 2};
          e[d] = q + 1;
          s[d] += q + 1;
          ins.push_back(iotaI(q == 1 ? 'p' : k, e, 100 * q));
        }
        one(fmt::format("concatenate {} along {}", n, d), ins, "concatenate", s, {{"dimension", intA(d)}}, [&](const Ix& ix) {
          Ix j = ix;
          for (auto& in : ins) {
            if (j[d] < in.t.shape[d]) return in.t.at(j);
            j[d] -= in.t.shape[d];
          }
          return I(-1);
        });
      }
    auto q = iotaI(k, {4, 5});
    for (auto& a : std::vector<std::vector<Ix>>{{{0, 0}, {4, 5}, {1, 1}}, {{1, 2}, {3, 5}, {1, 1}}, {{0, 1}, {4, 5}, {3, 2}}, {{2, 0}, {3, 4}, {1, 3}}}) {
      Shape s;
      for (int d = 0; d < 2; ++d) s.push_back((a[1][d] - a[0][d] + a[2][d] - 1) / a[2][d]);
      one(fmt::format("slice {}..{} by {}", fmt::join(a[0], ","), fmt::join(a[1], ","), fmt::join(a[2], ",")), {q}, "slice", s,
          {{"start_indices", arrA(a[0])}, {"limit_indices", arrA(a[1])}, {"strides", arrA(a[2])}},
          [&](const Ix& ix) { return q.t.at({a[0][0] + ix[0] * a[2][0], a[0][1] + ix[1] * a[2][1]}); });
    }
    auto pv = mkI('p', {}, {-9});
    for (auto& a : std::vector<std::vector<Ix>>{{{1, 0}, {0, 2}, {0, 0}}, {{0, 2}, {1, 0}, {2, 1}}, {{-1, 0}, {0, -1}, {0, 0}}, {{1, -1}, {-1, 1}, {1, 2}}, {{0, 0}, {0, 0}, {0, 3}}}) {
      Shape s;
      for (int d = 0; d < 2; ++d) s.push_back(m.t.shape[d] + (m.t.shape[d] - 1) * a[2][d] + a[0][d] + a[1][d]);
      one(fmt::format("pad low {} high {} interior {}", fmt::join(a[0], ","), fmt::join(a[1], ","), fmt::join(a[2], ",")), {m, pv}, "pad", s,
          {{"edge_padding_low", arrA(a[0])}, {"edge_padding_high", arrA(a[1])}, {"interior_padding", arrA(a[2])}}, [&](const Ix& ix) {
            Ix j(2);
            for (int d = 0; d < 2; ++d) {
              I z = ix[d] - a[0][d];
              if (z < 0 || z % (a[2][d] + 1) || z / (a[2][d] + 1) >= m.t.shape[d]) return I(-9);
              j[d] = z / (a[2][d] + 1);
            }
            return m.t.at(j);
          });
    }
    // dynamic slices, start indices clamped
    for (char ki : std::string(sec ? "ps" : "p"))
      for (I s0 : {I(-1), I(0), I(2), I(9)})
        for (I s1 : {I(0), I(1), I(3), I(4)}) {
          In i0 = mkI(ki, {}, {s0}), i1 = mkI(ki, {}, {s1});
          I a0 = std::clamp<I>(s0, 0, 2), a1 = std::clamp<I>(s1, 0, 2);
          if (ki != 'p' && (s0 < 0)) continue;
          one(fmt::format("dynamic slice at {} {} ({})", s0, s1, ki), {q, i0, i1}, "dynamic_slice", {2, 3}, {{"slice_sizes", arrA({2, 3})}},
              [&](const Ix& ix) { return q.t.at({a0 + ix[0], a1 + ix[1]}); });
          auto u = iotaI(k, {2, 3}, 1000);
          one(fmt::format("dynamic update slice at {} {} ({})", s0, s1, ki), {q, u, i0, i1}, "dynamic_update_slice", {4, 5}, {}, [&](const Ix& ix) {
            I r = ix[0] - a0, c = ix[1] - a1;
            return r >= 0 && r < 2 && c >= 0 && c < 3 ? u.t.at({r, c}) : q.t.at(ix);
          });
        }
  }
}

// ---- products ----
void products(Cx& x) {
  for (char k : x.ks())
    for (char l : x.ks()) {
      bool sec = k != 'p' || l != 'p';
      auto go = [&](const std::string& what, const In& a, const In& b, const char* op, const T& want, mb::Attrs at = {}) {
        PM p;
        auto va = p.arg(a), vb = p.arg(b);
        p.finish({p.add(op, {va, vb}, tyOf(want.shape, DT_I32, sec), std::move(at))});
        auto w = fmt::format("{} {}{}", what, k, l);
        auto o = p.run(x.net, w);
        same(x, w, o[0], want, DT_I32);
      };
      for (I m : {1, 2, 3})
        for (I kk : {1, 2, 4})
          for (I n : {1, 3}) {
            auto a = iotaI(k, {m, kk}, -3, 2), b = iotaI(l, {kk, n}, 4, -3);
            go(fmt::format("dot {}x{}x{}", m, kk, n), a, b, "dot", T::make({m, n}, [&](const Ix& ix) {
                 I s = 0;
                 for (I q = 0; q < kk; ++q) s += a.t.at({ix[0], q}) * b.t.at({q, ix[1]});
                 return s;
               }));
          }
      {
        auto a = iotaI(k, {4}, -3, 2), b = iotaI(l, {4}, 4, -3);
        I s = 0;
        for (int i = 0; i < 4; ++i) s += a.t.v[i] * b.t.v[i];
        go("dot of vectors", a, b, "dot", T{{}, {s}});
        auto mm = iotaI(k, {3, 4}, 1, 2);
        go("dot of a matrix and a vector", mm, b, "dot", T::make({3}, [&](const Ix& ix) {
             I z = 0;
             for (I q = 0; q < 4; ++q) z += mm.t.at({ix[0], q}) * b.t.v[q];
             return z;
           }));
        auto g = iotaI(k, {2, 3, 2}, -5, 2), h = iotaI(l, {2, 2, 2}, 3, -1);
        go("dot general", g, h, "dot_general", T::make({2, 3, 2}, [&](const Ix& ix) {
             I z = 0;
             for (I q = 0; q < 2; ++q) z += g.t.at({ix[0], ix[1], q}) * h.t.at({ix[0], q, ix[2]});
             return z;
           }),
           {{"dot_dimension_numbers", mb::dimsA(mlir::AttrStorage::Dot, {{0}, {0}, {2}, {1}})}});
      }
      // convolutions: 2-d NHWC x HWIO, 1-d NWC x WIO
      for (auto strides : std::vector<Ix>{{}, {1, 1}, {2, 1}, {1, 2}, {2, 2}})
        for (auto ker : std::vector<Ix>{{1, 1}, {2, 2}, {2, 1}, {3, 2}}) {
          const I N = 2, H = 4, W = 3, C = 2, O = 2;
          I sh = strides.empty() ? 1 : strides[0], sw = strides.empty() ? 1 : strides[1];
          auto a = iotaI(k, {N, H, W, C}, -4, 1), b = iotaI(l, {ker[0], ker[1], C, O}, 3, -1);
          I OH = (H - ker[0]) / sh + 1, OW = (W - ker[1]) / sw + 1;
          mb::Attrs at = {{"dimension_numbers", mb::dimsA(mlir::AttrStorage::Conv, {{0}, {3}, {1, 2}, {2}, {3}, {0, 1}, {0}, {3}, {1, 2}})}};
          if (!strides.empty()) at["window_strides"] = arrA(strides);
          go(fmt::format("convolution {}x{} stride {},{}", ker[0], ker[1], sh, sw), a, b, "convolution", T::make({N, OH, OW, O}, [&](const Ix& ix) {
               I z = 0;
               for (I i = 0; i < ker[0]; ++i)
                 for (I j = 0; j < ker[1]; ++j)
                   for (I c = 0; c < C; ++c) z += a.t.at({ix[0], ix[1] * sh + i, ix[2] * sw + j, c}) * b.t.at({i, j, c, ix[3]});
               return z;
             }),
             at);
        }
      for (I st : {I(0), I(1), I(2), I(3)})
        for (I ker : {I(1), I(2), I(3)}) {
          const I N = 2, W = 5, C = 2, O = 3;
          I s = st == 0 ? 1 : st, OW = (W - ker) / s + 1;
          auto a = iotaI(k, {N, W, C}, -4, 1), b = iotaI(l, {ker, C, O}, 3, -1);
          mb::Attrs at = {{"dimension_numbers", mb::dimsA(mlir::AttrStorage::Conv, {{0}, {2}, {1}, {1}, {2}, {0}, {0}, {2}, {1}})}};
          if (st) at["window_strides"] = arrA({st});
          go(fmt::format("convolution 1-d {} stride {}", ker, s), a, b, "convolution", T::make({N, OW, O}, [&](const Ix& ix) {
               I z = 0;
               for (I j = 0; j < ker; ++j)
                 for (I c = 0; c < C; ++c) z += a.t.at({ix[0], ix[1] * s + j, c}) * b.t.at({j, c, ix[2]});
               return z;
             }),
             at);
        }
    }
}

// ---- reductions ----
mb::Operation* body(PM& p, mb::Operation* o, const std::vector<mlir::Type>& tys, const std::function<std::vector<mb::V>(mb::Region&, std::vector<mb::V>)>& fn) {
  (void)p;
  auto& r = mb::region(o);
  std::vector<mb::V> args;
  for (auto& t : tys) args.push_back(r.addArgument(t));
  mb::ret(r, fn(r, args));
  return o;
}
void reductions(Cx& x) {
  for (char k : x.ks()) {
    bool sec = k != 'p';
    struct R {
      const char* op;
      I init;
      std::function<I(I, I)> f;
    };
    for (auto& rd : std::vector<R>{{"add", 0, [](I a, I b) { return a + b; }}, {"add", 5, [](I a, I b) { return a + b; }}, {"maximum", -1000, [](I a, I b) { return std::max(a, b); }}, {"multiply", 1, [](I a, I b) { return a * b; }}}) {
      auto in = mkI(k, {2, 3, 2}, {3, -1, 4, 1, -5, 9, 2, -6, 5, 3, 5, 8});
      for (int m = 1; m < 8; ++m) {
        Ix dims;
        Shape s;
        for (I d = 0; d < 3; ++d) (m >> d & 1) ? dims.push_back(d) : s.push_back(in.t.shape[d]);
        // init values other than the neutral element only count when they are used
        if (rd.init == 5 && std::find(dims.begin(), dims.end(), 0) == dims.end()) continue;
        PM p;
        auto a = p.arg(in), z = p.arg(mkI('p', {}, {rd.init}));
        auto* o = mb::op(p.r(), "reduce", {a, z}, {tyOf(s, DT_I32, sec)}, {{"dimensions", arrA(dims)}});
        auto st = tyOf({}, DT_I32, sec);
        body(p, o, {st, st}, [&](mb::Region& r, std::vector<mb::V> v) { return std::vector<mb::V>{mb::op1(r, rd.op, v, st)}; });
        p.finish({o->getResult(0)});
        auto w = fmt::format("reduce {} over {} from {} of {}", rd.op, fmt::join(dims, ""), rd.init, k);
        auto out = p.run(x.net, w);
        T want = T::make(s, [&](const Ix&) { return rd.init; });
        eachIx(in.t.shape, [&](const Ix& ix) {
          Ix j;
          for (I d = 0; d < 3; ++d)
            if (!(m >> d & 1)) j.push_back(ix[d]);
          want.at(j) = rd.f(want.at(j), in.t.at(ix));
        });
        same(x, w, out[0], want, DT_I32);
      }
      // windows
      if (rd.init == 5) continue;
      auto w2 = iotaI(k, {4, 5}, -7, 3);
      std::reverse(w2.t.v.begin() + 3, w2.t.v.end() - 4);
      for (auto& win : std::vector<Ix>{{2, 2}, {1, 3}, {2, 1}, {3, 2}})
        for (auto& st : std::vector<Ix>{{}, {1, 1}, {2, 2}, {1, 2}, {2, 1}})
          for (auto& dl : std::vector<Ix>{{}, {1, 1}, {1, 2}, {2, 1}}) {
            if (std::string(rd.op) == "multiply" && win.size() > 2) continue;
            I s0 = st.empty() ? 1 : st[0], s1 = st.empty() ? 1 : st[1], d0 = dl.empty() ? 1 : dl[0], d1 = dl.empty() ? 1 : dl[1];
            I h = 4 - ((win[0] - 1) * d0 + 1), v = 5 - ((win[1] - 1) * d1 + 1);
            if (h < 0 || v < 0) continue;
            Shape s = {h / s0 + 1, v / s1 + 1};
            PM p;
            auto a = p.arg(w2), z = p.arg(mkI('p', {}, {rd.init}));
            mb::Attrs at = {{"window_dimensions", arrA(win)}};
            if (!st.empty()) at["window_strides"] = arrA(st);
            if (!dl.empty()) at["window_dilations"] = arrA(dl);
            auto* o = mb::op(p.r(), "reduce_window", {a, z}, {tyOf(s, DT_I32, sec)}, at);
            auto sty = tyOf({}, DT_I32, sec);
            body(p, o, {sty, sty}, [&](mb::Region& r, std::vector<mb::V> vv) { return std::vector<mb::V>{mb::op1(r, rd.op, vv, sty)}; });
            p.finish({o->getResult(0)});
            auto w = fmt::format("reduce window {} of {} {} stride {},{} dilation {},{}", rd.op, k, fmt::join(win, "x"), s0, s1, d0, d1);
            auto out = p.run(x.net, w);
            T want = T::make(s, [&](const Ix& ix) {
              I acc = rd.init;
              for (I i = 0; i < win[0]; ++i)
                for (I j = 0; j < win[1]; ++j) acc = rd.f(acc, w2.t.at({ix[0] * s0 + i * d0, ix[1] * s1 + j * d1}));
              return acc;
            });
            same(x, w, out[0], want, DT_I32);
          }
    }
    // two operands at once: (sum, max)
    {
      PM p;
      auto a = p.arg(mkI(k, {2, 3}, {1, 2, 3, 4, 5, 6})), b = p.arg(mkI(k, {2, 3}, {9, -1, 4, 3, 3, 8}));
      auto z = p.arg(mkI('p', {}, {0})), y = p.arg(mkI('p', {}, {-100}));
      auto ty = tyOf({3}, DT_I32, sec), st = tyOf({}, DT_I32, sec);
      auto* o = mb::op(p.r(), "reduce", {a, b, z, y}, {ty, ty}, {{"dimensions", arrA({0})}});
      body(p, o, {st, st, st, st}, [&](mb::Region& r, std::vector<mb::V> v) {
        return std::vector<mb::V>{mb::op1(r, "add", {v[0], v[2]}, st), mb::op1(r, "maximum", {v[1], v[3]}, st)};
      });
      p.finish({o->getResult(0), o->getResult(1)});
      auto w = fmt::format("variadic reduce of {}", k);
      auto out = p.run(x.net, w);
      same(x, w, out[0], T{{3}, {5, 7, 9}}, DT_I32);
      same(x, w, out[1], T{{3}, {9, 3, 8}}, DT_I32);
    }
    // the biggest of each window, its position, and its gradient
    for (auto& win : std::vector<Ix>{{2, 2}, {1, 2}, {2, 1}, {2, 3}})
      for (bool strided : {false, true}) {
        In in = mkI(k, {4, 6}, {});
        for (int i = 0; i < 24; ++i) in.t.v.push_back((i * 7) % 24);
        I s0 = strided ? win[0] : 1, s1 = strided ? win[1] : 1;
        Shape s = {(4 - win[0]) / s0 + 1, (6 - win[1]) / s1 + 1};
        const I W = win[0] * win[1];
        Shape hot = s;
        hot.push_back(W);
        PM p;
        auto a = p.arg(in);
        mb::Attrs at = {{"window_dimensions", arrA(win)}};
        if (strided) at["window_strides"] = arrA(win);
        auto* o = mb::op(p.r(), "argmax", {a}, {tyOf(s, DT_I32, sec), tyOf(hot, DT_I1, sec)}, at);
        std::vector<mb::V> outs = {o->getResult(0), o->getResult(1)};
        if (strided) {
          auto g = p.arg(iotaI(k, s, 50, 1));
          outs.push_back(p.add("maxpool_scatter", {o->getResult(1), g}, tyOf({4, 6}, DT_I32, sec), {{"window_dimensions", arrA(win)}, {"window_strides", arrA(win)}}));
          auto zero = p.arg(mkI('p', {}, {0}));
          auto st = tyOf({}, DT_I32, sec);
          auto* sas = mb::op(p.r(), "select_and_scatter", {a, g, zero}, {tyOf({4, 6}, DT_I32, sec)}, {{"window_dimensions", arrA(win)}, {"window_strides", arrA(win)}});
          body(p, sas, {st, st}, [&](mb::Region& r, std::vector<mb::V> v) { return std::vector<mb::V>{mb::op1(r, "greater_equal", v, tyOf({}, DT_I1, sec))}; });
          body(p, sas, {st, st}, [&](mb::Region& r, std::vector<mb::V> v) { return std::vector<mb::V>{mb::op1(r, "add", v, st)}; });
          outs.push_back(sas->getResult(0));
        }
        p.finish(outs);
        auto w = fmt::format("argmax of {} {} strided {}", k, fmt::join(win, "x"), strided);
        auto out = p.run(x.net, w);
        T best = T::make(s, [&](const Ix&) { return I(-1); }), pos = T::make(hot, [](const Ix&) { return I(0); }), grad = T::make({4, 6}, [](const Ix&) { return I(0); });
        I gi = 50;
        eachIx(s, [&](const Ix& ix) {
          I bi = 0;
          Ix bat;
          for (I q = 0; q < W; ++q) {
            Ix at2 = {ix[0] * s0 + q / win[1], ix[1] * s1 + q % win[1]};
            if (in.t.at(at2) > best.at(ix)) best.at(ix) = in.t.at(at2), bi = q, bat = at2;
          }
          pos.at({ix[0], ix[1], bi}) = 1;
          grad.at(bat) += gi++;
        });
        same(x, w, out[0], best, DT_I32);
        same(x, w, out[1], pos, DT_I1);
        if (strided) {
          same(x, w + " (scatter)", out[2], grad, DT_I32);
          same(x, w + " (select and scatter)", out[3], grad, DT_I32);
        }
      }
  }
}

// ---- sorting and control flow ----
void sorts(Cx& x) {
  for (char k : x.ks()) {
    bool sec = k != 'p';
    In a = mkI(k, {2, 4}, {3, -1, 7, 2, 9, 0, -4, 5});
    In b = mkI(k, {2, 4}, {0, 1, 2, 3, 4, 5, 6, 7});
    for (I dim : {I(0), I(1), I(-1)})
      for (int dir = 0; dir < 2; ++dir)
        for (int form = 0; form < 2; ++form) {  // 0 comparator, 1 simple
          PM p;
          auto va = p.arg(a), vb = p.arg(b);
          mb::Operation* o;
          if (form == 0) {
            o = mb::op(p.r(), "sort", {va, vb}, {va.getType(), vb.getType()}, {{"dimension", intA(dim)}, {"is_stable", boolA(false)}});
            auto st = tyOf({}, DT_I32, sec), bt = tyOf({}, DT_I1, sec);
            body(p, o, {st, st, st, st}, [&](mb::Region& r, std::vector<mb::V> v) {
              return std::vector<mb::V>{mb::op1(r, dir ? "greater" : "less", {v[0], v[1]}, bt)};
            });
          } else {
            o = mb::op(p.r(), "simple_sort", {va, vb}, {va.getType(), vb.getType()}, {{"dimension", intA(dim)}, {"num_keys", intA(1)}, {"sort_direction", intA(dir)}});
          }
          p.finish({o->getResult(0), o->getResult(1)});
          auto w = fmt::format("{} of {} along {} direction {}", form ? "simple sort" : "sort", k, dim, dir);
          auto out = p.run(x.net, w);
          T wa = a.t, wb = b.t;
          const I d = dim < 0 ? dim + 2 : dim, len = a.t.shape[d], other = a.t.shape[1 - d];
          for (I q = 0; q < other; ++q) {
            std::vector<std::pair<I, I>> v;
            auto ix = [&](I i) { return d == 0 ? Ix{i, q} : Ix{q, i}; };
            for (I i = 0; i < len; ++i) v.push_back({a.t.at(ix(i)), b.t.at(ix(i))});
            std::sort(v.begin(), v.end());
            if (dir) std::reverse(v.begin(), v.end());
            for (I i = 0; i < len; ++i) wa.at(ix(i)) = v[i].first, wb.at(ix(i)) = v[i].second;
          }
          same(x, w, out[0], wa, DT_I32);
          same(x, w, out[1], wb, DT_I32);
        }
    // two keys
    for (int nk : {1, 2}) {
      PM p;
      auto v0 = p.arg(mkI(k, {5}, {2, 1, 2, 1, 0})), v1 = p.arg(mkI(k, {5}, {9, 8, 7, 6, 5})), v2 = p.arg(mkI(k, {5}, {0, 1, 2, 3, 4}));
      auto* o = mb::op(p.r(), "simple_sort", {v0, v1, v2}, {v0.getType(), v1.getType(), v2.getType()}, {{"dimension", intA(0)}, {"num_keys", intA(nk)}, {"sort_direction", intA(0)}});
      p.finish({o->getResult(0), o->getResult(1), o->getResult(2)});
      auto w = fmt::format("simple sort of {} with {} keys", k, nk);
      auto out = p.run(x.net, w);
      same(x, w, out[0], T{{5}, {0, 1, 1, 2, 2}}, DT_I32);
      if (nk == 2) {
        same(x, w, out[1], T{{5}, {5, 6, 8, 7, 9}}, DT_I32);
        same(x, w, out[2], T{{5}, {4, 3, 1, 2, 0}}, DT_I32);
      }
    }
  }
}
void control(Cx& x) {
  for (char k : x.ks()) {
    bool sec = k != 'p';
    if (k == 'a') continue;  // private conditions are not accepted
    for (I cond : {I(0), I(1)}) {
      // captures from outside, a nested if, and a result used afterwards
      PM p;
      auto c = p.arg(mkI(k, {}, {cond}, DT_I1)), a = p.arg(mkI(k, {2}, {10, 20})), b = p.arg(mkI('p', {2}, {3, -4}));
      auto c2 = p.arg(mkI(k, {}, {1 - cond}, DT_I1));
      auto ty = tyOf({2}, DT_I32, sec);
      auto pre = p.add("add", {a, b}, ty);
      auto* o = mb::op(p.r(), "if", {c}, {ty, ty});
      body(p, o, {}, [&](mb::Region& r, std::vector<mb::V>) {
        return std::vector<mb::V>{mb::op1(r, "add", {pre, a}, ty), mb::op1(r, "negate", {a}, ty)};
      });
      body(p, o, {}, [&](mb::Region& r, std::vector<mb::V>) {
        auto* n = mb::op(r, "if", {c2}, {ty});
        body(p, n, {}, [&](mb::Region& rr, std::vector<mb::V>) { return std::vector<mb::V>{mb::op1(rr, "subtract", {pre, a}, ty)}; });
        body(p, n, {}, [&](mb::Region&, std::vector<mb::V>) { return std::vector<mb::V>{pre}; });
        return std::vector<mb::V>{n->getResult(0), a};
      });
      p.finish({o->getResult(0), o->getResult(1), p.add("add", {o->getResult(0), pre}, ty)});
      auto w = fmt::format("if {}={}", k, cond);
      auto out = p.run(x.net, w);
      T r0 = cond ? T{{2}, {23, 36}} : T{{2}, {3, -4}};
      same(x, w, out[0], r0, DT_I32);
      same(x, w, out[1], cond ? T{{2}, {-10, -20}} : T{{2}, {10, 20}}, DT_I32);
      same(x, w, out[2], T{{2}, {r0.v[0] + 13, r0.v[1] + 16}}, DT_I32);
    }
    // while (i < n) { acc += i * w; ++i }
    for (I n : {I(0), I(1), I(4)}) {
      PM p;
      auto i0 = p.arg(mkI('p', {}, {0})), acc = p.arg(mkI(k, {2}, {100, -100})), lim = p.arg(mkI('p', {}, {n})), wv = p.arg(mkI(k, {2}, {2, 3})), one = p.arg(mkI('p', {}, {1}));
      auto st = tyOf({}, DT_I32, false), ty = tyOf({2}, DT_I32, sec);
      auto* o = mb::op(p.r(), "while", {i0, acc}, {st, ty});
      body(p, o, {st, ty}, [&](mb::Region& r, std::vector<mb::V> v) { return std::vector<mb::V>{mb::op1(r, "less", {v[0], lim}, tyOf({}, DT_I1, false))}; });
      body(p, o, {st, ty}, [&](mb::Region& r, std::vector<mb::V> v) {
        auto bi = mb::op1(r, "broadcast", {v[0]}, tyOf({2}, DT_I32, false), {{"broadcast_dimensions", arrA({})}});
        auto m = mb::op1(r, "multiply", {bi, wv}, ty);
        return std::vector<mb::V>{mb::op1(r, "add", {v[0], one}, st), mb::op1(r, "add", {v[1], m}, ty)};
      });
      p.finish({o->getResult(0), o->getResult(1)});
      auto w = fmt::format("while to {} of {}", n, k);
      auto out = p.run(x.net, w);
      I s = n * (n - 1) / 2;
      same(x, w, out[0], T{{}, {n}}, DT_I32);
      same(x, w, out[1], T{{2}, {100 + 2 * s, -100 + 3 * s}}, DT_I32);
    }
    // values may be freed once they are not used any more
    {
      PM p;
      auto a = p.arg(mkI(k, {2}, {10, 20}));
      auto ty = tyOf({2}, DT_I32, sec);
      auto s1 = p.add("add", {a, a}, ty);
      auto s2 = p.add("negate", {s1}, ty);
      mb::op(p.r(), "free", {s1}, {});
      p.finish({p.add("add", {s2, a}, ty)});
      auto w = fmt::format("free of {}", k);
      auto out = p.run(x.net, w);
      same(x, w, out[0], T{{2}, {-10, -20}}, DT_I32);
    }
  }
}

// ---- intrinsics ----
void intrinsics(Cx& x) {
  for (char k : x.ks()) {
    bool sec = k != 'p';
    auto call = [&](const std::string& target, const std::vector<In>& ins, const std::vector<mlir::Type>& tys, mb::Attrs at = {}) {
      PM p;
      std::vector<mb::V> a;
      for (auto& in : ins) a.push_back(p.arg(in));
      at["call_target_name"] = mb::strA(target);
      auto* o = mb::op(p.r(), "custom_call", a, tys, at);
      std::vector<mb::V> outs;
      for (size_t i = 0; i < tys.size(); ++i) outs.push_back(o->getResult(i));
      if (outs.empty()) outs = a;
      p.finish(outs);
      return p.run(x.net, fmt::format("{} of {}", target, k));
    };
    In v = mkI(k, {4}, {5, -3, 8, 0});
    auto ty = tyOf({4}, DT_I32, sec);
    for (auto id : {"spu.make_cached_var", "spu.drop_cached_var", "spu.prefer_a", "example"}) {
      auto o = call(id, {v}, {ty});
      same(x, fmt::format("{} of {}", id, k), o[0], v.t, DT_I32);
      visOf(x, id, o[0], sec);
    }
    {
      auto o = call("spu.prefer_a", {mkF(x, k, {2}, {1.5, -2})}, {tyOf({2}, DT_F32, sec)});
      same(x, "spu.prefer_a", o[0], T{{2}, {x.fx(1.5), x.fx(-2)}}, DT_F32);
    }
    if (k != 'a') {
      auto o = call("spu.reveal", {v}, {tyOf({4}, DT_I32, false)});
      same(x, fmt::format("reveal of {}", k), o[0], v.t, DT_I32);
      visOf(x, "reveal", o[0], false);
    }
    {
      auto o = call("mhlo.is_finite", {mkF(x, k, {2}, {1, 2})}, {tyOf({2}, DT_I1, false)});
      same(x, "is_finite", o[0], T{{2}, {1, 1}}, DT_I1);
      o = call("spu.epsilon", {}, {tyOf({}, DT_F32, false)});
      VH_CHECK(o[0].v == std::vector<I>{1}, "{} epsilon: {}", x.c.str(), o[0].v[0]);
      o = call("spu.dbg_print", {v}, {});
      same(x, "dbg_print", o[0], v.t, DT_I32);
    }
    {
      std::vector<double> in = {-1.5, -0.5, 0, 0.25, 1}, want;
      for (auto d : in) want.push_back(std::erf(d));
      auto o = call("mhlo.erf", {mkF(x, k, {5}, in)}, {tyOf({5}, DT_F32, sec)});
      close(x, fmt::format("erf of {}", k), o[0], {5}, want, 0.02, 0.02);
    }
    for (I lo : {1, 2, 3})
      for (I hi : {I(-1), I(3), I(4)})
        for (bool largest : {true, false})
          for (int vo = 0; vo < 3; ++vo) {
            if (hi != -1 && hi < lo) continue;
            mb::Attrs d = {{"k", intA(lo)}, {"largest", boolA(largest)}};
            if (hi != -1) d["k_hi"] = intA(hi);
            if (vo) d["value_only"] = boolA(vo == 2);
            const I K = hi == -1 ? lo : hi;
            std::vector<mlir::Type> tys = {tyOf({K}, DT_I32, sec)};
            auto it = tyOf({K}, DT_I64, sec);
            if (vo != 2) tys.push_back(tyOf({K}, DT_I32, sec));
            (void)it;
            auto o = call("mhlo.topk", {v}, tys, {{"mhlo.attributes", mb::dictA(d)}});
            auto w = fmt::format("topk {} {} {} of {}", lo, hi, largest, k);
            Ix sorted = {-3, 0, 5, 8}, got = o[0].v;
            if (largest) std::reverse(sorted.begin(), sorted.end());
            sorted.resize(K);
            if (K > 0 && lo < K) VH_CHECK(got[lo - 1] == sorted[lo - 1], "{} {}: element {} is {}", x.c.str(), w, lo, got[lo - 1]);
            if (vo != 2)
              for (I i = 0; i < K; ++i) VH_CHECK(o[1].v[i] >= 0 && o[1].v[i] < 4 && v.t.v[o[1].v[i]] == got[i], "{} {}: index of {}", x.c.str(), w, got[i]);
            std::sort(got.begin(), got.end());
            std::sort(sorted.begin(), sorted.end());
            VH_CHECK(got == sorted, "{} {}: {}", x.c.str(), w, fmt::join(got, ","));
          }
    // gather: rows of a matrix, and single elements
    {
      In m = iotaI(k, {4, 3}, 10, 1);
      for (I s0 : {I(0), I(1), I(3)})
        for (I s1 : {I(0), I(2), I(7)}) {
          mb::Attrs d = {{"slice_sizes", arrA({1, 3})}, {"index_vector_dim", intA(1)}, {"offset_dims", arrA({1})}, {"collapsed_slice_dims", arrA({0})}, {"start_index_map", arrA({0})}};
          auto o = call("spu.gather", {m, mkI('p', {2, 1}, {s0, s1})}, {tyOf({2, 3}, DT_I32, sec)}, {{"pphlo.attributes", mb::dictA(d)}});
          I r1 = std::min<I>(s1, 3);
          same(x, fmt::format("gather rows {} {} of {}", s0, s1, k), o[0], T::make({2, 3}, [&](const Ix& ix) { return m.t.at({ix[0] ? r1 : s0, ix[1]}); }), DT_I32);
          mb::Attrs e = {{"slice_sizes", arrA({2, 1})}, {"index_vector_dim", intA(0)}, {"offset_dims", arrA({0})}, {"collapsed_slice_dims", arrA({1})}, {"start_index_map", arrA({1, 0})}};
          o = call("spu.gather", {m, mkI('p', {2}, {s1, s0})}, {tyOf({2}, DT_I32, sec)}, {{"pphlo.attributes", mb::dictA(e)}});
          I c = std::min<I>(s1, 2), r = std::min<I>(s0, 2);
          same(x, fmt::format("gather column {} from {} of {}", s1, s0, k), o[0], T{{2}, {m.t.at({r, c}), m.t.at({r + 1, c})}}, DT_I32);
        }
    }
    // an unknown intrinsic is refused; a handler installed by the caller is asked first
    {
      PM p;
      auto a = p.arg(v);
      auto* o = mb::op(p.r(), "custom_call", {a}, {ty}, {{"call_target_name", mb::strA("no.such.thing")}});
      p.finish({o->getResult(0)});
      auto rr = x.net.runRaw([&](size_t i) {
        auto in = mkIn(x.net.ctxs[i].get(), x.c.pub, v);
        p.prog()(x.net.ctxs[i].get(), {in});
      });
      for (auto& e : rr.errors) VH_CHECK(e.find("Unhandled intrinsic call") != std::string::npos, "{}: an unknown intrinsic: '{}'", x.c.str(), e);
      PM q;
      auto b = q.arg(v);
      mb::op(q.r(), "custom_call", {b}, {}, {{"call_target_name", mb::strA("my.own")}});
      mb::op(q.r(), "custom_call", {b}, {}, {{"call_target_name", mb::strA("spu.dbg_print")}});
      q.finish({b});
      std::vector<std::string> seen(x.c.npc);
      std::vector<int> nin(x.c.npc);
      x.net.run("handler", [&](SPUContext* cx, size_t i) {
        device::SymbolTable env;
        env.setVar("in0", mkIn(cx, x.c.pub, v));
        device::pphlo::PPHloExecutor ex;
        ex.setExtraIntrinsicHandler([&, i](SPUContext* c2, mlir::Operation* op, absl::Span<const Value> ins) {
          auto t = op->getAttrOfType<mlir::StringAttr>("call_target_name").str();
          seen[i] += t + ";";
          nin[i] += static_cast<int>(ins.size()) + (c2 == cx ? 0 : 100);
          return t == "my.own";
        });
        device::execute(&ex, cx, q.m.text, {"in0"}, {"out0"}, &env);
      });
      for (size_t i = 0; i < x.c.npc; ++i) VH_CHECK(seen[i] == "my.own;spu.dbg_print;" && nin[i] == 2, "{}: the handler saw '{}'", x.c.str(), seen[i]);
    }
  }
}

// ---- the front door ----
void frontDoor(Cx& x) {
  auto expectErr = [&](const std::string& what, const std::string& part, const std::function<void(SPUContext*)>& fn) {
    auto rr = x.net.runRaw([&](size_t i) { fn(x.net.ctxs[i].get()); });
    for (auto& e : rr.errors)
      VH_CHECK(!e.empty() && e.find(part) != std::string::npos, "{}: {}: '{}'", x.c.str(), what, e);
    vh::eval(vh::hash(x.c.str() + what));
  };
  auto call = [&](SPUContext* cx, const std::string& text, const std::vector<std::string>& in, const std::vector<std::string>& out, device::SymbolTable* env) {
    device::pphlo::PPHloExecutor ex;
    device::execute(&ex, cx, text, in, out, env);
  };
  In v = mkI('s', {2}, {1, 2}), u = mkI('s', {2}, {30, 40});
  auto ty = tyOf({2}, DT_I32, true);
  // names bind inputs and outputs in order, whatever the table holds besides
  for (int perm = 0; perm < 2; ++perm)
    for (int operm = 0; operm < 2; ++operm) {
      PM p;
      auto a = p.arg(v), b = p.arg(u);
      p.finish({p.add("subtract", {a, b}, ty), a});
      std::string w = fmt::format("names {} {}", perm, operm);
      auto o = exec(x.net, w, {v, u}, [&](SPUContext* cx, auto& in) {
        device::SymbolTable env;
        env.setVar("x", in[0]);
        env.setVar("y", in[1]);
        env.setVar("out0", in[0]);
        env.setVar("other", in[1]);
        call(cx, p.m.text, perm ? std::vector<std::string>{"y", "x"} : std::vector<std::string>{"x", "y"},
             operm ? std::vector<std::string>{"out0", "x"} : std::vector<std::string>{"x", "out0"}, &env);
        return Vals{env.getVar("x"), env.getVar("out0"), env.getVar("other"), env.getVar("y")};
      });
      T diff{{2}, {-29, -38}}, first = v.t;
      if (perm) diff = T{{2}, {29, 38}}, first = u.t;
      same(x, w, o[operm ? 1 : 0], diff, DT_I32);
      same(x, w, o[operm ? 0 : 1], first, DT_I32);
      same(x, w, o[2], u.t, DT_I32);
      same(x, w, o[3], u.t, DT_I32);
    }
  PM p;
  auto a = p.arg(v), b = p.arg(u);
  p.finish({p.add("add", {a, b}, ty)});
  auto table = [&](SPUContext* cx) {
    device::SymbolTable env;
    env.setVar("x", mkIn(cx, x.c.pub, v));
    env.setVar("y", mkIn(cx, x.c.pub, u));
    return env;
  };
  expectErr("a missing input", "z", [&](SPUContext* cx) { auto e = table(cx); call(cx, p.m.text, {"x", "z"}, {"o"}, &e); });
  expectErr("too few inputs", "region requires", [&](SPUContext* cx) { auto e = table(cx); call(cx, p.m.text, {"x"}, {"o"}, &e); });
  expectErr("too many inputs", "region requires", [&](SPUContext* cx) { auto e = table(cx); call(cx, p.m.text, {"x", "y", "x"}, {"o"}, &e); });
  expectErr("garbage", "parser failure", [&](SPUContext* cx) { auto e = table(cx); call(cx, "not a program", {"x", "y"}, {"o"}, &e); });
  {
    PM q;
    auto qa = q.arg(v);
    q.finish({qa});
    q.m.m->attrs["pphlo.version"] = mb::strA("0.0.0.dev");
    expectErr("another version", "does not match", [&](SPUContext* cx) { auto e = table(cx); call(cx, q.m.text, {"x"}, {"o"}, &e); });
    q.m.m->attrs.erase("pphlo.version");
    auto o = exec(x.net, "no version", {v}, q.prog());
    same(x, "no version", o[0], v.t, DT_I32);
  }
  // the entry point: main, or the only function
  for (int form = 0; form < 4; ++form) {
    mb::Module m(fmt::format("entry-{}", form), form == 0 ? "other" : form == 1 ? "main" : "f");
    auto fill = [&](mb::Region& r, bool neg) {
      auto arg = r.addArgument(ty);
      mb::ret(r, {neg ? mb::op1(r, "negate", {arg}, ty) : mb::V(arg)});
    };
    fill(*m.main, true);
    if (form == 1) fill(m.func("helper"), false);
    if (form == 2) fill(m.func("main"), false);
    if (form == 3) fill(m.func("g"), false);
    auto prog = [&](SPUContext* cx, const std::vector<Value>& in) {
      device::SymbolTable env;
      env.setVar("x", in[0]);
      call(cx, m.text, {"x"}, {"o"}, &env);
      return Vals{env.getVar("o")};
    };
    if (form == 3) {
      expectErr("no entry point", "main module not found", [&](SPUContext* cx) { prog(cx, {mkIn(cx, x.c.pub, v)}); });
    } else {
      auto w = fmt::format("entry point {}", form);
      auto o = exec(x.net, w, {v}, prog);
      same(x, w, o[0], form == 2 ? v.t : T{{2}, {-1, -2}}, DT_I32);
    }
  }
  // values that do not have the declared type are refused
  struct Bad {
    const char* what;
    In in;
    mlir::Type ty;
  };
  std::vector<Bad> bad = {{"rank", v, tyOf({2, 1}, DT_I32, true)},          {"dimension", v, tyOf({3}, DT_I32, true)},
                          {"data type", v, tyOf({2}, DT_I64, true)},        {"data type kind", v, tyOf({2}, DT_F32, true)},
                          {"signedness", v, tyOf({2}, DT_U32, true)},       {"public for secret", mkI('p', {2}, {1, 2}), tyOf({2}, DT_I32, true)},
                          {"secret for public", v, tyOf({2}, DT_I32, false)}, {"complex", mkF(x, 's', {2}, {1, 2}), tyOf({2}, DT_F32, true, true)}};
  for (auto& q : bad) {
    mb::Module m(fmt::format("bad-{}", q.what));
    auto arg = m.main->addArgument(q.ty);
    mb::ret(*m.main, {mb::op1(*m.main, "reshape", {arg}, q.ty)});
    expectErr(fmt::format("a mismatch in {}", q.what), "xpect", [&](SPUContext* cx) {
      device::SymbolTable env;
      env.setVar("x", mkIn(cx, x.c.pub, q.in));
      try {
        call(cx, m.text, {"x"}, {"o"}, &env);
      } catch (const std::exception& e) {
        throw std::runtime_error(std::string("xpect ") + e.what());
      }
    });
  }
}

// ---- compositions ----
// All programs of `depth` operations over two inputs, each operation applied
// to any earlier values, against plain evaluation.
struct Step {
  int op;
  int a, b;
};
void compositions(const Conf& c, int depth, int conc) {
  struct OpK {
    const char* name;
    int arity;
    std::function<I(I, I, int)> f;  // position matters for reverse
  };
  const std::vector<OpK> ops = {{"add", 2, [](I a, I b, int) { return a + b; }},
                                {"multiply", 2, [](I a, I b, int) { return a * b; }},
                                {"maximum", 2, [](I a, I b, int) { return std::max(a, b); }},
                                {"negate", 1, [](I a, I, int) { return -a; }},
                                {"reverse", 1, nullptr},
                                {"if", 2, nullptr}};
  for (char kinds : std::string("sp")) {
    vh::unit(fmt::format("compositions/{}/{}{}{}", c.str(), depth, kinds, conc ? "/parallel" : ""), [=] {
      auto cc = c;
      if (conc) {
        cc.rc.experimental_enable_inter_op_par = true;
        cc.rc.experimental_inter_op_concurrency = static_cast<uint64_t>(conc);
      }
      Net net(cc);
      std::vector<Step> st;
      std::function<void()> rec = [&] {
        if (vh::timeUp()) return;
        if (static_cast<int>(st.size()) == depth) {
          PM p;
          In i0 = mkI('s', {2}, {3, -2}), i1 = mkI(kinds, {2}, {-5, 4});
          std::vector<mb::V> v = {p.arg(i0), p.arg(i1)};
          std::vector<bool> sec = {true, kinds != 'p'};
          std::vector<T> t = {i0.t, i1.t};
          std::string w = fmt::format("program over s{}:", kinds);
          for (auto& s : st) {
            const auto& k = ops[s.op];
            w += fmt::format(" {}({}{})", k.name, s.a, k.arity == 2 ? "," + std::to_string(s.b) : "");
            bool sc = sec[s.a] || (k.arity == 2 && sec[s.b]);
            std::string nm = k.name;
            auto ty = tyOf({2}, DT_I32, sc);
            T r{{2}, {}};
            if (nm == "reverse") {
              v.push_back(p.add("reverse", {v[s.a]}, ty, {{"dimensions", arrA({0})}}));
              r.v = {t[s.a].v[1], t[s.a].v[0]};
            } else if (nm == "if") {
              // if (true) { a + b } else { a } with captured values
              auto cnd = p.add("constant", {}, tyOf({}, DT_I1, false), {{"value", mb::dense<uint8_t>({}, mb::i(1), {255}, true)}});
              auto* o = mb::op(p.r(), "if", {cnd}, {ty});
              body(p, o, {}, [&](mb::Region& rg, std::vector<mb::V>) { return std::vector<mb::V>{mb::op1(rg, "add", {v[s.a], v[s.b]}, ty)}; });
              body(p, o, {}, [&](mb::Region& rg, std::vector<mb::V>) { return std::vector<mb::V>{mb::op1(rg, "subtract", {v[s.a], v[s.b]}, ty)}; });
              v.push_back(o->getResult(0));
              for (int i = 0; i < 2; ++i) r.v.push_back(t[s.a].v[i] + t[s.b].v[i]);
            } else {
              std::vector<mb::V> operands = {v[s.a]};
              if (k.arity == 2) operands.push_back(v[s.b]);
              v.push_back(p.add(nm, operands, ty));
              for (int i = 0; i < 2; ++i) r.v.push_back(k.f(t[s.a].v[i], t[s.b].v[i], i));
            }
            sec.push_back(sc);
            t.push_back(r);
          }
          p.finish(v);
          auto o = p.run(net, w);
          for (size_t i = 0; i < t.size(); ++i) expectT(net, fmt::format("{} value {}", w, i), o[i], t[i], DT_I32);
          return;
        }
        const int n = 2 + static_cast<int>(st.size());
        for (int op = 0; op < static_cast<int>(ops.size()); ++op)
          for (int a = 0; a < n; ++a)
            for (int b = 0; b < (ops[op].arity == 2 ? n : 1); ++b) {
              // later steps use the newest value
              if (!st.empty() && a != n - 1 && (ops[op].arity == 1 || b != n - 1)) continue;
              st.push_back({op, a, b});
              rec();
              st.pop_back();
            }
      };
      rec();
    });
  }
}

// The parallel executor on real programs: every schedule of the parties and
// their workers up to a bound.
void schedules(const Conf& c, int bound) {
  const char* names[] = {"product and sum", "two products", "chain", "branch", "constants", "sort and product"};
  for (int prog = 0; prog < 6; ++prog)
    vh::unit(fmt::format("schedules/{}/{}", c.str(), names[prog]), [=] {
      auto cc = c;
      cc.rc.experimental_enable_inter_op_par = true;
      cc.rc.experimental_inter_op_concurrency = 2;
      Net net(cc);
      PM p;
      In i0 = mkI('s', {2}, {3, -2}), i1 = mkI('s', {2}, {-5, 4});
      auto ty = tyOf({2}, DT_I32, true);
      auto a = p.arg(i0), b = p.arg(i1);
      std::vector<mb::V> out;
      std::vector<T> want;
      auto put = [&](mb::V v, std::vector<I> t) {
        out.push_back(v);
        want.push_back(T{{2}, std::move(t)});
        return v;
      };
      auto cst = [&](int64_t v, bool boolean) {
        return boolean ? p.add("constant", {}, tyOf({}, DT_I1, false), {{"value", mb::dense<uint8_t>({}, mb::i(1), {uint8_t(v ? 255 : 0)}, true)}})
                       : p.add("constant", {}, tyOf({2}, DT_I32, false), {{"value", mb::dense<int32_t>({2}, mb::i(32), {int32_t(v)}, true)}});
      };
      if (prog == 0) {
        put(p.add("multiply", {a, b}, ty), {-15, -8});
        put(p.add("add", {a, b}, ty), {-2, 2});
      } else if (prog == 1) {
        put(p.add("multiply", {a, b}, ty), {-15, -8});
        put(p.add("multiply", {a, a}, ty), {9, 4});
        put(p.add("multiply", {b, b}, ty), {25, 16});
      } else if (prog == 2) {
        auto m = put(p.add("multiply", {a, b}, ty), {-15, -8});
        auto n = put(p.add("negate", {m}, ty), {15, 8});
        put(p.add("multiply", {n, b}, ty), {-75, 32});
      } else if (prog == 3) {
        auto m = put(p.add("multiply", {a, b}, ty), {-15, -8});
        auto cnd = cst(1, true);
        auto* o = mb::op(p.r(), "if", {cnd}, {ty});
        body(p, o, {}, [&](mb::Region& rg, std::vector<mb::V>) { return std::vector<mb::V>{mb::op1(rg, "multiply", {m, b}, ty)}; });
        body(p, o, {}, [&](mb::Region&, std::vector<mb::V>) { return std::vector<mb::V>{a}; });
        put(o->getResult(0), {75, -32});
      } else if (prog == 4) {
        auto k = cst(7, false);
        put(p.add("multiply", {k, a}, ty), {21, -14});
        put(p.add("add", {cst(1, false), b}, ty), {-4, 5});
      } else {
        auto m = put(p.add("multiply", {a, b}, ty), {-15, -8});
        put(p.add("less", {a, b}, tyOf({2}, DT_I1, true)), {0, 1});
        put(p.add("add", {m, a}, ty), {-12, -10});
      }
      p.finish(out);
      p.run(net, "first run");  // whatever is set up once per process
      vmc::sched.preempt = true;
      vmc::sched.delay_bounded = true;
      vmc::Explorer ex;
      ex.bound = bound == 1 && c.name.rfind("semi2k", 0) == 0 && prog != 5 ? 2 : bound;
      auto w = fmt::format("{} in parallel", names[prog]);
      ex.explore([&] {
        auto o = p.run(net, w);
        for (size_t i = 0; i < want.size(); ++i) expectT(net, fmt::format("{} value {}", w, i), o[i], want[i], prog == 5 && i == 1 ? DT_I1 : DT_I32);
        return !vh::timeUp();
      });
      vmc::sched.preempt = false;
      vmc::sched.delay_bounded = false;
      vh::add("schedules", ex.execs);
      vh::add("choice points", ex.choice_points);
      vh::eval(vh::hash(w + c.str()), ex.execs > 1);
    });
}
}  // namespace

void vh_units() {
  const bool th = vh::thorough();
  for (auto c : hloConfs({FM64})) {
    c = ppConf(c);
    auto unit = [&](const std::string& n, void (*fn)(Cx&)) {
      vh::unit(n + "/" + c.str(), [=] {
        Cx x(c);
        fn(x);
      });
    };
    unit("unary", unary);
    unit("binary", binary);
    unit("small constants", mulConst);
    unit("constants", constants);
    unit("conversions", conversions);
    unit("structure", structure);
    unit("products", products);
    unit("reductions", reductions);
    unit("sorts", sorts);
    unit("control flow", control);
    unit("intrinsics", intrinsics);
    unit("front door", frontDoor);
    if (c.name != "ref2k" || th) {
      compositions(c, th ? 4 : 3, 0);
      compositions(c, th ? 3 : 2, 2);
      schedules(c, th ? 2 : 1);
    }
  }
}
