// Non-linear functions of fixed point numbers: every encoded input of the
// documented domain for small numbers of fraction bits, and boundary and grid
// inputs for the usual ones, against long double arithmetic.
#define USE_REF2K
#define USE_SEMI2K
#define USE_ABY3
#include "hn.h"

#include "libspu/kernel/hal/constants.h"
#include "libspu/kernel/hal/fxp_approx.h"
#include "libspu/kernel/hal/fxp_base.h"
#include "libspu/kernel/hal/polymorphic.h"
#include "libspu/kernel/hlo/basic_binary.h"
#include "libspu/kernel/hlo/basic_unary.h"
using namespace vn;
namespace hal = spu::kernel::hal;
namespace hlo = spu::kernel::hlo;
using namespace spu;
using R = long double;
namespace {
using RC = RuntimeConfig;
struct Fn {
  std::string name;
  int arity = 1;
  bool pub = false;  // public inputs have a kernel of their own
  std::function<Value(SPUContext*, const std::vector<Value>&)> fn;
  std::function<R(R, R)> exact;
  // domain for f fraction bits in a ring of k bits
  std::function<std::pair<R, R>(int, int)> dom, dom2;
  // allowed error for f fraction bits, inputs and exact result
  std::function<R(int, R, R, R)> tol;
  int minf, maxf;  // fraction bits it is usable with
  int iters = 2;
  std::string only;  // protocol and field
  std::vector<std::string> kinds;
  std::function<void(RC&)> cfg;
  std::function<bool(R, R, int)> ok;  // inputs that count
};
const R PI = 3.14159265358979323846264338327950288L;

R ulp(int f) { return powl(2, -f); }
// relative error of the secret reciprocal: Goldschmidt from 2.9142 - 2c has
// e0 <= 0.0858, and the configured number of squarings (one more when f >= 30)
int g_iters = 2;
R recipRel(int f) {
  const int n = f >= 30 ? std::max(g_iters, 3) : g_iters;
  return powl(0.0862L, 1 << n) + 6 * ulp(f);
}
// relative error of the constant 2^(f/2) sqrt(2) kept as an integer
R compRel(int f) {
  const R c = f % 2 ? powl(2, f / 2 + 1) * sqrtl(2) : powl(2, f / 2) * sqrtl(2);
  return fabsl(floorl(c) / c - 1);
}
R lg(R x) { return x > 0 ? fabsl(log2l(x)) : 0; }
R expTaylorTol(int f, R x, int iters) {
  const R n = powl(2, iters), e = expl(x);
  // one unit of x/n becomes n units of the result
  return 1.01L * fabsl(e - powl(1 + x / n, n)) + e * 1.6L * n * ulp(f) + 3 * ulp(f);
}
R expPadeTol(int f, R x) { return expl(x) * (9e-5L + (5 + fabsl(x)) * ulp(f)) + 2 * ulp(f); }
R logTol(int f, R x) { return 6e-8L + (4 + lg(x)) * ulp(f); }
R sqrtTol(int f, R x) {
  const R d0 = 2e-4L + compRel(f) + 25 * ulp(f), s = sqrtl(x);
  const R d1 = ulp(f) * s;
  return s * (1.6L * d0 * d0 + 2 * d1 * d1 + 3 * ulp(f)) + (1.2L * x + 2) * ulp(f);
}
// the same functions of public values go through single precision, arguments
// included
R pubTol(const std::function<R(R, R)>& ex, int f, R x, R y, R e) {
  const R p = f <= 10 ? powl(2, -11) : 1.2e-7L;  // F16 or F32
  if (f <= 10 && fabsl(e) > 60000) return INFINITY;
  R t = 1.1L * ulp(f) + 2.5L * p * fabsl(e);
  for (R d : {-p, p})
    for (R v : {ex(x * (1 + d), y), ex(x, y * (1 + d)), x < 0 && d > 0 ? e : ex(x + d, y)})
      if (std::isfinite(v)) t += fabsl(v - e);
  return t;
}

std::vector<Fn> functions() {
  std::vector<Fn> o;
  auto fixed = [](R a, R b) { return [=](int, int) { return std::pair<R, R>{a, b}; }; };
#define U1(f) [](SPUContext* c, const std::vector<Value>& v) { return f(c, v[0]); }
#define U2(f) [](SPUContext* c, const std::vector<Value>& v) { return f(c, v[0], v[1]); }
#define X1(e) [](R x, R) -> R { return e; }
#define X2(e) [](R x, R y) -> R { return e; }
#define T1(e) [](int f, R x, R e_) -> R { (void)f, (void)x, (void)e_; const R u = ulp(f); (void)u; return e; }
  auto add = [&](std::string n, bool pub, auto fn, auto ex, auto dom, std::function<R(int, R, R)> tol, int minf, int maxf, std::function<void(RC&)> cfg = {}) -> Fn& {
    Fn f;
    f.name = n;
    f.pub = pub;
    f.fn = fn;
    f.exact = ex;
    f.dom = dom;
    f.tol = [tol](int f, R x, R, R e) { return tol(f, x, e); };
    f.minf = minf;
    f.maxf = maxf;
    f.cfg = cfg;
    o.push_back(f);
    return o.back();
  };
  // (0, 2^(f-1)), or 2^16
  auto pos = [](int f, int) { return std::pair<R, R>{ulp(f), powl(2, std::min(f - 1, 16)) - ulp(f)}; };
  // 1/sqrt reverses the bits up to an even number below f
  auto rpos = [](int f, int) { return std::pair<R, R>{ulp(f), powl(2, std::min(f % 2 ? f - 3 : f - 1, 16)) - ulp(f)}; };
  auto any = [](int f, int) { return std::pair<R, R>{-powl(2, std::min(f - 1, 16)) + ulp(f), powl(2, std::min(f - 1, 16)) - ulp(f)}; };
  const auto recip = T1(fabsl(e_) * recipRel(f) + 2 * u);
  add("reciprocal", true, U1(hlo::Reciprocal), X1(1 / x), any, recip, 8, 40).ok = [](R x, R, int) { return x != 0; };
  auto iters = [](int n) { return [n](RC& c) { c.fxp_div_goldschmidt_iters = n; }; };
  for (int n : {1, 3}) {
    auto& g = add(fmt::format("reciprocal {} iterations", n), true, U1(hlo::Reciprocal), X1(1 / x), any, recip, 8, 40, iters(n));
    g.iters = n;
    g.ok = [](R x, R, int) { return x != 0; };
  }
  add("exp taylor", true, U1(hlo::Exp), X1(expl(x)), fixed(-100, 2.1), T1(expTaylorTol(f, x, 8)), 14, 40, [](RC& c) { c.fxp_exp_mode = RC::EXP_TAYLOR; });
  add("exp", true, U1(hlo::Exp), X1(expl(x)), fixed(-20, 2), T1(expTaylorTol(f, x, 8)), 14, 40);
  add("log", true, U1(hlo::Log), X1(logl(x)), pos, T1(logTol(f, x)), 8, 40);
  add("exp taylor 5 squarings", true, U1(hlo::Exp), X1(expl(x)), fixed(-30, 2.1), T1(expTaylorTol(f, x, 5)), 10, 40, [](RC& c) { c.fxp_exp_mode = RC::EXP_TAYLOR; c.fxp_exp_iters = 5; });
  add("exp pade", true, U1(hlo::Exp), X1(expl(x)), fixed(-22, 22), T1(expPadeTol(f, x)), 10, 40, [](RC& c) { c.fxp_exp_mode = RC::EXP_PADE; });
  // beyond the clamps at +-32 ln 2
  add("exp pade clamped", false, U1(hlo::Exp), X1(x > 0 ? 4294967296.0L : 0), fixed(-200, 200), T1(x > 0 ? 4294967296.0L * (2e-4L + 40 * u) : 2 * u), 10, 26, [](RC& c) { c.fxp_exp_mode = RC::EXP_PADE; }).ok = [](R x, R, int) { return fabsl(x) > 22.2; };
  o.back().kinds = {"s"};
  add("exp prime", false, U1(hlo::Exp), X1(expl(x)), fixed(-11.5, 24), T1(e_ * (2e-7L * (1 + fabsl(x)) + 4 * u) + 2 * u), 26, 26, [](RC& c) {
    c.fxp_exp_mode = RC::EXP_PRIME;
    c.experimental_enable_exp_prime = true;
  }).only = "semi2k-f26-2pc-FM128";
  o.back().kinds = {"s"};
  add("expm1", true, U1(hlo::Expm1), X1(expm1l(x)), fixed(-30, 2.1), T1(expTaylorTol(f, x, 8)), 14, 40);
  add("exp2", false, U1(hal::f_exp2), X1(exp2l(x)), fixed(-22, 22), T1(e_ * (9e-5L + 5 * u) + 2 * u), 10, 40);
  add("log minmax", true, U1(hlo::Log), X1(logl(x)), pos, T1(logTol(f, x)), 8, 40, [](RC& c) { c.fxp_log_mode = RC::LOG_MINMAX; });
  add("log pade", true, U1(hlo::Log), X1(logl(x)), pos, T1(1e-7L + recipRel(f) + (6 + lg(x)) * u), 10, 40, [](RC& c) { c.fxp_log_mode = RC::LOG_PADE; });
  add("log newton", true, U1(hlo::Log), X1(logl(x)), fixed(0.01, 200), T1(0.02L * fabsl(e_) + 6e-3L), 18, 40, [](RC& c) { c.fxp_log_mode = RC::LOG_NEWTON; });
  add("log2", false, U1(hal::f_log2), X1(log2l(x)), pos, T1(1e-7L + recipRel(f) + 8 * u), 10, 40);
  add("log1p", true, U1(hlo::Log1p), X1(log1pl(x)), [](int f, int) { return std::pair<R, R>{-1 + ulp(f), powl(2, std::min(f - 1, 16)) - 1 - ulp(f)}; }, T1(logTol(f, 1 + x)), 8, 40);
  add("sqrt", false, U1(hlo::Sqrt), X1(sqrtl(x)), rpos, T1(sqrtTol(f, x)), 8, 40);
  add("rsqrt", false, U1(hlo::Rsqrt), X1(1 / sqrtl(x)), rpos, T1(e_ * (2.2e-4L + compRel(f) + 30 * u) + 2 * u), 8, 40);
  add("rsqrt in parallel", false, U1(hlo::Rsqrt), X1(1 / sqrtl(x)), rpos, T1(e_ * (2.2e-4L + compRel(f) + 30 * u) + 2 * u), 18, 26, [](RC& c) { c.experimental_enable_intra_op_par = true; });
  add("rsqrt fast", false, U1(hlo::Rsqrt), X1(1 / sqrtl(x)), rpos, T1(e_ * (6e-3L + compRel(f) + 30 * u) + 2 * u), 8, 40, [](RC& c) { c.enable_lower_accuracy_rsqrt = true; });
  const auto S = [](R x) { return 1 / (1 + expl(-x)); };
  add("sigmoid", false, U1(hlo::Logistic), X1(1 / (1 + expl(-x))), fixed(-2, 20), [S](int f, R x, R) {
    const R s = S(x);
    return s * s * expTaylorTol(f, -x, 8) * 1.1L + s * recipRel(f) + 4e-7L + 2 * ulp(f);
  }, 14, 40, [](RC& c) { c.sigmoid_mode = RC::SIGMOID_REAL; });
  {
    Fn g = o.back();  // the default
    g.name = "sigmoid default";
    g.cfg = {};
    o.push_back(g);
  }
  add("sigmoid pade", false, U1(hlo::Logistic), X1(1 / (1 + expl(-x))), [](int f, int) { return std::pair<R, R>{-(f - 1) * logl(2) + 0.1L, 22}; }, [S](int f, R x, R) {
    const R s = S(x);
    return s * s * expPadeTol(f, -x) * 1.1L + s * recipRel(f) + 4e-7L + 2 * ulp(f);
  }, 10, 40, [](RC& c) { c.sigmoid_mode = RC::SIGMOID_REAL; c.fxp_exp_mode = RC::EXP_PADE; }).ok = [](R x, R, int) { return x > -22; };
  add("sigmoid mm1", false, U1(hlo::Logistic), X1(0.5L + x / 8), any, T1(1.2L * u), 8, 40, [](RC& c) { c.sigmoid_mode = RC::SIGMOID_MM1; });
  add("sigmoid seg3", false, U1(hlo::Logistic), X1(x < -4 ? 0 : x > 4 ? 1 : 0.5L + x / 8), any, T1(1.2L * u), 8, 40, [](RC& c) { c.sigmoid_mode = RC::SIGMOID_SEG3; });
  add("tanh", false, U1(hlo::Tanh), X1(tanhl(x)), any, T1(8e-3L * fabsl(e_) + 14 * u), 8, 40);
  add("sine", true, U1(hlo::Sine), X1(sinl(x)), fixed(-60, 60), T1(1e-4L + (14 + fabsl(x) / 3) * u), 8, 40);
  add("cosine", true, U1(hlo::Cosine), X1(cosl(x)), fixed(-60, 60), T1(1e-4L + (14 + fabsl(x) / 3) * u), 8, 40);
  add("erf", true, U1(hal::f_erf), X1(erfl(x)), any, T1(4.8e-4L + 5 * u), 8, 40);
  add("acos", true, U1(hlo::Acos), X1(acosl(x)), fixed(-1, 1), T1((f <= 20 ? 8e-5L : 2e-7L) + 12 * u), 8, 40);
  add("asin", true, U1(hlo::Asin), X1(asinl(x)), fixed(-1, 1), T1((f <= 20 ? 8e-5L : 2e-7L) + 12 * u), 8, 40);
  auto add2 = [&](std::string n, bool pub, auto fn, auto ex, auto dom, auto dom2, std::function<R(int, R, R, R)> tol, std::function<bool(R, R, int)> ok, int minf, int maxf) {
    auto& f = add(n, pub, fn, ex, dom, {}, minf, maxf);
    f.arity = 2;
    f.dom2 = dom2;
    f.tol = tol;
    f.ok = ok;
  };
  add2("atan2", true, U2(hlo::Atan2), X2(atan2l(x, y)), fixed(-20, 20), fixed(-20, 20), [](int f, R x, R y, R) { return (f <= 20 ? 1e-5L : f < 30 ? 1.2e-5L : 6e-8L) + (5 + 4 / std::max(fabsl(x), fabsl(y))) * ulp(f); }, [](R x, R y, int) { return fabsl(x) + fabsl(y) > 0.5; }, 8, 40);
  add2("division", true, U2(hlo::Div), X2(x / y), fixed(-200, 200), fixed(-200, 200), [](int f, R, R y, R e) { return fabsl(e) * recipRel(f) + (3 / fabsl(y) + 2) * ulp(f); },
       [](R x, R y, int f) { return y != 0 && fabsl(y) < powl(2, f - 1) && fabsl(x / y) < powl(2, std::min(f - 3, 20)); }, 8, 40);
  add2("power", true, U2(hlo::Power), X2(powl(x, y)), fixed(-12, 12), fixed(-16, 16), [](int f, R x, R y, R e) {
    const R l = logl(std::max(fabsl(x), ulp(f)));
    return fabsl(e) * (1e-4L + (8 + fabsl(y) * (6 + lg(fabsl(x))) + fabsl(y * l)) * ulp(f)) + 2 * ulp(f) + powl(2, -32);
  }, [](R x, R y, int f) {
    if (x == 0) return y >= (f < 13 ? 1 : 0.5L) * 2;
    return fabsl(x) >= 0.05L && (x > 0 || y == floorl(y)) && y * logl(fabsl(x)) < std::min(20, f) * 0.69L;
  }, 10, 40);
  return o;
}
std::vector<int64_t> inputs(const Fn& g, int f, int k, bool second, bool dense) {
  auto [a, b] = (second ? g.dom2 : g.dom)(f, k);
  const R one = powl(2, f);
  std::set<int64_t> s;
  const int64_t lo = int64_t(ceill(a * one)), hi = int64_t(floorl(b * one));
  if (dense) {
    const int64_t lim = vh::thorough() ? 1 << 20 : 1 << 15;
    const int64_t step = std::max<int64_t>(1, (hi - lo) / lim);
    for (int64_t x = lo; x <= hi; x += step) s.insert(x);
  } else {
    const int64_t n = g.arity == 2 ? 24 : 400;
    const int64_t step = std::max<int64_t>(1, (hi - lo) / n);
    for (int64_t x = lo; x <= hi; x += step) s.insert(x);
  }
  // around powers of two and small multiples of one
  std::vector<int64_t> c;
  for (int e = 0; e < 50; ++e) c.push_back(int64_t(1) << e);
  for (int m = 1; m <= 16; ++m) c.push_back(m * int64_t(one)), c.push_back(m * int64_t(one) / 4);
  c.push_back(int64_t(one * PI));
  c.push_back(int64_t(one * PI / 2));
  for (auto x : c)
    for (int d = g.arity == 2 ? 0 : -2; d <= (g.arity == 2 ? 0 : 2); ++d)
      for (int sg : {1, -1})
        if (sg * x + d >= lo && sg * x + d <= hi) s.insert(sg * x + d);
  for (int64_t x : {lo, lo + 1, hi - 1, hi, int64_t(0)})
    if (x >= lo && x <= hi) s.insert(x);
  return {s.begin(), s.end()};
}
struct Sys {
  Conf c;
  int f;
  bool dense;
};
std::vector<Sys> systems() {
  std::vector<Sys> r;
  auto add = [&](Conf c, int f, bool dense) {
    c.rc.fxp_fraction_bits = f;
    c = fullConf(c);
    c.name += fmt::format("-f{}", f);
    r.push_back({c, f, dense});
  };
  for (int f : {10, 14}) add(ref2k(2, FM64), f, true);
  for (int f : {13, 18, 19, 20, 21}) add(ref2k(2, FM64), f, true);
  for (int f : {26, 40}) add(ref2k(2, FM128), f, false);
  add(ref2k(2, FM32), 8, true);
  for (int f : {14, 18}) add(semi2k(2, FM64), f, false);
  add(semi2k(3, FM64), 18, false);
  add(semi2k(2, FM128), 26, false);
  add(aby3(FM64), 18, false);
  add(aby3(FM128), 26, false);
  return r;
}
void check(const Sys& s, const Fn& g, const std::string& kinds) {
  Sys y = s;
  if (g.cfg) g.cfg(y.c.rc);
  const int k = bitsOf(y.c.rc.field);
  const R one = powl(2, y.f);
  std::vector<int64_t> x1 = inputs(g, y.f, k, false, y.dense && g.arity == 1), x2;
  std::vector<In> ins;
  auto fits = [&](R p, R q) { return fabsl(g.exact(p, q)) <= powl(2, 62 - (k > 64 || g.name.rfind("exp", 0) == 0 ? 1 : 2) * y.f); };
  if (g.arity == 2) {
    auto b = inputs(g, y.f, k, true, false);
    std::vector<int64_t> xs;
    for (auto p : x1)
      for (auto q : b)
        if (g.ok(p / one, q / one, y.f) && fits(p / one, q / one)) {
          xs.push_back(p);
          x2.push_back(q);
        }
    x1 = xs;
  } else {
    std::vector<int64_t> xs;
    for (auto p : x1)
      if ((!g.ok || g.ok(p / one, 0, y.f)) && fits(p / one, 0)) xs.push_back(p);
    x1 = xs;
  }
  if (x1.empty()) return;
  auto mk = [&](char kind, const std::vector<int64_t>& v) {
    In in;
    in.kind = kind;
    in.dt = y.f > 24 ? DT_F64 : y.f > 10 ? DT_F32 : DT_F16;
    in.t = T{{int64_t(v.size())}, v};
    return in;
  };
  ins.push_back(mk(kinds[0], x1));
  if (g.arity == 2) ins.push_back(mk(kinds[1], x2));
  Net net(y.c);
  const auto what = fmt::format("{}[{}] of {} inputs", g.name, kinds, x1.size());
  auto out = exec(net, what, ins, [&](SPUContext* c, const std::vector<Value>& v) { return std::vector<Value>{g.fn(c, v)}; })[0];
  const bool clear = g.pub && kinds.find_first_not_of('p') == std::string::npos;
  g_iters = g.iters;
  vh::add("inputs", long(x1.size()));
  VH_CHECK(out.v.size() == x1.size(), "{}: {} gave {} results", y.c.str(), what, out.v.size());
  R worst = 0;
  size_t at = 0;
  for (size_t i = 0; i < x1.size(); ++i) {
    const R a = x1[i] / one, b = x2.empty() ? 0 : x2[i] / one;
    const R e = g.exact(a, b), got = out.v[i] / one;
    const R t = clear ? pubTol(g.exact, y.f, a, b, e) : g.tol(y.f, a, b, e);
    const R q = fabsl(got - e) / (1.5L * t);
    if (q > worst) worst = q, at = i;
  }
  if (getenv("C24_MEAS"))
    if (auto* mf = fopen("/tmp/meas.txt", "a")) {
      fmt::print(mf, "{:24} {:28} {:3} {:.2f} at {} {}\n", g.name, y.c.str(), kinds, double(worst), double(x1[at] / one), x2.empty() ? 0.0 : double(x2[at] / one));
      fclose(mf);
    }
  if (worst > 1) {
    const R a = x1[at] / one, b = x2.empty() ? 0 : x2[at] / one, e = g.exact(a, b);
    if (!getenv("C24_MEAS")) vh::fail(fmt::format("{}: {}: of ({}, {}) is {}, exact {}, allowed error {}", y.c.str(), what, double(a), double(b), double(out.v[at] / one), double(e), double(1.5L * (clear ? pubTol(g.exact, y.f, a, b, e) : g.tol(y.f, a, b, e)))));
  }
}
}  // namespace
void vh_units() {
  for (auto& s : systems())
    for (auto& g : functions()) {
      if (s.f < g.minf || s.f > g.maxf || (!g.only.empty() && s.c.str() != g.only)) continue;
      vh::unit(fmt::format("{}/{}", s.c.str(), g.name), [s, g] {
        std::vector<std::string> ks = g.arity == 1 ? std::vector<std::string>{"s", "p"} : std::vector<std::string>{"ss", "sp", "ps", "pp"};
        if (!g.kinds.empty()) ks = g.kinds;
        for (auto& k : ks) check(s, g, k);
      });
    }
}
