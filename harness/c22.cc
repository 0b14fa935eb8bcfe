// Control flow over public and secret conditions: every program tree up to a
// depth, every condition value, against a plain interpreter.
#define USE_REF2K
#define USE_SEMI2K
#define USE_ABY3
#include "hn.h"

#include "libspu/kernel/hal/constants.h"
#include "libspu/kernel/hal/polymorphic.h"
#include "libspu/kernel/hal/ring.h"
#include "libspu/kernel/hlo/control_flow.h"
using namespace vn;
namespace hal = spu::kernel::hal;
namespace hlo = spu::kernel::hlo;
using Vals = std::vector<Value>;

namespace {
struct TyShape {
  spu::DataType dt;
  Shape s;
};
const TyShape kTys[] = {{spu::DT_I32, {}},     {spu::DT_I32, {2, 2}}, {spu::DT_I64, {1}},  {spu::DT_F32, {3}},
                        {spu::DT_I1, {2}},     {spu::DT_I1, {}},      {spu::DT_F64, {1, 1}}, {spu::DT_I8, {2, 1}},
                        {spu::DT_I32, {0}},    {spu::DT_F32, {2, 0}}};
T some(const TyShape& t, int64_t salt) {
  T r{t.s, {}};
  for (int64_t i = 0; i < t.s.numel(); ++i) r.v.push_back(t.dt == spu::DT_I1 ? (i + salt) % 2 : (salt * 31 + i * 7) % 101 - 50);
  return r;
}

void ifs(const Conf& c) {
  const auto ks = kindsOf(c);
  vh::unit("if/" + c.str(), [=] {
    Net net(c);
    size_t n = 0;
    for (char kc : ks) {
      if (kc == 'v' || kc == 'w') continue;  // private conditions are refused
      for (int64_t cv : {0, 1})
        for (auto& ty : kTys)
          for (char ka : ks)
            for (char kb : ks) {
              ++n;
              In p{kc, spu::DT_I1, T{{}, {cv}}, kCompact, {}};
              In a{ka, ty.dt, some(ty, n), n % 2 ? kStrided : kCompact, {}}, b{kb, ty.dt, some(ty, n + 1), kReversed, {}};
              In d{kb, spu::DT_I32, T{{}, {int64_t(n)}}, kCompact, {}}, e{ka, spu::DT_I32, T{{}, {-5}}, kCompact, {}};
              auto w = fmt::format("IfElse {}={} {}:{} kinds {}{}", kc, cv, int(ty.dt), ty.s, ka, kb);
              int ran = 0;
              auto o = exec(net, w, {p, a, b, d, e}, [&](SPUContext* cx, auto& v) {
                return hlo::IfElse(cx, v[0], [&] { return Vals{v[1], v[3]}; }, [&] { return Vals{v[2], v[4]}; });
              });
              (void)ran;
              expectT(net, w, o[0], cv ? a.t : b.t, ty.dt);
              expectT(net, w, o[1], cv ? d.t : e.t, spu::DT_I32);
              if (kc != 'p') VH_CHECK(o[0].vis == spu::VIS_SECRET || ty.s.numel() == 0, "{} {}: the choice of a secret condition is not secret", c.str(), w);
            }
    }
  });
}
void cases(const Conf& c) {
  const auto ks = kindsOf(c);
  vh::unit("case/" + c.str(), [=] {
    Net net(c);
    size_t n = 0;
    for (char ki : ks) {
      for (int64_t N = 1; N <= 4; ++N)
        for (int64_t idx : {int64_t(-2147483648), int64_t(-2), int64_t(-1), int64_t(0), int64_t(1), int64_t(2), int64_t(3), int64_t(4), int64_t(5), int64_t(2147483647)})
          for (auto& ty : kTys) {
            for (int rep = 0; rep < (vh::thorough() ? 5 : 2); ++rep) {
              ++n;
              std::vector<In> in = {{ki, spu::DT_I32, T{{}, {idx}}, kCompact, {}}};
              for (int64_t b = 0; b < N; ++b) {
                in.push_back({ks[(n + b * 3) % ks.size()], ty.dt, some(ty, n + b), b % 2 ? kStrided : kCompact, {}});
                in.push_back({ks[(n / 2 + b) % ks.size()], spu::DT_I32, T{{2}, {b * 100 + 7, -b}}, kCompact, {}});
              }
              std::string w = fmt::format("Case {}={} of {} {}:{} kinds", ki, idx, N, int(ty.dt), ty.s);
              for (auto& x : in) w += x.kind;
              auto o = exec(net, w, in, [&](SPUContext* cx, auto& v) {
                std::vector<hlo::BranchFcnT> br;
                for (int64_t b = 0; b < N; ++b) br.push_back([&, b] { return Vals{v[1 + 2 * b], v[2 + 2 * b]}; });
                return hlo::Case(cx, v[0], br);
              });
              const auto at = idx < 0 || idx >= N ? N - 1 : idx;
              expectT(net, w, o[0], in[1 + 2 * at].t, ty.dt);
              expectT(net, w, o[1], in[2 + 2 * at].t, spu::DT_I32);
              if (ki != 'p' && ki != 'v' && ki != 'w' && ty.s.numel())
                VH_CHECK(o[0].vis == spu::VIS_SECRET, "{} {}: the choice of a secret index is not secret", c.str(), w);
            }
          }
    }
  });
}
// Program trees: x -> x.  Nodes: leaf operations, sequence, if, case, while.
struct Node {
  int op;  // 0 add 3, 1 negate, 2 double, 3 if, 4 case of 3, 5 while, 6 sequence, 7 shift left by counter
  int sel;  // input that selects
  std::vector<Node> kids;
  std::string str() const {
    const char* nm[] = {"add", "neg", "dbl", "if", "case", "while", "seq"};
    if (op < 3) return nm[op];
    std::string s = fmt::format("{}{}(", nm[op], sel);
    for (auto& k : kids) s += k.str() + ",";
    return s + ")";
  }
};
int64_t interp(const Node& t, int64_t x, const std::vector<int64_t>& sel) {
  switch (t.op) {
    case 0: return x + 3;
    case 1: return -x;
    case 2: return x * 2;
    case 3: return interp(t.kids[sel[t.sel] != 0 ? 0 : 1], x, sel);
    case 4: return interp(t.kids[sel[t.sel] < 0 || sel[t.sel] > 2 ? 2 : sel[t.sel]], x, sel);
    case 5:
      for (int64_t i = 0; i < sel[t.sel]; ++i) x = interp(t.kids[0], x, sel) + i;
      return x;
    default: return interp(t.kids[1], interp(t.kids[0], x, sel), sel);
  }
}
Value run(SPUContext* cx, const Node& t, const Value& x, const std::vector<Value>& sel) {
  auto k = [&](int64_t v) { return hal::constant(cx, static_cast<int32_t>(v), spu::DT_I32, x.shape()); };
  switch (t.op) {
    case 0: return hal::add(cx, x, k(3));
    case 1: return hal::negate(cx, x);
    case 2: return hal::mul(cx, x, k(2));
    case 3: {
      auto zero = hal::constant(cx, static_cast<int32_t>(0), spu::DT_I32, {});
      return hlo::IfElse(cx, hal::not_equal(cx, sel[t.sel], zero), [&] { return Vals{run(cx, t.kids[0], x, sel)}; },
                         [&] { return Vals{run(cx, t.kids[1], x, sel)}; })[0];
    }
    case 4: {
      std::vector<hlo::BranchFcnT> br;
      for (int b = 0; b < 3; ++b) br.push_back([&, b] { return Vals{run(cx, t.kids[b], x, sel)}; });
      return hlo::Case(cx, sel[t.sel], br)[0];
    }
    case 5: {
      auto i0 = hal::constant(cx, static_cast<int32_t>(0), spu::DT_I32, {});
      return hlo::While(cx, Vals{i0, x}, [&](absl::Span<const Value> s) { return hal::less(cx, s[0], sel[t.sel]); },
                        [&](absl::Span<const Value> s) {
                          auto one = hal::constant(cx, static_cast<int32_t>(1), spu::DT_I32, {});
                          auto y = run(cx, t.kids[0], s[1], sel);
                          return Vals{hal::add(cx, s[0], one), hal::add(cx, y, s[0])};
                        })[1];
    }
    default: return run(cx, t.kids[1], run(cx, t.kids[0], x, sel), sel);
  }
}
std::vector<Node> trees(int depth) {
  std::vector<Node> r = {{0, 0, {}}, {1, 0, {}}, {2, 0, {}}};
  if (!depth) return r;
  auto sub = trees(depth - 1);
  if (depth > 1 && !vh::thorough()) {  // every construct below every construct, with rotating leaves
    std::vector<Node> s;
    for (size_t i = 0; i < sub.size(); ++i)
      if (sub[i].op < 1 || (sub[i].op > 2 && i % 13 == 5)) s.push_back(sub[i]);
    sub = s;
  }
  const Node add{0, 0, {}}, neg{1, 0, {}}, dbl{2, 0, {}};
  for (int sel : {0, 1}) {
    for (auto& a : sub)
      for (auto& b : sub) {
        r.push_back({3, sel, {a, b}});
        r.push_back({4, sel, {a, b, dbl}});
        r.push_back({4, sel, {neg, a, b}});
        if (sel == 0) r.push_back({6, 0, {a, b}});
      }
    for (auto& a : sub) r.push_back({5, 2, {a}});
  }
  return r;
}
void programs(const Conf& c) {
  for (int part = 0; part < 4; ++part)
    vh::unit(fmt::format("programs/{}/{}", c.str(), part), [=] {
      Net net(c);
      auto all = trees(2);
      size_t n = 0;
      for (auto& t : all) {
        if (static_cast<int>(n++ % 4) != part) continue;
        for (auto& kv : {std::string("ps"), std::string("sp"), std::string("ss"), std::string("pp")}) {
          if (kv == "pp" && n % 8) continue;
          for (auto& sv : tuples({{-1, 0, 1, 2}, {0, 1, 2}, {0, 2}})) {
            // every tree with every kind of conditions; condition values in rotation
            if ((sv[0] + 1 + sv[1] * 4 + sv[2] * 6 + n) % (vh::thorough() ? 3 : 12) != 0) continue;
            auto kind = [&](char k) { return k == 's' && c.name != "ref2k" ? (n % 2 ? 'a' : 'b') : k; };
            std::vector<In> in = {{kind('s'), spu::DT_I32, T{{}, {5}}, kCompact, {}}};
            for (int i = 0; i < 3; ++i) in.push_back({i < 2 ? kind(kv[i]) : 'p', spu::DT_I32, T{{}, {sv[i]}}, kCompact, {}});
            auto w = fmt::format("{} kinds {} selectors {}", t.str(), kv, sv);
            auto o = exec(net, w, in, [&](SPUContext* cx, auto& v) {
              return Vals{run(cx, t, v[0], {v.begin() + 1, v.end()})};
            });
            expectT(net, w, o[0], T{{}, {interp(t, 5, sv)}}, spu::DT_I32);
          }
        }
      }
    });
}
void whiles(const Conf& c) {
  vh::unit("while/" + c.str(), [=] {
    Net net(c);
    // a secret condition is refused at every party and reveals nothing
    for (char k : kindsOf(c)) {
      if (k == 'p') continue;
      int threw = 0;
      vh::where(fmt::format("while with condition {}", k));
      net.run("while", [&](SPUContext* cx, size_t) {
        auto a = mkIn(cx, c.pub, {k, spu::DT_I32, T{{}, {3}}, kCompact, {}});
        auto z = hal::constant(cx, static_cast<int32_t>(0), spu::DT_I32, {});
        try {
          hlo::While(cx, Vals{a}, [&](absl::Span<const Value> s) { return hal::greater(cx, s[0], z); },
                     [&](absl::Span<const Value> s) { return Vals{hal::sub(cx, s[0], hal::constant(cx, static_cast<int32_t>(1), spu::DT_I32, {}))}; });
        } catch (const std::exception&) {
          ++threw;
        }
      });
      vh::eval(vh::hash(c.str() + k));
      VH_CHECK(threw == static_cast<int>(c.npc), "{}: a while loop over a {} condition was run", c.str(), k);
    }
    // no iteration returns the operands
    for (char k : kindsOf(c)) {
      In a{k, spu::DT_F32, T::iota({2, 2}), kStrided, {}}, p{'p', spu::DT_I1, T{{}, {0}}, kCompact, {}};
      auto o = exec(net, fmt::format("while without iterations {}", k), {p, a}, [&](SPUContext* cx, auto& v) {
        return hlo::While(cx, v, [&](absl::Span<const Value> s) { return s[0]; },
                          [&](absl::Span<const Value> s) -> Vals { SPU_THROW("the body ran"); });
      });
      expectT(net, "while without iterations", o[1], a.t, spu::DT_F32);
    }
  });
}
}  // namespace

void vh_units() {
  for (auto& c : hloConfs({FM64})) {
    ifs(c);
    cases(c);
    whiles(c);
    programs(c);
  }
  for (auto& c : hloConfs({FM32, FM128})) {
    if (c.name == "ref2k" || (!vh::thorough() && c.npc == 2)) continue;
    cases(c);
    whiles(c);
    if (vh::thorough()) ifs(c);
  }
}
