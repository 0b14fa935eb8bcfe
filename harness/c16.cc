// C16: an operation split into tiles that run in threads gives the result of
// the whole, for every shape, tile size, memory layout and schedule.
#define USE_SEMI2K
#define USE_ABY3
#define USE_SECURENN
#define USE_SPDZ2K
#define USE_SWIFT
#define USE_REF2K
#include "protoops.h"
#include "protos.h"

#include "libspu/core/config.h"
#include "libspu/core/parallel_utils.h"
#include "libspu/kernel/hal/constants.h"
#include "libspu/kernel/hal/fxp_approx.h"
#include "libspu/kernel/hal/fxp_base.h"
#include "libspu/kernel/hal/public_helper.h"
using namespace vn;

namespace {
struct TaskSize {
  int64_t old = spu::kMinTaskSize;
  explicit TaskSize(int64_t n) { spu::kMinTaskSize = n; }
  ~TaskSize() { spu::kMinTaskSize = old; }
};
struct Proto {
  Conf c;
  std::set<std::string> off;
  std::function<void(Op&)> tweak;
};
std::vector<Proto> protos() {
  std::vector<Proto> r;
  const std::set<std::string> eq = {"equal_ss[bb]", "equal_sp[bp]"}, noeq = {"equal_ss", "equal_sp"};
  for (auto f : {FM64, FM32, FM128}) {
    r.push_back({aby3(f), eq, [](Op& o) {
                   if (o.name.rfind("arshift_s", 0) == 0 && o.kinds == "b") o.dom = "F";
                 }});
    r.push_back({securenn(f), noeq, [](Op& o) {
                   if (o.name == "msb_s" && o.kinds == "a") o.dom = "n";
                 }});
    if (f != FM128) r.push_back({swift(f), noeq, nullptr});
    if (f == FM64) {
      r.push_back({semi2k(2, f), eq, nullptr});
      r.push_back({ref2k(2, f), noeq, nullptr});
    }
  }
  for (auto& p : r) p.c.rc.experimental_enable_intra_op_par = true;
  return r;
}
Op truncOp(int bits, spu::SignType sg) {
  Op o;
  o.name = fmt::format("trunc_a({},{})", bits, int(sg));
  o.kinds = "a";
  o.dom = "f";
  o.fn = [=](SPUContext* c, const std::vector<Value>& v) -> std::optional<Value> {
    return spu::mpc::trunc_s(c, v[0], bits, sg);
  };
  return o;
}
std::vector<Op> alphabet(const Proto& p) {
  std::vector<Op> r;
  std::set<std::string> seen;
  const std::set<std::string> secret_only = {"a", "b", "aa", "ab", "ba", "bb", "s", "ss", "ap", "bp", "sp"};
  for (auto op : ringOps(bitsOf(p.c.pub), p.c.name != "ref2k", false)) {
    auto base = op.name.substr(0, op.name.find('('));
    if (p.off.count(op.name + "[" + op.kinds + "]") || p.off.count(base + "[" + op.kinds + "]") || p.off.count(base)) continue;
    if (!secret_only.count(op.kinds)) continue;
    if (base.find("shift") != std::string::npos && op.name.find("vec") != std::string::npos) continue;
    if (!seen.insert(base + op.kinds).second) continue;
    if (p.tweak) p.tweak(op);
    r.push_back(op);
  }
  return r;
}
std::vector<Arg> mini(const Op& op, int k, const Shape& sh, const std::vector<int>& lay, int salt) {
  std::vector<Arg> args(op.kinds.size());
  for (size_t i = 0; i < args.size(); ++i) {
    auto d = domain(op.dom[i], k, true);
    args[i].kind = op.kinds[i];
    args[i].layout = lay[i];
    args[i].shape = sh;
    for (int64_t t = 0; t < sh.numel(); ++t) args[i].data.push_back(d[(t * (i + 2) + i * 5 + salt) % d.size()]);
    widen(args[i], op.dom[i], k);
  }
  return args;
}
std::vector<Shape> shapes() {
  std::vector<Shape> s = {Shape{}, Shape{0}, Shape{2, 0}, Shape{0, 3}, Shape{3, 0, 2}};
  for (int a = 1; a <= 9; ++a) s.push_back({a});
  for (int a = 1; a <= 4; ++a)
    for (int b = 1; b <= 4; ++b) s.push_back({a, b});
  for (int a = 1; a <= 3; ++a)
    for (int b = 1; b <= 3; ++b)
      for (int c = 1; c <= 3; ++c) s.push_back({a, b, c});
  s.push_back({2, 1, 2, 2});
  s.push_back({2, 3, 1, 2});
  return s;
}
// Runs a truncation of small numbers; the result may be off by one.
void checkTrunc(Net& net, const Arg& a, int bits, spu::SignType sg, const std::string& w) {
  const int k = bitsOf(net.conf.pub);
  std::vector<std::vector<U>> got(net.conf.npc);
  vh::where(net.conf.str() + " " + w);
  net.run(w, [&](SPUContext* c, size_t i) {
    auto r = spu::mpc::trunc_s(c, mkArg(c, net.conf.pub, a), bits, sg);
    if (r.shape() != a.shape) throw std::runtime_error("wrong shape");
    got[i] = readArr(reveal(c, r).data());
  });
  auto in = logical(a);
  for (size_t q = 0; q < net.conf.npc; ++q)
    for (size_t i = 0; i < in.size(); ++i) {
      auto d = sgn(got[q][i], k) - (sgn(in[i], k) >> bits);
      VH_CHECK(d >= -1 && d <= 1, "{} {}: {} becomes {} at party {}", net.conf.str(), w, hex(in[i]), hex(got[q][i]), q);
    }
  vh::eval(vh::hash(net.conf.str() + w), !in.empty());
}
}  // namespace

void vh_units() {
  for (auto& p : protos()) {
    const bool tiles = p.c.name != "semi2k";  // its state cannot be forked cheaply
    auto ops = alphabet(p);
    const size_t parts = tiles && p.c.name != "ref2k" ? 6 : 1;
    for (size_t part = 0; part < parts; ++part)
      vh::unit(fmt::format("shapes/{}/{}", p.c.str(), part), [=] {
        const int k = bitsOf(p.c.pub);
        Net net(p.c);
        int salt = 0;
        for (size_t o = part; o < ops.size(); o += parts) {
          auto& op = ops[o];
          for (auto& sh : shapes())
            for (int64_t bs : {1, 2, 3, 4, 5, 7}) {
              if (bs > sh.numel() && bs > 1) continue;
              // an empty boolean share has no width (and no tiles)
              if (sh.numel() == 0 && op.kinds.find('b') != std::string::npos) continue;
              if (!vh::thorough() && p.c.pub != FM64 && (salt % 3) != 0 && sh.numel() > 2) {
                ++salt;
                continue;
              }
              TaskSize ts(bs);
              const size_t na = op.kinds.size();
              std::vector<int> lay = {salt % kLayouts, salt / 2 % kLayouts};
              // forms wider than the public domain are not affected by layouts
              vmc::sched.policy = salt % 3;
              venv::g_fill = salt % 2 ? 0x00 : 0xA5;
              lay.resize(na);
              checkOp(net, op, mini(op, k, sh, lay, salt),
                      fmt::format("{} in tiles of {} layout {}{}", sh, bs, layoutName(lay[0]),
                                  na > 1 ? std::string("/") + layoutName(lay[1]) : ""));
              ++salt;
            }
        }
        vmc::sched.policy = 0;
        venv::g_fill = 0xA5;
      });
    vh::unit("truncation/" + p.c.str(), [=] {
      const int k = bitsOf(p.c.pub);
      Net net(p.c);
      int salt = 0;
      for (auto& sh : shapes())
        for (int64_t bs : {1, 2, 3, 5})
          for (int lay = 0; lay < kLayouts; ++lay)
            for (auto sg : {spu::SignType::Unknown, spu::SignType::Positive, spu::SignType::Negative}) {
              TaskSize ts(bs);
              Arg a;
              a.kind = 's';
              a.layout = lay;
              a.shape = sh;
              for (int64_t t = 0; t < sh.numel(); ++t) {
                U v = U(1 + t * 977 + salt * 13) % (1 << 14);
                a.data.push_back(sg == spu::SignType::Negative || (sg == spu::SignType::Unknown && t % 2) ? (U(0) - v) & maskOf(k) : v);
              }
              ++salt;
              checkTrunc(net, a, 5, sg, fmt::format("truncation of {} in tiles of {} layout {} sign {}", sh, bs, layoutName(lay), int(sg)));
            }
    });
    if (p.c.pub != FM64) continue;
    // schedules of the tiles' threads and of the parties
    for (auto& op : ops) {
      auto base = op.name.substr(0, op.name.find('('));
      static const std::set<std::string> pick = {"mul_ss", "and_ss", "square_s", "msb_s"};
      static const std::set<std::string> few = {"mul_ss[aa]", "and_ss[bb]", "square_s[a]"};
      if (!pick.count(base)) continue;
      if (!vh::thorough() && !few.count(base + "[" + op.kinds + "]") && !(base == "msb_s" && p.c.name == "aby3")) continue;
      vh::unit(fmt::format("schedules/{}/{}[{}]", p.c.str(), base, op.kinds), [=] {
        const int k = bitsOf(p.c.pub);
        for (auto [sh, bs] : {std::pair<Shape, int64_t>{{4}, 2}, {{3, 1}, 1}}) {
          TaskSize ts(bs);
          vmc::Explorer ex;
          ex.bound = vh::thorough() ? 2 : 1;
          auto once = [&] {
            venv::resetRandom(1);
            Net net(p.c);
            vmc::sched.delay_bounded = true;
            vmc::sched.preempt = vh::thorough();
            checkOp(net, op, mini(op, k, sh, {0, 0}, 3), fmt::format("{} in tiles of {} schedule {}", sh, bs, ex.execs));
            vmc::sched.delay_bounded = vmc::sched.preempt = false;
            vh::add("schedules", 1);
            return true;
          };
          once();
          ex.explore(once);
        }
      });
    }
    // a message that cannot be sent: the failure reaches the callers
    if (tiles && p.c.name != "ref2k")
      vh::unit("failure/" + p.c.str(), [=] {
        const int k = bitsOf(p.c.pub);
        for (auto& op : ops) {
          auto base = op.name.substr(0, op.name.find('('));
          if (base != "mul_ss" && base != "and_ss") continue;
          TaskSize ts(2);
          auto args = mini(op, k, {5}, {0, 0}, 1);
          long total = 0;
          for (int who = 0; who < 3; ++who)
            for (long at = 0; at == 0 || at < total; ++at) {
              Net net(p.c);
              long cnt = 0;
              total = 0;
              auto w = fmt::format("{}[{}] message {} of party {} fails", op.name, op.kinds, at, who);
              vh::where(p.c.str() + " " + w);
              venv::g_wire = [&](venv::Msg& m) {
                if (m.src != who) return true;
                ++total;
                if (cnt++ == at) throw std::runtime_error("injected failure");
                return true;
              };
              auto r = net.runRaw([&](size_t i) {
                auto* c = net.ctxs[i].get();
                std::vector<Value> v;
                for (auto& a : args) v.push_back(mkArg(c, p.c.pub, a));
                auto z = op.fn(c, v);
                (void)z;
              });
              venv::g_wire = nullptr;
              VH_CHECK(!r.terminated && !r.deadlock, "{} {}: {}", p.c.str(), w, r.str());
              VH_CHECK(cnt <= at || !r.errors[who].empty(), "{} {}: the caller does not learn of it", p.c.str(), w);
              vh::eval(vh::hash(p.c.str() + w));
              if (cnt <= at) break;
              // count the messages of an undisturbed run once
              if (at == 0) {
                Net n2(p.c);
                total = 0;
                venv::g_wire = [&](venv::Msg& m) {
                  total += m.src == who;
                  return true;
                };
                n2.run(w, [&](SPUContext* c, size_t) {
                  std::vector<Value> v;
                  for (auto& a : args) v.push_back(mkArg(c, p.c.pub, a));
                  op.fn(c, v);
                });
                venv::g_wire = nullptr;
              } else {
                total = std::max<long>(total, at + 2);
              }
              if (at > 60) break;
            }
        }
      });
    // matrix products and conversions that use threads of their own
    if (p.c.name == "aby3")
      vh::unit("threads/" + p.c.str(), [=] {
        vmc::Explorer ex;
        ex.bound = vh::thorough() ? 3 : 2;
        const U m = maskOf(64);
        std::vector<U> a = {3, 1, m, 15, 92, 65}, b = {2, m - 4, 7, 1, 8, 2};
        for (int what = 0; what < 2; ++what) {
          auto once = [&] {
            venv::resetRandom(1);
            Net net(p.c);
            std::vector<std::vector<U>> r(3);
            vmc::sched.delay_bounded = vmc::sched.preempt = true;
            net.run("threads", [&](SPUContext* x, size_t i) {
              Arg u, v;
              u.kind = v.kind = 'a';
              u.data = a, v.data = b;
              u.shape = {2, 3}, v.shape = {3, 2};
              auto xs = mkArg(x, FM64, u), ys = mkArg(x, FM64, v);
              r[i] = readArr(reveal(x, what == 0 ? spu::mpc::mmul_ss(x, xs, ys) : spu::mpc::trunc_s(x, xs, 1, spu::SignType::Unknown)).data());
            });
            vmc::sched.delay_bounded = vmc::sched.preempt = false;
            for (auto& g : r)
              for (size_t e = 0; e < g.size(); ++e) {
                if (what == 0) {
                  U s = 0;
                  for (int t = 0; t < 3; ++t) s += a[e / 2 * 3 + t] * b[t * 2 + e % 2];
                  VH_CHECK((g[e] & m) == (s & m), "aby3: wrong matrix product in schedule {}", ex.execs);
                } else {
                  auto d = sgn(g[e], 64) - (sgn(a[e], 64) >> 1);
                  VH_CHECK(d >= -1 && d <= 1, "aby3: wrong truncation in schedule {}", ex.execs);
                }
              }
            vh::eval(vh::hash(fmt::format("threads {} {}", what, ex.execs)));
            vh::add("schedules", 1);
            return true;
          };
          once();
          ex.explore(once);
        }
      });
    // the reciprocal square root forks in the layer above
    if (p.c.name != "ref2k" && p.c.name != "swift")
      vh::unit("rsqrt/" + p.c.str(), [=] {
        auto c = p.c;
        c.rc.fxp_fraction_bits = 18;
        spu::populateRuntimeConfig(c.rc);
        std::vector<double> xs = {0.25, 1, 2, 3.5, 100, 1000.25};
        vmc::Explorer ex;
        ex.bound = vh::thorough() ? 1 : 0;
        TaskSize ts(2);
        auto once = [&] {
          venv::resetRandom(1);
          Net net(c);
          std::vector<std::vector<U>> r(c.npc);
          vmc::sched.delay_bounded = true;
          vmc::sched.policy = vmc::choose(3, "policy", 0);
          net.run("rsqrt", [&](SPUContext* x, size_t i) {
            Arg a;
            a.kind = 's';
            a.shape = {2, 3};
            a.dtype = spu::DT_F32;
            for (auto v : xs) a.data.push_back(U(int64_t(v * (1 << 18))));
            r[i] = readArr(reveal(x, spu::kernel::hal::f_rsqrt(x, mkArg(x, FM64, a).setDtype(spu::DT_F32))).data());
          });
          vmc::sched.delay_bounded = false;
          vmc::sched.policy = 0;
          for (auto& g : r)
            for (size_t e = 0; e < xs.size(); ++e) {
              const double got = double(int64_t(g[e])) / (1 << 18), want = 1 / std::sqrt(xs[e]);
              VH_CHECK(std::abs(got - want) <= 0.02 * want + 0.001, "{} rsqrt({}) = {} in schedule {}", c.str(), xs[e], got, ex.execs);
            }
          vh::eval(vh::hash(fmt::format("{} rsqrt {}", c.str(), ex.execs)));
          vh::add("schedules", 1);
          return true;
        };
        once();
        ex.explore(once);
      });
  }
}
