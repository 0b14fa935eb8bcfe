// C15: the inter-operation parallel executor returns what serial execution
// returns, under every schedule.
#include "hn.h"
#include "mlirb.h"
#include "libspu/device/pphlo/pphlo_executor.h"

using namespace spu;
using namespace spu::mpc;
using namespace vn;
using spu::device::ExecutionOptions;
using spu::device::SymbolScope;

namespace {
Value num(uint64_t x) {
  NdArrayRef a(makeType<Pub2kTy>(FM64), {1});
  std::memcpy(a.data(), &x, 8);
  return Value(a, DT_I64);
}
uint64_t numOf(const Value& v) {
  uint64_t x;
  std::memcpy(&x, v.data().data(), 8);
  return x;
}
uint64_t mix(uint64_t h, uint64_t x) { return (h ^ x) * 0x9E3779B97F4A7C15ULL + 0x1234567; }

// Stands for the kernels: the result of an operation is a hash of its
// identity, its operands and whatever its regions compute.
struct Fake : public spu::device::OpExecutor {
  struct Ev {
    int op;
    bool end;
    const SPUContext* ctx;
  };
  std::vector<Ev> log;
  int fail_at = -1;

  void checkType(mlir::Type, const Value&) const override {}
  bool hasKernel(mlir::Operation&) const override { return true; }
  void runKernelImpl(SPUContext* ctx, SymbolScope* scope, mlir::Operation& op, const ExecutionOptions&) override {
    int id = static_cast<int>(op.getAttrOfType<mlir::IntegerAttr>("id").getInt());
    log.push_back({id, false, ctx});
    uint64_t h = mix(77, id);
    for (auto o : op.getOperands()) h = mix(h, numOf(scope->lookupValue(o)));
    for (auto& r : op.getRegions()) {
      std::vector<Value> params;
      for (unsigned k = 0; k < r.getNumArguments(); ++k) params.push_back(num(h));
      // nested regions run with the default options, as the real kernels do
      h = mix(h, numOf(spu::device::runRegion(this, ctx, scope, r, params)[0]));
    }
    vmc::point("kernel");
    if (id == fail_at) throw std::runtime_error("kernel failed");
    for (unsigned k = 0; k < op.getNumResults(); ++k) scope->addValue(op.getResult(k), num(mix(h, k)));
    log.push_back({id, true, ctx});
  }
};

// A program over one argument: operation k may use the argument and earlier
// results.  kinds: p plain, s side effect, r region capturing `cap`,
// 2 two results, n nested two deep capturing `cap`, c region that returns the
// captured `cap` itself.
struct OpD {
  char kind;
  std::vector<int> use;  // -1: argument, else result of operation
  int cap = -1;
};
using ProgD = std::vector<OpD>;
std::string str(const ProgD& p) {
  std::string s;
  for (auto& o : p) {
    s += o.kind;
    for (int u : o.use) s += u < 0 ? "a" : std::to_string(u);
    if (o.kind == 'r' || o.kind == 'n' || o.kind == 'c') s += "^" + (o.cap < 0 ? std::string("a") : std::to_string(o.cap));
    s += " ";
  }
  return s;
}
void buildProg(mb::Region& r, const ProgD& p) {
  auto ty = mb::ten({1}, mb::i(64));
  std::vector<mb::V> res;
  auto arg = r.addArgument(ty);
  auto val = [&](int u) -> mb::V { return u < 0 ? mb::V(arg) : res[u]; };
  int inner = 100;
  for (size_t k = 0; k < p.size(); ++k) {
    std::vector<mb::V> ops;
    for (int u : p[k].use) ops.push_back(val(u));
    auto* o = mb::op(r, "test.op", ops, p[k].kind == '2' ? std::vector<mlir::Type>{ty, ty} : std::vector<mlir::Type>{ty},
                     {{"id", mb::intA(static_cast<int64_t>(k))}});
    if (p[k].kind == 's') o->attrs["has_side_effect"] = mb::boolA(true);
    if (p[k].kind == 'r' || p[k].kind == 'n' || p[k].kind == 'c') {
      auto* where = &mb::region(o);
      auto x = where->addArgument(ty);
      if (p[k].kind == 'c') {
        mb::ret(*where, {val(p[k].cap)});
      } else if (p[k].kind == 'n') {
        auto* in = mb::op(*where, "test.op", {x}, {ty}, {{"id", mb::intA(inner++)}});
        auto& deep = mb::region(in);
        auto y = deep.addArgument(ty);
        auto* d = mb::op(deep, "test.op", {y, val(p[k].cap)}, {ty}, {{"id", mb::intA(inner++)}});
        mb::ret(deep, {d->getResult(0)});
        mb::ret(*where, {in->getResult(0)});
      } else {
        auto* in = mb::op(*where, "test.op", {x, val(p[k].cap)}, {ty}, {{"id", mb::intA(inner++)}});
        mb::ret(*where, {in->getResult(0)});
      }
    }
    res.push_back(o->getResult(o->getNumResults() - 1));
  }
  std::vector<mb::V> outs(res.begin(), res.end());
  outs.push_back(arg);
  mb::ret(r, outs);
}

std::unique_ptr<SPUContext> soloCtx() {
  RuntimeConfig cfg;
  cfg.protocol = REF2K;
  cfg.field = FM64;
  populateRuntimeConfig(cfg);
  auto ctx = std::make_unique<SPUContext>(cfg, nullptr);
  return ctx;
}

long g_progs = 0;
void oneProg(const ProgD& p, int conc, int bound, int fail_at = -1) {
  mb::Region region;
  buildProg(region, p);
  std::vector<uint64_t> want;
  {
    Fake ex;
    auto ctx = soloCtx();
    for (auto& v : spu::device::runRegion(&ex, ctx.get(), nullptr, region, std::vector<Value>{num(5)}))
      want.push_back(numOf(v));
  }
  vmc::sched.preempt = true;
  vmc::sched.explore_blocking = true;
  vmc::Explorer ex;
  ex.bound = bound;
  std::string what = fmt::format("program [{}] with {} threads", str(p), conc) +
                     (fail_at >= 0 ? fmt::format(", operation {} fails", fail_at) : "");
  vh::where(what);
  ex.explore([&] {
    Fake fake;
    fake.fail_at = fail_at;
    std::vector<uint64_t> got;
    auto ctx = soloCtx();
    auto rr = vmc::run({[&] {
      ExecutionOptions o;
      o.do_parallel = true;
      o.concurrency = static_cast<uint64_t>(conc);
      for (auto& v : spu::device::runRegion(&fake, ctx.get(), nullptr, region, std::vector<Value>{num(5)}, o))
        got.push_back(numOf(v));
    }});
    if (fail_at >= 0) {
      VH_CHECK(!rr.deadlock && !rr.terminated, "{}: the failure does not reach the caller: {}", what, rr.str());
      VH_CHECK(rr.errors[0] == "kernel failed", "{}: the caller sees '{}'", what, rr.errors[0]);
      VH_CHECK(rr.errors.size() == 1, "{}: a thread ended with an error: {}", what, rr.str());
    } else {
      VH_CHECK(rr.ok(), "{}: {}", what, rr.str());
      VH_CHECK(got == want, "{}: the results differ from serial execution", what);
    }
    // every operation once; after an operation with a side effect nothing
    // later starts before it is over
    std::map<int, int> started, ended;
    std::set<const SPUContext*> ctxs;
    for (size_t t = 0; t < fake.log.size(); ++t) {
      auto& e = fake.log[t];
      if (e.op >= 100) continue;
      if (e.end) {
        ended[e.op] = static_cast<int>(t);
      } else {
        VH_CHECK(!started.count(e.op), "{}: operation {} ran twice", what, e.op);
        started[e.op] = static_cast<int>(t);
        VH_CHECK(ctxs.insert(e.ctx).second, "{}: two operations share a context", what);
        for (int q = 0; q < e.op; ++q)
          VH_CHECK(p[q].kind != 's' || ended.count(q),
                   "{}: operation {} started before the side effect of {} was over", what, e.op, q);
      }
    }
    if (fail_at < 0) VH_CHECK(started.size() == p.size() && ended.size() == p.size(), "{}: operations were skipped", what);
    return true;
  });
  vmc::sched.preempt = false;
  vmc::sched.explore_blocking = false;
  ++g_progs;
  vh::add("schedules", ex.execs);
  vh::add("choice points", ex.choice_points);
  vh::eval(vh::hash(what), ex.execs > 1);
}

// All programs of n operations.
void allProgs(size_t n, const std::string& kinds, const std::function<void(const ProgD&)>& fn) {
  ProgD p;
  std::function<void()> rec = [&] {
    if (p.size() == n) {
      fn(p);
      return;
    }
    int avail = static_cast<int>(p.size());
    std::vector<std::vector<int>> uses{{}};
    for (int u = -1; u < avail; ++u) uses.push_back({u});
    for (int u = 0; u < avail; ++u)
      for (int w = -1; w < u; ++w) uses.push_back({u, w});
    for (auto& u : uses) {
      for (char k : kinds) {
        if (k == 'r' || k == 'n' || k == 'c') {
          for (int c = -1; c < avail; ++c) {
            p.push_back({k, u, c});
            rec();
            p.pop_back();
          }
        } else {
          p.push_back({k, u});
          rec();
          p.pop_back();
        }
      }
    }
  };
  rec();
}
}  // namespace

void vh_units() {
  const bool th = vh::thorough();
  for (int conc : {1, 2, 3}) {
    for (char last : std::string("psrnc2"))
      vh::unit(fmt::format("schedules/ops2/{}/threads{}", last, conc), [=] {
        allProgs(2, "psrnc2", [&](const ProgD& p) {
          if (p[1].kind == last && !vh::timeUp()) oneProg(p, conc, th ? 3 : conc == 3 && p[0].kind != 'p' ? 1 : 2);
        });
      });
    for (char last : std::string("psrc2")) {
      vh::unit(fmt::format("schedules/ops3/{}/threads{}", last, conc), [=] {
        allProgs(3, last == 'c' ? "pc" : "psr", [&](const ProgD& p) {
          if ((last == '2' ? 'p' : last) != p[2].kind || vh::timeUp()) return;
          auto q = p;
          if (last == '2') q[0].kind = '2';
          oneProg(q, conc, th ? 2 : 1);
        });
      });
    }
    vh::unit(fmt::format("failure/threads{}", conc), [=] {
      for (int at = 0; at < 3; ++at)
        allProgs(3, "p", [&](const ProgD& p) { oneProg(p, conc, 1, at); });
    });
  }
}
