// C17: a party that deviates is caught.  One party sends something else than
// the protocol says, in any of its messages, or works on a share it altered;
// every other party then gets the right result or none.
#define USE_SPDZ2K
#define USE_SWIFT
#include <fcntl.h>
#include <unistd.h>

#include <set>

#include "spdlog/sinks/base_sink.h"
#include "spdlog/spdlog.h"

#include "protoops.h"
#include "protos.h"
using namespace vn;

namespace {
struct Prog {
  std::string name;
  std::vector<Arg> args;
  // runs and opens: a public value, or one that a single party holds
  std::function<std::optional<Value>(SPUContext*, const std::vector<Value>&)> fn;
  std::vector<U> want;
};
// What one party does instead of what it should.
struct Fault {
  int who = -1;
  // the messages of these numbers among those it sends, each changed in its way
  std::vector<std::pair<long, int>> msgs;
  bool all = false;  // and the copies of them to the other parties
  // its share of an operand
  int arg = -1, half = 0, bit = -1;
  std::string str() const {
    std::string s = fmt::format("party {}", who);
    for (auto [m, k] : msgs) s += fmt::format(" message {}{} change {}", m, all ? " to all" : "", k);
    if (arg >= 0) s += fmt::format(" operand {} half {} bit {}", arg, half, bit);
    return s;
  }
};
constexpr int kChanges = 9;
struct Sent {
  int src;
  size_t size;
  std::string key;
};
// Changes a message; false when that leaves it as it is.
bool change(std::string& d, int kind, size_t unit, const std::string& last) {
  const std::string was = d;
  if (d.empty()) {
    if (kind == 6) d.push_back(1);
    return d != was;
  }
  switch (kind) {
    case 0: d[0] ^= 1; break;
    case 1: d[std::min(d.size(), unit) - 1] ^= 0x80; break;
    case 2: d[(d.size() - 1) / unit * unit] ^= 1; break;
    case 3: d.assign(d.size(), 0); break;
    case 4: d.assign(d.size(), char(0xff)); break;
    case 5: d.pop_back(); break;
    case 6: d.push_back(1); break;
    case 7: d.clear(); break;
    case 8:
      if (last.size() == d.size()) d = last;
      break;
  }
  return d != was;
}

// The code under test prints what does not match.
struct Quiet {
  int out = dup(1), null = open("/dev/null", O_WRONLY);
  Quiet() {
    fflush(stdout);
    dup2(null, 1);
  }
  ~Quiet() {
    fflush(stdout);
    dup2(out, 1);
    close(out), close(null);
  }
};

// Votes of the parties of swift, which are only logged.
struct Votes : spdlog::sinks::base_sink<spdlog::details::null_mutex> {
  std::vector<std::string> of[3];
  void sink_it_(const spdlog::details::log_msg& m) override {
    if (vmc::active()) of[vmc::self_party() % 3].push_back(std::string(m.payload.data(), m.payload.size()));
  }
  void flush_() override {}
};

struct Tamper {
  Conf conf;
  bool votes = false;  // a party may vote instead of refusing
  bool blame = false;  // and does not vote for the cheater

  int k;
  long caught = 0, harmless = 0, hung = 0, same = 0, voted = 0;
  int parts = 2;
  explicit Tamper(const Conf& c) : conf(c), k(bitsOf(c.pub)) {
    if (c.name == "swift") votes = true, parts = 3;
  }

  // Runs p; the messages sent are recorded, fault is applied.
  void run(const Prog& p, const Fault& ft, std::vector<Sent>* sent) {
    venv::resetRandom(1);
    Net net(conf);
    long cnt = 0;
    std::set<std::string> keys;   // of messages to change at every copy
    std::map<std::string, int> how;
    std::string last;
    bool changed = false;
    venv::g_wire = [&](venv::Msg& m) {
      if (sent) sent->push_back({m.src, m.data.size(), m.key});
      if (m.src != ft.who) return true;
      std::string was = m.data;
      int kind = -1;
      for (auto [at, kd] : ft.msgs)
        if (at == cnt) kind = kd;
      if (kind >= 0 && ft.all) how[m.key] = kind;
      if (auto it = how.find(m.key); it != how.end()) kind = it->second;
      if (kind >= 0 && change(m.data, kind, k / 8, last)) changed = true;
      last = was;
      ++cnt;
      return true;
    };
    std::vector<std::optional<std::vector<U>>> got(conf.npc);
    vh::where(fmt::format("{} {} {}", conf.str(), p.name, ft.str()));
    auto quiet = std::make_unique<Quiet>();
    auto log = std::make_shared<Votes>();
    auto old = spdlog::default_logger();
    spdlog::set_default_logger(std::make_shared<spdlog::logger>("votes", log));
    auto r = net.runRaw([&](size_t i) {
      auto* c = net.ctxs[i].get();
      std::vector<Value> v;
      for (auto& a : p.args) v.push_back(mkArg(c, conf.pub, a));
      if (ft.arg >= 0 && int(i) == ft.who) {
        auto d = v[ft.arg].data().clone();
        auto* b = static_cast<uint8_t*>(d.data()) + ft.half * (d.elsize() / parts);
        b[ft.bit / 8] ^= 1 << ft.bit % 8;
        v[ft.arg] = Value(d, v[ft.arg].dtype());
        changed = true;
      }
      auto z = p.fn(c, v);
      if (!z) return;
      if (z->isPublic() || (z->isPrivate() && z->storage_type().as<spu::Private>()->owner() == int64_t(i)))
        got[i] = readArr(z->data());
    });
    spdlog::set_default_logger(old);
    quiet.reset();
    venv::g_wire = nullptr;
    if (ft.who < 0) {
      VH_CHECK(r.ok(), "{} {}: {}", conf.str(), p.name, r.str());
    } else if (!changed) {
      ++same;
      return;
    }
    VH_CHECK(!r.terminated, "{} {} {}: {}", conf.str(), p.name, ft.str(), r.str());
    bool right = true, some = false;
    for (size_t i = 0; i < conf.npc; ++i) {
      if (int(i) == ft.who) continue;
      if (votes && !log->of[i].empty()) {
        VH_CHECK(ft.who >= 0, "{} {}: party {} accuses: {}", conf.str(), p.name, i, log->of[i][0]);
        ++voted;
        right = false;
        for (auto& l : log->of[i]) {
          auto at = l.rfind("Party_");
          VH_CHECK(!blame || at == std::string::npos || l[at + 6] != '0' + ft.who, "{} {} {}: party {} trusts the cheater: {}", conf.str(), p.name,
                   ft.str(), i, l);
        }
        continue;
      }
      if (!got[i]) continue;
      some = true;
      VH_CHECK(*got[i] == p.want, "{} {} {}: party {} accepts {} instead of {}", conf.str(), p.name, ft.str(), i,
               hex((*got[i])[0]), hex(p.want[0]));
    }
    for (size_t i = 0; i < conf.npc; ++i)
      if (int(i) != ft.who && !r.errors[i].empty()) right = false;
    if (r.deadlock) ++hung;
    (right && some ? harmless : caught)++;
    vh::eval(vh::hash(conf.str() + p.name + ft.str()));
  }

  void prog(const Prog& p, int bound, bool lengths, bool shares = true) {
    std::vector<Sent> sent;
    run(p, {}, &sent);
    for (size_t who = 0; who < conf.npc; ++who) {
      long total = 0;
      std::vector<bool> first;  // the first copy of a message to all
      std::map<std::string, int> copies;
      for (auto& m : sent)
        if (m.src == int(who)) first.push_back(copies[m.key]++ == 0), ++total;
      auto several = [&](long at) {
        long t = 0;
        for (auto& m : sent)
          if (m.src == int(who) && t++ == at) return copies[m.key] > 1;
        return false;
      };
      vh::add("messages", total);
      for (long at = 0; at < total; ++at)
        for (int kd = 0; kd < kChanges; ++kd) {
          if (!lengths && kd >= 5 && kd <= 7) continue;
          // of a long program every message in one way, else in every way
          if (!vh::thorough() && total > 60 && kd != (at % 3 ? 0 : at / 3 % kChanges)) continue;
          Fault f;
          f.who = who;
          f.msgs = {{at, kd}};
          run(p, f, nullptr);
          if (first[at] && several(at)) {
            f.all = true;
            run(p, f, nullptr);
          }
        }
      if (bound > 1)
        for (long a = 0; a < total; ++a)
          for (long b = a + 1; b < total; ++b)
            for (int ka : {0, 1})
              for (int kb : {0, 1}) {
                Fault f;
                f.who = who;
                f.msgs = {{a, ka}, {b, kb}};
                f.all = conf.npc > 2;
                run(p, f, nullptr);
              }
      // its share of an operand
      for (size_t i = 0; i < p.args.size(); ++i) {
        if (!shares || (p.args[i].kind != 'a' && p.args[i].kind != 'b')) continue;
        const bool lng = total > 60 && !vh::thorough();
        for (int half = 0; half < parts; ++half)
          for (int bit = 0; bit < (parts == 2 ? 2 : 1) * k; bit += lng ? k / 2 - 1 : vh::thorough() || bit < 2 || bit == k - 2 || bit == k - 1 ? 1 : bit < k - 2 ? 3 : 5) {
            Fault f;
            f.who = who;
            f.arg = i, f.half = half, f.bit = bit;
            run(p, f, nullptr);
          }
      }
    }
    vh::add("caught", caught), vh::add("harmless", harmless), vh::add("unchanged", same);
    vh::add("waiting_parties", hung);
    vh::add("votes", voted);
    caught = harmless = same = hung = voted = 0;
  }
};

Prog ofOp(const Op& op, int k, int64_t n) {
  Prog p;
  p.name = fmt::format("{}[{}]", op.name, op.kinds);
  std::vector<U> x(op.kinds.size());
  for (size_t i = 0; i < op.kinds.size(); ++i) {
    auto d = domain(op.dom[i], k, true);
    Arg a;
    a.kind = op.kinds[i];
    a.shape = {n};
    for (int64_t t = 0; t < n; ++t) a.data.push_back(d[(t * (i + 2) + i * 5 + 3) % d.size()]);
    widen(a, op.dom[i], k);
    p.args.push_back(a);
  }
  for (int64_t t = 0; t < n; ++t) {
    for (size_t i = 0; i < x.size(); ++i) x[i] = p.args[i].data[t];
    g_idx = t;
    p.want.push_back(op.ref(x, k));
  }
  p.fn = [op](SPUContext* c, const std::vector<Value>& v) -> std::optional<Value> {
    auto z = op.fn(c, v);
    if (z && z->isSecret()) return spu::mpc::s2p(c, *z);
    return z;
  };
  return p;
}
// Conversions with the operation between them; the conversions are there on
// their own.
bool slow(const std::string& base, const std::string& kinds) {
  return base != "a2b" && base != "msb_s" && base != "mul_ss" && base != "mul_sp" && base != "mul_sv" && base != "s2p" && base != "s2v" &&
         base != "s2v1" && base != "v2s" && base != "negate_s" && base != "square_s" && base.find("add_s") != 0 &&
         kinds.find('a') != std::string::npos;
}
}  // namespace

void vh_units() {
  for (auto f : {FM32, FM64}) {
    auto c = swift(f);
    const int k = bitsOf(f);
    std::set<std::string> seen;
    for (auto& op : ringOps(k, true, true)) {
      if (op.kinds.find_first_of("ab") == std::string::npos && op.name != "v2s") continue;
      if (op.name.find("vec") != std::string::npos || op.name.find("equal") == 0) continue;
      auto base = op.name.substr(0, op.name.find('('));
      if (!vh::thorough() && slow(base, op.kinds)) continue;
      if (!seen.insert(base + op.kinds + op.dom).second) continue;
      vh::unit(fmt::format("swift-{}/{}-{}-{}", fname(f), base, op.kinds, op.dom), [=] {
        Tamper t(c);
        // an opening names a party that can be trusted; elsewhere (also in
        // the conversion before an opening of booleans) a lie may come up
        // later, between two others
        const bool opens = base == "s2p" || base == "s2v" || base == "s2v1";
        t.blame = opens && op.kinds == "a";
        t.prog(ofOp(op, k, f == FM32 ? 1 : 4), vh::thorough() && opens ? 2 : 1, false, opens);
      });
    }
  }
  for (auto f : {FM32, FM64})
    for (size_t n : {2, 3}) {
      auto c = spdz2k(n, f);
      const int k = bitsOf(f);
      std::set<std::string> seen;
      for (auto& op : ringOps(k, true, true)) {
        if (op.kinds.find_first_of("ab") == std::string::npos && op.name != "v2s") continue;
        if (op.name.find("vec") != std::string::npos || op.name.find("equal") == 0) continue;
        auto base = op.name.substr(0, op.name.find('('));
        if (!vh::thorough() && (slow(base, op.kinds) || (n == 3 && f == FM64 && (base == "msb_s" || base == "a2b")))) continue;
        // needs an operand of full width
        if (base.find("bitrev") == 0 && op.kinds == "b") continue;
        if (!seen.insert(base + op.kinds + op.dom).second) continue;
        vh::unit(fmt::format("spdz2k-{}pc-{}/{}-{}-{}", n, fname(f), base, op.kinds, op.dom), [=] {
          Tamper t(c);
          const bool two = base == "s2p" || base == "s2v" || base == "v2s" || base == "mul_ss" || (base == "and_ss" && op.kinds == "bb");
          t.prog(ofOp(op, k, n == 2 ? 2 : 1), two && (vh::thorough() || n == 2) ? 2 : 1, true);
        });
      }
      for (auto [M, K, N] : std::vector<std::array<int64_t, 3>>{{1, 1, 1}, {2, 2, 1}})
        for (std::string kinds : {"aa", "ap", "ab", "av"})
          vh::unit(fmt::format("spdz2k-{}pc-{}/mmul-{}-{}x{}x{}", n, fname(f), kinds, M, K, N), [=, M = M, K = K, N = N] {
            Prog p;
            p.name = fmt::format("mmul[{}] {}x{}x{}", kinds, M, K, N);
            const auto e = edges(k, false);
            Arg x, y;
            x.kind = kinds[0], y.kind = kinds[1];
            x.shape = {M, K}, y.shape = {K, N};
            for (int64_t i = 0; i < M * K; ++i) x.data.push_back(e[(i * 5 + 3) % e.size()]);
            for (int64_t i = 0; i < K * N; ++i) y.data.push_back(e[(i * 7 + 4) % e.size()]);
            for (int64_t i = 0; i < M; ++i)
              for (int64_t j = 0; j < N; ++j) {
                U s = 0;
                for (int64_t q = 0; q < K; ++q) s += x.data[i * K + q] * y.data[q * N + j];
                p.want.push_back(s & maskOf(k));
              }
            p.args = {x, y};
            p.fn = [=](SPUContext* c, const std::vector<Value>& v) -> std::optional<Value> {
              using namespace spu::mpc;
              return s2p(c, kinds[1] == 'p' ? mmul_sp(c, v[0], v[1]) : kinds[1] == 'v' ? mmul_sv(c, v[0], v[1]) : mmul_ss(c, v[0], v[1]));
            };
            Tamper t(c);
            t.prog(p, 1, true);
          });
    }
}
