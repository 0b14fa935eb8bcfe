// C14: the parties' correlated randomness stays in step, and no pseudorandom
// block serves two purposes, over every ordered pair of operations and every
// tree of forked contexts.
#define USE_SEMI2K_TTP
#define USE_ABY3
#define USE_SECURENN
#define USE_SPDZ2K
#define USE_SWIFT
#include "protoops.h"
#include "protos.h"
using namespace vn;
using spu::Index;
using spu::mpc::PrgState;
using Ctrl = PrgState::GenPrssCtrl;

namespace {
// Every block every party draws, per stream.
struct Ledger {
  struct Key {
    int party;
    uint32_t type;
    U seed, iv;
    bool operator<(const Key& o) const {
      return std::tie(party, type, seed, iv) < std::tie(o.party, o.type, o.seed, o.iv);
    }
  };
  struct Span {
    uint64_t end;
    int step;
  };
  std::map<Key, std::map<uint64_t, Span>> used;  // start -> [.., end)
  std::map<U, std::set<int>> users;              // seed -> parties that draw with it
  std::set<U> publ, prg;                         // seeds of the public streams / of PRG states
  std::map<int, std::set<U>> priv;
  std::map<U, int> priv_owner;
  // seeds learnt while probing
  std::set<U>* probe = nullptr;
  int probe_party = -1;
  std::string fault;
  std::vector<std::string> steps = {"setup"};
  long draws = 0, blocks = 0;
  bool first_replays = false;  // the first party recomputes the others' draws
  bool on = true;

  void add(const venv::Draw& d) {
    if (d.n == 0) return;
    ++draws;
    if (probe != nullptr && d.party == probe_party) probe->insert(d.seed);
    const uint64_t b = d.ctr, e = d.ctr + (d.n + 15) / 16;
    blocks += static_cast<long>(e - b);
    users[d.seed].insert(d.party);
    if (d.party < 0) return;  // the service deals for everybody
    if (first_replays && d.party == 0 && !prg.count(d.seed)) return;
    auto& m = used[Key{d.party, d.type, d.seed, d.iv}];
    auto it = m.upper_bound(b);
    auto clash = [&](const Span& s, uint64_t sb) {
      if (fault.empty())
        fault = fmt::format("party {} uses blocks {}..{} of one stream in [{}] and blocks {}..{} of it in [{}]", d.party, sb,
                            s.end, steps[s.step], b, e, steps.back());
    };
    if (it != m.begin() && std::prev(it)->second.end > b) clash(std::prev(it)->second, std::prev(it)->first);
    if (it != m.end() && it->first < e) clash(it->second, it->first);
    m[b] = {e, static_cast<int>(steps.size()) - 1};
  }
  void begin(const std::string& s) { steps.push_back(s); }
};

struct Scope {
  explicit Scope(Ledger& l) {
    venv::g_draw = [&l](const venv::Draw& d) {
      if (l.on) l.add(d);
      return false;
    };
  }
  ~Scope() { venv::g_draw = nullptr; }
};

std::vector<U> elems(const NdArrayRef& a) { return readArr(a); }

// The states of one context at every party.
struct Group {
  std::vector<PrgState*> st;
};
// Draws of the three kinds agree as they should.
void audit(Ledger& led, const Conf& c, const std::vector<SPUContext*>& ctxs, const std::string& what, int tag) {
  const size_t n = ctxs.size();
  std::vector<std::vector<U>> pub(n), priv(n), r0(n), r1(n);
  std::vector<Index> q0(n), q1(n);
  std::vector<std::set<U>> sp(n), sv(n), ss(n);
  led.begin("comparison after " + what);
  const FieldType f = FM64;
  // odd sizes: a stream that is out of step by a part of a block shows
  const Shape sh{3 + tag % 3};
  for (size_t i = 0; i < n; ++i) {
    auto* s = ctxs[i]->getState<PrgState>();
    venv::g_as_party = static_cast<int>(i);
    led.probe_party = static_cast<int>(i);
    led.probe = &sp[i];
    pub[i] = elems(s->genPubl(f, sh));
    led.probe = &sv[i];
    priv[i] = elems(s->genPriv(f, sh));
    led.probe = &ss[i];
    auto pr = s->genPrssPair(f, sh, Ctrl::Both);
    r0[i] = elems(pr.first);
    r1[i] = elems(pr.second);
    auto pp = s->genPrssPermPair(4);
    q0[i] = pp.first;
    q1[i] = pp.second;
    led.probe = nullptr;
  }
  venv::g_as_party = venv::kNoOverride;
  for (size_t i = 0; i < n; ++i) {
    for (auto x : sp[i]) led.publ.insert(x), led.prg.insert(x);
    for (auto x : sv[i]) {
      led.prg.insert(x);
      auto it = led.priv_owner.find(x);
      VH_CHECK(it == led.priv_owner.end() || it->second == static_cast<int>(i),
               "{} after {}: parties {} and {} share a private seed", c.str(), what, it->second, i);
      led.priv_owner[x] = static_cast<int>(i);
    }
    for (auto x : ss[i]) led.prg.insert(x);
  }
  for (size_t i = 0; i < n; ++i) {
    const size_t j = (i + 1) % n;
    VH_CHECK(pub[i] == pub[0], "{} after {}: party {}'s public randomness differs from party 0's", c.str(), what, i);
    VH_CHECK(r1[i] == r0[j] || n == 1, "{} after {}: the randomness party {} shares with its successor differs", c.str(), what, i);
    VH_CHECK(q1[i] == q0[j] || n == 1, "{} after {}: the permutation party {} shares with its successor differs", c.str(), what, i);
    VH_CHECK(priv[i] != priv[j] || n == 1, "{} after {}: parties {} and {} draw the same private randomness", c.str(), what, i, j);
    VH_CHECK(priv[i] != pub[i] && r0[i] != pub[i] && r1[i] != pub[i] && (n == 1 || r0[i] != r1[i]) && priv[i] != r0[i] && priv[i] != r1[i],
             "{} after {}: two of party {}'s streams coincide", c.str(), what, i);
  }
  VH_CHECK(led.fault.empty(), "{} after {}: {}", c.str(), what, led.fault);
}
void ownership(Ledger& led, const Conf& c) {
  for (auto& [seed, ps] : led.users) {
    if (auto it = led.priv_owner.find(seed); it != led.priv_owner.end())
      VH_CHECK(ps == std::set<int>{it->second}, "{}: party {}'s private seed is used by {} parties", c.str(), it->second, ps.size());
    if (c.npc >= 3 && led.prg.count(seed) && !led.publ.count(seed))
      VH_CHECK(ps.size() <= 2, "{}: a seed meant for two parties is used by {}", c.str(), ps.size());
  }
}

struct Hist {
  std::string name;
  std::function<void(Net&, const std::string&)> run;
  bool draws = false;
};

// Operations whose results are random or come as groups.
std::vector<Hist> special(const Conf& c, bool perms, bool bits) {
  using namespace spu::mpc;
  std::vector<Hist> hs;
  const int k = bitsOf(c.pub);
  const U m = maskOf(k);
  hs.push_back({"rand_p", [=](Net& net, const std::string& w) {
                  std::vector<std::vector<U>> r(c.npc);
                  net.run(w, [&](SPUContext* x, size_t i) { r[i] = readArr(rand_p(x, {3}).data()); });
                  for (auto& v : r) VH_CHECK(v == r[0], "{} {}: parties draw different public numbers", c.str(), w);
                }});
  for (int bit = 0; bit < 1 + bits; ++bit)
    hs.push_back({bit ? "rand_s(bits)" : "rand_s", [=](Net& net, const std::string& w) {
                    std::vector<std::vector<U>> r(c.npc);
                    net.run(w, [&](SPUContext* x, size_t i) {
                      r[i] = readArr(reveal(x, rand_s(x, {3}, bit ? spu::DT_I1 : spu::DT_INVALID)).data());
                    });
                    for (auto& v : r) VH_CHECK(v == r[0], "{} {}: parties hold different random numbers", c.str(), w);
                  }});
  for (int b : {2, 13})
    for (auto sg : {spu::SignType::Unknown, spu::SignType::Positive, spu::SignType::Negative})
      hs.push_back({fmt::format("trunc_s({},{})", b, int(sg)), [=](Net& net, const std::string& w) {
                      std::vector<U> v = {3, 1 << 14, (1 << 20) + 77, 5 << 13};
                      if (sg == spu::SignType::Negative)
                        for (auto& x : v) x = (U(0) - x) & m;
                      std::vector<std::vector<U>> r(c.npc);
                      net.run(w, [&](SPUContext* x, size_t i) {
                        Arg a;
                        a.kind = 's';
                        a.data = v;
                        a.shape = {4};
                        r[i] = readArr(reveal(x, trunc_s(x, mkArg(x, c.pub, a), b, sg)).data());
                      });
                      for (size_t i = 0; i < c.npc; ++i)
                        for (size_t j = 0; j < v.size(); ++j) {
                          auto d = sgn(r[i][j], k) - (sgn(v[j], k) >> b);
                          // local truncation is right up to a wrap that is rare for small numbers
                          VH_CHECK(d >= -1 && d <= 1, "{} {}: {} becomes {}", c.str(), w, hex(v[j]), hex(r[i][j]));
                        }
                    }});
  if (perms)
    hs.push_back({"perm_ss;inv_perm_ss", [=](Net& net, const std::string& w) {
                    std::vector<U> v = {3, 1, 4, 15, 92, 65};
                    std::vector<std::vector<U>> a(c.npc), b(c.npc);
                    net.run(w, [&](SPUContext* x, size_t i) {
                      Arg g;
                      g.kind = 's';
                      g.data = v;
                      g.shape = {6};
                      auto in = mkArg(x, c.pub, g);
                      auto p = rand_perm_s(x, {6}).value();
                      auto y = perm_ss(x, in, p).value();
                      auto z = inv_perm_ss(x, y, p).value();
                      a[i] = readArr(reveal(x, y).data());
                      b[i] = readArr(reveal(x, z).data());
                    });
                    for (size_t i = 0; i < c.npc; ++i) {
                      VH_CHECK(a[i] == a[0], "{} {}: parties see different results", c.str(), w);
                      auto s = a[i], t = v;
                      std::sort(s.begin(), s.end());
                      std::sort(t.begin(), t.end());
                      VH_CHECK(s == t, "{} {}: not a permutation of the input", c.str(), w);
                      VH_CHECK(b[i] == v, "{} {}: the inverse permutation does not restore the input", c.str(), w);
                    }
                  }});
  hs.push_back({"mmul_ss", [=](Net& net, const std::string& w) {
                  std::vector<U> v = {3, 1, 4, 15, 92, 65}, u = {2, m, 7, 1, 8, 2};
                  std::vector<std::vector<U>> r(c.npc);
                  net.run(w, [&](SPUContext* x, size_t i) {
                    Arg a, b;
                    a.kind = b.kind = 's';
                    a.data = v, b.data = u;
                    a.shape = {2, 3}, b.shape = {3, 2};
                    r[i] = readArr(reveal(x, mmul_ss(x, mkArg(x, c.pub, a), mkArg(x, c.pub, b))).data());
                  });
                  for (size_t i = 0; i < c.npc; ++i)
                    for (int p = 0; p < 2; ++p)
                      for (int q = 0; q < 2; ++q) {
                        U s = 0;
                        for (int t = 0; t < 3; ++t) s += v[p * 3 + t] * u[t * 2 + q];
                        VH_CHECK((r[i][p * 2 + q] & m) == (s & m), "{} {}: wrong product", c.str(), w);
                      }
                }});
  return hs;
}

struct Proto {
  Conf c;
  bool has_b, has_v;
  std::set<std::string> off;
  std::function<void(Op&)> tweak;
  bool perms, bits;
};
std::set<std::string> spdzOff() {
  std::set<std::string> off = {"equal_ss", "equal_sp"};
  for (auto nm : {"lshift_s", "rshift_s", "arshift_s"})
    for (auto post : {"", ";and", ";add"})
      for (auto v : {"(vec0)", "(vec1)", "(vec2)"})
        for (auto k : {"[a]", "[b]"})
          if (!(nm == std::string("lshift_s") && k == std::string("[a]"))) off.insert(std::string(nm) + post + v + k);
  return off;
}
std::vector<Proto> protos() {
  std::vector<Proto> r;
  const std::set<std::string> eq = {"equal_ss[bb]", "equal_sp[bp]"}, noeq = {"equal_ss", "equal_sp"};
  for (auto f : {FM64, FM32, FM128}) {
    for (size_t n : {2, 3}) r.push_back({semi2k(n, f), true, true, eq, nullptr, true, true});
    r.push_back({semi2kTtp(2, f, 1), true, true, eq, nullptr, true, true});
    r.push_back({semi2kTtp(3, f, 0), true, true, eq, nullptr, true, true});
    r.push_back({aby3(f), true, true, eq, [](Op& o) {
                   if (o.name.rfind("arshift_s", 0) == 0 && o.kinds == "b") o.dom = "F";
                 }, true, true});
    r.push_back({securenn(f), true, true, noeq, [](Op& o) {
                   if (o.name == "msb_s" && o.kinds == "a") o.dom = "n";
                 }, false, false});
    if (f == FM64 || (f == FM32 && vh::thorough()))
      for (size_t n : {2, 3}) r.push_back({spdz2k(n, f), true, true, spdzOff(), nullptr, false, false});
    if (f != FM128) r.push_back({swift(f), true, true, noeq, nullptr, false, false});
  }
  return r;
}

std::vector<Hist> alphabet(const Proto& p) {
  std::vector<Hist> hs = special(p.c, p.perms, p.bits);
  std::set<std::string> seen;
  for (auto op : ringOps(bitsOf(p.c.pub), p.has_b, p.has_v)) {
    auto base = op.name.substr(0, op.name.find('('));
    if (p.off.count(op.name + "[" + op.kinds + "]") || p.off.count(base + "[" + op.kinds + "]") || p.off.count(base)) continue;
    if (p.tweak) p.tweak(op);
    if (base.find(';') != std::string::npos) continue;
    if (!seen.insert(base + op.kinds).second) continue;
    auto args = crossArgs(op, bitsOf(p.c.pub), false, std::vector<int>(op.kinds.size(), kCompact));
    // a few elements of it, not a whole number of blocks
    for (auto& a : args) {
      const size_t n = std::min<size_t>(a.data.size(), 5);
      std::vector<U> d;
      for (size_t i = 0; i < n; ++i) d.push_back(a.data[i * (a.data.size() / n)]);
      a.data = d;
      a.shape = {static_cast<int64_t>(n)};
    }
    hs.push_back({fmt::format("{}[{}]", op.name, op.kinds),
                  [op, args](Net& net, const std::string& w) { checkOp(net, op, args, w); }});
  }
  return hs;
}
std::vector<SPUContext*> raw(Net& n) {
  std::vector<SPUContext*> r;
  for (auto& c : n.ctxs) r.push_back(c.get());
  return r;
}
}  // namespace

void vh_units() {
  for (auto& p : protos()) {
    const bool tfp = p.c.name == "semi2k" || p.c.name == "spdz2k";
    vh::unit("pairs/" + p.c.str(), [=] {
      auto hs = alphabet(p);
      Ledger led;
      led.first_replays = tfp;
      Scope sc(led);
      Net net(p.c);
      if (!tfp) led.first_replays = false;
      int tag = 0;
      auto step = [&](Hist& h, const std::string& prev) {
        auto w = prev.empty() ? h.name : h.name + " after " + prev;
        vh::where(p.c.str() + " " + w);
        led.begin(w);
        const long before = led.draws;
        h.run(net, w);
        h.draws = h.draws || led.draws > before;
        audit(led, p.c, raw(net), w, tag++);
        vh::eval(vh::hash(p.c.str() + w), h.draws);
        vh::add("states", 1);
        vh::add("transitions", 1);
      };
      audit(led, p.c, raw(net), "setup", 0);
      for (auto& h : hs) {
        step(h, "");
        step(h, h.name);
      }
      // A walk through all ordered pairs of those that draw.
      std::vector<Hist*> d;
      std::set<std::string> base;
      for (auto& h : hs)
        if (h.draws && (vh::thorough() || base.insert(h.name.substr(0, h.name.find_first_of("[("))).second)) d.push_back(&h);
      vh::add("operations_that_draw", static_cast<long>(d.size()));
      for (size_t i = 0; i < d.size(); ++i)
        for (size_t j = i + 1; j < d.size(); ++j) {
          step(*d[i], d[j]->name);
          step(*d[j], d[i]->name);
        }
      ownership(led, p.c);
      vh::add("draws", led.draws);
      vh::add("blocks", led.blocks);
    });
    // Every tree of forks with operations in between.
    if (p.c.name == "spdz2k") continue;  // refuses to be forked
    vh::unit("forks/" + p.c.str(), [=] {
      const int depth = vh::thorough() ? 6 : p.c.npc == 2 ? 5 : 4;
      vmc::Explorer ex;
      ex.bound = 1 << 20;
      auto ops = special(p.c, p.perms, false);
      std::vector<Hist> hs;
      for (auto& h : ops)
        if (h.name == "rand_s" || h.name == "mmul_ss" || h.name[0] == 'p') hs.push_back(h);
      auto once = [&] {
        Ledger led;
        led.first_replays = tfp;
        Scope sc(led);
        std::vector<std::unique_ptr<Net>> nets;
        nets.push_back(std::make_unique<Net>(p.c));
        std::vector<std::vector<U>> drawn;
        std::string what;
        audit(led, p.c, raw(*nets[0]), "setup", 0);
        for (int s = 0; s < depth; ++s) {
          const int who = vmc::choose(static_cast<int>(nets.size()), "context");
          const int act = vmc::choose(1 + static_cast<int>(hs.size()), "action");
          Net& net = *nets[who];
          if (act == 0) {
            what += fmt::format("fork {};", who);
            led.begin(what);
            vh::where(p.c.str() + " " + what);
            auto sub = std::make_unique<Net>(p.c, net);
            nets.push_back(std::move(sub));
          } else {
            what += fmt::format("{} in {};", hs[act - 1].name, who);
            led.begin(what);
            vh::where(p.c.str() + " " + what);
            hs[act - 1].run(net, what);
          }
          for (size_t i = 0; i < nets.size(); ++i) audit(led, p.c, raw(*nets[i]), fmt::format("{} (context {})", what, i), s);
        }
        // what the contexts draw next differs between them
        for (auto& nt : nets) {
          std::vector<U> r;
          nt->run(what, [&](SPUContext* x, size_t i) {
            auto v = readArr(reveal(x, spu::mpc::rand_s(x, {3}, spu::DT_INVALID)).data());
            if (i == 0) r = v;
          });
          for (auto& o : drawn) VH_CHECK(o != r, "{} {}: two contexts draw the same secret random numbers", p.c.str(), what);
          drawn.push_back(r);
        }
        ownership(led, p.c);
        VH_CHECK(led.fault.empty(), "{} {}: {}", p.c.str(), what, led.fault);
        vh::eval(vh::hash(p.c.str() + what));
        vh::add("states", depth + 1);
        vh::add("transitions", depth);
        return true;
      };
      ex.explore(once);
    });
  }
  // Forked contexts used at the same time, by a thread each, in whatever order
  // every party gets to them.
  for (auto& p : protos()) {
    if (p.c.name == "spdz2k" || p.c.pub != FM64) continue;
    vh::unit("concurrent/" + p.c.str(), [=] {
      struct O {
        std::string name;
        std::function<std::vector<U>(SPUContext*)> fn;
      };
      auto num = [f = p.c.pub](SPUContext* x, std::vector<U> v) {
        Arg a;
        a.kind = 's';
        a.shape = {static_cast<int64_t>(v.size())};
        a.data = std::move(v);
        return mkArg(x, f, a);
      };
      std::vector<O> ops = {
          {"mul_ss", [=](SPUContext* x) { return readArr(reveal(x, spu::mpc::mul_ss(x, num(x, {3, 5, 7}), num(x, {11, 13, 17}))).data()); }},
          {"rand_s", [=](SPUContext* x) { return readArr(reveal(x, spu::mpc::rand_s(x, {3}, spu::DT_INVALID)).data()); }},
          {"trunc_s", [=](SPUContext* x) { return readArr(reveal(x, spu::mpc::trunc_s(x, num(x, {3 << 20, 5 << 20}), 20, spu::SignType::Unknown)).data()); }},
      };
      if (p.perms)
        ops.push_back({"perm_ss", [=](SPUContext* x) {
                         auto q = spu::mpc::rand_perm_s(x, {4}).value();
                         return readArr(reveal(x, spu::mpc::perm_ss(x, num(x, {1, 2, 3, 4}), q).value()).data());
                       }});
      for (size_t a = 0; a < ops.size(); ++a)
        for (size_t b = 0; b < ops.size(); ++b) {
          vmc::Explorer ex;
          ex.bound = (vh::thorough() ? 3 : 2) - (p.c.name == "swift");
          std::vector<std::vector<U>> want;
          auto once = [&] {
            venv::resetRandom(1);
            Ledger led;
            led.first_replays = p.c.name == "semi2k";
            Scope sc(led);
            Net net(p.c);
            std::vector<std::vector<std::vector<U>>> got(p.c.npc, std::vector<std::vector<U>>(2));
            std::vector<std::vector<std::unique_ptr<SPUContext>>> subs(p.c.npc);
            auto what = ops[a].name + " beside " + ops[b].name;
            led.begin(what);
            vh::where(p.c.str() + " " + what);
            vmc::sched.delay_bounded = true;
            net.run(what, [&](SPUContext* x, size_t i) {
              for (int t = 0; t < 2; ++t) subs[i].push_back(x->fork());
              std::vector<vmc::Fiber*> fs;
              for (int t = 0; t < 2; ++t)
                fs.push_back(vmc::spawn([&, t, i, c = subs[i][t].get()] { got[i][t] = ops[t == 0 ? a : b].fn(c); }));
              for (auto* f : fs) vmc::join(f);
            });
            vmc::sched.delay_bounded = false;
            for (int t = 0; t < 2; ++t) {
              std::vector<SPUContext*> g;
              for (size_t i = 0; i < p.c.npc; ++i) {
                g.push_back(subs[i][t].get());
                VH_CHECK(got[i][t] == got[0][t], "{} {}: parties see different results", p.c.str(), what);
              }
              audit(led, p.c, g, fmt::format("{} (context {})", what, t), 0);
            }
            audit(led, p.c, raw(net), what + " (parent)", 0);
            ownership(led, p.c);
            // every schedule gives the same numbers
            if (want.empty())
              want = got[0];
            else
              for (int t = 0; t < 2; ++t)
                VH_CHECK(want[t] == got[0][t], "{} {}: the result depends on the schedule", p.c.str(), what);
            vh::eval(vh::hash(fmt::format("{} {} {}", p.c.str(), what, ex.execs)));
            vh::add("schedules", 1);
            return true;
          };
          once();  // one-time initialisation
          want.clear();
          ex.explore(once);
        }
    });
  }
  // The generator itself against counters kept by hand: every sequence of draws.
  vh::unit("generator", [] {
    const int depth = vh::thorough() ? 5 : 4;
    vmc::Explorer ex;
    ex.bound = 1 << 20;
    ex.explore([&] {
      Ledger led;
      Scope sc(led);
      Conf c;
      c.name = "generator";
      c.npc = 3;
      c.rc.field = FM64;
      auto links = venv::makeWorld(3);
      std::vector<std::unique_ptr<PrgState>> st(3);
      vmc::run({[&] { st[0] = std::make_unique<PrgState>(links[0]); }, [&] { st[1] = std::make_unique<PrgState>(links[1]); },
                [&] { st[2] = std::make_unique<PrgState>(links[2]); }});
      std::string what;
      std::vector<std::vector<U>> pubs, prss, privs;
      auto fresh = [&](std::vector<std::vector<U>>& pool, const std::vector<U>& v, const char* kind) {
        if (v.empty()) return;
        for (auto& o : pool)
          VH_CHECK(o != v, "generator {}: {} randomness repeats", what, kind);
        pool.push_back(v);
      };
      for (int d = 0; d < depth; ++d) {
        const int act = vmc::choose(9, "draw");
        const int64_t n = act == 0 ? 1 + vmc::choose(3, "size") : 2;
        what += fmt::format("{}({});", act, n);
        led.begin(what);
        vh::where("generator " + what);
        const auto f = d % 3 == 0 ? FM64 : d % 3 == 1 ? FM32 : FM128;
        std::vector<std::vector<U>> a(3), b(3);
        int form = 0;  // 1 all equal  2 a successor pairs  3 private
        for (size_t i = 0; i < 3; ++i) {
          venv::g_as_party = static_cast<int>(i);
          auto& s = *st[i];
          auto first = [&](size_t p) { a[p] = elems(s.genPrssPair(f, {n, 3}, Ctrl::First).first); };
          auto second = [&](size_t p) { b[p] = elems(s.genPrssPair(f, {n, 3}, Ctrl::Second).second); };
          switch (act) {
            case 0: a[i] = elems(s.genPubl(f, {n, 3})), form = 1; break;
            case 1: a[i] = elems(s.genPriv(f, {n, 3})), form = 3; break;
            case 2: {
              auto p = s.genPrssPair(f, {n, 3}, Ctrl::Both);
              a[i] = elems(p.first), b[i] = elems(p.second), form = 2;
              break;
            }
            case 3: first(i), second(i), form = 2; break;
            case 4: second(i), first(i), form = 2; break;
            case 5: {
              auto p = s.genPrssPermPair(7);
              for (auto v : p.first) a[i].push_back(v);
              for (auto v : p.second) b[i].push_back(v);
              form = 4;
              break;
            }
            case 6: {
              std::vector<uint32_t> v(n * 3 + 1);
              s.fillPubl(absl::MakeSpan(v));
              a[i].assign(v.begin(), v.end()), form = 1;
              break;
            }
            case 7: {
              std::vector<uint16_t> v(n * 9), w(n * 9);
              s.fillPrssPair(v.data(), w.data(), v.size(), Ctrl::Both);
              a[i].assign(v.begin(), v.end()), b[i].assign(w.begin(), w.end()), form = 2;
              break;
            }
            case 8: {
              auto nw = s.fork();
              auto* q = dynamic_cast<PrgState*>(nw.get());
              VH_CHECK(q != nullptr, "a forked generator is not a generator");
              auto g = q->genPubl(f, {n, 3});
              a[i] = elems(g), form = 1;
              // go on with the child; the parent must not be needed any more
              nw.release();
              st[i].reset(q);
              break;
            }
          }
        }
        venv::g_as_party = venv::kNoOverride;
        for (size_t i = 0; i < 3; ++i) {
          if (form == 1) VH_CHECK(a[i] == a[0], "generator {}: public randomness differs between parties", what);
          if (form == 2 || form == 4)
            VH_CHECK(b[i] == a[(i + 1) % 3], "generator {}: party {} and its successor disagree", what, i);
          if (form == 2) fresh(prss, a[i], "pairwise");
          if (form == 3) fresh(privs, a[i], "private");
        }
        if (form == 1) fresh(pubs, a[0], "public");
        VH_CHECK(led.fault.empty(), "generator {}: {}", what, led.fault);
      }
      vh::eval(vh::hash("generator" + what));
      vh::add("states", depth + 1);
      vh::add("transitions", depth);
      return true;
    });
  });
}
