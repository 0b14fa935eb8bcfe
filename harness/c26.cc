// C26: permutations.  The switching networks route every permutation, the
// helpers apply exactly the permutation they are given, and the protocols'
// kernels apply every combination of the parties' permutations.
#define USE_SEMI2K
#define USE_ABY3
#define USE_CHEETAH
#define USE_REF2K
#include "protoops.h"
#include "protos.h"

#include "libspu/mpc/aby3/type.h"
#include "libspu/mpc/cheetah/type.h"
#include "libspu/mpc/semi2k/type.h"
#include "libspu/mpc/utils/permute.h"
#include "libspu/mpc/utils/waksman_net.h"
using namespace vn;
namespace mp = spu::mpc;
using spu::Index;
using spu::makeType;
using Perm = std::vector<int64_t>;

namespace {
std::string str(const Perm& p) { return fmt::format("({})", fmt::join(p, " ")); }
void allPerms(int64_t n, const std::function<void(const Perm&)>& fn) {
  Perm p(n);
  std::iota(p.begin(), p.end(), 0);
  do {
    fn(p);
    if (vh::timeUp()) return;
  } while (std::next_permutation(p.begin(), p.end()));
}

// ---- the network -----------------------------------------------------------
// The wiring: every column is a bijection whatever the switches do, a switch
// joins two neighbouring wires, and there are as many switches as needed.
mp::AsWaksmanTopology wiring(int64_t n) {
  auto t = mp::generate_as_waksman_topology(n);
  int64_t lg = 0, want = 0, have = 0;
  while ((1LL << lg) < n) ++lg;
  VH_CHECK(int64_t(t.size()) == 2 * lg - 1, "{} packets: {} columns", n, t.size());
  for (int64_t i = 1; i <= n; ++i) {
    int64_t l = 0;
    while ((1LL << l) < i) ++l;
    want += l;
  }
  for (size_t c = 0; c < t.size(); ++c) {
    VH_CHECK(int64_t(t[c].size()) == n, "{} packets: column {} has {} wires", n, c, t[c].size());
    std::vector<int> in(n), top(n);
    std::vector<bool> done(n);
    for (int64_t i = 0; i < n; ++i) {
      auto [a, b] = t[c][i];
      VH_CHECK(a >= 0 && a < n && b >= 0 && b < n, "{} packets: wire {} of column {} leads to {} or {}", n, i, c, a, b);
      in[a]++;
      if (a == b) {
        VH_CHECK(!done[i], "{} packets: half a switch at wire {} of column {}", n, i, c);
        done[i] = true;
      } else if (!done[i]) {
        VH_CHECK(i + 1 < n && t[c][i + 1].first == b && t[c][i + 1].second == a, "{} packets: wires {} and {} of column {} are no switch", n, i,
                 i + 1, c);
        done[i] = done[i + 1] = true;
        ++have;
      }
    }
    for (int64_t i = 0; i < n; ++i) VH_CHECK(in[i] == 1, "{} packets: {} wires of column {} end at {}", n, in[i], c, i);
  }
  VH_CHECK(have == want, "{} packets: {} switches instead of {}", n, have, want);
  vh::eval(vh::hash(fmt::format("wiring {}", n)), true);
  return t;
}
void route(const mp::AsWaksmanTopology& t, const Perm& p) {
  const int64_t n = p.size();
  auto r = mp::get_as_waksman_routing(Index(p.begin(), p.end()));
  VH_CHECK(r.size() == t.size(), "{}: settings for {} columns of {}", str(p), r.size(), t.size());
  Perm at(n), nx(n);
  std::iota(at.begin(), at.end(), 0);  // packet i is at wire at[i]
  std::vector<int64_t> who(n);
  for (size_t c = 0; c < t.size(); ++c) {
    for (auto& w : r[c])
      VH_CHECK(int64_t(w.first) + 1 < n && t[c][w.first].first != t[c][w.first].second && t[c][w.first + 1].first == t[c][w.first].second,
               "{}: a setting for wire {} of column {}, which is no switch", str(p), w.first, c);
    for (int64_t i = 0; i < n; ++i) {
      const int64_t w = at[i];
      auto [a, b] = t[c][w];
      if (a == b) {
        nx[i] = a;
        continue;
      }
      auto s = r[c].find(w);
      if (s == r[c].end() || (w > 0 && r[c].count(w - 1))) s = w > 0 ? r[c].find(w - 1) : r[c].end();
      VH_CHECK(s != r[c].end(), "{}: the switch at wire {} of column {} is not set", str(p), w, c);
      nx[i] = s->second ? b : a;
    }
    at = nx;
  }
  VH_CHECK(at == p, "{}: routed to {}", str(p), str(at));
}
void network(int64_t n) {
  vh::where(fmt::format("network of {}", n));
  auto t = wiring(n);
  int64_t m = 0;
  allPerms(n, [&](const Perm& p) {
    route(t, p);
    ++m;
    vh::eval(vh::hash(str(p)), n > 2);
  });
  vh::add("permutations", m);
}
// Larger networks: every size, with families of permutations that have long
// cycles, fixed points and dependencies in every place.
void larger(int64_t lo, int64_t hi) {
  for (int64_t n = lo; n <= hi && !vh::timeUp(); ++n) {
    vh::where(fmt::format("network of {}", n));
    auto t = wiring(n);
    auto go = [&](const std::function<int64_t(int64_t)>& f, const std::string& w) {
      Perm p(n);
      for (int64_t i = 0; i < n; ++i) p[i] = f(i);
      route(t, p);
      vh::eval(vh::hash(fmt::format("{} {}", n, w)), true);
    };
    for (int64_t k = 0; k < n; ++k) {
      go([&](int64_t i) { return (i + k) % n; }, fmt::format("rotation {}", k));
      go([&](int64_t i) { return (n - 1 - i + k) % n; }, fmt::format("reflection {}", k));
      for (int64_t l = 0; l < k; ++l)
        if (n <= 20 || l + 1 == k || l == 0 || k == n - 1)
          go([&](int64_t i) { return i == k ? l : i == l ? k : i; }, fmt::format("swap {} {}", k, l));
      if (std::gcd(k, n) == 1) go([&](int64_t i) { return i * k % n; }, fmt::format("times {}", k));
    }
    for (int64_t s = 0; s < (vh::thorough() ? 200 : 20); ++s) {
      uint64_t ctr = 0;
      auto q = mp::genRandomPerm(n, 31 * n + s, &ctr);
      go([&](int64_t i) { return q[i]; }, fmt::format("hash {}", s));
    }
  }
}

// ---- helpers ---------------------------------------------------------------
NdArrayRef line(const spu::Type& ty, const std::vector<U>& v, int layout) {
  const int64_t n = v.size();
  if (layout == kStrided) {
    std::vector<U> d(2 * n + 1, 3);
    for (int64_t i = 0; i < n; ++i) d[2 * i + 1] = v[i];
    return mkArr(ty, {2 * n + 1}, d).slice({1}, {n ? 2 * n : 1}, {2});
  }
  if (layout == kReversed) return mkArr(ty, {n}, {v.rbegin(), v.rend()}).reverse({0});
  return mkArr(ty, {n}, v);
}
std::vector<U> toU(const Perm& p) { return {p.begin(), p.end()}; }
const int kLays[] = {kCompact, kStrided, kReversed};
void helpers(FieldType f) {
  const int k = bitsOf(f);
  auto e = edges(k, false);
  auto ring = [](FieldType x) { return makeType<spu::RingTy>(x); };
  for (int64_t n = 0; n <= (vh::thorough() ? 7 : 5); ++n)
    allPerms(n, [&](const Perm& p) {
      std::vector<U> x(n), fw(n), bw(n), inv(n);
      for (int64_t i = 0; i < n; ++i) x[i] = e[(i * 7 + n) % e.size()] & maskOf(k);
      for (int64_t i = 0; i < n; ++i) fw[i] = x[p[i]], bw[p[i]] = x[i], inv[p[i]] = i;
      for (int lx : kLays)
        for (int lp : kLays) {
          auto w = fmt::format("{} {} {}/{}", fname(f), str(p), layoutName(lx), layoutName(lp));
          vh::where(w);
          auto a = line(ring(f), x, lx);
          Index pv(p.begin(), p.end());
          VH_CHECK(readArr(mp::applyPerm(a, pv)) == fw, "applyPerm {}", w);
          VH_CHECK(readArr(mp::applyInvPerm(a, pv)) == bw, "applyInvPerm {}", w);
          for (auto g : {FM32, FM64, FM128}) {
            auto b = line(ring(g), toU(p), lp);
            VH_CHECK(readArr(mp::applyPerm(a, b)) == fw, "applyPerm {} by {}", w, fname(g));
            VH_CHECK(readArr(mp::applyInvPerm(a, b)) == bw, "applyInvPerm {} by {}", w, fname(g));
            VH_CHECK(readArr(mp::genInversePerm(b)) == inv, "genInversePerm {} {}", w, fname(g));
            VH_CHECK(mp::ring2pv(b) == pv, "ring2pv {} {}", w, fname(g));
          }
          VH_CHECK(readArr(a) == x, "{}: the operand changed", w);
          vh::eval(vh::hash(w), n > 1);
        }
    });
  // sorting: every sequence over five values with ties
  const std::vector<U> al = {0, 1, maskOf(k), U(1) << (k - 1), (U(1) << (k - 1)) - 1};
  for (int64_t n = 0; n <= 4; ++n) {
    std::vector<int> ix(n, 0);
    for (;;) {
      std::vector<U> x;
      for (int i : ix) x.push_back(al[i]);
      Perm want(n);
      std::iota(want.begin(), want.end(), 0);
      for (int64_t i = 1; i < n; ++i)  // stable insertion
        for (int64_t j = i; j > 0 && sgn(x[want[j]], k) < sgn(x[want[j - 1]], k); --j) std::swap(want[j], want[j - 1]);
      for (int l : kLays) {
        auto got = mp::genPermBySort(line(ring(f), x, l));
        VH_CHECK(Perm(got.begin(), got.end()) == want, "genPermBySort {} {} {}", fname(f), fmt::join(ix, ","), layoutName(l));
        vh::eval(vh::hash(fmt::format("sort {} {} {}", fname(f), fmt::join(ix, ","), l)), n > 1);
      }
      int64_t d = n - 1;
      while (d >= 0 && ++ix[d] == int(al.size())) ix[d--] = 0;
      if (d < 0) break;
    }
  }
  // drawn permutations, for every deviation of a word
  for (int64_t n = 0; n <= 6; ++n) {
    vmc::Explorer ex;
    ex.bound = 2;
    ex.explore([&] {
      ChoiceRandom cr(5);
      uint64_t ctr = 7;
      auto q = mp::genRandomPerm(n, 5, &ctr);
      std::vector<bool> seen(n);
      VH_CHECK(int64_t(q.size()) == n, "genRandomPerm of {} has {} elements", n, q.size());
      for (auto v : q) {
        VH_CHECK(v >= 0 && v < n && !seen[v], "genRandomPerm of {} is not a permutation", n);
        seen[v] = true;
      }
      return true;
    });
    vh::add("draw_choices", ex.execs);
  }
}

// ---- kernels ---------------------------------------------------------------
enum { kReplicated = 1, kOwned = 2 };
struct Proto {
  Conf c;
  int how;
  std::function<spu::Type()> m;
};
std::vector<Proto> protos() {
  std::vector<Proto> r;
  for (auto f : {FM32, FM64, FM128}) {
    r.push_back({semi2k(2, f), kOwned, [] { return makeType<mp::semi2k::PShrTy>(); }});
    r.push_back({aby3(f), kReplicated, [] { return makeType<mp::aby3::PShrTy>(); }});
    r.push_back({cheetah(f), kOwned, [] { return makeType<mp::cheetah::PShrTy>(); }});
  }
  r.push_back({semi2k(3, FM64), kOwned, [] { return makeType<mp::semi2k::PShrTy>(); }});
  return r;
}
// Party i's component of the permutations ps.
NdArrayRef component(const Proto& p, const std::vector<Perm>& ps, size_t i, int layout) {
  auto ty = p.m();
  if (p.how != kReplicated) return line(ty, toU(ps[i]), layout);
  const auto& a = ps[i];
  const auto& b = ps[(i + 1) % ps.size()];
  std::vector<U> v;
  for (size_t j = 0; j < a.size(); ++j) v.push_back(U(a[j]) | (U(b[j]) << 64));
  return line(ty, v, layout);
}
void secret(const Proto& p, int64_t n, size_t part, size_t parts) {
  const int k = bitsOf(p.c.pub);
  auto e = edges(k, false);
  std::vector<Perm> all;
  allPerms(n, [&](const Perm& q) { all.push_back(q); });
  size_t total = 1;
  for (size_t i = 0; i < p.c.npc; ++i) total *= all.size();
  Net net(p.c);
  for (size_t t = part; t < total && !vh::timeUp(); t += parts) {
    std::vector<Perm> ps;
    for (size_t i = 0, z = t; i < p.c.npc; ++i, z /= all.size()) ps.push_back(all[z % all.size()]);
    std::vector<U> x(n), want(n), cur;
    for (int64_t i = 0; i < n; ++i) x[i] = e[(i * 7 + t) % e.size()];
    // semi2k and cheetah move packet j to perm_i[j], one party after the
    // other; aby3 fetches from perm_i, the last party's permutation first.
    cur = x;
    for (size_t i = 0; i < p.c.npc; ++i) {
      for (int64_t j = 0; j < n; ++j)
        if (p.how == kReplicated)
          want[j] = cur[ps[i][j]];
        else
          want[ps[i][j]] = cur[j];
      cur = want;
    }
    std::vector<int64_t> map(n);  // position in x of the element at j
    std::iota(map.begin(), map.end(), 0);
    for (size_t i = 0; i < p.c.npc; ++i) {
      auto old = map;
      for (int64_t j = 0; j < n; ++j)
        if (p.how == kReplicated)
          map[j] = old[ps[i][j]];
        else
          map[ps[i][j]] = old[j];
    }
    std::vector<U> back(n);
    for (int64_t j = 0; j < n; ++j) back[map[j]] = x[j];
    std::string w;
    for (auto& q : ps) w += str(q);
    const int lx = kLays[t % 3], lp = kLays[t / 3 % 3];
    const char kind = "abs"[t % 3];
    w += fmt::format(" {} {}/{}", kind, layoutName(lx), layoutName(lp));
    venv::g_par_mode = t % 4;
    vh::where(p.c.str() + " " + w);
    Arg a;
    a.kind = kind, a.data = x, a.shape = {n}, a.layout = lx;
    std::vector<std::vector<U>> got(p.c.npc), inv(p.c.npc), both(p.c.npc), after(p.c.npc);
    net.run(w, [&](SPUContext* c, size_t i) {
      auto v = mkArg(c, p.c.pub, a);
      Value m(component(p, ps, i, lp), spu::DT_INVALID);
      auto y = mp::perm_ss(c, v, m).value(), z = mp::inv_perm_ss(c, v, m).value();
      got[i] = readArr(reveal(c, y).data());
      inv[i] = readArr(reveal(c, z).data());
      both[i] = readArr(reveal(c, mp::inv_perm_ss(c, y, m).value()).data());
      after[i] = readArr(reveal(c, v).data());
    });
    auto show = [&](const std::vector<U>& v) {
      std::string s;
      for (auto u : v) s += hex(u) + " ";
      return s;
    };
    for (size_t i = 0; i < p.c.npc; ++i) {
      VH_CHECK(got[i] == want, "{} {}: permuted {} to {}, not {}, at party {}", p.c.str(), w, show(x), show(got[i]), show(want), i);
      VH_CHECK(inv[i] == back, "{} {}: inverse permuted {} to {}, not {}, at party {}", p.c.str(), w, show(x), show(inv[i]), show(back), i);
      VH_CHECK(both[i] == x, "{} {}: the inverse gives {} back, not {}", p.c.str(), w, show(both[i]), show(x));
      VH_CHECK(after[i] == x, "{} {}: the operand changed to {}", p.c.str(), w, show(after[i]));
    }
    vh::eval(vh::hash(p.c.str() + w), n > 1);
  }
}
// Draws of the parties, and histories of several permutations in one context.
void drawn(const Proto& p, int64_t n) {
  vmc::Explorer ex;
  ex.bound = vh::thorough() ? 2 : 1;
  auto body = [&](bool choose) {
    auto net = std::make_unique<Net>(p.c);
    std::unique_ptr<ChoiceRandom> cr;
    if (choose) cr = std::make_unique<ChoiceRandom>(5);
    std::vector<std::vector<U>> x(p.c.npc), y(p.c.npc), z(p.c.npc);
    std::vector<std::vector<U>> comp(p.c.npc);
    net->run("drawn permutations", [&](SPUContext* c, size_t i) {
      std::vector<U> q(n);
      for (int64_t j = 0; j < n; ++j) q[j] = j;
      auto v = mp::p2a(c, Value(mkPub(p.c.pub, {n}, q), spu::DT_INVALID));
      auto m1 = mp::rand_perm_s(c, {n}).value(), m2 = mp::rand_perm_s(c, {n}).value();
      comp[i] = readArr(m1.data());
      auto a = mp::perm_ss(c, v, m1).value();
      auto b = mp::perm_ss(c, a, m2).value();
      x[i] = readArr(reveal(c, a).data());
      y[i] = readArr(reveal(c, mp::inv_perm_ss(c, b, m2).value()).data());
      z[i] = readArr(reveal(c, mp::inv_perm_ss(c, mp::inv_perm_ss(c, b, m2).value(), m1).value()).data());
    });
    for (size_t i = 0; i < p.c.npc; ++i) {
      std::vector<bool> s1(n), s2(n);
      for (int64_t j = 0; j < n; ++j) {
        const auto v = comp[i][j];
        const uint64_t lo = static_cast<uint64_t>(v), hi = p.how == kReplicated ? static_cast<uint64_t>(v >> 64) : lo;
        VH_CHECK(int64_t(lo) < n && !s1[lo] && int64_t(hi) < n && !s2[hi], "{}: party {} drew no permutation", p.c.str(), i);
        s1[lo] = s2[hi] = true;
        if (p.how == kReplicated)
          VH_CHECK(hi == static_cast<uint64_t>(comp[(i + 1) % 3][j]), "{}: parties {} and {} hold different permutations", p.c.str(), i,
                   (i + 1) % 3);
      }
      VH_CHECK(y[i] == x[i], "{}: the second permutation is not undone", p.c.str());
      std::vector<bool> seen(n);
      for (int64_t j = 0; j < n; ++j) {
        VH_CHECK(z[i][j] == U(j), "{}: the first permutation is not undone", p.c.str());
        VH_CHECK(int64_t(x[i][j]) < n && !seen[int64_t(x[i][j])], "{}: not a permutation of the input", p.c.str());
        seen[int64_t(x[i][j])] = true;
      }
    }
    vh::eval(vh::hash(fmt::format("{} drawn {} {}", p.c.str(), n, ex.execs)), n > 1);
  };
  body(false);
  ex.explore([&] {
    body(true);
    return true;
  });
  vh::add("draw_choices", ex.execs);
}
void open(const Conf& c) {
  const bool ps = c.name.rfind("ref2k", 0) != 0;
  const int k = bitsOf(c.pub);
  auto e = edges(k, false);
  Net net(c);
  int t = 0;
  for (int64_t n = 0; n <= 4; ++n)
    allPerms(n, [&](const Perm& p) {
      ++t;
      std::vector<U> x(n), fw(n), bw(n), inv(n), desc(n);
      for (int64_t i = 0; i < n; ++i) x[i] = e[(i * 5 + t) % e.size()] & maskOf(k);
      for (int64_t i = 0; i < n; ++i) fw[i] = x[p[i]], bw[p[i]] = x[i];
      for (char kx : std::string(ps ? "pabvw" : "p"))
        for (char kp : std::string("pvw"))
          for (int l = 0; l < 2; ++l) {
            if ((kx == 'v' || kx == 'w' || kx == 'p') && kx != kp) continue;
            auto w = fmt::format("{} of {} by {} {}", kx, n, kp, str(p)) + (l ? " strided" : "");
            vh::where(c.str() + " " + w);
            venv::g_par_mode = t % 4;
            const bool priv = kp != 'p';
            // a product with one party's permutation is only offered where
            // that party can hold one
            if (priv && (kx == 'a' || kx == 'b') && (c.name == "aby3" || (n == 0 && c.name == "cheetah"))) continue;
            Arg a, b;
            a.kind = kx, a.data = x, a.shape = {n}, a.layout = kLays[(t + l) % 3];
            b.kind = kp, b.data = toU(p), b.shape = {n}, b.layout = kLays[l];
            std::vector<std::vector<U>> f(c.npc), g(c.npc), h(c.npc), d(c.npc);
            const bool sv = priv && (kx == 'a' || kx == 'b');
            net.run(w, [&](SPUContext* cx, size_t i) {
              auto xv = mkArg(cx, c.pub, a), pv = mkArg(cx, c.pub, b);
              auto of = [&](const Value& v) { return readArr(reveal(cx, v).data()); };
              if (sv) {
                g[i] = of(mp::inv_perm_sv(cx, xv, pv).value());
                f[i] = fw;
              } else if (kx == 'p') {
                f[i] = of(mp::perm_pp(cx, xv, pv)), g[i] = of(mp::inv_perm_pp(cx, xv, pv));
                h[i] = of(spu::dynDispatch(cx, "gen_inv_perm_p", pv, true)), d[i] = of(spu::dynDispatch(cx, "gen_inv_perm_p", pv, false));
              } else if (priv) {
                f[i] = of(mp::perm_vv(cx, xv, pv)), g[i] = of(mp::inv_perm_vv(cx, xv, pv));
                h[i] = of(spu::dynDispatch(cx, "gen_inv_perm_v", pv, true)), d[i] = of(spu::dynDispatch(cx, "gen_inv_perm_v", pv, false));
              } else {
                f[i] = of(mp::perm_sp(cx, xv, pv).value()), g[i] = of(mp::inv_perm_sp(cx, xv, pv).value());
              }
            });
            for (size_t i = 0; i < c.npc; ++i) {
              VH_CHECK(f[i] == fw, "{} {}: permuted wrongly at party {}", c.str(), w, i);
              VH_CHECK(g[i] == bw, "{} {}: inverse permuted wrongly at party {}", c.str(), w, i);
              if (!h[i].empty())  // the rank of every key
                for (int64_t j = 0; j < n; ++j)
                  VH_CHECK(h[i][j] == U(p[j]) && d[i][j] == U(n - 1 - p[j]), "{} {}: the permutation that sorts {} is wrong", c.str(), w, str(p));
            }
            vh::eval(vh::hash(c.str() + w), n > 1);
          }
    });
}
}  // namespace

void vh_units() {
  const int64_t big = vh::thorough() ? 10 : 9;
  for (int64_t n = 2; n <= big; ++n) vh::unit(fmt::format("network/{}", n), [=] { network(n); });
  vh::unit("network/9-40", [] { larger(9, 40); });
  vh::unit("network/41-80", [] { larger(41, 80); });
  vh::unit("network/120-131", [] { larger(120, 131); });
  if (vh::thorough()) vh::unit("network/250-260", [] { larger(250, 260); });
  for (auto f : {FM32, FM64, FM128}) vh::unit(fmt::format("helpers/{}", fname(f)), [=] { helpers(f); });
  for (auto& p : protos()) {
    // (cheetah refuses to permute nothing)
    for (int64_t n = p.c.name == "cheetah"; n <= (p.c.npc == 2 ? 4 : 3) + (vh::thorough() ? 1 : 0); ++n) {
      const size_t parts = n >= 4 ? (n == 5 ? 16 : 4) : 1;
      for (size_t q = 0; q < parts; ++q)
        vh::unit(fmt::format("secret/{}/{}", p.c.str(), n) + (parts > 1 ? fmt::format("/{}", q) : ""), [=] { secret(p, n, q, parts); });
    }
    for (int64_t n : {1, 2, 3, 5}) vh::unit(fmt::format("drawn/{}/{}", p.c.str(), n), [=] { drawn(p, n); });
    vh::unit("open/" + p.c.str(), [=] { open(p.c); });
  }
  for (auto f : {FM32, FM64, FM128}) {
    auto c = ref2k(2, f);
    vh::unit("open/" + c.str(), [=] { open(c); });
  }
}
