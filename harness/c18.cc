// C18: correlated randomness of semi2k (the helper's triples and pairs, the
// server's stream, replays) and the cache of opened operands.
#define USE_SEMI2K_TTP
#include "protoops.h"
#include "protos.h"

#include "brpc/channel.h"
#include "libspu/mpc/common/prg_tensor.h"
#include "libspu/mpc/semi2k/state.h"
using namespace vn;
using spu::mpc::semi2k::Beaver;

namespace spu::mpc::semi2k::beaver::ttp_server {
extern int64_t kReplayChunkSize;
}
namespace {
std::vector<Conf> confs(FieldType f) {
  return {semi2k(2, f), semi2kTtp(2, f, 0), semi2kTtp(2, f, 1), semi2k(3, f), semi2kTtp(3, f, 1)};
}
std::vector<U> words(const yacl::Buffer& b, int k) {
  const size_t w = k / 8;
  if (b.size() % w) throw std::runtime_error("a buffer of another size");
  std::vector<U> r(b.size() / w);
  for (size_t i = 0; i < r.size(); ++i) std::memcpy(&r[i], b.data<uint8_t>() + i * w, w);
  return r;
}
using Vec = std::vector<U>;
struct TStep {
  std::string name;
  // what one party does; the outputs are collected
  char op = 0;
  char x = '-', y = '-';  // - none, N new, L last recorded, F first recorded, T last recorded transposed
  int64_t n = 6;
  size_t arg = 0;
};
std::vector<TStep> steps(size_t npc, bool small) {
  std::vector<TStep> r;
  const std::string rep = small ? "-NL" : "-NLF";
  for (char x : rep)
    for (char y : rep) r.push_back({fmt::format("mul({}{})", x, y), 'm', x, y});
  for (char x : rep) r.push_back({fmt::format("square({})", x), 's', x});
  for (char x : rep + "T")
    for (char y : rep + "T") r.push_back({fmt::format("dot({}{})", x, y), 'd', x, y});
  if (small) return r;
  r.push_back({"and(5)", 'a', '-', '-', 5});
  r.push_back({"and(32)", 'a', '-', '-', 32});
  r.push_back({"trunc(3)", 't', '-', '-', 6, 3});
  r.push_back({"truncpr(5)", 'p', '-', '-', 4, 5});
  r.push_back({"randbit", 'r', '-', '-', 7});
  r.push_back({"eqz", 'e', '-', '-', 5});
  for (size_t q = 0; q < npc; ++q) r.push_back({fmt::format("perm({})", q), 'P', '-', '-', 5, q});
  if (npc == 2) r.push_back({"mulpriv", 'v', '-', '-', 3});
  r.push_back({"mul of nothing", 'm', '-', '-', 0});
  r.push_back({"spawn", 'S'});
  return r;
}
struct Triples {
  Net net;
  int k;
  std::vector<Beaver*> now;
  std::vector<std::unique_ptr<Beaver>> own;
  std::vector<std::vector<Beaver::ReplayDesc>> rec;  // [record][party]
  std::vector<std::vector<Vec>> recShares;           // [record][party]
  std::vector<Vec> fresh;                            // all shares handed out
  explicit Triples(const Conf& c) : net(c), k(bitsOf(c.pub)) {
    for (auto& x : net.ctxs) now.push_back(x->getState<spu::mpc::Semi2kState>()->beaver());
  }
  void isFresh(const Vec& v, const std::string& w) {
    if (v.empty()) return;
    for (auto& o : fresh) VH_CHECK(o != v, "{} {}: randomness handed out twice", net.conf.str(), w);
    fresh.push_back(v);
  }
  static Vec sum(const std::vector<Vec>& s, int k, bool x = false) {
    Vec r = s[0];
    for (size_t p = 1; p < s.size(); ++p)
      for (size_t i = 0; i < r.size(); ++i) r[i] = x ? r[i] ^ s[p][i] : (r[i] + s[p][i]) & maskOf(k);
    return r;
  }
  // false: the step does not apply (nothing recorded yet)
  bool run(const TStep& st, const std::string& hist) {
    auto& c = net.conf;
    const auto w = hist + " " + st.name;
    vh::where(c.str() + " " + w);
    if (st.op == 'S') {
      std::vector<std::unique_ptr<Beaver>> nb(c.npc);
      net.run(w, [&](SPUContext*, size_t i) { nb[i] = now[i]->Spawn(); });
      for (size_t i = 0; i < c.npc; ++i) {
        now[i] = nb[i].get();
        own.push_back(std::move(nb[i]));
      }
      return true;
    }
    auto slot = [&](char q) -> int { return q == 'F' ? 0 : q == 'L' || q == 'T' ? int(rec.size()) - 1 : -1; };
    if (((st.x != '-' && st.x != 'N') || (st.y != '-' && st.y != 'N')) && rec.empty()) return false;
    const int sx = slot(st.x), sy = slot(st.y);
    std::vector<Beaver::ReplayDesc> dx(c.npc), dy(c.npc);
    for (size_t i = 0; i < c.npc; ++i) {
      if (sx >= 0) dx[i] = rec[sx][i], dx[i].status = st.x == 'T' ? Beaver::TransposeReplay : Beaver::Replay;
      if (sy >= 0) dy[i] = rec[sy][i], dy[i].status = st.y == 'T' ? Beaver::TransposeReplay : Beaver::Replay;
    }
    std::vector<Vec> o0(c.npc), o1(c.npc), o2(c.npc);
    std::vector<std::vector<int64_t>> perm(c.npc);
    const auto f = c.pub;
    const int64_t M = 2, K = 3, N = 2;
    net.run(w, [&](SPUContext*, size_t i) {
      auto* b = now[i];
      auto* px = st.x == '-' ? nullptr : &dx[i];
      auto* py = st.y == '-' ? nullptr : &dy[i];
      auto three = [&](Beaver::Triple t, int kk) {
        o0[i] = words(std::get<0>(t), kk), o1[i] = words(std::get<1>(t), kk), o2[i] = words(std::get<2>(t), kk);
      };
      auto two = [&](Beaver::Pair t) { o0[i] = words(t.first, k), o1[i] = words(t.second, k); };
      switch (st.op) {
        case 'm': three(b->Mul(f, st.n, px, py), k); break;
        case 's': two(b->Square(f, st.n, px)); break;
        case 'd': three(b->Dot(f, M, N, K, px, py), k); break;
        case 'a': three(b->And(st.n), 8); break;
        case 't': two(b->Trunc(f, st.n, st.arg)); break;
        case 'p': three(b->TruncPr(f, st.n, st.arg), k); break;
        case 'r': o0[i] = words(b->RandBit(f, st.n), k); break;
        case 'e': two(b->Eqz(f, st.n)); break;
        case 'v': two(b->MulPriv(f, st.n)); break;
        case 'P': {
          auto t = b->PermPair(f, st.n, st.arg);
          o0[i] = words(std::get<0>(t), k), o1[i] = words(std::get<1>(t), k);
          perm[i].assign(std::get<2>(t).begin(), std::get<2>(t).end());
          break;
        }
      }
    });
    const size_t n0 = st.op == 'd' ? M * K : st.n, n1 = st.op == 'd' ? K * N : st.n, n2 = st.op == 'd' ? M * N : st.n;
    const bool two = st.op == 's' || st.op == 't' || st.op == 'e' || st.op == 'v' || st.op == 'P', one = st.op == 'r';
    for (size_t i = 0; i < c.npc; ++i)
      VH_CHECK(o0[i].size() == n0 && o1[i].size() == (one ? 0 : n1) && o2[i].size() == (one || two ? 0 : n2), "{} {}: wrong size at party {}",
               c.str(), w, i);
    auto A = sum(o0, k), B = one ? Vec{} : sum(o1, k), C = one || two ? Vec{} : sum(o2, k);
    auto bad = [&](size_t i) { vh::fail(fmt::format("{} {}: the correlation does not hold for element {}", c.str(), w, i)); };
    const U m = maskOf(k);
    switch (st.op) {
      case 'm':
        for (size_t i = 0; i < n0; ++i)
          if (((A[i] * B[i]) & m) != C[i]) bad(i);
        break;
      case 's':
        for (size_t i = 0; i < n0; ++i)
          if (((A[i] * A[i]) & m) != B[i]) bad(i);
        break;
      case 'd':
        for (int64_t i = 0; i < M; ++i)
          for (int64_t j = 0; j < N; ++j) {
            U s = 0;
            for (int64_t t = 0; t < K; ++t) s += A[i * K + t] * B[t * N + j];
            if ((s & m) != C[i * N + j]) bad(i * N + j);
          }
        break;
      case 'a': {
        auto x = sum(o0, 8, true), y = sum(o1, 8, true), z = sum(o2, 8, true);
        for (size_t i = 0; i < n0; ++i)
          if ((x[i] & y[i]) != z[i]) bad(i);
        break;
      }
      case 't':
        for (size_t i = 0; i < n0; ++i)
          if ((U(sgn(A[i], k) >> st.arg) & m) != B[i]) bad(i);
        break;
      case 'p':
        for (size_t i = 0; i < n0; ++i)
          if ((A[i] & (m >> 1)) >> st.arg != B[i] || A[i] >> (k - 1) != C[i]) bad(i);
        break;
      case 'r':
        for (size_t i = 0; i < n0; ++i)
          if (A[i] > 1) bad(i);
        break;
      case 'e': {
        auto y = sum(o1, k, true);
        for (size_t i = 0; i < n0; ++i)
          if (A[i] != y[i]) bad(i);
        break;
      }
      case 'v':
        for (size_t i = 0; i < n0; ++i)
          if (((o0[0][i] * o0[1][i]) & m) != B[i]) bad(i);
        break;
      case 'P': {
        for (size_t i = 0; i < c.npc; ++i)
          VH_CHECK(perm[i].size() == (i == st.arg ? n0 : 0), "{} {}: party {} got a permutation of {}", c.str(), w, i, perm[i].size());
        std::vector<bool> seen(n0);
        for (size_t i = 0; i < n0; ++i) {
          auto t = perm[st.arg][i];
          VH_CHECK(t >= 0 && t < int64_t(n0) && !seen[t], "{} {}: not a permutation", c.str(), w);
          seen[t] = true;
          if (B[t] != A[i]) bad(i);
        }
        break;
      }
    }
    // replayed operands are the recorded ones, everything else is new
    auto operand = [&](char q, int s, const std::vector<Vec>& got, int64_t rows, int64_t cols) {
      for (size_t i = 0; i < c.npc; ++i) {
        if (s < 0) {
          isFresh(got[i], w);
          continue;
        }
        auto want = recShares[s][i];
        if (q == 'T') {  // recorded as cols x rows
          Vec t;
          for (int64_t a = 0; a < rows; ++a)
            for (int64_t b = 0; b < cols; ++b) t.push_back(want[b * rows + a]);
          want = t;
        }
        VH_CHECK(want == got[i], "{} {}: a replayed operand differs at party {}", c.str(), w, i);
      }
    };
    if (n0 > 1) operand(st.x, sx, o0, M, K);
    if (st.op == 'm' || st.op == 'd') {
      if (n0 > 1) operand(st.y, sy, o1, K, N);
    } else if (st.op != 'r') {
      for (auto& v : o1) isFresh(v, w);
    }
    if (st.op != 'P')
      for (auto& v : o2) isFresh(v, w);
    if (st.x == 'N') rec.push_back(dx), recShares.push_back(o0);
    if (st.y == 'N') rec.push_back(dy), recShares.push_back(o1);
    return true;
  }
};

// ---- where parties' memory lies ---------------------------------------------
struct Heap {
  // per party: last freed block first, or never the same address again
  static inline unsigned quarantine = 0;
  static inline std::map<std::pair<int, size_t>, std::vector<void*>> pool;
  static inline std::map<void*, std::pair<int, size_t>> live;
  static inline std::vector<void*> all;
  static void* alloc(size_t n) {
    const int p = vmc::self_party();
    auto& v = pool[{p, n}];
    void* r;
    if (!v.empty() && !(quarantine >> p & 1)) {
      r = v.back();
      v.pop_back();
    } else {
      r = ::operator new(n);
      all.push_back(r);
    }
    live[r] = {p, n};
    return r;
  }
  static bool free(void* q) {
    auto it = live.find(q);
    if (it == live.end()) return false;
    std::memset(q, 0xDB, it->second.second);
    pool[it->second].push_back(q);
    live.erase(it);
    return true;
  }
  explicit Heap(unsigned q) {
    quarantine = q;
    venv::g_alloc = alloc;
    venv::g_free = free;
  }
  ~Heap() {
    venv::g_alloc = nullptr;  // blocks still alive return to the pool
  }
  static void drop() {
    venv::g_free = nullptr;
    for (auto* p : all) ::operator delete(p);
    all.clear(), pool.clear(), live.clear();
  }
};

// ---- histories of a cached operand -------------------------------------------
// x, y: 2x2 arrays of arithmetic shares
struct Act {
  std::string name;
  // e enable, d disable, m mul, s square, D dot, f replace, b mul by a bit
  char op;
  std::string a, b;
};
std::vector<Act> acts(bool few) {
  std::vector<Act> r = {{"enable x", 'e', "x", ""}, {"disable x", 'd', "x", ""}, {"replace x", 'f', "x", ""}, {"x*y", 'm', "x", "y"},
                        {"x*x", 'm', "x", "x"},     {"square x", 's', "x", ""},  {"x.y", 'D', "x", "y"},       {"x'.y", 'D', "xt", "y"},
                        {"x.x'", 'D', "x", "xt"}};
  if (few) return r;
  for (auto& q : std::vector<Act>{{"enable y", 'e', "y", ""},      {"disable y", 'd', "y", ""},     {"replace y", 'f', "y", ""},
                                  {"enable row of x", 'e', "xr", ""}, {"disable row of x", 'd', "xr", ""}, {"x'*y", 'm', "xt", "y"},
                                  {"y.x'", 'D', "y", "xt"},        {"x.x", 'D', "x", "x"},          {"row*row", 'm', "xr", "yr"},
                                  {"square col", 's', "xc", ""},   {"col*col", 'm', "xc", "yc"},    {"row.col", 'D', "xr", "yc"},
                                  {"x.new", 'D', "x", "z"},        {"new*x", 'm', "z", "x"},        {"x*bit", 'b', "x", ""}, {"square x'", 's', "xt", ""}})
    r.push_back(q);
  return r;
}
struct Obj {
  Vec v;
  int id = 0;
};
NdArrayRef view(const NdArrayRef& a, const std::string& how) {
  if (how.size() < 2) return a;
  switch (how[1]) {
    case 't': return a.transpose();
    case 'r': return a.slice({0, 0}, {1, 2}, {1, 1});
    case 'c': return a.slice({0, 1}, {2, 2}, {1, 1});
  }
  std::abort();
}
std::pair<std::array<int64_t, 2>, Vec> plain(const Vec& v, const std::string& how) {
  if (how.size() < 2) return {{2, 2}, v};
  switch (how[1]) {
    case 't': return {{2, 2}, {v[0], v[2], v[1], v[3]}};
    case 'r': return {{1, 2}, {v[0], v[1]}};
    case 'c': return {{2, 1}, {v[1], v[3]}};
  }
  std::abort();
}
struct Cached {
  Net net;
  int k;
  std::vector<Value> x, y;
  Obj px, py;
  int gen = 0;
  // the reference: enabled arrays and the views of them that were opened
  std::map<int, std::set<std::string>> on;
  double cost = 0;  // bytes on the wire per opened element
  long bytes = 0;
  Vec number() {
    ++gen;
    Vec r;
    for (int i = 0; i < 4; ++i) r.push_back((U(0x9e3779b97f4a7c15ULL) * U(gen * 16 + i + 1) + (U(gen) << (k - 3))) & maskOf(k));
    return r;
  }
  Value make(SPUContext* c, const Vec& v) { return spu::mpc::p2a(c, Value(mkPub(net.conf.pub, {2, 2}, v), spu::DT_INVALID)); }
  explicit Cached(const Conf& c) : net(c), k(bitsOf(c.pub)), x(c.npc), y(c.npc) {
    px = {number(), 1}, py = {number(), 2};
    auto z = number();
    net.run("setup", [&](SPUContext* q, size_t i) { x[i] = make(q, px.v), y[i] = make(q, py.v); });
    count();
    net.run("calibrate", [&](SPUContext* q, size_t i) {
      auto t = make(q, z);
      spu::mpc::mul_aa(q, t, t);
    });
    venv::g_wire = nullptr;
    cost = double(bytes) / 8;
  }
  ~Cached() {
    net.runRaw([&](size_t i) { x[i] = Value(), y[i] = Value(); });
    net.runRaw([&](size_t i) { net.ctxs[i].reset(); });
  }
  void count() {
    bytes = 0;
    venv::g_wire = [this](venv::Msg& m) {
      bytes += m.data.size();
      return true;
    };
  }
  void run(const Act& a, const std::string& hist) {
    auto& c = net.conf;
    const auto w = hist + "; " + a.name;
    vh::where(c.str() + " " + w);
    auto cachedCall = [&](bool enable, const std::string& o) {
      net.run(w, [&](SPUContext* q, size_t i) {
        auto& t = o[0] == 'x' ? x[i] : y[i];
        spu::dynDispatch(q, "beaver_cache", Value(view(t.data(), o), spu::DT_INVALID), enable);
      });
      const int id = (o[0] == 'x' ? px : py).id;
      if (enable)
        on.insert({id, {}});
      else
        on.erase(id);
    };
    if (a.op == 'e' || a.op == 'd') return cachedCall(a.op == 'e', a.a);
    if (a.op == 'f') {
      auto& p = a.a == "x" ? px : py;
      auto& t = a.a == "x" ? x : y;
      p = {number(), gen * 8 + 3};
      net.run(w, [&](SPUContext* q, size_t i) {
        t[i] = Value();
        t[i] = make(q, p.v);
      });
      return;
    }
    Obj pz{number(), -1};
    std::vector<Vec> got(c.npc);
    std::vector<Shape> shape(c.npc);
    std::vector<Value> res(c.npc);
    Vec bit = {1, 0, 0, 1};
    std::vector<Value> bv(c.npc), zv(c.npc);
    net.run(w, [&](SPUContext* q, size_t i) {
      if (a.op == 'b') bv[i] = spu::mpc::p2b(q, Value(mkPub(c.pub, {2, 2}, bit), spu::DT_INVALID));
      if (a.a[0] == 'z' || (!a.b.empty() && a.b[0] == 'z')) zv[i] = make(q, pz.v);
    });
    count();
    net.run(w, [&](SPUContext* q, size_t i) {
      auto get = [&](const std::string& o) {
        return Value(view((o[0] == 'x' ? x[i] : o[0] == 'y' ? y[i] : zv[i]).data(), o), spu::DT_INVALID);
      };
      switch (a.op) {
        case 'm': res[i] = spu::mpc::mul_aa(q, get(a.a), get(a.b)); break;
        case 's': res[i] = spu::mpc::square_a(q, get(a.a)); break;
        case 'D': res[i] = spu::mpc::mmul_aa(q, get(a.a), get(a.b)); break;
        case 'b': res[i] = spu::mpc::mul_a1b(q, get(a.a), bv[i]); break;
      }
    });
    venv::g_wire = nullptr;
    const long spent = bytes;
    net.run(w, [&](SPUContext* q, size_t i) {
      shape[i] = res[i].shape();
      got[i] = readArr(spu::mpc::a2p(q, res[i]).data());
      res[i] = Value(), bv[i] = Value(), zv[i] = Value();
    });
    auto val = [&](const std::string& o) { return plain((o[0] == 'x' ? px : o[0] == 'y' ? py : pz).v, o); };
    auto [sa, va] = val(a.a);
    Vec want;
    std::array<int64_t, 2> sh = sa;
    if (a.op == 'b') {
      for (size_t i = 0; i < va.size(); ++i) want.push_back(va[i] * bit[i]);
    } else if (a.op == 's') {
      for (auto v : va) want.push_back(v * v);
    } else {
      auto [sb, vb] = val(a.b);
      if (a.op == 'm') {
        for (size_t i = 0; i < va.size(); ++i) want.push_back(va[i] * vb[i]);
      } else {
        sh = {sa[0], sb[1]};
        for (int64_t i = 0; i < sh[0]; ++i)
          for (int64_t j = 0; j < sh[1]; ++j) {
            U s = 0;
            for (int64_t t = 0; t < sa[1]; ++t) s += va[i * sa[1] + t] * vb[t * sb[1] + j];
            want.push_back(s);
          }
      }
    }
    for (size_t q = 0; q < c.npc; ++q) {
      VH_CHECK((shape[q] == Shape{sh[0], sh[1]}), "{} {}: wrong shape", c.str(), w);
      for (size_t i = 0; i < want.size(); ++i)
        VH_CHECK((want[i] & maskOf(k)) == (got[q][i] & maskOf(k)), "{} {}: element {} is {} not {} at party {}", c.str(), w, i, hex(got[q][i]),
                 hex(want[i] & maskOf(k)), q);
    }
    if (a.op == 'b') return;
    // a cached operand is opened once
    auto id = [&](const std::string& o) { return o[0] == 'x' ? px.id : o[0] == 'y' ? py.id : -1; };
    auto other = [](const std::string& o) {
      return o.size() == 1 ? o + "t" : o[1] == 't' ? o.substr(0, 1) : std::string();
    };
    auto hit = [&](const std::string& o) {
      auto it = on.find(id(o));
      if (it == on.end()) return false;
      if (it->second.count(o)) return true;
      return a.op == 'D' && !other(o).empty() && it->second.count(other(o)) > 0;
    };
    std::vector<std::string> os = {a.a};
    if (a.op != 's') os.push_back(a.b);
    size_t opened = 0;
    std::vector<std::string> add;
    for (auto& o : os) {
      if (hit(o)) continue;
      opened += val(o).second.size();
      if (on.count(id(o))) add.push_back(o);
    }
    for (auto& o : add) on[id(o)].insert(o);
    VH_CHECK(spent == long(opened * cost + 0.5), "{} {}: {} bytes sent where opening {} elements takes {}", c.str(), w, spent, opened,
             opened * cost);
  }
};
}  // namespace

void vh_units() {
  const std::vector<FieldType> fields = {FM64, FM32, FM128};
  for (auto f : fields)
    for (auto& c : confs(f)) {
      if (!vh::thorough() && f != FM64 && c.npc == 3) continue;
      vh::unit("correlations/" + c.str(), [=] {
        auto al = steps(c.npc, false);
        vmc::Explorer ex;
        const int depth = 2;
        ex.explore([&] {
          venv::resetRandom(1);
          Triples t(c);
          std::string h = "after";
          for (int d = 0; d < depth; ++d) {
            const int i = vmc::choose(al.size(), "step", 0);
            if (!t.run(al[i], h)) return true;
            h += " " + al[i].name;
          }
          vh::eval(vh::hash(c.str() + h));
          return true;
        });
      });
      if (f != FM64 && !vh::thorough()) continue;
      vh::unit("replays/" + c.str(), [=] {
        auto al = steps(c.npc, true);
        vmc::Explorer ex;
        const int depth = 2 + vh::thorough();
        for (int first = 0; first < 2; ++first)
          ex.explore([&] {
            venv::resetRandom(1);
            Triples t(c);
            // something to replay
            TStep s0 = first == 0 ? TStep{"mul(NN)", 'm', 'N', 'N'} : TStep{"dot(NN)", 'd', 'N', 'N'};
            t.run(s0, "");
            std::string h = "after " + s0.name;
            for (int d = 0; d < depth; ++d) {
              const int i = vmc::choose(al.size(), "step", 0);
              t.run(al[i], h);
              h += " " + al[i].name;
              if (vmc::choose(2, "spawn", 0)) {
                t.run({"spawn", 'S'}, h);
                h += " spawn";
              }
            }
            vh::eval(vh::hash(c.str() + h));
            return true;
          });
      });
    }
  // the server computes and sends its answers in chunks: every number of
  // elements up to three chunks of 128 bytes
  for (auto f : fields)
    for (size_t npc : {2, 3}) {
      if (!vh::thorough() && npc == 3 && f != FM64) continue;
      auto c = semi2kTtp(npc, f, npc - 1);
      vh::unit("chunks/" + c.str(), [=] {
        namespace ts = spu::mpc::semi2k::beaver::ttp_server;
        const auto old = ts::kReplayChunkSize;
        ts::kReplayChunkSize = 128;
        const size_t piece = 128 / (bitsOf(f) / 8);
        for (auto st : steps(npc, false)) {
          if ((st.x != '-' && st.op != 's') || st.y != '-' || st.op == 'S' || st.op == 'd' || st.n == 0 || st.x == 'L' || st.x == 'F' || st.x == 'T') continue;
          if (st.op == 'a' && st.n == 32) continue;
          const auto name = st.name;
          const size_t top = st.op == 'a' ? 3 * 128 + 40 : 3 * piece + 2;
          for (size_t n = 4; n <= top; ++n) {
            Triples t(c);
            st.n = n;
            st.name = fmt::format("{} of {} elements, 128 bytes a chunk", name, n);
            t.run(st, "");
            vh::eval(vh::hash(c.str() + st.name));
          }
        }
        ts::kReplayChunkSize = old;
      });
    }
  // how the server's answer is cut into parts, cut short, or reports an error
  for (auto f : fields) {
    auto c = semi2kTtp(2, f, 1);
    vh::unit("stream/" + c.str(), [=] {
      std::vector<TStep> al;
      for (auto& s : steps(2, false))
        if (s.x == '-' && s.y == '-' && s.n && s.op != 'S') al.push_back(s);
      auto pieces = [&](std::vector<size_t> p) {
        venv::g_rpc_pieces = p;
        for (auto& s : al) {
          Triples t(c);
          t.run(s, fmt::format("parts of {} bytes:", fmt::join(p, ",")));
          vh::eval(vh::hash(fmt::format("{} {} {}", c.str(), s.name, fmt::join(p, ","))));
        }
        venv::g_rpc_pieces = {1 << 20};
      };
      for (size_t a = 1; a < 64; ++a) pieces({a});
      for (size_t a : {1, 2, 8, 9, 10, 17})
        for (size_t b : {1, 2, 7, 9, 16, 33}) pieces({a, b, 5});
      // adversarial framing: an error, or the right numbers
      for (auto& s : al) {
        long len = 0;
        auto attempt = [&](const std::string& what, const std::function<void(std::string&)>& mod, bool must) {
          Triples t(c);
          vh::where(c.str() + " " + s.name + " " + what);
          venv::g_rpc_response = [&](std::string& d) {
            len = d.size();
            mod(d);
          };
          bool threw = false;
          auto r = t.net.runRaw([&](size_t i) {
            if (i != 1) return;
            auto* b = t.now[i];
            switch (s.op) {
              case 'm': b->Mul(f, s.n); break;
              case 's': b->Square(f, s.n); break;
              case 'd': b->Dot(f, 2, 2, 3); break;
              case 'a': b->And(s.n); break;
              case 't': b->Trunc(f, s.n, s.arg); break;
              case 'p': b->TruncPr(f, s.n, s.arg); break;
              case 'r': b->RandBit(f, s.n); break;
              case 'e': b->Eqz(f, s.n); break;
              case 'v': b->MulPriv(f, s.n); break;
              default: throw std::runtime_error("skip");
            }
          });
          venv::g_rpc_response = nullptr;
          threw = !r.errors[1].empty();
          VH_CHECK(!r.terminated, "{} {} {}: terminated", c.str(), s.name, what);
          VH_CHECK(threw == must, "{} {}: {} is {}", c.str(), s.name, what, threw ? "refused: " + r.errors[1] : "taken for an answer");
          vh::eval(vh::hash(c.str() + s.name + what));
        };
        if (s.op == 'P') continue;
        attempt("the answer as it is", [](std::string&) {}, false);
        for (size_t part : {size_t(1), size_t(7), size_t(1) << 20}) {
          venv::g_rpc_pieces = {part};
          for (long cut = 0; cut < len; ++cut)
            attempt(fmt::format("an answer cut after {} bytes", cut), [=](std::string& d) { d.resize(cut); }, true);
          for (long more : {1, 9, 64})
            attempt(fmt::format("an answer with {} bytes more", more), [=](std::string& d) { d.append(more, '\0'); }, true);
          for (int code : {1, 2, 3, 7, 255})
            for (size_t text : {0, 1, 20}) {
              if (text == 0) continue;  // a server always says why
              attempt(fmt::format("error {} of {} bytes", code, text),
                      [=](std::string& d) {
                        d.assign(1, char(code));
                        int64_t n = text;
                        d.append(reinterpret_cast<char*>(&n), 8);
                        d.append(text, 'e');
                      },
                      true);
              // after a part of the answer
              attempt(fmt::format("error {} of {} bytes within the answer", code, text),
                      [=](std::string& d) {
                        int64_t n = 1;
                        std::string h(1, '\0');
                        h.append(reinterpret_cast<char*>(&n), 8);
                        h.append(1, 'x');
                        h.append(1, char(code));
                        n = text;
                        h.append(reinterpret_cast<char*>(&n), 8);
                        h.append(text, 'e');
                        d = h;
                      },
                      true);
            }
        }
        venv::g_rpc_pieces = {1 << 20};
      }
    });
  }
  // histories of cached operands, with every party's addresses reused or not
  for (auto f : fields)
    for (auto& c : confs(f)) {
      if (!vh::thorough() && f != FM64) continue;
      // (slices: what the cache stores under one key, in bytes)
      for (unsigned q : {0u, (1u << c.npc) - 1, 1u, 2u})
       for (size_t slice : {size_t(32) << 20, size_t(8), size_t(12)})
        for (bool few : {false, true}) {
          if (few && !vh::thorough() && (c.npc == 3 || c.name.find("ttp") != std::string::npos)) continue;
          if (slice < 100 && (q || few || c.npc > 2)) continue;
          vh::unit(fmt::format("cache/{}/addresses{}/slice{}/{}", c.str(), q, slice, few ? "deep" : "wide"), [=] {
            spu::mpc::semi2k::BeaverCache::cache_slice_size_ = slice;
            auto al = acts(few);
            // two parties only
            if (c.npc != 2) llvm::erase_if(al, [](const Act& a) { return a.op == 'b'; });
            const int depth = (few ? 4 : c.name == "semi2k" && c.npc == 2 ? 3 : 2) + (vh::thorough() && c.npc == 2);
            vmc::Explorer ex;
            auto once = [&] {
              venv::resetRandom(1);
              {
                Heap heap(q);
                Cached t(c);
                std::string h = "enable x";
                t.run({"enable x", 'e', "x", ""}, "");
                for (int d = 0; d < depth; ++d) {
                  const int i = vmc::choose(al.size(), "act", 0);
                  t.run(al[i], h);
                  h += "; " + al[i].name;
                }
                vh::eval(vh::hash(c.str() + h));
              }
              Heap::drop();
              return true;
            };
            ex.explore(once);
          });
        }
    }
  // contexts forked for concurrent operations share the cache
  for (auto& c : {semi2k(2, FM64), semi2kTtp(2, FM64, 1)}) {
    static const std::vector<std::string> names = {"x*y", "square x", "x.y", "disable x"};
    for (bool apart : {false, true})  // the second works on other arrays
    for (size_t a = 0; a < names.size(); ++a)
      for (size_t b = a; b < names.size(); ++b)
        vh::unit(fmt::format("forks/{}/{} beside {}{}", c.str(), names[a], names[b], apart ? " of other arrays" : ""), [=] {
          vmc::Explorer ex;
          ex.bound = vh::thorough() ? 3 : 2;
          auto once = [&] {
            venv::resetRandom(1);
            Net net(c);
            const Vec xv = {3, maskOf(64), 5, 7}, yv = {2, 11, maskOf(64) - 4, 9};
            std::vector<std::vector<Vec>> got(c.npc, std::vector<Vec>(2));
            const auto pair = fmt::format("{} beside {}{}", names[a], names[b], apart ? " of other arrays" : "");
            const auto what = fmt::format("{}, schedule {}", pair, ex.execs);
            vh::where(c.str() + " " + what);
            std::vector<std::vector<std::unique_ptr<SPUContext>>> subs(c.npc);
            vmc::sched.delay_bounded = true;
            auto r = net.runRaw([&](size_t i) {
              auto* q = net.ctxs[i].get();
              auto mk = [&](const Vec& v) { return spu::mpc::p2a(q, Value(mkPub(FM64, {2, 2}, v), spu::DT_INVALID)); };
              auto x0 = mk(xv), y0 = mk(yv), x1 = mk(xv), y1 = mk(yv);
              spu::dynDispatch(q, "beaver_cache", x0, true);
              spu::dynDispatch(q, "beaver_cache", x1, true);
              for (int t = 0; t < 2; ++t) subs[i].push_back(q->fork());
              std::vector<vmc::Fiber*> fs;
              for (int t = 0; t < 2; ++t)
                fs.push_back(vmc::spawn([&, t, s = subs[i][t].get()] {
                  const auto& n = names[t ? b : a];
                  auto &x = apart && t ? x1 : x0, &y = apart && t ? y1 : y0;
                  if (n == "x*y") got[i][t] = readArr(spu::mpc::a2p(s, spu::mpc::mul_aa(s, x, y)).data());
                  if (n == "square x") got[i][t] = readArr(spu::mpc::a2p(s, spu::mpc::square_a(s, x)).data());
                  if (n == "x.y") got[i][t] = readArr(spu::mpc::a2p(s, spu::mpc::mmul_aa(s, x, y)).data());
                  if (n == "disable x") spu::dynDispatch(s, "beaver_cache", x, false);
                }));
              for (auto* z : fs) vmc::join(z);
            });
            vmc::sched.delay_bounded = false;
            if (!r.ok()) vh::failKeyed(fmt::format("{} {}: {}", c.str(), what, r.str()), "forks/" + pair);
            for (size_t i = 0; i < c.npc; ++i)
              for (int t = 0; t < 2; ++t) {
                const auto& n = names[t ? b : a];
                Vec want;
                for (int e = 0; e < 4; ++e) {
                  if (n == "x*y") want.push_back(xv[e] * yv[e]);
                  if (n == "square x") want.push_back(xv[e] * xv[e]);
                  if (n == "x.y") want.push_back(xv[e / 2 * 2] * yv[e % 2] + xv[e / 2 * 2 + 1] * yv[2 + e % 2]);
                }
                for (auto& v : want) v &= maskOf(64);
                if (want != got[i][t]) vh::failKeyed(fmt::format("{} {}: wrong result of {}", c.str(), what, n), "forks/" + pair);
              }
            vh::eval(vh::hash(c.str() + what));
            vh::add("schedules", 1);
            return true;
          };
          once();
          ex.explore(once);
        });
  }
}
