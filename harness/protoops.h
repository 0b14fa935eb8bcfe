// The ring operations every protocol offers, with their reference semantics,
// and the units that explore them.
#pragma once
#include <set>
#include "net.h"

namespace vn {
using Ref = std::function<U(const std::vector<U>&, int)>;
struct Op {
  std::string name;
  std::string kinds;  // one argument kind per argument
  std::function<std::optional<Value>(SPUContext*, const std::vector<Value>&)> fn;
  Ref ref;
  // data class of the arguments: f full range, 1 single bits
  std::string dom;
};

// Names of operations a protocol does not offer (the registry is asked; the
// set is part of the specification so that a lost kernel is noticed).
struct OpSet {
  std::vector<Op> ops;
};

// Element index of the value whose reference result is being computed.
inline size_t g_idx = 0;
inline U rotlPlain(U x, int s, int k) { return s >= k ? 0 : (x << s) & maskOf(k); }

inline std::vector<Op> ringOps(int k, bool has_b, bool has_v) {
  using namespace spu::mpc;
  using V = const std::vector<Value>&;
  std::vector<Op> o;
  auto M = [](int kk) { return maskOf(kk); };
  Ref add = [M](auto& x, int kk) { return (x[0] + x[1]) & M(kk); };
  Ref mul = [M](auto& x, int kk) { return (x[0] * x[1]) & M(kk); };
  Ref and_ = [](auto& x, int) { return x[0] & x[1]; };
  Ref xor_ = [](auto& x, int) { return x[0] ^ x[1]; };
  Ref neg = [M](auto& x, int kk) { return (U(0) - x[0]) & M(kk); };
  Ref not_ = [M](auto& x, int kk) { return ~x[0] & M(kk); };
  Ref msb = [](auto& x, int kk) { return (x[0] >> (kk - 1)) & 1; };
  Ref id = [](auto& x, int) { return x[0]; };
  Ref sq = [M](auto& x, int kk) { return (x[0] * x[0]) & M(kk); };
  Ref eq = [](auto& x, int) { return U(x[0] == x[1]); };

  std::vector<char> S = has_b ? std::vector<char>{'a', 'b'} : std::vector<char>{'s'};
  std::vector<char> P = {'p'};
  std::vector<char> Vv = has_v ? std::vector<char>{'v', 'w'} : std::vector<char>{};

#define BIN_(nm, suf, xs, ys, refx)                                          \
  for (char x : xs)                                                          \
    for (char y : ys)                                                        \
      o.push_back({#nm "_" #suf, std::string() + x + y,                      \
                   [](SPUContext* c, V v) -> std::optional<Value> {          \
                     return nm##_##suf(c, v[0], v[1]);                       \
                   },                                                        \
                   refx, "ff"});
#define BIN(nm, refx)              \
  BIN_(nm, ss, S, S, refx)         \
  BIN_(nm, sp, S, P, refx)         \
  BIN_(nm, pp, P, P, refx)         \
  BIN_(nm, sv, S, Vv, refx)        \
  BIN_(nm, vp, Vv, P, refx)        \
  BIN_(nm, vv, Vv, Vv, refx)
  BIN(add, add)
  BIN(mul, mul)
  BIN(and, and_)
  BIN(xor, xor_)
  BIN_(equal, pp, P, P, eq)
  BIN_(equal, ss, S, S, eq)
  BIN_(equal, sp, S, P, eq)
#define UN_(nm, suf, xs, refx)                                          \
  for (char x : xs)                                                     \
    o.push_back({#nm "_" #suf, std::string() + x,                       \
                 [](SPUContext* c, V v) -> std::optional<Value> {       \
                   return nm##_##suf(c, v[0]);                          \
                 },                                                     \
                 refx, "f"});
#define UN(nm, refx) UN_(nm, s, S, refx) UN_(nm, p, P, refx) UN_(nm, v, Vv, refx)
  UN(negate, neg)
  UN(not, not_)
  UN(msb, msb)
  UN(square, sq)
  auto add1 = [&](const std::string& nm, const std::string& kinds, auto fn, Ref r,
                  const std::string& dom) {
    o.push_back({nm, kinds, [fn](SPUContext* c, V v) -> std::optional<Value> {
                   return fn(c, v);
                 }, r, dom});
  };
  // conversions
  for (char s : S) {
    add1("s2v", {s}, [](SPUContext* c, V v) { return s2v(c, v[0], 0); }, id, "f");
    if (has_v) {
      add1("s2v1", {s}, [](SPUContext* c, V v) { return s2v(c, v[0], 1); }, id, "f");
    }
    add1("s2p", {s}, [](SPUContext* c, V v) { return s2p(c, v[0]); }, id, "f");
  }
  for (char s : Vv)
    add1("v2s", {s}, [](SPUContext* c, V v) { return v2s(c, v[0]); }, id, "f");
  for (char s : Vv)
    add1("v2p", {s}, [](SPUContext* c, V v) { return v2p(c, v[0]); }, id, "f");
  if (has_b) {
    add1("a2b", "a", [](SPUContext* c, V v) { return a2b(c, v[0]); }, id, "f");
    add1("b2a", "b", [](SPUContext* c, V v) { return b2a(c, v[0]); }, id, "f");
    add1("b2a", "b", [](SPUContext* c, V v) { return b2a(c, v[0]); }, id, "1");
    add1("b2a", "b", [](SPUContext* c, V v) { return b2a(c, v[0]); }, id, "8");
  }
  // shifts
  std::vector<int64_t> sh = {0, 1, 2, k / 4 + 1, k / 2, k - 1};
  for (auto n : sh) {
    auto l = [M, n](auto& x, int kk) { return (x[0] << n) & M(kk); };
    auto r = [n](auto& x, int) { return x[0] >> n; };
    auto ar = [M, n](auto& x, int kk) { return U(sgn(x[0], kk) >> n) & M(kk); };
    auto tag = fmt::format("({})", n);
    for (char s : S) {
      add1("lshift_s" + tag, {s}, [n](SPUContext* c, V v) { return lshift_s(c, v[0], {n}); }, l, "f");
      add1("rshift_s" + tag, {s}, [n](SPUContext* c, V v) { return rshift_s(c, v[0], {n}); }, r, "f");
      add1("arshift_s" + tag, {s}, [n](SPUContext* c, V v) { return arshift_s(c, v[0], {n}); }, ar, "f");
    }
    for (char s : P) {
      add1("lshift_p" + tag, {s}, [n](SPUContext* c, V v) { return lshift_p(c, v[0], {n}); }, l, "f");
      add1("rshift_p" + tag, {s}, [n](SPUContext* c, V v) { return rshift_p(c, v[0], {n}); }, r, "f");
      add1("arshift_p" + tag, {s}, [n](SPUContext* c, V v) { return arshift_p(c, v[0], {n}); }, ar, "f");
    }
    for (char s : Vv) {
      add1("lshift_v" + tag, {s}, [n](SPUContext* c, V v) { return lshift_v(c, v[0], {n}); }, l, "f");
      add1("rshift_v" + tag, {s}, [n](SPUContext* c, V v) { return rshift_v(c, v[0], {n}); }, r, "f");
      add1("arshift_v" + tag, {s}, [n](SPUContext* c, V v) { return arshift_v(c, v[0], {n}); }, ar, "f");
    }
  }
  // shifts by a different amount per element
  for (int pat = 0; pat < 3; ++pat) {
    auto at = [pat, k](size_t i) -> int64_t {
      return pat == 0 ? (i * 7 + 1) % k : pat == 1 ? (k - 1 - i * 5 % k) : i % 2 ? k - 1 : 2;
    };
    auto vec = [at](const Value& v) {
      spu::Sizes r;
      for (int64_t i = 0; i < std::max<int64_t>(1, v.numel()); ++i) r.push_back(at(i));
      return r;
    };
    auto l = [M, at](auto& x, int kk) { return (x[0] << at(g_idx)) & M(kk); };
    auto r = [at](auto& x, int) { return x[0] >> at(g_idx); };
    auto ar = [M, at](auto& x, int kk) { return U(sgn(x[0], kk) >> at(g_idx)) & M(kk); };
    auto tag = fmt::format("(vec{})", pat);
    for (char s : S) {
      add1("lshift_s" + tag, {s}, [vec](SPUContext* c, V v) { return lshift_s(c, v[0], vec(v[0])); }, l, "f");
      add1("rshift_s" + tag, {s}, [vec](SPUContext* c, V v) { return rshift_s(c, v[0], vec(v[0])); }, r, "f");
      add1("arshift_s" + tag, {s}, [vec](SPUContext* c, V v) { return arshift_s(c, v[0], vec(v[0])); }, ar, "F");
      // the result's recorded width must cover every element
      add1("lshift_s;and" + tag, {s}, [vec](SPUContext* c, V v) {
        return and_ss(c, lshift_s(c, v[0], vec(v[0])), p2s(c, make_p(c, ~U(0), v[0].shape()))); }, l, "8");
      add1("rshift_s;and" + tag, {s}, [vec](SPUContext* c, V v) {
        return and_ss(c, rshift_s(c, v[0], vec(v[0])), p2s(c, make_p(c, ~U(0), v[0].shape()))); }, r, "f");
      add1("lshift_s;add" + tag, {s}, [vec](SPUContext* c, V v) {
        return add_sp(c, lshift_s(c, v[0], vec(v[0])), make_p(c, 0, v[0].shape())); }, l, "8");
      add1("rshift_s;add" + tag, {s}, [vec](SPUContext* c, V v) {
        return add_sp(c, rshift_s(c, v[0], vec(v[0])), make_p(c, 0, v[0].shape())); }, r, "f");
    }
    add1("lshift_p" + tag, "p", [vec](SPUContext* c, V v) { return lshift_p(c, v[0], vec(v[0])); }, l, "f");
    add1("rshift_p" + tag, "p", [vec](SPUContext* c, V v) { return rshift_p(c, v[0], vec(v[0])); }, r, "f");
    add1("arshift_p" + tag, "p", [vec](SPUContext* c, V v) { return arshift_p(c, v[0], vec(v[0])); }, ar, "f");
    for (char s : Vv) {
      add1("lshift_v" + tag, {s}, [vec](SPUContext* c, V v) { return lshift_v(c, v[0], vec(v[0])); }, l, "f");
      add1("rshift_v" + tag, {s}, [vec](SPUContext* c, V v) { return rshift_v(c, v[0], vec(v[0])); }, r, "f");
      add1("arshift_v" + tag, {s}, [vec](SPUContext* c, V v) { return arshift_v(c, v[0], vec(v[0])); }, ar, "f");
    }
  }
  // operands whose boolean shares are narrower than the ring
  if (has_b)
    for (char d : {'1', '8', 'h'}) {
      std::string ds(1, d);
      for (auto n : sh) {
        auto l = [M, n](auto& x, int kk) { return (x[0] << n) & M(kk); };
        auto r = [n](auto& x, int) { return x[0] >> n; };
        auto tag = fmt::format("({}b,{})", d, n);
        add1("lshift_s" + tag, "b", [n](SPUContext* c, V v) { return lshift_s(c, v[0], {n}); }, l, ds);
        add1("rshift_s" + tag, "b", [n](SPUContext* c, V v) { return rshift_s(c, v[0], {n}); }, r, ds);
      }
      auto tag = fmt::format("({}b)", d);
      add1("negate_s" + tag, "b", [](SPUContext* c, V v) { return negate_s(c, v[0]); }, neg, ds);
      add1("not_s" + tag, "b", [](SPUContext* c, V v) { return not_s(c, v[0]); }, not_, ds);
      add1("msb_s" + tag, "b", [](SPUContext* c, V v) { return msb_s(c, v[0]); }, msb, ds);
      add1("square_s" + tag, "b", [](SPUContext* c, V v) { return square_s(c, v[0]); }, sq, ds);
      add1("mul_ss" + tag, "bb", [](SPUContext* c, V v) { return mul_ss(c, v[0], v[1]); }, mul, ds + ds);
      add1("mul_sp" + tag, "bp", [](SPUContext* c, V v) { return mul_sp(c, v[0], v[1]); }, mul, ds + "f");
      add1("add_ss" + tag, "bb", [](SPUContext* c, V v) { return add_ss(c, v[0], v[1]); }, add, ds + ds);
      add1("and_ss" + tag, "bb", [](SPUContext* c, V v) { return and_ss(c, v[0], v[1]); }, and_, ds + ds);
      add1("xor_ss" + tag, "bb", [](SPUContext* c, V v) { return xor_ss(c, v[0], v[1]); }, xor_, ds + ds);
      add1("xor_sp" + tag, "bp", [](SPUContext* c, V v) { return xor_sp(c, v[0], v[1]); }, xor_, ds + "f");
      add1("b2a" + tag, "b", [](SPUContext* c, V v) { return b2a(c, v[0]); }, id, ds);
      add1("s2v" + tag, "b", [](SPUContext* c, V v) { return s2v(c, v[0], 1); }, id, ds);
      add1("s2p" + tag, "b", [](SPUContext* c, V v) { return s2p(c, v[0]); }, id, ds);
    }
  // bit reversal of the half open range [s, e)
  std::vector<std::pair<size_t, size_t>> br = {{0, size_t(k)}, {0, 0}, {2, 5},
                                               {size_t(k) / 2 - 1, size_t(k)},
                                               {0, 1}, {3, size_t(k) / 2}};
  for (auto [s0, e0] : br) {
    size_t s = s0, e = e0;
    Ref rv = [s, e](auto& x, int) {
      U r = x[0];
      for (size_t i = s; i < e; ++i) {
        U bit = (x[0] >> i) & 1;
        size_t j = s + e - 1 - i;
        r = (r & ~(U(1) << j)) | (bit << j);
      }
      return r;
    };
    auto tag = fmt::format("({},{})", s, e);
    for (char c0 : S)
      add1("bitrev_s" + tag, {c0}, [s, e](SPUContext* c, V v) { return bitrev_s(c, v[0], s, e); }, rv, "f");
    add1("bitrev_p" + tag, "p", [s, e](SPUContext* c, V v) { return bitrev_p(c, v[0], s, e); }, rv, "f");
    for (char c0 : Vv)
      add1("bitrev_v" + tag, {c0}, [s, e](SPUContext* c, V v) { return bitrev_v(c, v[0], s, e); }, rv, "f");
  }
  // multiplication by a single secret bit
  if (has_b) {
    add1("mul_ss(a,1b)", "ab", [](SPUContext* c, V v) { return mul_ss(c, v[0], v[1]); }, mul, "f1");
    add1("mul_ss(1b,a)", "ba", [](SPUContext* c, V v) { return mul_ss(c, v[0], v[1]); }, mul, "1f");
    add1("mul_ss(1b,1b)", "bb", [](SPUContext* c, V v) { return mul_ss(c, v[0], v[1]); }, mul, "11");
    add1("and_ss(1b,b)", "bb", [](SPUContext* c, V v) { return and_ss(c, v[0], v[1]); }, and_, "1f");
    add1("and_ss(8b,b)", "bb", [](SPUContext* c, V v) { return and_ss(c, v[0], v[1]); }, and_, "8f");
    add1("xor_ss(1b,b)", "bb", [](SPUContext* c, V v) { return xor_ss(c, v[0], v[1]); }, xor_, "1f");
    add1("xor_ss(1b,8b)", "bb", [](SPUContext* c, V v) { return xor_ss(c, v[0], v[1]); }, xor_, "18");
    add1("add_ss(1b,b)", "bb", [](SPUContext* c, V v) { return add_ss(c, v[0], v[1]); }, add, "1f");
    add1("and_sp(1b,p)", "bp", [](SPUContext* c, V v) { return and_sp(c, v[0], v[1]); }, and_, "1f");
    add1("xor_sp(1b,p)", "bp", [](SPUContext* c, V v) { return xor_sp(c, v[0], v[1]); }, xor_, "1f");
    add1("add_bb", "bb", [](SPUContext* c, V v) { return add_bb(c, v[0], v[1]); }, add, "FF");
    for (size_t st : {0, 1, 2}) {
      // spread / gather of bits at granularity 2^st
      auto lg = [](int n) { int l = 0; while ((1 << l) < n) ++l; return l; };
      auto intl = [k, st, lg](U x) {
        // interleave the two halves in groups of 2^st bits
        U r = 0;
        const int half = k / 2;
        for (int i = 0; i < k; ++i) {
          int h = i / half, j = i % half;
          int grp = j >> st, in = j & ((1 << st) - 1);
          int pos = ((grp * 2 + h) << st) + in;
          r |= ((x >> i) & 1) << pos;
        }
        (void)lg;
        return r;
      };
      auto deintl = [k, st](U x) {
        U r = 0;
        const int half = k / 2;
        for (int i = 0; i < k; ++i) {
          int h = i / half, j = i % half;
          int grp = j >> st, in = j & ((1 << st) - 1);
          int pos = ((grp * 2 + h) << st) + in;
          r |= ((x >> pos) & 1) << i;
        }
        return r;
      };
      add1(fmt::format("bitintl_b({})", st), "b", [st](SPUContext* c, V v) { return bitintl_b(c, v[0], st); },
           [intl](auto& x, int) { return intl(x[0]); }, "F");
      add1(fmt::format("bitdeintl_b({})", st), "b", [st](SPUContext* c, V v) { return bitdeintl_b(c, v[0], st); },
           [deintl](auto& x, int) { return deintl(x[0]); }, "F");
    }
  }
  return o;
}

inline std::vector<U> domain(char d, int k, bool many) {
  switch (d) {
    case '1':
      return {0, 1};
    case '8': {
      std::vector<U> r;
      for (int i = 0; i < 256; i += many ? 1 : 15) r.push_back(i);
      r.push_back(0x80);
      return r;
    }
    case 'h': {  // somewhat more than half as wide as the ring
      auto r = edges(k / 2 + 5, many);
      return r;
    }
    case 'n': {  // |x| < 2^(k-2), sign extended
      auto r = edges(k - 1, many);
      for (auto& v : r) v = U(sgn(v, k - 1)) & maskOf(k);
      return r;
    }
    default:
      return edges(k, many);
  }
}

// Domain F: the tensor is full range and at least as wide as the ring.
inline void widen(Arg& a, char dom, int k) {
  if (dom == 'F' && !a.data.empty()) a.data[0] |= U(1) << (k - 1);
}

// Runs one operation on given arguments and compares every element.
inline void checkOp(Net& net, const Op& op, const std::vector<Arg>& args,
                    const std::string& ctxmsg) {
  const FieldType f = net.conf.pub;
  const int k = bitsOf(f);
  std::vector<std::vector<U>> got(net.conf.npc);
  std::vector<bool> avail(net.conf.npc, true);
  std::vector<Shape> shapes(net.conf.npc);
  std::string what = fmt::format("{}[{}] {}", op.name, op.kinds, ctxmsg);
  std::vector<NdArrayRef> shares(net.conf.npc);
  // results are as visible as the operands allow, no more
  const bool sec = op.kinds.find_first_of("sab") != std::string::npos;
  const bool prv = op.kinds.find_first_of("vw") != std::string::npos;
  const bool opens = op.name.find("2p") != std::string::npos, gives = op.name.find("2v") != std::string::npos;
  vh::where(net.conf.str() + " " + what);
  net.run(what, [&](SPUContext* c, size_t i) {
    std::vector<Value> v;
    for (auto& a : args) v.push_back(mkArg(c, f, a));
    auto r = op.fn(c, v);
    if (!r) {
      avail[i] = false;
      return;
    }
    shapes[i] = r->shape();
    if (r->isSecret()) shares[i] = r->data();
    if (r->isPublic() && (sec || prv) && !opens) throw std::runtime_error("a result of hidden operands is public");
    if (r->isPrivate() && sec && !gives) throw std::runtime_error("a result of secret operands is private");
    if (!r->isPublic() && !sec && !prv && op.name.find("p2") == std::string::npos)
      throw std::runtime_error("a result of public operands is not public");
    if (r->isPrivate()) {
      const int64_t owner = r->storage_type().as<spu::Private>()->owner();
      const auto e = prv && !gives ? op.kinds.find('w') != std::string::npos ? int64_t(net.conf.npc) - 1 : 0 : owner;
      if (owner != e) throw std::runtime_error(fmt::format("the result belongs to party {}", owner));
    }
    got[i] = readArr(reveal(c, *r).data());
    // arguments are not modified
    for (size_t j = 0; j < v.size(); ++j) {
      if (args[j].kind == 'p' && readArr(v[j].data()) != logical(args[j]))
        throw std::runtime_error(fmt::format("argument {} was modified", j));
    }
  });
  if (!avail[0]) {
    for (size_t i = 0; i < net.conf.npc; ++i)
      VH_CHECK(!avail[i], "{}: availability differs between parties", what);
    vh::fail(fmt::format("{} {}: operation not offered", net.conf.str(), what));
  }
  if (net.conf.consistent && shares[0].eltype().isa<spu::Secret>()) {
    auto m = net.conf.consistent(shares);
    VH_CHECK(m.empty(), "{} {}: {}", net.conf.str(), what, m);
  }
  std::vector<std::vector<U>> in;
  for (auto& a : args) in.push_back(logical(a));
  const size_t n = in[0].size();
  for (size_t p = 0; p < net.conf.npc; ++p) {
    VH_CHECK(shapes[p] == args[0].shape, "{} {}: result shape {} expected {}",
             net.conf.str(), what, shapes[p], args[0].shape);
    VH_CHECK(got[p].size() == n, "{} {}: result size", net.conf.str(), what);
    for (size_t i = 0; i < n; ++i) {
      std::vector<U> x;
      for (auto& d : in) x.push_back(d[i]);
      g_idx = i;
      U want = op.ref(x, k) & maskOf(k);
      if ((got[p][i] & maskOf(k)) != want) {
        std::string xs;
        for (auto v : x) xs += hex(v) + " ";
        vh::fail(fmt::format("{} {}: party {} element {}: args {}-> {} expected {}",
                             net.conf.str(), what, p, i, xs, hex(got[p][i]),
                             hex(want)));
      }
    }
  }
  vh::eval(vh::hash(net.conf.str() + what + fmt::format("{}", n)), n > 0);
  vh::add("elements_compared", static_cast<long>(n * net.conf.npc));
}

inline std::vector<Arg> crossArgs(const Op& op, int k, bool many,
                                  const std::vector<int>& layouts) {
  std::vector<Arg> args(op.kinds.size());
  std::vector<std::vector<U>> dom;
  size_t n = 1;
  for (size_t i = 0; i < args.size(); ++i) {
    dom.push_back(domain(op.dom[i], k, many));
    n *= dom.back().size();
  }
  for (size_t i = 0; i < args.size(); ++i) {
    args[i].kind = op.kinds[i];
    args[i].layout = layouts[i];
    args[i].shape = {static_cast<int64_t>(n)};
    size_t rep = 1;
    for (size_t j = i + 1; j < args.size(); ++j) rep *= dom[j].size();
    for (size_t t = 0; t < n; ++t)
      args[i].data.push_back(dom[i][t / rep % dom[i].size()]);
    widen(args[i], op.dom[i], k);
  }
  return args;
}

inline std::vector<Arg> crossScalar(const Op& op, int k) {
  std::vector<Arg> args(op.kinds.size());
  for (size_t i = 0; i < args.size(); ++i) {
    args[i].kind = op.kinds[i];
    args[i].data = {domain(op.dom[i], k, false)[i + 1]};
    widen(args[i], op.dom[i], k);
  }
  return args;
}

inline void runOp(const Conf& conf, const Op& op);
inline void runOps(const Conf& conf, const std::vector<Op>& ops) {
  for (auto& op : ops) {
    if (std::getenv("VERIF_ALL") != nullptr) {  // development aid
      try {
        runOp(conf, op);
      } catch (const std::exception& e) {
        std::fprintf(stderr, "FAIL %s\n", e.what());
      }
      venv::g_draw = nullptr;
      venv::g_secure = nullptr;
    } else {
      runOp(conf, op);
    }
  }
}
inline void runOp(const Conf& conf, const Op& op) {
  const int k = bitsOf(conf.pub);
  {
    Net net(conf);
    const size_t na = op.kinds.size();
    // 1. the full cross product of edge values, default randomness
    checkOp(net, op, crossArgs(op, k, na == 1 || vh::thorough(), std::vector<int>(na, 0)), "cross");
    // 2. every combination of memory layouts and a few shapes, and every
    //    chunking of the parallel loops
    auto mini = [&](const Shape& sh, const std::vector<int>& lay, int salt) {
      std::vector<Arg> args(na);
      for (size_t i = 0; i < na; ++i) {
        auto d = domain(op.dom[i], k, false);
        args[i].kind = op.kinds[i];
        args[i].layout = lay[i];
        args[i].shape = sh;
        for (int64_t t = 0; t < sh.numel(); ++t)
          args[i].data.push_back(d[(t * (i + 2) + i * 5 + salt) % d.size()]);
        widen(args[i], op.dom[i], k);
      }
      return args;
    };
    std::vector<std::vector<int>> lays;
    for (int a = 0; a < kLayouts; ++a)
      for (int b = 0; b < (na > 1 ? int(kLayouts) : 1); ++b)
        lays.push_back(na > 1 ? std::vector<int>{a, b} : std::vector<int>{a});
    int salt = 0;
    for (auto& l : lays) {
      venv::g_par_mode = salt % 4;
      venv::g_fill = salt % 2 ? 0x00 : 0xA5;
      checkOp(net, op, mini({2, 3}, l, salt++),
              fmt::format("layout {}{} par {}", layoutName(l[0]),
                          na > 1 ? std::string("/") + layoutName(l[1]) : "",
                          venv::g_par_mode));
    }
    venv::g_par_mode = 0;
    venv::g_fill = 0xA5;
    for (const Shape& s : {Shape{}, Shape{1}, Shape{1, 1, 2}, Shape{7}, Shape{0}, Shape{2, 0}})
      if ((s.ndim() > 0 && s.numel() > 0) || !conf.no_scalars)
      checkOp(net, op, mini(s, std::vector<int>(na, 0), salt++), fmt::format("shape {}", s));
    // 3. extreme randomness, all draws alike
    for (int pr = 1; pr <= 5; ++pr) {
      ScopedRandom sr(pr);
      checkOp(net, op, mini({3}, std::vector<int>(na, 0), pr), fmt::format("profile {}", pr));
    }
    // 4. other default schedules
    for (int pol = 1; pol <= 2; ++pol) {
      vmc::sched.policy = pol;
      checkOp(net, op, mini({3}, std::vector<int>(na, 0), pol), fmt::format("policy {}", pol));
    }
    vmc::sched.policy = 0;
  }
}

// Every assignment of the randomness profiles to the draws of one operation
// with at most `bound` draws off the default.
inline void exploreDraws(const Conf& conf, const Op& op, int bound,
                         int profiles = 5) {
  const int k = bitsOf(conf.pub);
  const size_t na = op.kinds.size();
  Net net(conf);
  std::vector<Arg> args(na);
  for (size_t i = 0; i < na; ++i) {
    auto d = domain(op.dom[i], k, false);
    args[i].kind = op.kinds[i];
    args[i].shape = {2};
    args[i].data = {d[(i * 3 + 4) % d.size()], d[(i * 5 + 8) % d.size()]};
    widen(args[i], op.dom[i], k);
  }
  vmc::Explorer ex;
  ex.bound = bound;
  ex.explore([&] {
    ChoiceRandom cr(profiles);
    checkOp(net, op, args, "draws");
    return true;
  });
  vh::add("randomness_assignments", ex.execs);
  vh::add("choice_points", ex.choice_points);
}

// ---- sequences of operations -------------------------------------------------
// Every sequence of `depth` operations of this alphabet is applied to a running
// value z (starting as the argument x, kept in whatever share form it gets), with
// y as the second operand, and compared after every step.
struct Step {
  std::string name;
  std::function<Value(SPUContext*, const Value&, const Value&, const Value&)> fn;
  std::function<U(U, U, U)> ref;  // z, y, public p
};
inline std::vector<Step> seqAlphabet(int k, const std::set<std::string>& drop) {
  using namespace spu::mpc;
  const U m = maskOf(k);
  std::vector<Step> s = {
      {"add_ss", [](auto c, auto& z, auto& y, auto&) { return add_ss(c, z, y); },
       [m](U z, U y, U) { return (z + y) & m; }},
      {"mul_ss", [](auto c, auto& z, auto& y, auto&) { return mul_ss(c, z, y); },
       [m](U z, U y, U) { return (z * y) & m; }},
      {"mul_zz", [](auto c, auto& z, auto&, auto&) { return mul_ss(c, z, z); },
       [m](U z, U, U) { return (z * z) & m; }},
      {"and_ss", [](auto c, auto& z, auto& y, auto&) { return and_ss(c, z, y); },
       [](U z, U y, U) { return z & y; }},
      {"and_zz", [](auto c, auto& z, auto&, auto&) { return and_ss(c, z, z); },
       [](U z, U, U) { return z; }},
      {"xor_ss", [](auto c, auto& z, auto& y, auto&) { return xor_ss(c, z, y); },
       [](U z, U y, U) { return z ^ y; }},
      {"and_1", [](auto c, auto& z, auto&, auto& p) {
         return and_sp(c, z, make_p(c, 1, z.shape()));
       },
       [](U z, U, U) { return z & 1; }},
      {"and_sp", [](auto c, auto& z, auto&, auto& p) { return and_sp(c, z, p); },
       [](U z, U, U p) { return z & p; }},
      {"xor_sp", [](auto c, auto& z, auto&, auto& p) { return xor_sp(c, z, p); },
       [](U z, U, U p) { return z ^ p; }},
      {"add_sp", [](auto c, auto& z, auto&, auto& p) { return add_sp(c, z, p); },
       [m](U z, U, U p) { return (z + p) & m; }},
      {"mul_sp", [](auto c, auto& z, auto&, auto& p) { return mul_sp(c, z, p); },
       [m](U z, U, U p) { return (z * p) & m; }},
      {"negate_s", [](auto c, auto& z, auto&, auto&) { return negate_s(c, z); },
       [m](U z, U, U) { return (U(0) - z) & m; }},
      {"not_s", [](auto c, auto& z, auto&, auto&) { return not_s(c, z); },
       [m](U z, U, U) { return ~z & m; }},
      {"lshift3", [](auto c, auto& z, auto&, auto&) { return lshift_s(c, z, {3}); },
       [m](U z, U, U) { return (z << 3) & m; }},
      {"lshift_top", [k](auto c, auto& z, auto&, auto&) { return lshift_s(c, z, {k - 1}); },
       [m, k](U z, U, U) { return (z << (k - 1)) & m; }},
      {"rshift5", [](auto c, auto& z, auto&, auto&) { return rshift_s(c, z, {5}); },
       [](U z, U, U) { return z >> 5; }},
      {"rshift_top", [k](auto c, auto& z, auto&, auto&) { return rshift_s(c, z, {k - 1}); },
       [k](U z, U, U) { return z >> (k - 1); }},
      {"bitrev", [k](auto c, auto& z, auto&, auto&) { return bitrev_s(c, z, 0, k); },
       [k](U z, U, U) {
         U r = 0;
         for (int i = 0; i < k; ++i) r |= ((z >> i) & 1) << (k - 1 - i);
         return r;
       }},
      {"msb_s", [](auto c, auto& z, auto&, auto&) { return msb_s(c, z); },
       [k](U z, U, U) { return z >> (k - 1); }},
      {"via_v", [](auto c, auto& z, auto&, auto&) { return v2s(c, s2v(c, z, 1)); },
       [](U z, U, U) { return z; }},
  };
  std::vector<Step> r;
  for (auto& x : s)
    if (!drop.count(x.name)) r.push_back(x);
  return r;
}
inline void seqUnits(const Conf& c, int depth, const std::set<std::string>& drop,
                     const std::string& kinds = "ab") {
  auto alpha = seqAlphabet(bitsOf(c.pub), drop);
  for (size_t first = 0; first < alpha.size(); ++first)
    vh::unit(fmt::format("seq/{}/{}", c.str(), alpha[first].name), [=] {
      const int k = bitsOf(c.pub);
      auto e = edges(k, false);
      for (char kx : kinds)
        for (char ky : kinds) {
          Arg x, y;
          x.kind = kx;
          y.kind = ky;
          std::vector<U> p;
          for (size_t i = 0; i < e.size(); ++i) {
            x.data.push_back(e[i]);
            y.data.push_back(e[(i * 7 + 3) % e.size()]);
            p.push_back(e[(i * 5 + 4) % e.size()]);
          }
          x.shape = y.shape = {static_cast<int64_t>(e.size())};
          vmc::Explorer ex;
          ex.bound = 1 << 20;
          Net net(c);
          ex.explore([&] {
            std::vector<const Step*> st = {&alpha[first]};
            std::string what = alpha[first].name;
            for (int d = 1; d < depth; ++d) {
              st.push_back(&alpha[vmc::choose(static_cast<int>(alpha.size()), "op")]);
              what += "," + st.back()->name;
            }
            what += fmt::format(" on {}{}", kx, ky);
            vh::where(c.str() + " " + what);
            std::vector<std::vector<std::vector<U>>> got(c.npc);
            net.run(what, [&](SPUContext* ctx, size_t i) {
              Value z = mkArg(ctx, c.pub, x), yv = mkArg(ctx, c.pub, y);
              Value pv(mkPub(c.pub, y.shape, p), spu::DT_INVALID);
              for (auto* s : st) {
                z = s->fn(ctx, z, yv, pv);
                got[i].push_back(readArr(reveal(ctx, z).data()));
              }
            });
            for (size_t i = 0; i < e.size(); ++i) {
              U z = x.data[i];
              for (size_t d = 0; d < st.size(); ++d) {
                z = st[d]->ref(z, y.data[i], p[i]);
                for (size_t q = 0; q < c.npc; ++q)
                  VH_CHECK((got[q][d][i] & maskOf(k)) == z,
                           "{} {}: party {} step {} on x={} y={} p={}: {} expected {}",
                           c.str(), what, q, d, hex(x.data[i]), hex(y.data[i]),
                           hex(p[i]), hex(got[q][d][i]), hex(z));
              }
            }
            vh::eval(vh::hash(c.str() + what));
            return true;
          });
        }
    });
}

// ---- matrix products ---------------------------------------------------------
inline void mmulUnits(const Conf& c, bool has_b, bool has_v, bool empty_b = true) {
  vh::unit(fmt::format("mmul/{}", c.str()), [=] {
    using namespace spu::mpc;
    const int k = bitsOf(c.pub);
    const auto e = edges(k, false);
    std::string xs = has_b ? "apbvw" : "sp";
    if (!has_v) xs = has_b ? "apb" : "sp";
    Net net(c);
    int salt = 0;
    for (char a : xs)
      for (char b : xs)
        for (auto [M, K, N] : std::vector<std::array<int64_t, 3>>{
                 {1, 1, 1}, {2, 3, 2}, {3, 1, 4}, {1, 5, 1}, {4, 2, 1}, {2, 0, 3}, {0, 2, 2}, {2, 2, 0}})
          for (int la : {kCompact, kStrided, kTransposed, kReversed, kBroadcast})
            for (int lb : {kCompact, kTransposed, kStrided}) {
              if ((la != kCompact && lb == kStrided) || (K == 1 && la != kCompact))
                continue;
              if (M * K * N == 0 && (la != kCompact || lb != kCompact)) continue;
              if (M * K * N == 0 && !empty_b && (a == 'b' || b == 'b')) continue;
              Arg x, y;
              x.kind = a;
              y.kind = b;
              x.layout = la;
              y.layout = lb;
              x.shape = {M, K};
              y.shape = {K, N};
              for (int64_t i = 0; i < M * K; ++i)
                x.data.push_back(e[(i * 5 + salt) % e.size()]);
              for (int64_t i = 0; i < K * N; ++i)
                y.data.push_back(e[(i * 7 + salt * 3 + 1) % e.size()]);
              ++salt;
              venv::g_par_mode = salt % 4;
              auto isS = [](char q) { return q == 'a' || q == 'b' || q == 's'; };
              auto isV = [](char q) { return q == 'v' || q == 'w'; };
              std::string what = fmt::format("mmul[{}{}] {}x{}x{} {}/{}", a, b, M, K,
                                             N, layoutName(la), layoutName(lb));
              vh::where(c.str() + " " + what);
              std::vector<std::vector<U>> got(c.npc);
              net.run(what, [&](SPUContext* ctx, size_t i) {
                Value xv = mkArg(ctx, c.pub, x), yv = mkArg(ctx, c.pub, y);
                Value r;
                // the interface takes the secret operand first
                bool swap = (!isS(a) && isS(b)) || (a == 'p' && isV(b));
                if (swap) {
                  auto t = [](const Value& v) {
                    return Value(v.data().transpose({1, 0}), v.dtype());
                  };
                  std::swap(xv, yv);
                  xv = t(xv);
                  yv = t(yv);
                }
                char p0 = swap ? b : a, p1 = swap ? a : b;
                if (isS(p0))
                  r = isS(p1) ? mmul_ss(ctx, xv, yv)
                      : isV(p1) ? mmul_sv(ctx, xv, yv)
                                : mmul_sp(ctx, xv, yv);
                else if (isV(p0))
                  r = isV(p1) ? mmul_vv(ctx, xv, yv) : mmul_vp(ctx, xv, yv);
                else
                  r = mmul_pp(ctx, xv, yv);
                auto arr = reveal(ctx, r).data();
                if (swap) arr = arr.transpose({1, 0});
                if (arr.shape() != Shape{M, N})
                  throw std::runtime_error("wrong result shape");
                got[i] = readArr(arr);
              });
              auto lx = logical(x), ly = logical(y);
              for (int64_t i = 0; i < M; ++i)
                for (int64_t j = 0; j < N; ++j) {
                  U w = 0;
                  for (int64_t t = 0; t < K; ++t) w += lx[i * K + t] * ly[t * N + j];
                  for (size_t q = 0; q < c.npc; ++q)
                    VH_CHECK((got[q][i * N + j] & maskOf(k)) == (w & maskOf(k)),
                             "{} {}: party {} cell {},{}: {} expected {}", c.str(),
                             what, q, i, j, hex(got[q][i * N + j]), hex(w & maskOf(k)));
                }
              vh::eval(vh::hash(c.str() + what));
            }
    venv::g_par_mode = 0;
  });
}

// ---- random values -----------------------------------------------------------
// Random secrets and public values: all parties hold the same number, drawn
// anew by every call, and it behaves like a number in every operation.
inline void randUnits(const Conf& c, bool has_b, bool random_bits) {
  vh::unit(fmt::format("random/{}", c.str()), [=] {
    using namespace spu::mpc;
    const int k = bitsOf(c.pub);
    const auto m = maskOf(k);
    auto e = edges(k, false);
    std::swap(e[0], e[e.size() / 2]);
    struct T {
      std::string name;
      std::function<Value(SPUContext*, const Value&, const Value&)> fn;
      std::function<U(U, U)> ref;
    };
    const std::vector<T> ts = {
        {"r", [](auto*, auto& r, auto&) { return r; }, [](U r, U) { return r; }},
        {"r+y", [](auto* x, auto& r, auto& y) { return add_ss(x, r, y); }, [](U r, U y) { return r + y; }},
        {"r*y", [](auto* x, auto& r, auto& y) { return mul_ss(x, r, y); }, [](U r, U y) { return r * y; }},
        {"y*r", [](auto* x, auto& r, auto& y) { return mul_ss(x, y, r); }, [](U r, U y) { return r * y; }},
        {"r*r", [](auto* x, auto& r, auto&) { return mul_ss(x, r, r); }, [](U r, U) { return r * r; }},
        {"square", [](auto* x, auto& r, auto&) { return square_s(x, r); }, [](U r, U) { return r * r; }},
        {"-r", [](auto* x, auto& r, auto&) { return negate_s(x, r); }, [](U r, U) { return U(0) - r; }},
        {"r<<3", [](auto* x, auto& r, auto&) { return lshift_s(x, r, {3}); }, [](U r, U) { return r << 3; }},
        {"r>>2", [](auto* x, auto& r, auto&) { return rshift_s(x, r, {2}); }, [m](U r, U) { return (r & m) >> 2; }},
        {"r&y", [](auto* x, auto& r, auto& y) { return and_ss(x, r, y); }, [](U r, U y) { return r & y; }},
        {"r^y", [](auto* x, auto& r, auto& y) { return xor_ss(x, r, y); }, [](U r, U y) { return r ^ y; }},
        {"y^r", [](auto* x, auto& r, auto& y) { return xor_ss(x, y, r); }, [](U r, U y) { return r ^ y; }},
        {"r @ (y)", [](auto* x, auto& r, auto& y) {
           const int64_t n = r.numel();
           auto p = mmul_ss(x, Value(r.data().reshape({n, 1}), r.dtype()),
                            Value(y.data().slice({0}, {1}, {1}).reshape({1, 1}), y.dtype()));
           return Value(p.data().reshape({n}), p.dtype());
         }, [y0 = e[0]](U r, U) { return r * y0; }},
    };
    // kinds: a, b as drawn, A: drawn as bits and turned into a number
    std::string kinds = random_bits ? "ab" : "a";
    for (char kind : kinds)
      for (auto& t : ts) {
        if (!has_b && t.name == "r>>2") continue;
        for (int fill = 0; fill < 4; ++fill) {
          venv::resetRandom(fill);
          if (fill) venv::g_draw = [fill](const venv::Draw& d) {
            if (fill == 3) return false;
            std::memset(d.out, fill == 1 ? 0 : 0xff, d.n);
            return true;
          };
          Net net(c);
          auto what = fmt::format("random {} {} randomness {}", kind, t.name, fill);
          vh::where(c.str() + " " + what);
          const Shape sh{int64_t(e.size())};
          std::vector<std::vector<U>> r(c.npc), r2(c.npc), got(c.npc);
          net.run(what, [&](SPUContext* x, size_t i) {
            auto y = p2s(x, Value(mkPub(c.pub, sh, e), spu::DT_INVALID));
            auto rv = rand_s(x, sh, kind == 'a' ? spu::DT_INVALID : spu::DT_I1);
            auto rw = rand_s(x, sh, kind == 'a' ? spu::DT_INVALID : spu::DT_I1);
            if (rv.shape() != sh) throw std::runtime_error("wrong shape");
            auto z = t.fn(x, rv, y);
            r[i] = readArr(reveal(x, rv).data());
            r2[i] = readArr(reveal(x, rw).data());
            got[i] = readArr(reveal(x, z).data());
          });
          venv::g_draw = nullptr;
          for (size_t q = 0; q < c.npc; ++q) {
            VH_CHECK(r[q] == r[0], "{} {}: parties hold different random numbers", c.str(), what);
            if (kind == 'b')
              for (auto v : r[q]) VH_CHECK((v & m) <= 1, "{} {}: a random bit is {}", c.str(), what, hex(v));
            if (fill == 0 || fill == 3)
              VH_CHECK(r[q] != r2[q], "{} {}: the same numbers are drawn twice", c.str(), what);
            for (size_t i = 0; i < got[q].size(); ++i)
              VH_CHECK((got[q][i] & m) == (t.ref(r[q][i] & m, e[i]) & m), "{} {}: party {} r={} y={}: {} expected {}", c.str(),
                       what, q, hex(r[q][i]), hex(e[i]), hex(got[q][i] & m), hex(t.ref(r[q][i] & m, e[i]) & m));
          }
          vh::eval(vh::hash(c.str() + what));
        }
      }
    // public random numbers
    for (int fill = 0; fill < 2; ++fill) {
      venv::resetRandom(fill);
      Net net(c);
      vh::where(c.str() + " public random numbers");
      std::vector<std::vector<U>> r(c.npc);
      net.run("public random numbers", [&](SPUContext* x, size_t i) {
        for (auto sh : {Shape{}, Shape{3}, Shape{2, 2}, Shape{0}, Shape{4}}) {
          auto p = rand_p(x, sh);
          if (p.shape() != sh || !p.isPublic()) throw std::runtime_error("wrong shape or visibility");
          for (auto v : readArr(p.data())) r[i].push_back(v);
        }
      });
      for (auto& x : r) VH_CHECK(x == r[0], "{}: parties draw different public numbers", c.str());
      VH_CHECK(std::set<U>(r[0].begin(), r[0].end()).size() == r[0].size(), "{}: public random numbers repeat", c.str());
      vh::eval(vh::hash(c.str() + "public" + std::to_string(fill)));
    }
  });
}

// The standard exploration of one protocol configuration.
// not_offered: operations ("name[kinds]") the protocol documents as absent.
inline void protoUnits(const Conf& c, bool has_b, bool has_v,
                       const std::set<std::string>& not_offered, size_t parts,
                       int draw_bound,
                       const std::vector<Op>& extra = {},
                       const std::function<void(Op&)>& tweak = nullptr) {
  auto all = ringOps(bitsOf(c.pub), has_b, has_v);
  all.insert(all.end(), extra.begin(), extra.end());
  std::vector<Op> ops;
  for (auto& o : all) {
    auto base = o.name.substr(0, o.name.find('('));
    if (not_offered.count(o.name + "[" + o.kinds + "]") ||
        not_offered.count(base + "[" + o.kinds + "]") ||
        not_offered.count(base))
      continue;
    ops.push_back(o);
    if (tweak) tweak(ops.back());
  }
  for (size_t p = 0; p < parts; ++p)
    vh::unit(fmt::format("ops/{}/{}", c.str(), p), [=] {
      std::vector<Op> sub;
      for (size_t i = p; i < ops.size(); i += parts) sub.push_back(ops[i]);
      runOps(c, sub);
    });
  if (draw_bound > 0)
    for (size_t p = 0; p < parts; ++p)
      vh::unit(fmt::format("draws/{}/{}", c.str(), p), [=] {
        for (size_t i = p; i < ops.size(); i += parts) {
          if (!vh::thorough() && (ops[i].name.find("vec") != std::string::npos ||
                                  ops[i].name.find("h,") != std::string::npos))
            continue;
          exploreDraws(c, ops[i], draw_bound, c.draw_profiles);
        }
      });
}
}  // namespace vn
