// What a party (or a coalition of parties) sees does not depend on secrets it
// is not entitled to: for every tape of random digits the view is computed,
// and the multisets of views must be the same for all secrets that agree on
// what the coalition may learn.
#define USE_SEMI2K
#define USE_ABY3
#define USE_SECURENN
#define USE_SWIFT
#define USE_SPDZ2K
#include <algorithm>
#include <array>
#include <set>

#include "net.h"
#include "protos.h"

#include "libspu/mpc/aby3/type.h"
#include "libspu/mpc/experimental/swift/type.h"
#include "libspu/mpc/common/pv2k.h"
#include "libspu/mpc/securenn/type.h"
#include "libspu/mpc/spdz2k/state.h"
#include "libspu/mpc/spdz2k/type.h"
#include "libspu/mpc/spdz2k/value.h"
#include "libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.h"
#include "libspu/mpc/semi2k/type.h"
using namespace vn;
namespace mp = spu::mpc;
using spu::SignType;

namespace {
enum class P { semi, aby, snn, swf, spdz };
// Random words take 2^q values at bit position pos (0: the low end, 1: the top
// end) and that is also what is looked at in shares and messages.
struct View {
  int end = 0;
  int q = 1;
  std::string str() const { return fmt::format("{}{}", end ? "top" : "low", q); }
};
struct Sys {
  P p;
  Conf c;
  bool ttp = false;
};
// inputs: a arithmetic shares, b boolean shares (1 bit), B (2 bits),
// F (all bits), u private of party 0, v of party 1, w of the last party;
// upper case A: two elements
struct Prog {
  std::string name, in;
  std::function<std::vector<Value>(SPUContext*, const std::vector<Value>&)> fn;
  // what everybody may learn from the secrets (m: mask of the observed bits)
  std::function<std::string(const std::vector<U>&)> open;
  // what only party `first` may learn
  int owner = -1;
  int ends = 3;  // bit 0: low end, bit 1: top end
  unsigned only = 0;  // the only coalition looked at
};
Value V(const NdArrayRef& a) { return Value(a, spu::DT_INVALID); }

size_t words(char k) { return k == 'A' ? 2 : 1; }
int bitsIn(char k, int kk) { return k == 'b' ? 1 : k == 'B' ? 2 : kk; }

class Lab {
 public:
  Lab(const Sys& s, const Prog& g, View v) : sys(s), prog(g), view(v), k(bitsOf(s.c.pub)), es(s.p == P::spdz ? k / 4 : k / 8) {
    venv::resetRandom(0);
    net = std::make_unique<Net>(sys.c);
    np = sys.c.npc;
    hook();
    // every generator a party owns or shares is used once
    learning = true;
    const auto& c = sys.c;
    net->run("use of the generators", [&](SPUContext* ctx, size_t) {
      auto* st = ctx->getState<mp::PrgState>();
      st->genPriv(c.pub, {1});
      st->genPubl(c.pub, {1});
      st->genPrssPair(c.pub, {1}, mp::PrgState::GenPrssCtrl::Both);
    });
    learning = false;
  }
  ~Lab() {
    venv::g_draw = nullptr;
    venv::g_wire = nullptr;
    venv::g_digest = nullptr;
    venv::g_secure = nullptr;
    venv::g_rpc_response = nullptr;
    venv::g_as_party = venv::kNoOverride;
  }
  std::string name() const { return fmt::format("{} {} [{}]", sys.c.str(), prog.name, view.str()); }

  // All combinations of secrets of the alphabet.
  std::vector<std::vector<U>> secrets() const {
    std::vector<std::vector<U>> out{{}};
    for (char c : prog.in) {
      const bool boolean = c == 'b' || c == 'B' || c == 'F';
      for (size_t w = 0; w < words(c); ++w) {
        std::vector<std::vector<U>> nx;
        const int nb = boolean ? std::min(view.q, bitsIn(c, k)) : view.q;
        for (auto& t : out)
          for (U x = 0; x < (U(1) << nb); ++x) {
            auto s = t;
            if (view.end == 0)
              s.push_back(x);
            else
              s.push_back(((x << (k - nb)) | (boolean ? 0 : 3)) & maskOf(k));
            nx.push_back(s);
          }
        out = nx;
      }
    }
    return out;
  }
  // What coalition C may know about the secrets.
  std::string known(const std::vector<U>& s, unsigned C) const {
    std::string r;
    size_t j = 0;
    for (char c : prog.in) {
      for (size_t w = 0; w < words(c); ++w, ++j) {
        const int own = c == 'u' ? 0 : c == 'v' ? 1 : c == 'w' ? int(np) - 1 : -1;
        if (c == 'p' || (own >= 0 && (C >> own & 1))) r += hex(s[j]) + ",";
      }
    }
    if (prog.open && (prog.owner < 0 || (C >> prog.owner & 1))) r += "=" + prog.open(s);
    return r;
  }

  // One run on one tape.  Returns false if the digits were cut off.
  void once(const std::vector<U>& s, unsigned C) {
    coal = C;
    memo.clear();
    order.clear();
    seenw.clear();
    cut = false;
    rounds.clear();
    nrounds = 0;
    first_pos.clear();
    drawn_at.clear();
    digests.clear();
    sec_ctr.clear();
    ndig = 0;
    venv::resetRandom(1);
    // input shares
    venv::g_as_party = -1;
    std::vector<std::vector<Value>> ins(np);
    std::unique_ptr<mp::IoInterface> io;
    if (sys.c.io) io = sys.c.io(sys.c.pub, np);
    size_t j = 0;
    for (char c : prog.in) {
      std::vector<U> x(s.begin() + j, s.begin() + j + words(c));
      j += words(c);
      const Shape sh{int64_t(x.size())};
      std::vector<NdArrayRef> sr;
      const int own = c == 'u' ? 0 : c == 'v' ? 1 : c == 'w' ? int(np) - 1 : -1;
      if (c == 'p')
        sr.assign(np, mkPub(sys.c.pub, sh, x));
      else if (c == 'b' || c == 'B' || c == 'F')
        sr = bshares(x[0], bitsIn(c, k));
      else if (sys.p == P::spdz)
        sr = spdzShares(x, own, c != 'n');
      else
        sr = io->toShares(mkArr(spu::makeType<spu::RingTy>(sys.c.pub), sh, x), spu::VIS_SECRET, own);
      for (size_t i = 0; i < np; ++i) {
        if (own < 0 && c != 'p' && (C >> i & 1)) see('i', -1, int(i), raw(sr[i]));
        ins[i].push_back(V(sr[i]));
      }
    }
    venv::g_as_party = venv::kNoOverride;
    venv::resetRandom(2);
    net->run(name(), [&](SPUContext* ctx, size_t i) { prog.fn(ctx, ins[i]); });
    // digits the coalition can compute
    std::string d;
    for (auto& key : order)
      if (knows(C, std::get<1>(key))) d.push_back(char('0' + memo[key].digit));
    see('d', -1, -1, d, true);
    // checks of macs are shares of zero: the coalition can tell what it gets
    // from what it sends
    for (auto& [name, r] : rounds)
      for (auto& [at, data] : r.seen) {
        const size_t key = r.no;
        const size_t at0 = seenw[at].find(':') + 1;
        for (size_t w = 0; w < data.size() / es && data.size() % es == 0; ++w) {
          if (mode == kRandom && !zeroSum(data, r.mine, w)) unforeseen.insert({key, w});
          if (mode != kRandom && !unforeseen.count({key, w})) seenw[at][at0 + w] = 'z';
        }
      }
    std::vector<size_t> upto{0};
    for (auto& w : seenw) upto.push_back(upto.back() + w.size());
    for (auto& [key, at] : drawn_at) at = upto[at];
    size_t room = room0;
    for (size_t i = 0; i < seenw.size(); ++i) {
      if (seenw[i].size() >= room) {
        seenw[i].resize(room);
        seenw.resize(i + 1);
        break;
      }
      room -= seenw[i].size();
    }
  }
  bool zeroSum(const std::string& a, const std::map<int, std::string>& mine, size_t w) const {
    if (mine.size() + 1 != np) return false;
    U sum = 0;
    auto plus = [&](const std::string& d) {
      U v = 0;
      if (d.size() == a.size()) std::memcpy(&v, d.data() + w * es, es);
      sum += v;
    };
    plus(a);
    for (auto& [p, d] : mine) plus(d);
    return (sum & maskOf(int(es * 8))) == 0;
  }

  uint64_t viewHash() const {
    uint64_t h = 77;
    for (auto& w : seenw) h = vh::hash(w.data(), w.size(), h);
    return h;
  }
  std::string viewStr() const {
    std::string r;
    for (auto& w : seenw) r += w + " ";
    return r;
  }

  void explore() {
    const auto ss = secrets();
    const bool big = vh::thorough();
    std::vector<unsigned> cs;
    for (unsigned c = 1; c + 1 < (1u << np); ++c) {
      const bool most = sys.p == P::semi || sys.p == P::spdz;
      if (!most && (c & (c - 1))) continue;
      if (most && size_t(__builtin_popcount(c)) != np - 1) continue;
      if (most && !sys.ttp && (c & 1)) continue;  // the trusted first party
      cs.push_back(c);
    }
    if (prog.only) cs = {prog.only};
    for (unsigned C : cs) {
      // who can compute which random words, and how many there are
      venv::g_fill = 0xA5;
      mode = kCalibrate;
      learning = true;
      once(ss[0], C);
      once(ss.back(), C);
      learning = false;
      once(ss[0], C);
      size_t unknown = 0;
      for (auto& key : order) unknown += !knows(C, std::get<1>(key));
      const size_t total = order.size();
      const size_t small = sys.p == P::swf ? 8 : 10;
      const size_t full = (big ? 18 : small + 1) / view.q, part = (big ? 18 : small) / view.q;
      std::vector<int> patterns;
      if (total <= full) {
        mode = kAll;
        patterns = {0};
        limit = full;
      } else {
        mode = kUnknown;
        patterns = big ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{0, 1};
        limit = part;
      }
      if (sys.p == P::spdz) {
        const auto was = mode;
        mode = kRandom;
        unforeseen.clear();
        once(ss.front(), C);
        once(ss.back(), C);
        mode = was;
      }
      // (The influence of a random word can hide: this is used where opened
      // values depend on random words linearly.)
      if (sys.p == P::spdz && total > full) {
        choosePrefix(ss, C);
        patterns = {0, 1};
      }
      vh::add((unknown > limit && mode == kUnknown) || (mode == kChosen && room0 != kEverything) ? "coalitions_on_a_prefix_of_the_view"
                                                                                               : "coalitions_on_the_whole_view");
      std::map<std::string, std::pair<std::pair<uint64_t, uint64_t>, std::vector<U>>> seen;
      for (size_t si = 0; si < ss.size(); ++si) {
        uint64_t m1 = 0, m2 = 0;
        std::set<uint64_t> distinct;
        for (int pt : patterns) {
          pattern = pt;
          vmc::Explorer ex;
          ex.explore([&] {
            once(ss[si], C);
            const uint64_t h = viewHash() ^ (uint64_t(pt) << 60);
            distinct.insert(h);
            // a leaf with few choices stands for several tapes
            const uint64_t wgt = uint64_t(1) << (40 - std::min<size_t>(40, ndig * view.q));
            uint64_t a = vh::hash(&h, 8, 3), b = vh::hash(&h, 8, 99);
            a ^= a >> 29; a *= 0xbf58476d1ce4e5b9ULL; a ^= a >> 32;
            b ^= b >> 31; b *= 0x94d049bb133111ebULL; b ^= b >> 29;
            m1 += wgt * a;
            m2 += wgt * b;
            return true;
          });
          vh::add("tapes", ex.execs);
        }
        vh::add("distinct_views", long(distinct.size()));
        if (distinct.size() > 1) vh::add("secret_and_coalition_with_random_view");
        const auto kn = known(ss[si], C);
        auto it = seen.find(kn);
        auto id = fmt::format("{} {} {} {}", name(), C, si, hex(m1));
        vh::eval(vh::hash(id));
        if (it == seen.end()) {
          seen[kn] = {{m1, m2}, ss[si]};
        } else {
          vh::add("comparisons");
          if (it->second.first != std::make_pair(m1, m2)) {
            auto sh = [](const std::vector<U>& v) {
              std::string r;
              for (auto x : v) r += hex(x) + " ";
              return r;
            };
            vh::fail(fmt::format("{}: what parties {} see is distributed differently for the secrets ({}) and ({}), "
                                 "which they may not tell apart",
                                 name(), coalStr(C), sh(it->second.second), sh(ss[si])));
          }
        }
      }
      mode = kCalibrate;
      room0 = kEverything;
      vh::sample(fmt::format("{} parties {}: {} random digits, {} unknown to them, {} secrets", name(), coalStr(C), total, unknown,
                             ss.size()));
    }
  }

 private:
  // kChosen: of the random words unknown to the coalition those that matter
  // for a prefix of the view, the rest as the pattern has it
  enum Mode { kCalibrate, kRandom, kAll, kUnknown, kChosen };
  using Key = std::tuple<uint32_t, U, U, uint64_t>;
  static constexpr size_t kEverything = ~size_t(0);

  // The longest prefix of the view that depends on no more unknown words than
  // can be enumerated.
  void choosePrefix(const std::vector<std::vector<U>>& ss, unsigned C) {
    mode = kChosen;
    room0 = kEverything;
    size_t end = kEverything;
    bool u_long = false;
    std::map<Key, size_t> from;  // the first digit of the view it changes
    for (auto* s : {&ss.front(), &ss.back()})
      for (int pt : {0, 1, 2, 3}) {
        if (pt % 2 && u_long) break;
        pattern = pt;
        chosen.clear();
        flip = nullptr;
        once(*s, C);
        const auto base = seenw;
        std::vector<Key> u;
        for (auto& key : order)
          if (!knows(C, std::get<1>(key))) u.push_back(key);
        // of a long program only the words drawn before a certain point of
        // the view are tried: later ones do not matter for what is before it
        const bool lng = u_long = u.size() > 100;
        if (lng) {
          end = std::min(end, size_t(vh::thorough() ? 150 : 40));
          u.erase(std::remove_if(u.begin(), u.end(), [&](const Key& key) { return drawn_at[key] >= end; }), u.end());
        }
        vh::add("digits_tried", long(u.size()));
        for (auto& key : u) {
          flip = &key;
          once(*s, C);
          size_t at = 0, i = 0;
          for (; i < base.size() && i < seenw.size() && base[i] == seenw[i]; ++i) at += base[i].size();
          if (i == base.size() && i == seenw.size()) {
            at = kEverything;
          } else if (i < base.size() && i < seenw.size()) {
            size_t t = 0;
            while (t < base[i].size() && t < seenw[i].size() && base[i][t] == seenw[i][t]) ++t;
            at += t;
          }
          auto [it, fresh] = from.try_emplace(key, at);
          if (!fresh) it->second = std::min(it->second, at);
        }
        flip = nullptr;
      }
    std::vector<std::pair<size_t, Key>> by;
    for (auto& [key, at] : from)
      if (at < end) by.push_back({at, key});
    std::sort(by.begin(), by.end());
    const size_t lim = (vh::thorough() ? 14 : 9) / view.q;
    room0 = by.size() > lim ? by[lim].first : end;
    chosen.clear();
    for (auto& [at, key] : by)
      if (at < room0) chosen.insert(key);
    vh::add("view_digits_looked_at", room0 == kEverything ? 1000 : long(room0));
    if (getenv("C11_DEBUG"))
      fprintf(stderr, "%s C=%u: %zu matter, %zu chosen, room %zd\n", name().c_str(), C, by.size(), chosen.size(), ssize_t(room0));
  }
  struct Word {
    int digit;
    size_t width;
  };
  std::string coalStr(unsigned C) const {
    std::string r;
    for (size_t i = 0; i < np; ++i)
      if (C >> i & 1) r += fmt::format("{}{}", r.empty() ? "" : "+", i);
    return r;
  }
  std::string raw(const NdArrayRef& a) const {
    auto c = a.clone();
    return std::string(c.data<char>(), c.numel() * c.elsize());
  }
  bool knows(unsigned C, U seed) const {
    auto it = seed_known.find(seed);
    return it != seed_known.end() && (it->second & C);
  }
  std::vector<NdArrayRef> spdzShares(const std::vector<U>& x, int own, bool mac) {
    const Shape sh{int64_t(x.size())};
    std::vector<NdArrayRef> out;
    if (own >= 0) {
      for (size_t i = 0; i < np; ++i)
        out.push_back(mkArr(spu::makeType<mp::Priv2kTy>(sys.c.pub, own), sh, int(i) == own ? x : std::vector<U>(x.size(), 0)));
      return out;
    }
    const auto f = sys.c.pub == FM32 ? FM64 : FM128;
    const auto ring = spu::makeType<spu::RingTy>(f);
    U key = 0;
    for (auto& c : net->ctxs) key += c->getState<mp::Spdz2kState>()->key();
    std::vector<std::vector<U>> val(np), macs(np);
    for (size_t t = 0; t < x.size(); ++t) {
      U v = x[t], m = x[t] * key;
      for (size_t i = 0; i < np; ++i) {
        U a = v, b = m;
        if (i + 1 < np) {
          venv::fillPrf(77, U(1000 + i), memo.size() + 100 * t, 0, reinterpret_cast<uint8_t*>(&a), es);
          venv::fillPrf(77, U(2000 + i), memo.size() + 100 * t, 0, reinterpret_cast<uint8_t*>(&b), es);
          a &= maskOf(int(es * 8)), b &= maskOf(int(es * 8));
        }
        v -= a, m -= b;
        val[i].push_back(a), macs[i].push_back(mac ? b : 0);
      }
    }
    for (size_t i = 0; i < np; ++i) out.push_back(mp::spdz2k::makeAShare(mkArr(ring, sh, val[i]), mkArr(ring, sh, macs[i]), f, mac));
    return out;
  }
  std::vector<NdArrayRef> bshares(U x, int nbits) {
    const size_t n = sys.p == P::semi ? np : 3;
    // n-out-of-n xor sharing, then the protocol's own form
    std::vector<U> w(n, 0);
    U last = x;
    for (size_t i = 0; i + 1 < n; ++i) {
      uint8_t b[16] = {};
      const size_t wid = es;
      venv::fillPrf(77, U(1000 + i), memo.size(), 0, b, wid);
      U v = 0;
      std::memcpy(&v, b, wid);
      w[i] = v & maskOf(nbits);
      last ^= w[i];
    }
    w[n - 1] = last;
    std::vector<NdArrayRef> out;
    auto pack = [&](const spu::Type& ty, const std::vector<U>& ws) {
      NdArrayRef a(ty, {1});
      const size_t e = a.elsize() / ws.size();
      for (size_t t = 0; t < ws.size(); ++t) std::memcpy(a.data<uint8_t>() + t * e, &ws[t], e);
      return a;
    };
    const size_t nb = nbits;
    for (size_t i = 0; i < np; ++i) {
      switch (sys.p) {
        case P::semi:
          out.push_back(pack(spu::makeType<mp::semi2k::BShrTy>(sys.c.pub, nb), {w[i]}));
          break;
        case P::snn:
          out.push_back(pack(spu::makeType<mp::securenn::BShrTy>(sys.c.pub, nb), {w[i]}));
          break;
        case P::aby:
          out.push_back(pack(spu::makeType<mp::aby3::BShrTy>((nb <= 8 ? spu::PT_U8 : nb <= 32 ? spu::PT_U32 : spu::PT_U64), nb), {w[i], w[(i + 1) % 3]}));
          break;
        case P::swf:
          // alpha1 = w0, alpha2 = w1, beta = x ^ w0 ^ w1, gamma = w2
        case P::spdz:
          break;
      }
    }
    if (sys.p == P::swf) {
      const U al1 = w[0], al2 = w[1], beta = x ^ al1 ^ al2;
      uint8_t b[16] = {};
      venv::fillPrf(77, U(1009), memo.size(), 0, b, es);
      U ga = 0;
      std::memcpy(&ga, b, es);
      ga &= maskOf(nbits);
      const auto ty = spu::makeType<mp::swift::BShrTy>(sys.c.pub, nb);
      out = {pack(ty, {al1, al2, beta ^ ga}), pack(ty, {al1, beta, ga}), pack(ty, {al2, beta, ga})};
    }
    return out;
  }
  // the observed digits of a string of words
  std::string digits(const std::string& s) const {
    const size_t w = s.size() % es == 0 ? es : s.size() < es ? s.size() : 1;
    std::string r;
    for (size_t i = 0; i + w <= s.size(); i += w) {
      U v = 0;
      std::memcpy(&v, s.data() + i, w);
      const int b = int(w) * 8;
      r.push_back(char('0' + int((view.end ? v >> (b - view.q) : v) & maskOf(view.q))));
    }
    return r;
  }
  void see(char what, int src, int dst, const std::string& s, bool as_is = false) {
    if (cut) return;
    auto w = fmt::format("{}{}>{}:{}", what, src, dst, as_is ? s : digits(s));
    seenw.push_back(w);
  }
  int digitOf(const Key& key, uint8_t* out, size_t w) {
    auto it = memo.find(key);
    if (it != memo.end()) {
      // another granularity of the same stream position
      if (it->second.width != w) mixed = true;
      return it->second.digit;
    }
    int d = 0;
    const bool mine = knows(coal, std::get<1>(key));
    auto fixed = [&] {
      uint64_t h = std::get<3>(key) * 31 + uint64_t(std::get<1>(key)) * 7 + uint64_t(std::get<2>(key));
      return pattern == 0 ? 0 : pattern == 1 ? (1 << view.q) - 1 : int(vh::hash(&h, 8, pattern) >> 13) & ((1 << view.q) - 1);
    };
    switch (mode) {
      case kCalibrate:
      case kRandom:
        break;
      case kChosen:
        if (!mine && chosen.count(key)) {
          d = vmc::choose(1 << view.q, "digit");
          ++ndig;
        } else {
          d = fixed();
          if (flip && *flip == key) d ^= 1;
        }
        break;
      case kAll:
        d = vmc::choose(1 << view.q, "digit");
        ++ndig;
        break;
      case kUnknown:
        if (mine) {
          d = fixed();
        } else if (ndig < limit) {
          d = vmc::choose(1 << view.q, "digit");
          ++ndig;
        } else {
          cut = true;  // the rest of the view is not looked at
        }
        break;
    }
    memo[key] = {d, w};
    drawn_at[key] = seenw.size();
    if (!cut) order.push_back(key);
    return d;
  }
  void hook() {
    venv::g_draw = [this](const venv::Draw& dr) {
      if (learning && dr.party >= 0) seed_known[dr.seed] |= 1u << dr.party;
      if (setup_only() || mode == kRandom) return false;
      if (dr.type == 50) return false;
      const size_t w = dr.type == 60 ? dr.n : std::min(es, dr.n);
      for (size_t i = 0; i < dr.n; i += w) {
        const size_t n = std::min(w, dr.n - i);
        // streams go on from one run to the next
        const uint64_t pos = dr.ctr * 16 + i;
        const uint64_t start = first_pos.try_emplace({dr.type, dr.seed, dr.iv}, pos).first->second;
        const Key key{dr.type, dr.seed, dr.iv, pos - start};
        const U d = digitOf(key, dr.out + i, n);
        const bool top = view.end && dr.type != 60;
        U v = top ? d << (int(n) * 8 - view.q) : d;
        std::memcpy(dr.out + i, &v, n);
      }
      return true;
    };
    venv::g_secure = [this](uint8_t* o, size_t n, int p) {
      if (n != 16) {
        if (setup_only() || mode == kRandom) return false;
        // single random bytes
        for (size_t i = 0; i < n; ++i) {
          const U own = U(p + 1) | U(0xabc) << 100;
          if (p >= 0) seed_known[own] |= 1u << p;
          const Key key{900, own, 0, sec_ctr[p]++};
          const int d = digitOf(key, o + i, 1);
          o[i] = uint8_t(view.end ? d << (8 - view.q) : d);
        }
        return true;
      }
      // seeds: remembered so that a message that carries one is noticed
      const U v = venv::prf(998, sec_run(), p + 1, sec_ctr[p]++);
      std::memcpy(o, &v, 16);
      seeds[std::string(reinterpret_cast<char*>(o), 16)] = v;
      if (p >= 0 && learning) seed_known[v] |= 1u << p;
      return true;
    };
    venv::g_wire = [this](venv::Msg& m) {
      if (learning && m.data.size() >= 16)
        for (size_t i = 0; i + 16 <= m.data.size(); ++i) {
          auto it = seeds.find(m.data.substr(i, 16));
          if (it != seeds.end()) seed_known[it->second] |= 1u << m.dst;
        }
      if ((coal >> m.dst & 1) && !(coal >> m.src & 1)) {
        // commitments and hashes hide
        if (digests.count(m.data))
          vh::add("hashes_not_looked_at");
        else {
          if (sys.p == P::spdz && !cut) {
            auto& r = rounds[m.key];
            if (r.no == 0) r.no = ++nrounds;
            r.seen.push_back({seenw.size(), m.data});
          }
          see('m', m.src, m.dst, m.data);
        }
      }
      if (sys.p == P::spdz && m.dst == 0 && m.src != 0) rounds[m.key].mine[m.src] = m.data;
      return true;
    };
    venv::g_digest = [this](const std::vector<uint8_t>& d) { digests.insert(std::string(d.begin(), d.end())); };
    venv::g_rpc_response = [this](std::string& s) {
      const int p = vmc::self_party();
      if (!(coal >> p & 1)) return;
      // strip the chunk headers
      std::string body;
      size_t pos = 0;
      while (pos + 9 <= s.size()) {
        int64_t n;
        std::memcpy(&n, s.data() + pos + 1, 8);
        body += s.substr(pos + 9, n);
        pos += 9 + n;
      }
      see('r', -1, p, body);
    };
  }
  bool setup_only() const { return coal == 0; }
  uint64_t sec_run() const { return coal == 0 ? 0 : 1; }

  const Sys sys;
  const Prog prog;
  const View view;
  const int k;
  const size_t es;
  size_t np = 0;
  std::unique_ptr<Net> net;
  unsigned coal = 0;
  bool learning = false, cut = false, mixed = false;
  size_t room0 = kEverything;
  std::map<Key, size_t> drawn_at;  // length of the view when a word was drawn
  // what was exchanged with party 0 in a round: by the coalition, and the places in the view
  struct Round {
    size_t no = 0;
    std::map<int, std::string> mine;
    std::vector<std::pair<size_t, std::string>> seen;
  };
  std::map<std::string, Round> rounds;
  size_t nrounds = 0;
  std::map<std::tuple<uint32_t, U, U>, uint64_t> first_pos;
  std::set<std::pair<size_t, size_t>> unforeseen;  // words of rounds
  std::set<Key> chosen;
  const Key* flip = nullptr;
  std::set<std::string> digests;
  int pattern = 0;
  Mode mode = kCalibrate;
  size_t limit = 0, ndig = 0;
  std::map<Key, Word> memo;
  std::vector<Key> order;
  std::vector<std::string> seenw;
  std::map<U, unsigned> seed_known;
  std::map<std::string, U> seeds;

 public:
  std::map<int, uint64_t> sec_ctr;
};

std::vector<Prog> programs(const Sys& s) {
  std::vector<Prog> r;
  const int k = bitsOf(s.c.pub);
  auto val = [k](U v) { return hex(v & maskOf(k)); };
  auto add = [&](std::string n, std::string in, auto fn, std::function<std::string(const std::vector<U>&)> open = {}, int ends = 3,
                 int owner = -1) { r.push_back({n, in, fn, open, owner, ends}); };
  using VV = std::vector<Value>;
  const auto sy = s.p;
  add("x*y", "aa", [](SPUContext* c, const VV& v) { return VV{mp::mul_aa(c, v[0], v[1])}; });
  add("x*y opened", "aa", [](SPUContext* c, const VV& v) { return VV{mp::a2p(c, mp::mul_aa(c, v[0], v[1]))}; },
      [=](auto& x) { return val(x[0] * x[1]); });
  add("x+y opened", "aa", [](SPUContext* c, const VV& v) { return VV{mp::a2p(c, mp::add_aa(c, v[0], v[1]))}; },
      [=](auto& x) { return val(x[0] + x[1]); });
  add("x opened to party 1, y not", "aa",
      [](SPUContext* c, const VV& v) { return VV{mp::a2v(c, mp::add_aa(c, v[0], v[1]), 1)}; },
      [=](auto& x) { return val(x[0] + x[1]); }, 3, 1);
  add("x+y opened to party 0", "aa", [](SPUContext* c, const VV& v) { return VV{mp::a2v(c, mp::add_aa(c, v[0], v[1]), 0)}; },
      [=](auto& x) { return val(x[0] + x[1]); }, 3, 0);
  add("x*p opened", "ap", [](SPUContext* c, const VV& v) { return VV{mp::mul_ap(c, v[0], v[1])}; });
  add("x @ y", "aa", [](SPUContext* c, const VV& v) {
    auto a = V(v[0].data().reshape({1, 1})), b = V(v[1].data().reshape({1, 1}));
    return VV{mp::mmul_aa(c, a, b)};
  });
  add("x @ y opened", "aa", [](SPUContext* c, const VV& v) {
    auto a = V(v[0].data().reshape({1, 1})), b = V(v[1].data().reshape({1, 1}));
    return VV{mp::a2p(c, mp::mmul_aa(c, a, b))};
  }, [=](auto& x) { return val(x[0] * x[1]); });
  add("inner product opened", "AA", [](SPUContext* c, const VV& v) {
    auto a = V(v[0].data().reshape({1, 2})), b = V(v[1].data().reshape({2, 1}));
    return VV{mp::a2p(c, mp::mmul_aa(c, a, b))};
  }, [=](auto& x) { return val(x[0] * x[2] + x[1] * x[3]); });
  add("private x shared", "v", [](SPUContext* c, const VV& v) { return VV{mp::v2a(c, v[0])}; });
  for (char o : std::string("uvw"))
    add(fmt::format("private {} + y opened", o), std::string(1, o) + "a",
        [](SPUContext* c, const VV& v) { return VV{mp::a2p(c, mp::add_aa(c, mp::v2a(c, v[0]), v[1]))}; },
        [=](auto& x) { return val(x[0] + x[1]); });
  for (int b : {1, 5}) {
    add(fmt::format("x truncated by {}", b), "a",
        [b](SPUContext* c, const VV& v) { return VV{mp::trunc_a(c, v[0], b, SignType::Unknown)}; });
    add(fmt::format("non-negative x truncated by {}", b), "a",
        [b](SPUContext* c, const VV& v) { return VV{mp::trunc_a(c, v[0], b, SignType::Positive)}; }, {}, 1);
  }
  // The dealer of truncation pairs knows them, the others see a value masked by
  // them whose high bits they use: not a case for observed digits.
  for (int b : {1, 5}) {
    if (sy != P::snn) break;
    auto cut = [b](SPUContext* c, const Value& x) { return mp::trunc_a(c, mp::lshift_a(c, x, {b}), b, SignType::Unknown); };
    add(fmt::format("x truncated by {} + y opened", b), "aa",
        [cut](SPUContext* c, const VV& v) { return VV{mp::a2p(c, mp::add_aa(c, cut(c, v[0]), v[1]))}; },
        [=](auto& x) { return val(x[0] + x[1]); }, 1);
    add(fmt::format("sum of two truncated by {} opened", b), "aa",
        [cut](SPUContext* c, const VV& v) { return VV{mp::a2p(c, mp::add_aa(c, cut(c, v[0]), cut(c, v[1])))}; },
        [=](auto& x) { return val(x[0] + x[1]); }, 1);
    r[r.size() - 1].only = r[r.size() - 2].only = 4;
  }
  if (sy == P::spdz) {
    // boolean shares come from arithmetic ones
    auto low = [](SPUContext* c, const Value& x) { return V(spu::dynDispatch(c, "a2bit", x).data()); };
    if (k == 32 || vh::thorough()) {
      add("sign of x", "a", [](SPUContext* c, const VV& v) { return VV{mp::msb_a2b(c, v[0])}; });
      add("number to bits", "a", [](SPUContext* c, const VV& v) { return VV{mp::a2b(c, v[0])}; });
    }
    add("lowest bit of x", "a", [=](SPUContext* c, const VV& v) { return VV{low(c, v[0])}; });
    add("lowest bit of x opened", "a", [=](SPUContext* c, const VV& v) { return VV{mp::b2p(c, low(c, v[0]))}; },
        [=](auto& x) { return val(x[0] & 1); });
    add("lowest bits: x & y", "aa", [=](SPUContext* c, const VV& v) { return VV{mp::and_bb(c, low(c, v[0]), low(c, v[1]))}; });
    add("lowest bits: x & y opened", "aa",
        [=](SPUContext* c, const VV& v) { return VV{mp::b2p(c, mp::and_bb(c, low(c, v[0]), low(c, v[1])))}; },
        [=](auto& x) { return val(x[0] & x[1] & 1); });
    add("lowest bit as number", "a", [=](SPUContext* c, const VV& v) { return VV{mp::b2a(c, low(c, v[0]))}; });
    add("x without mac * y", "na", [](SPUContext* c, const VV& v) { return VV{mp::mul_aa(c, v[0], v[1])}; });
    add("x without mac opened to party 0", "n", [](SPUContext* c, const VV& v) { return VV{mp::a2v(c, v[0], 0)}; });
    if (k == 32 || vh::thorough()) add("x without mac: sign", "n", [](SPUContext* c, const VV& v) { return VV{mp::msb_a2b(c, v[0])}; });
    for (auto& g : r) g.ends = 1;
    return r;
  }
  add("x & y", "bb", [](SPUContext* c, const VV& v) { return VV{mp::and_bb(c, v[0], v[1])}; }, {}, 1);
  add("x & y, all bits", "FF", [](SPUContext* c, const VV& v) { return VV{mp::and_bb(c, v[0], v[1])}; });
  add("x & y opened", "bb", [](SPUContext* c, const VV& v) { return VV{mp::b2p(c, mp::and_bb(c, v[0], v[1]))}; },
      [=](auto& x) { return val(x[0] & x[1]); }, 1);
  add("x ^ y opened", "bb", [](SPUContext* c, const VV& v) { return VV{mp::b2p(c, mp::xor_bb(c, v[0], v[1]))}; },
      [=](auto& x) { return val(x[0] ^ x[1]); }, 1);
  add("x ^ y opened, all bits", "FF", [](SPUContext* c, const VV& v) { return VV{mp::b2p(c, mp::xor_bb(c, v[0], v[1]))}; },
      [=](auto& x) { return val(x[0] ^ x[1]); });
  for (char b : std::string("bB")) {
    add(fmt::format("bits to number ({})", b), std::string(1, b), [](SPUContext* c, const VV& v) { return VV{mp::b2a(c, v[0])}; }, {}, 1);
    add(fmt::format("bits to number ({}), sum opened", b), std::string(1, b) + "a",
        [](SPUContext* c, const VV& v) { return VV{mp::a2p(c, mp::add_aa(c, mp::b2a(c, v[0]), v[1]))}; },
        [=](auto& x) { return val(x[0] + x[1]); }, 1);
  }
  add("sum of two bits as numbers opened", "bb",
      [](SPUContext* c, const VV& v) { return VV{mp::a2p(c, mp::add_aa(c, mp::b2a(c, v[0]), mp::b2a(c, v[1])))}; },
      [=](auto& x) { return val(x[0] + x[1]); }, 1);
  add("(x & y) ^ (z & w) opened", "bbbb",
      [](SPUContext* c, const VV& v) {
        return VV{mp::b2p(c, mp::xor_bb(c, mp::and_bb(c, v[0], v[1]), mp::and_bb(c, v[2], v[3])))};
      },
      [=](auto& x) { return val((x[0] & x[1]) ^ (x[2] & x[3])); }, 1);
  add("x*y + z*w opened", "aaaa",
      [](SPUContext* c, const VV& v) {
        return VV{mp::a2p(c, mp::add_aa(c, mp::mul_aa(c, v[0], v[1]), mp::mul_aa(c, v[2], v[3])))};
      },
      [=](auto& x) { return val(x[0] * x[1] + x[2] * x[3]); }, 1);
  add("number to bits", "a", [](SPUContext* c, const VV& v) { return VV{mp::a2b(c, v[0])}; });
  if (sy == P::aby || (sy == P::semi && s.c.npc == 2)) {
    add("x times bit", "ab", [](SPUContext* c, const VV& v) { return VV{mp::mul_a1b(c, v[0], v[1])}; }, {}, 1);
    add("x times bit opened", "ab", [](SPUContext* c, const VV& v) { return VV{mp::a2p(c, mp::mul_a1b(c, v[0], v[1]))}; },
        [=](auto& x) { return val(x[0] * x[1]); }, 1);
  }
  if (sy == P::aby || sy == P::swf || (sy == P::semi && s.c.npc == 2))
    add("sign of x", "a", [](SPUContext* c, const VV& v) { return VV{mp::msb_a2b(c, v[0])}; });
  if (sy == P::aby || sy == P::semi)
    add("x == y", "aa", [](SPUContext* c, const VV& v) { return VV{mp::equal_aa(c, v[0], v[1])}; });
  if (sy == P::semi) {
    add("x^2", "a", [](SPUContext* c, const VV& v) { return VV{mp::square_a(c, v[0])}; });
    add("x^2 opened", "a", [](SPUContext* c, const VV& v) { return VV{mp::a2p(c, mp::square_a(c, v[0]))}; },
        [=](auto& x) { return val(x[0] * x[0]); });
    auto cached = [](SPUContext* c, const Value& x, const std::function<void()>& body) {
      spu::dynDispatch(c, "beaver_cache", x, true);
      body();
      spu::dynDispatch(c, "beaver_cache", x, false);
    };
    add("x*y with x remembered", "aa", [=](SPUContext* c, const VV& v) {
      cached(c, v[0], [&] { mp::mul_aa(c, v[0], v[1]); });
      return VV{};
    });
    add("x*y, x*y with x and y remembered", "aa", [=](SPUContext* c, const VV& v) {
      cached(c, v[0], [&] {
        cached(c, v[1], [&] {
          mp::mul_aa(c, v[0], v[1]);
          mp::mul_aa(c, v[0], v[1]);
        });
      });
      return VV{};
    });
    add("x*y, x*z with x remembered", "aaa", [=](SPUContext* c, const VV& v) {
      cached(c, v[0], [&] {
        mp::mul_aa(c, v[0], v[1]);
        mp::mul_aa(c, v[0], v[2]);
      });
      return VV{};
    });
    add("x^2, x*y with x remembered", "aa", [=](SPUContext* c, const VV& v) {
      cached(c, v[0], [&] {
        mp::square_a(c, v[0]);
        mp::mul_aa(c, v[0], v[1]);
      });
      return VV{};
    });
    auto mm = [](const Value& x) { return V(x.data().reshape({1, 1})); };
    add("x @ y with x remembered", "aa", [=](SPUContext* c, const VV& v) {
      auto a = mm(v[0]), b = mm(v[1]);
      cached(c, a, [&] { mp::mmul_aa(c, a, b); });
      return VV{};
    });
    add("x @ y with x and y remembered", "aa", [=](SPUContext* c, const VV& v) {
      auto a = mm(v[0]), b = mm(v[1]);
      cached(c, a, [&] { cached(c, b, [&] { mp::mmul_aa(c, a, b); }); });
      return VV{};
    });
    add("x @ y, x^T @ z with x remembered", "aaa", [=](SPUContext* c, const VV& v) {
      auto a = mm(v[0]), b = mm(v[1]), d = mm(v[2]);
      cached(c, a, [&] {
        mp::mmul_aa(c, a, b);
        mp::mmul_aa(c, V(a.data().transpose()), d);
      });
      return VV{};
    });
    if (s.c.npc == 2)
      add("private x * private y", "uv", [](SPUContext* c, const VV& v) { return VV{mp::mul_vv(c, v[0], v[1])}; });
  }
  if (sy == P::semi || sy == P::aby) {
    auto multiset = [=](const std::vector<U>& x) {
      auto y = x;
      std::sort(y.begin(), y.end());
      return val(y[0]) + "," + val(y[1]);
    };
    auto sh = [](SPUContext* c) { return spu::dynDispatch(c, "rand_perm_m", Shape{2}); };
    add("shuffle", "A", [=](SPUContext* c, const VV& v) {
      auto pm = sh(c);
      return VV{spu::dynDispatch(c, "perm_am", v[0], pm)};
    });
    add("shuffle opened", "A", [=](SPUContext* c, const VV& v) {
      auto pm = sh(c);
      return VV{mp::a2p(c, spu::dynDispatch(c, "perm_am", v[0], pm))};
    }, multiset);
    add("inverse shuffle", "A", [=](SPUContext* c, const VV& v) {
      auto pm = sh(c);
      return VV{spu::dynDispatch(c, "inv_perm_am", v[0], pm)};
    });
    add("inverse shuffle opened", "A", [=](SPUContext* c, const VV& v) {
      auto pm = sh(c);
      return VV{mp::a2p(c, spu::dynDispatch(c, "inv_perm_am", v[0], pm))};
    }, multiset);
  }
  return r;
}
std::vector<Sys> systems() {
  std::vector<Sys> r;
  auto ttp = [](Conf c, int adjust) {
    c.rc.beaver_type = spu::RuntimeConfig::TrustedThirdParty;
    c.rc.ttp_beaver_config =
        std::make_shared<spu::TTPBeaverConfig>("8000", adjust, "sm2", "pk", "", nullptr);
    c.name += fmt::format("-ttp{}", adjust);
    return c;
  };
  const FieldType fs[] = {FM32, FM64};
  for (auto f : fs) {
    for (size_t n : {2, 3}) {
      if (f == FM64 && n == 3 && !vh::thorough()) continue;
      auto c = semi2k(n, f);
      r.push_back({P::semi, c});
      r.push_back({P::semi, ttp(c, 0), true});
      if (f == FM32 || vh::thorough()) r.push_back({P::semi, ttp(c, int(n) - 1), true});
    }
    r.push_back({P::aby, aby3(f)});
    r.push_back({P::snn, securenn(f)});
    if (f == FM32 || vh::thorough()) r.push_back({P::swf, swift(f)});
  }
  for (size_t n : {2, 3}) r.push_back({P::spdz, spdz2k(n, FM32)});
  r.push_back({P::spdz, spdz2k(2, FM64)});
  // other ways of getting the same results
  {
    auto c = semi2k(2, FM32);
    c.rc.trunc_allow_msb_error = true;
    c.name += "-msberr";
    r.push_back({P::semi, ttp(c, 0), true});
  }
  return r;
}
}  // namespace

void vh_units() {
  for (auto& s : systems())
    for (auto& g : programs(s))
      for (int end = 0; end < 2; ++end) {
        if (!(g.ends >> end & 1)) continue;
        for (int q : {1, 2}) {
          if (q == 2 && !vh::thorough()) continue;
          View v{end, q};
          vh::unit(fmt::format("{}/{}/{}", s.c.str(), g.name, v.str()), [s, g, v] {
            std::unique_ptr<brpc::Server> srv;
            if (s.ttp) srv = mp::semi2k::beaver::ttp_server::RunServer({8000, "sm2", yacl::Buffer(std::string("sk")), {}});
            Lab lab(s, g, v);
            lab.explore();
          });
        }
      }
}
