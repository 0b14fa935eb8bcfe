// Truncation: dividing a shared number by 2^n, against exact division.
#define USE_REF2K
#define USE_SEMI2K
#define USE_ABY3
#define USE_SECURENN
#define USE_SPDZ2K
#define USE_SWIFT
#include "net.h"
#include "protos.h"

#include "libspu/mpc/aby3/arithmetic.h"
using namespace vn;
using spu::SignType;

namespace {
using I = int128_t;
// What a protocol promises.
//  exact   round half up (ref2k)
//  pr      floor or floor + 1, whatever the random bits are, for |x| < 2^(k-2)
//  near    |error| < 1 + ulp, whatever the random bits are, for |x| < 2^(k-2)
//  local   |error| <= 1 as long as the mask does not wrap around
enum Rule { exact, pr, near, local };
struct Case {
  Conf c;
  Rule rule;
  // local rule: the first party's share is the mask
  bool mask_known = false;
  std::function<Value(SPUContext*, const Value&, size_t, SignType)> fn;
  int max_bits = 0;
};
I fdiv(I x, int b) { return x >> b; }

std::vector<I> alphabet(int k, int bits) {
  std::vector<I> r = {0, 1, -1, 2, -3};
  const I lim = I(1) << (k - 2);
  for (int i : {bits - 1, bits, bits + 1, k / 2, k - 4, k - 3})
    if (i > 0 && i < k - 2)
      for (I d : {I(-1), I(0), I(1)}) {
        r.push_back((I(1) << i) + d);
        r.push_back(-(I(1) << i) + d);
      }
  r.push_back(lim - 1);
  r.push_back(-lim);
  r.push_back(lim / 3);
  r.push_back(-lim / 3 * 2);
  r.erase(std::remove_if(r.begin(), r.end(), [&](I x) { return x >= lim || x < -lim; }), r.end());
  return r;
}
std::string dec(I v) { return v < 0 ? "-" + hex(U(-v)) : hex(U(v)); }

// One truncation of all numbers of the alphabet.
void once(const Case& cs, const std::vector<I>& xs, char kind, const Shape& shape, int layout, int bits, SignType sign,
          bool adversarial, const std::string& how) {
  const int k = bitsOf(cs.c.pub);
  Net net(cs.c);
  auto w = fmt::format("truncation of {} by {} bits, shape {} {} sign {} {}", kind, bits, shape, layoutName(layout), int(sign), how);
  vh::where(net.conf.str() + " " + w);
  const size_t np = cs.c.npc;
  std::vector<std::vector<U>> got(np), share(np);
  std::vector<std::string> bad(np);
  std::vector<NdArrayRef> res(np);
  Arg a;
  a.kind = kind;
  a.shape = shape;
  a.layout = layout;
  for (int64_t i = 0; i < shape.numel(); ++i) a.data.push_back(U(xs[i % xs.size()]) & maskOf(k));
  net.run(w, [&](SPUContext* ctx, size_t i) {
    Value v = mkArg(ctx, cs.c.pub, a);
    auto before = readArr(v.data());
    share[i] = before;
    Value y = cs.fn(ctx, v, bits, sign);
    if (readArr(v.data()) != before) bad[i] = "the operand was modified";
    res[i] = y.data();
    if (y.shape() != shape) bad[i] = fmt::format("result shape {}", y.shape());
    got[i] = readArr(reveal(ctx, y).data());
  });
  if (cs.c.consistent && kind != 'p' && kind != 'v') {
    auto e = cs.c.consistent(res);
    VH_CHECK(e.empty(), "{} {}: {}", cs.c.str(), w, e);
  }
  const auto in = logical(a);
  for (size_t p = 0; p < np; ++p) {
    VH_CHECK(bad[p].empty(), "{} {}: {}", cs.c.str(), w, bad[p]);
    VH_CHECK(got[p] == got[0], "{} {}: parties disagree", cs.c.str(), w);
  }
  for (size_t i = 0; i < in.size(); ++i) {
    const I x = sgn(in[i], k), y = sgn(got[0][i], k);
    const I f = fdiv(x, bits);
    const auto err = [&] { return fmt::format("{} {}: of {} is {} ({} expected)", cs.c.str(), w, dec(x), dec(y), dec(f)); };
    const Rule rule = kind == 'p' || kind == 'v' ? exact : cs.rule;
    switch (rule) {
      case exact:
        VH_CHECK(y == f + (x >> (bits - 1) & 1), "{}", err());
        break;
      case pr:
        VH_CHECK(y == f || y == f + 1, "{}", err());
        break;
      case near:
        VH_CHECK(y >= f - 1 && y <= f + 1, "{}", err());
        break;
      case local: {
        bool wrap = false;
        if (cs.mask_known && kind == 'a') {
          const U l = share[0][i] & maskOf(k), r = (in[i] - l) & maskOf(k);
          I sum;
          wrap = __builtin_add_overflow(sgn(l, k), sgn(r, k), &sum) || sum != x;
        } else {
          // the mask is not known here: only a mask of the adversary or a
          // large number may wrap, and then by exactly one wrap around
          wrap = adversarial || x >= (1 << 8) || x < -(1 << 8);
        }
        bool ok = y >= f - 1 && y <= f + 1;
        if (!ok && wrap) {
          I d = sgn(U(y - f), k), m = I(1) << (k - bits);
          ok = (d >= m - 2 && d <= m + 2) || (d >= -m - 2 && d <= -m + 2);
          if (bits == 1) ok = true;
          vh::add("wraps");
        }
        VH_CHECK(ok, "{}", err());
        break;
      }
    }
  }
  vh::eval(vh::hash(cs.c.str() + w));
}

std::vector<int> bitList(int k, bool all) {
  std::vector<int> r;
  for (int b = 1; b < k - 2; ++b)
    if (all || b <= 2 || b == k / 4 || b == k / 2 - 1 || b == k / 2 || b == k - 3 || (b >= 31 && b <= 33) || b == 18 || b == 26) r.push_back(b);
  return r;
}

void units(const Case& cs, const std::string& name) {
  const int k = bitsOf(cs.c.pub);
  const int mb = cs.max_bits ? cs.max_bits : k;
  // all numbers x all shift amounts x all whole-run randomness profiles
  vh::unit(fmt::format("numbers/{}/{}", name, cs.c.str()), [=] {
    for (int b : bitList(k, true)) {
      if (b > mb) continue;
      auto xs = alphabet(k, b);
      for (int prof = 0; prof < 6; ++prof) {
        if (prof && !vh::thorough() && b != bitList(k, false)[0] && b % 5 != prof % 5) continue;
        venv::resetRandom();
        ScopedRandom sr(prof);
        once(cs, xs, cs.c.name == "ref2k" ? 's' : 'a', {static_cast<int64_t>(xs.size())}, kCompact, b, SignType::Unknown, prof != 0, fmt::format("profile {}", prof));
      }
    }
  });
  // every mask whose upper bits are arbitrary and whose lower bits are at a border
  vh::unit(fmt::format("upper bits/{}/{}", name, cs.c.str()), [=] {
    const int top = cs.c.name == "swift" ? 3 : vh::thorough() ? 8 : 5;
    for (int b : bitList(k, false)) {
      if (b > mb) continue;
      auto xs = alphabet(k, b);
      for (int m = 0; m < 1 << top; ++m)
        for (int d : {-1, 0, 1}) {
          venv::resetRandom();
          U word = ((U(m) << (k - top)) + static_cast<U>(d)) & maskOf(k);
          venv::g_draw = [&](const venv::Draw& dr) {
            for (size_t i = 0; i < dr.n; ++i) dr.out[i] = static_cast<uint8_t>(word >> (i % (k / 8) * 8));
            return true;
          };
          once(cs, xs, cs.c.name == "ref2k" ? 's' : 'a', {static_cast<int64_t>(xs.size())}, kCompact, b, SignType::Unknown, true, "mask " + hex(word));
          venv::g_draw = nullptr;
          if (vh::timeUp()) return;
        }
    }
  });
  // share forms, shapes, layouts, sign hints
  vh::unit(fmt::format("forms/{}/{}", name, cs.c.str()), [=] {
    venv::resetRandom();
    std::string kinds = cs.c.name == "ref2k" ? "spv" : "abpv";
    size_t n = 0;
    for (int b : bitList(k, false)) {
      if (b > mb) continue;
      auto xs = alphabet(k, b);
      for (char kd : kinds)
        for (auto& sh : std::vector<Shape>{{6}, {2, 3}, {3, 1, 2}, {1}, {}, {0}})
          for (int l = 0; l < kLayouts; ++l) {
            if (cs.c.no_scalars && (sh.size() == 0 || sh.numel() == 0)) continue;
            if (l == kTransposed && sh.size() != 2) continue;
            if (l && (sh.size() == 0 || sh.numel() == 0)) continue;
            if (kd != 'a' && kd != 's' && l > 1 && !vh::thorough()) continue;
            ++n;
            std::vector<I> rot;
            for (size_t i = 0; i < xs.size(); ++i) rot.push_back(xs[(i + n * 5) % xs.size()]);
            for (auto sg : {SignType::Unknown, SignType::Positive, SignType::Negative}) {
              if (sg != SignType::Unknown && (n % 3 != 0 || kd == 'p' || kd == 'v')) continue;
              auto v = rot;
              if (sg == SignType::Positive)
                for (auto& x : v) x = x < 0 ? -(x + 1) : x;
              if (sg == SignType::Negative)
                for (auto& x : v) x = x >= 0 ? -x - 1 : x;
              once(cs, v, kd, sh, l, b, sg, false, "");
            }
          }
    }
  });
  // every draw of the protocol deviates on its own
  vh::unit(fmt::format("masks/{}/{}", name, cs.c.str()), [=] {
    for (int b : {1, cs.c.pub == FM32 ? 8 : 18, k / 2, k - 3}) {
      if (b > mb) continue;
      auto xs = alphabet(k, b);
      if (cs.c.name == "swift" || cs.c.name == "spdz2k") xs.resize(8);
      vmc::Explorer ex;
      ex.bound = vh::thorough() ? 2 : 1;
      ex.explore([&] {
        venv::resetRandom();
        ChoiceRandom cr(cs.c.name == "swift" || cs.c.name == "spdz2k" ? 3 : 6);
        once(cs, xs, cs.c.name == "ref2k" ? 's' : 'a', {static_cast<int64_t>(xs.size())}, kCompact, b, SignType::Unknown, true, "masks");
        return !vh::timeUp();
      });
      vh::add("schedules", ex.execs);
    }
  });
}
Value plain(SPUContext* c, const Value& v, size_t b, SignType s) {
  if (v.isPublic()) return spu::mpc::trunc_p(c, v, b, s);
  if (v.isPrivate()) return spu::mpc::trunc_v(c, v, b, s);
  return spu::mpc::trunc_s(c, v, b, s);
}
template <class K>
Value kernel(SPUContext* c, const Value& v, size_t b, SignType s) {
  if (v.isPublic() || v.isPrivate()) return plain(c, v, b, s);
  auto x = v.data();
  if (x.eltype().template isa<spu::BShare>()) x = spu::mpc::b2a(c, v).data();
  spu::KernelEvalContext k(c);
  return Value(K().proc(&k, x, b, s), v.dtype());
}
}  // namespace

void vh_units() {
  for (auto f : {FM32, FM64, FM128}) {
    units({ref2k(2, f), exact, false, plain}, "shift");
    for (size_t n : {2, 3, 5}) {
      auto c = semi2k(n, f);
      units({c, n == 2 ? near : pr, false, plain}, "probabilistic");
      c.rc.trunc_allow_msb_error = true;
      Case l{c, local, false, plain};
      l.mask_known = n == 2;
      units(l, "local");
    }
    Case a{aby3(f), local, true, plain};
    units(a, "local");
    units({aby3(f), near, false, kernel<spu::mpc::aby3::TruncAPr>}, "pr1");
    units({aby3(f), near, false, kernel<spu::mpc::aby3::TruncAPr2>}, "pr2");
    units({securenn(f), pr, false, plain}, "probabilistic");
    if (f != FM128) {
      units({swift(f), local, false, plain}, "pair");
      units({spdz2k(2, f), local, false, plain}, "pair");
    }
  }
}
