// C12: the cheetah protocol over ideal OT extensions and an ideal two party
// multiplication: ring operations, and every layer of oblivious transfer,
// comparison and truncation beneath them.
#define USE_CHEETAH
#include "protoops.h"
#include "protos.h"

#include "libspu/mpc/cheetah/nonlinear/compare_prot.h"
#include "libspu/mpc/cheetah/nonlinear/equal_prot.h"
#include "libspu/mpc/cheetah/nonlinear/truncate_prot.h"
#include "libspu/mpc/cheetah/ot/basic_ot_prot.h"
#include "libspu/mpc/cheetah/state.h"
#include "libspu/mpc/cheetah/type.h"
using namespace vn;
namespace ch = spu::mpc::cheetah;
using spu::CheetahOtKind;
using spu::makeType;
using Ot = std::shared_ptr<ch::BasicOTProtocols>;

void supply(bool chosen_first, int depth);
static U prf(U a, U b = 0) { return venv::prf(900, a, b, 0); }

// Two parties with one instance of the OT protocols each.
struct Pair {
  std::vector<venv::LinkPtr> links = venv::makeWorld(2);
  Ot ot[2];
  explicit Pair(CheetahOtKind kind = CheetahOtKind::YACL_Ferret) {
    both("setup", [&](int i) {
      ot[i] = std::make_shared<ch::BasicOTProtocols>(std::make_shared<spu::mpc::Communicator>(links[i]), kind);
    });
  }
  void both(const std::string& what, const std::function<void(int)>& fn) {
    vh::where(what);
    auto r = vmc::run({[&] { fn(0); }, [&] { fn(1); }});
    if (!r.ok()) vh::fail(what + ": " + r.str());
    auto u = venv::undelivered(links[0]);
    if (!u.empty()) vh::fail(fmt::format("{}: {} message(s) never received, e.g. {}", what, u.size(), u[0]));
  }
};
static const char* kindName(CheetahOtKind k) {
  return k == CheetahOtKind::YACL_Ferret ? "ferret" : k == CheetahOtKind::YACL_Softspoken ? "softspoken" : "emp";
}

// ---- transfers ---------------------------------------------------------------
template <class T>
static void transfers(CheetahOtKind kind, const std::string& name) {
  const int k = sizeof(T) * 8;
  auto bits = [](size_t bw) { return static_cast<T>(maskOf(bw)); };
  std::vector<size_t> widths;
  for (int b = 1; b <= k; ++b)
    if (vh::thorough() || k <= 32 || b <= 9 || b % 8 <= 1 || b >= k - 2) widths.push_back(b);
  const std::vector<size_t> counts = {1, 2, 7, 8, 9, 16, 17};
  Pair p(kind);
  for (int sender = 0; sender < 2; ++sender) {
    auto S = [&](int i) { return p.ot[i]->GetSenderCOT(); };
    auto R = [&](int i) { return p.ot[i]->GetReceiverCOT(); };
    // one of N
    for (size_t N : {2, 4, 8, 16, 256})
      for (size_t bw : widths)
        for (size_t n : counts) {
          if (N == 256 && (n > 9 || n == 7) && !vh::thorough()) continue;
          if (N == 256 && !vh::thorough() && bw % 5 > 1) continue;
          auto what = fmt::format("{} one of {} with {} bits, {} transfers, sender {}", name, N, bw, n, sender);
          std::vector<T> msg(n * N), out(n);
          std::vector<uint8_t> c(n);
          for (size_t i = 0; i < msg.size(); ++i)
            msg[i] = i % 5 == 0 ? static_cast<T>(-1) : i % 5 == 1 ? 0 : static_cast<T>(prf(i, n));
          for (size_t i = 0; i < n; ++i) c[i] = n == 1 ? (bw * 7) % N : i == 0 ? N - 1 : i == 1 ? 0 : prf(i, bw) % N;
          p.both(what, [&](int i) {
            if (i == sender) {
              S(i)->SendCMCC(absl::MakeConstSpan(msg), N, bw);
              S(i)->Flush();
            } else {
              R(i)->RecvCMCC(absl::MakeConstSpan(c), N, absl::MakeSpan(out), bw);
            }
          });
          for (size_t i = 0; i < n; ++i) {
            const T w = msg[i * N + c[i]] & bits(bw);
            VH_CHECK(out[i] == w, "{}: transfer {} choice {}: {} expected {}", what, i, c[i], hex(out[i]), hex(w));
          }
          vh::eval(vh::hash(what));
        }
    for (size_t bw : widths)
      for (size_t n : counts) {
        auto head = fmt::format("{} {} bits, {} transfers, sender {}: ", name, bw, n, sender);
        std::vector<T> m0(n), m1(n), out(n);
        std::vector<uint8_t> c(n);
        // random messages, random and chosen choices
        for (int chosen = 0; chosen < 2; ++chosen) {
          auto what = head + (chosen ? "random messages, chosen choice" : "random messages, random choice");
          for (size_t i = 0; i < n; ++i) c[i] = chosen ? (prf(i, n + bw) & 1) : 77;
          auto cc = c;
          p.both(what, [&](int i) {
            if (i == sender) {
              if (chosen) S(i)->SendRMCC(absl::MakeSpan(m0), absl::MakeSpan(m1), bw);
              else S(i)->SendRMRC(absl::MakeSpan(m0), absl::MakeSpan(m1), bw);
              S(i)->Flush();
            } else {
              if (chosen) R(i)->RecvRMCC(absl::MakeConstSpan(c), absl::MakeSpan(out), bw);
              else R(i)->RecvRMRC(absl::MakeSpan(c), absl::MakeSpan(out), bw);
            }
          });
          std::set<U> seen;
          for (size_t i = 0; i < n; ++i) {
            VH_CHECK(c[i] <= 1 && (!chosen || c[i] == cc[i]), "{}: choice {}", what, c[i]);
            VH_CHECK(m0[i] <= bits(bw) && m1[i] <= bits(bw), "{}: message wider than asked", what);
            VH_CHECK(out[i] == (c[i] ? m1 : m0)[i], "{}: transfer {} choice {}: {} of {}, {}", what, i, c[i], hex(out[i]),
                     hex(m0[i]), hex(m1[i]));
            seen.insert(m0[i]);
            seen.insert(m1[i]);
          }
          if (bw >= 64) VH_CHECK(seen.size() == 2 * n, "{}: messages repeat", what);
          vh::eval(vh::hash(what));
        }
        // correlated messages
        for (int levels = 0; levels <= static_cast<int>(bw); levels = levels < 3 ? levels + 1 : levels * 2 + 1) {
          const size_t cnt = levels ? n * levels : n;
          auto what = head + fmt::format("correlated messages, {} levels", levels);
          std::vector<T> corr(cnt), a(cnt), b(cnt);
          std::vector<uint8_t> ch(cnt);
          for (size_t i = 0; i < cnt; ++i) {
            corr[i] = i % 4 == 0 ? static_cast<T>(-1) : i % 4 == 1 ? bits(bw) : static_cast<T>(prf(i, bw));
            ch[i] = prf(i, levels + 3) & 1;
          }
          const int w = static_cast<int>(bw) == k && n % 2 ? 0 : static_cast<int>(bw);  // 0 stands for the whole word
          p.both(what, [&](int i) {
            if (i == sender) {
              if (levels) S(i)->SendCAMCC_Collapse(absl::MakeConstSpan(corr), absl::MakeSpan(a), w, levels);
              else S(i)->SendCAMCC(absl::MakeConstSpan(corr), absl::MakeSpan(a), w);
              S(i)->Flush();
            } else {
              if (levels) R(i)->RecvCAMCC_Collapse(absl::MakeConstSpan(ch), absl::MakeSpan(b), w, levels);
              else R(i)->RecvCAMCC(absl::MakeConstSpan(ch), absl::MakeSpan(b), w);
            }
          });
          for (size_t i = 0; i < cnt; ++i) {
            const T m = bits(bw - (levels ? i / n : 0));
            VH_CHECK(((b[i] - a[i]) & m) == ((ch[i] ? corr[i] : 0) & m), "{}: transfer {} choice {} correlation {}: {} and {}",
                     what, i, ch[i], hex(corr[i]), hex(a[i]), hex(b[i]));
          }
          vh::eval(vh::hash(what));
        }
      }
  }
}

// Two additive (or xor) shares of every value, for several first shares.
struct Split {
  std::vector<U> s[2], x;
};
static Split split(const std::vector<U>& vals, int k, bool boolean, int width = 0) {
  Split r;
  const U m = maskOf(boolean && width ? width : k);
  for (auto v : vals)
    for (U a : {U(0), m, U(1) << ((boolean && width ? width : k) - 1), prf(v, 5) & m, v & m}) {
      r.x.push_back(v & m);
      r.s[0].push_back(a & m);
      r.s[1].push_back((boolean ? v ^ a : v - a) & m);
    }
  return r;
}
static NdArrayRef bshr(FieldType f, const std::vector<U>& v, int nbits, const Shape& s) {
  return mkArr(makeType<ch::BShrTy>(f, nbits), s, v);
}
static NdArrayRef ashr(FieldType f, const std::vector<U>& v, const Shape& s) {
  return mkArr(makeType<ch::AShrTy>(f), s, v);
}
static NdArrayRef strided(const NdArrayRef& a) {
  // the same contents, every other element of a wider buffer
  const auto n = a.numel();
  NdArrayRef wide(a.eltype(), {2 * n + 1});
  std::memset(wide.data(), 0x5a, wide.numel() * wide.elsize());
  for (int64_t i = 0; i < n; ++i)
    std::memcpy(wide.data<uint8_t>() + (1 + 2 * i) * a.elsize(), a.data<uint8_t>() + i * a.elsize(), a.elsize());
  return wide.slice({1}, {2 * n + 1}, {2});
}

static void basics(FieldType f, CheetahOtKind kind) {
  const int k = bitsOf(f);
  const U m = maskOf(k);
  Pair p(kind);
  const auto e = edges(k, false);
  auto in = [&](const std::vector<U>& v, int nbits, bool st) {
    auto a = nbits ? bshr(f, v, nbits, {int64_t(v.size())}) : ashr(f, v, {int64_t(v.size())});
    return st ? strided(a) : a;
  };
  for (int nb = 1; nb <= k; ++nb) {
    if (k > 32 && !vh::thorough() && nb > 9 && nb % 8 > 1 && nb < k - 2) continue;
    // AND triples
    for (auto sh : {Shape{1}, Shape{3, 2}, Shape{9}}) {
      auto what = fmt::format("and triples {} {} of {} bits", fname(f), sh, nb);
      std::vector<U> t[2][3];
      p.both(what, [&](int i) {
        auto r = p.ot[i]->AndTriple(f, sh, nb);
        for (int j = 0; j < 3; ++j) t[i][j] = readArr(r[j]);
      });
      for (size_t i = 0; i < t[0][0].size(); ++i) {
        U a = t[0][0][i] ^ t[1][0][i], b = t[0][1][i] ^ t[1][1][i], c = t[0][2][i] ^ t[1][2][i];
        VH_CHECK((a & b) == c && (a | b | c) <= maskOf(nb), "{}: {} & {} != {}", what, hex(a), hex(b), hex(c));
      }
      vh::eval(vh::hash(what));
    }
    // x & y
    std::vector<U> xs, ys;
    for (size_t i = 0; i < e.size(); ++i)
      for (size_t j : {i, (i + 5) % e.size(), (i * 7 + 2) % e.size()}) xs.push_back(e[i]), ys.push_back(e[j]);
    auto sx = split(xs, k, true, nb), sy = split(ys, k, true, nb);
    for (bool st : {false, true}) {
      auto what = fmt::format("bitwise and {} {} bits strided {}", fname(f), nb, st);
      std::vector<U> z[2];
      p.both(what, [&](int i) { z[i] = readArr(p.ot[i]->BitwiseAnd(in(sx.s[i], nb, st), in(sy.s[i], nb, st))); });
      for (size_t i = 0; i < sx.x.size(); ++i)
        VH_CHECK(((z[0][i] ^ z[1][i]) & maskOf(nb)) == (sx.x[i] & sy.x[i]), "{}: {} & {} gives {}", what, hex(sx.x[i]),
                 hex(sy.x[i]), hex(z[0][i] ^ z[1][i]));
      vh::eval(vh::hash(what));
      what = fmt::format("boolean to arithmetic {} {} bits strided {}", fname(f), nb, st);
      p.both(what, [&](int i) { z[i] = readArr(p.ot[i]->B2A(in(sx.s[i], nb, st))); });
      for (size_t i = 0; i < sx.x.size(); ++i)
        VH_CHECK(((z[0][i] + z[1][i]) & m) == sx.x[i], "{}: {} gives {}", what, hex(sx.x[i]), hex((z[0][i] + z[1][i]) & m));
      vh::eval(vh::hash(what));
    }
    // a bit in a ring of nb bits
    if (nb < k)
      for (bool st : {false, true}) {
        auto s1 = split({0, 1}, k, true, 1);
        auto what = fmt::format("one bit as a number of {} bits {} strided {}", nb, fname(f), st);
        std::vector<U> z[2];
        p.both(what, [&](int i) { z[i] = readArr(p.ot[i]->B2ASingleBitWithSize(in(s1.s[i], 1, st), nb)); });
        for (size_t i = 0; i < s1.x.size(); ++i)
          VH_CHECK(((z[0][i] + z[1][i]) & maskOf(nb)) == s1.x[i], "{}: {} gives {} + {}", what, hex(s1.x[i]), hex(z[0][i]),
                   hex(z[1][i]));
        vh::eval(vh::hash(what));
      }
  }
  for (auto sh : {Shape{1}, Shape{2, 4}, Shape{9}, Shape{33}}) {
    auto what = fmt::format("correlated and triples {} {}", fname(f), sh);
    std::vector<U> t[2][5];
    p.both(what, [&](int i) {
      auto r = p.ot[i]->CorrelatedAndTriple(f, sh);
      for (int j = 0; j < 5; ++j) t[i][j] = readArr(r[j]);
    });
    for (size_t i = 0; i < t[0][0].size(); ++i) {
      U v[5];
      for (int j = 0; j < 5; ++j) v[j] = t[0][j][i] ^ t[1][j][i];
      VH_CHECK((v[0] & v[1]) == v[2] && (v[0] & v[3]) == v[4] && (v[0] | v[1] | v[3]) <= 1, "{}: element {}", what, i);
    }
    vh::eval(vh::hash(what));
    what = fmt::format("random bits {} {}", fname(f), sh);
    std::vector<U> z[2];
    p.both(what, [&](int i) { z[i] = readArr(p.ot[i]->RandBits(f, sh)); });
    std::set<U> seen;
    for (size_t i = 0; i < z[0].size(); ++i) seen.insert((z[0][i] + z[1][i]) & m);
    for (auto v : seen) VH_CHECK(v <= 1, "{}: {}", what, hex(v));
    if (z[0].size() > 30) VH_CHECK(seen.size() == 2, "{}: constant", what);
    vh::eval(vh::hash(what));
  }
  {
    std::vector<U> x, y, w;
    for (int i = 0; i < 8; ++i) x.push_back(i & 1), y.push_back(i >> 1 & 1), w.push_back(i >> 2 & 1);
    auto a = split(x, k, true, 1), b = split(y, k, true, 1), c = split(w, k, true, 1);
    for (bool st : {false, true}) {
      auto what = fmt::format("correlated and {} strided {}", fname(f), st);
      std::vector<U> z[2][2];
      p.both(what, [&](int i) {
        auto r = p.ot[i]->CorrelatedBitwiseAnd(in(a.s[i], 1, st), in(b.s[i], 1, st), in(c.s[i], 1, st));
        for (int j = 0; j < 2; ++j) z[i][j] = readArr(r[j]);
      });
      for (size_t i = 0; i < a.x.size(); ++i)
        VH_CHECK((z[0][0][i] ^ z[1][0][i]) == (a.x[i] & b.x[i]) && (z[0][1][i] ^ z[1][1][i]) == (a.x[i] & c.x[i]),
                 "{}: element {}", what, i);
      vh::eval(vh::hash(what));
    }
  }
  // a number times a bit
  auto sx = split(e, k, false);
  for (int pat = 0; pat < 4; ++pat)
    for (bool st : {false, true}) {
      std::vector<U> b(sx.x.size()), b0(b), b1(b);
      for (size_t i = 0; i < b.size(); ++i) {
        b[i] = pat == 0 ? 0 : pat == 1 ? 1 : i / 5 + pat & 1;
        b0[i] = prf(i, pat) & 1;
        b1[i] = b0[i] ^ b[i];
      }
      std::vector<U> z[2];
      auto what = fmt::format("multiplexer {} selection {} strided {}", fname(f), pat, st);
      p.both(what, [&](int i) { z[i] = readArr(p.ot[i]->Multiplexer(in(sx.s[i], 0, st), in(i ? b1 : b0, 1, st))); });
      for (size_t i = 0; i < b.size(); ++i)
        VH_CHECK(((z[0][i] + z[1][i]) & m) == ((sx.x[i] * b[i]) & m), "{}: {} * {}", what, hex(sx.x[i]), hex(b[i]));
      vh::eval(vh::hash(what));
      for (int owner = 0; owner < 2; ++owner) {
        what = fmt::format("private multiplexer {} selection {} of party {} strided {}", fname(f), pat, owner, st);
        p.both(what, [&](int i) {
          auto x = in(sx.s[i], 0, st && i == owner);
          z[i] = readArr(i == owner ? p.ot[i]->PrivateMulxRecv(x, in(b, 1, st)) : p.ot[i]->PrivateMulxSend(x));
        });
        for (size_t i = 0; i < b.size(); ++i)
          VH_CHECK(((z[0][i] + z[1][i]) & m) == ((sx.x[i] * b[i]) & m), "{}: {} * {}", what, hex(sx.x[i]), hex(b[i]));
        vh::eval(vh::hash(what));
      }
    }
}

// ---- comparison, equality ------------------------------------------------------
static void compare(FieldType f, CheetahOtKind kind, size_t radix) {
  const int k = bitsOf(f);
  Pair p(kind);
  for (int bw = 1; bw <= k; ++bw) {
    if (!vh::thorough() && k > 32 && bw > 6 && bw % 16 > 1 && bw < k - 1) continue;
    std::vector<U> d, x, y;
    if (bw <= 4) {
      for (U v = 0; v < U(1) << bw; ++v) d.push_back(v);
    } else {
      for (auto v : edges(k, false)) d.push_back(v & maskOf(bw));
      std::sort(d.begin(), d.end());
      d.erase(std::unique(d.begin(), d.end()), d.end());
    }
    for (auto a : d)
      for (auto b : d) x.push_back(a), y.push_back(b);
    auto arr = [&](const std::vector<U>& v) { return mkArr(makeType<spu::RingTy>(f), {int64_t(v.size())}, v); };
    auto shaped = [&](const NdArrayRef& a, int form) {
      return form == 0 ? a : form == 1 ? strided(a) : a.reshape({1, a.numel(), 1});
    };
    const int form = bw % 3;
    for (bool gt : {false, true})
      for (bool with_eq : {false, true}) {
        if (with_eq && radix != 4 && bw > 8 && !vh::thorough()) continue;
        auto what = fmt::format("{} radix {} {} bits {}{} form {}", fname(f), radix, bw, gt ? "greater" : "less",
                                with_eq ? " with equality" : "", form);
        std::vector<U> z[2], q[2];
        p.both(what, [&](int i) {
          ch::CompareProtocol cp(p.ot[i], radix);
          auto a = shaped(arr(i ? y : x), form);
          NdArrayRef r;
          if (with_eq) {
            auto rr = cp.ComputeWithEq(a, gt, bw);
            r = rr[0];
            q[i] = readArr(rr[1]);
          } else {
            r = cp.Compute(a, gt, bw == k && radix % 2 ? 0 : bw);
            if (r.shape() != a.shape()) throw std::runtime_error("wrong shape");
          }
          z[i] = readArr(r);
        });
        for (size_t i = 0; i < x.size(); ++i) {
          const U w = gt ? x[i] > y[i] : x[i] < y[i];
          VH_CHECK((z[0][i] ^ z[1][i]) == w, "{}: {} and {} gives {} {}", what, hex(x[i]), hex(y[i]), hex(z[0][i]), hex(z[1][i]));
          if (with_eq)
            VH_CHECK((q[0][i] ^ q[1][i]) == U(x[i] == y[i]), "{}: equality of {} and {} is {} {}", what, hex(x[i]), hex(y[i]),
                     hex(q[0][i]), hex(q[1][i]));
        }
        vh::eval(vh::hash(what));
        vh::add("elements_compared", x.size());
      }
    // Equality looks at the low bits only.
    for (bool junk : {false, true}) {
      if (junk && bw == k) continue;
      auto what = fmt::format("{} radix {} {} bits equality junk {} form {}", fname(f), radix, bw, junk, form);
      auto xx = x, yy = y;
      if (junk)
        for (size_t i = 0; i < x.size(); ++i) xx[i] |= (prf(i) & maskOf(k)) >> bw << bw, yy[i] |= (prf(i, 1) & maskOf(k)) >> bw << bw;
      std::vector<U> z[2];
      p.both(what, [&](int i) {
        ch::EqualProtocol ep(p.ot[i], radix);
        auto a = shaped(arr(i ? yy : xx), form);
        auto r = ep.Compute(a, bw == k && radix % 2 ? 0 : bw);
        if (r.shape() != a.shape()) throw std::runtime_error("wrong shape");
        z[i] = readArr(r);
      });
      for (size_t i = 0; i < x.size(); ++i)
        VH_CHECK((z[0][i] ^ z[1][i]) == U(x[i] == y[i]), "{}: {} and {} gives {} {}", what, hex(xx[i]), hex(yy[i]),
                 hex(z[0][i]), hex(z[1][i]));
      vh::eval(vh::hash(what));
    }
  }
}

// ---- truncation ----------------------------------------------------------------
static void truncation(FieldType f, CheetahOtKind kind) {
  const int k = bitsOf(f);
  const U m = maskOf(k);
  Pair p(kind);
  const auto e = edges(k, vh::thorough());
  using spu::SignType;
  for (int shift = 0; shift < k; ++shift) {
    if (!vh::thorough() && k > 32 && shift > 4 && shift % 8 && shift < k - 3) continue;
    for (auto sign : {SignType::Unknown, SignType::Positive, SignType::Negative})
      for (bool heur : {false, true})
        for (bool sgned : {false, true}) {
          if (heur && shift > k - 2) continue;
          std::vector<U> vals;
          for (auto v : e) {
            const bool neg = v >> (k - 1);
            if ((sign == SignType::Positive && neg) || (sign == SignType::Negative && !neg)) continue;
            const auto s = sgn(v, k);
            const int128_t b = int128_t(1) << (k - 2);
            if (heur && sgned && sign == SignType::Unknown && (s < -b || s >= b)) continue;
            vals.push_back(v);
          }
          auto sx = split(vals, k, false);
          auto what = fmt::format("truncate {} by {} sign {} heuristic {} signed {}", fname(f), shift,
                                  sign == SignType::Unknown ? "unknown" : sign == SignType::Positive ? "+" : "-", heur, sgned);
          std::vector<U> z[2];
          p.both(what, [&](int i) {
            ch::TruncateProtocol tp(p.ot[i]);
            ch::TruncateProtocol::Meta meta;
            meta.sign = sign;
            meta.use_heuristic = heur;
            meta.signed_arith = sgned;
            meta.shift_bits = shift;
            auto a = ashr(f, sx.s[i], {int64_t(sx.x.size())});
            auto st = shift % 3 == 1 ? strided(a) : shift % 3 == 2 ? a.reshape({5, a.numel() / 5}) : a;
            auto r = tp.Compute(st, meta);
            if (r.shape() != st.shape()) throw std::runtime_error("wrong shape");
            z[i] = readArr(r);
            if (readArr(st) != sx.s[i]) throw std::runtime_error("the argument was modified");
          });
          for (size_t i = 0; i < sx.x.size(); ++i) {
            const U got = (z[0][i] + z[1][i]) & m;
            const U want = sgned ? U(sgn(sx.x[i], k) >> shift) & m : sx.x[i] >> shift;
            const auto d = sgn((got - want) & m, k);
            VH_CHECK(shift ? d >= -1 && d <= 1 : d == 0, "{}: {} = {} + {} gives {} expected {}", what, hex(sx.x[i]),
                     hex(sx.s[0][i]), hex(sx.s[1][i]), hex(got), hex(want));
          }
          vh::eval(vh::hash(what));
          vh::add("elements_compared", sx.x.size());
        }
  }
}

// Every history of requests for multiplication triples.
static void triples(int depth) {
  venv::g_ole_batch = 8;
  vmc::Explorer ex;
  const std::vector<int64_t> sizes = {1, 3, 4, 5, 8, 11};
  ex.explore([&] {
    venv::resetRandom(0);
    auto links = venv::makeWorld(2);
    std::shared_ptr<ch::CheetahMulState> st[2];
    std::string what = "triples";
    auto both = [&](const std::function<void(int)>& fn) {
      vh::where(what);
      auto r = vmc::run({[&] { fn(0); }, [&] { fn(1); }});
      if (!r.ok()) vh::fail(what + ": " + r.str());
    };
    both([&](int i) { st[i] = std::make_shared<ch::CheetahMulState>(links[i]); });
    std::set<U> seen;
    for (int s = 0; s < depth; ++s) {
      const int64_t n = sizes[vmc::choose(sizes.size(), "count")];
      const FieldType f = vmc::choose(2, "field") ? FM128 : FM64;
      what += fmt::format(" {}:{}", fname(f), n);
      std::vector<U> t[2][3];
      both([&](int i) {
        auto r = st[i]->TakeCachedBeaver(f, n);
        for (int j = 0; j < 3; ++j) {
          t[i][j] = readArr(r[j]);
          if (r[j].numel() != n || r[j].elsize() * 8 != bitsOf(f)) throw std::runtime_error("wrong number of triples");
        }
      });
      for (int64_t i = 0; i < n; ++i) {
        const U m = maskOf(bitsOf(f)), a = t[0][0][i] + t[1][0][i], b = t[0][1][i] + t[1][1][i], c = t[0][2][i] + t[1][2][i];
        VH_CHECK(((a * b) & m) == (c & m), "{}: triple {}: {} * {} != {}", what, i, hex(a & m), hex(b & m), hex(c & m));
        for (int q = 0; q < 2; ++q)
          for (int j = 0; j < 2; ++j)
            VH_CHECK(seen.insert(t[q][j][i] << 1 | U(f == FM128)).second, "{}: triple {} repeats a mask", what, i);
      }
    }
    vh::eval(vh::hash(what));
    return true;
  });
  vh::add("histories", ex.execs);
}

// ---- splitting over workers --------------------------------------------------------
static void workers(int workers, bool async_schedules) {
  auto c = cheetah(FM32);
  c.rc.max_concurrency = workers;
  venv::g_ole_batch = 64;
  const int k = 32;
  const U m = maskOf(k);
  using namespace spu::mpc;
  struct W {
    const char* name;
    std::function<Value(SPUContext*, const Value&, const Value&)> fn;
    std::function<U(U, U)> ref;
  };
  auto one = [](SPUContext* x, const Value& v) { return and_sp(x, v, make_p(x, 1, v.shape())); };
  std::vector<W> ws = {
      {"b2a of bits", [=](auto* x, auto& a, auto&) { return b2a(x, one(x, p2b(x, a))); }, [](U a, U) { return a & 1; }},
  };
  if (!async_schedules) {
    ws.push_back({"msb", [](auto* x, auto& a, auto&) { return msb_s(x, p2a(x, a)); }, [k](U a, U) { return a >> (k - 1); }});
    ws.push_back({"and", [=](auto* x, auto& a, auto& b) { return and_ss(x, one(x, p2b(x, a)), one(x, p2b(x, b))); },
                  [](U a, U b) { return a & b & 1; }});
    ws.push_back({"mul", [](auto* x, auto& a, auto& b) { return mul_ss(x, p2a(x, a), p2a(x, b)); }, [m](U a, U b) { return a * b & m; }});
    ws.push_back({"square", [](auto* x, auto& a, auto&) { return square_s(x, p2a(x, a)); }, [m](U a, U) { return a * a & m; }});
    ws.push_back({"bit mul", [=](auto* x, auto& a, auto& b) { return mul_ss(x, p2a(x, a), one(x, p2b(x, b))); },
                  [m](U a, U b) { return a * (b & 1) & m; }});
    ws.push_back({"equal", [=](auto* x, auto& a, auto& b) { return *equal_ss(x, p2a(x, a), p2a(x, b)); },
                  [](U a, U b) { return U(a == b); }});
  }
  for (auto& w : ws)
    for (int64_t n : async_schedules ? std::vector<int64_t>{2049} : std::vector<int64_t>{2048, 2049, 4097, 6145, 8193}) {
      if (n > 4097 && !vh::thorough() && std::string(w.name) != "square" && std::string(w.name) != "b2a of bits" &&
          std::string(w.name) != "mul")
        continue;
      Net net(c);
      std::vector<U> a(n), b(n);
      for (int64_t i = 0; i < n; ++i) a[i] = prf(i, n) & m, b[i] = i % 3 ? prf(i, 7) & m : a[i];
      for (int form = 0; form < (async_schedules ? 1 : 3); ++form) {
        auto body = [&] {
          auto what = fmt::format("{} of {} elements by {} workers form {}", w.name, n, workers, form);
          vh::where(what);
          std::vector<U> got[2];
          net.run(what, [&](SPUContext* x, size_t i) {
            Arg aa, ab;
            aa.data = a, ab.data = b;
            aa.shape = ab.shape = {n};
            aa.layout = ab.layout = form == 1 ? kReversed : kCompact;
            auto va = mkArg(x, c.pub, aa), vb = mkArg(x, c.pub, ab);
            if (form == 2)
              va = Value(va.data().reshape({n, 1}), va.dtype()), vb = Value(vb.data().reshape({n, 1}), vb.dtype());
            auto r = w.fn(x, va, vb);
            if (r.shape() != va.shape()) throw std::runtime_error("wrong shape");
            got[i] = readArr(reveal(x, r).data());
          });
          for (int q = 0; q < 2; ++q)
            for (int64_t i = 0; i < n; ++i)
              VH_CHECK((got[q][i] & m) == w.ref(a[i], b[i]), "{}: party {} element {} of {}, {}: {} expected {}", what, q, i,
                       hex(a[i]), hex(b[i]), hex(got[q][i] & m), hex(w.ref(a[i], b[i])));
          vh::eval(vh::hash(what));
          return true;
        };
        body();
        if (!async_schedules) continue;
        vmc::sched.explore_blocking = true;
        vmc::sched.delay_bounded = true;
        vmc::Explorer ex;
        ex.bound = vh::thorough() ? 2 : 1;
        ex.explore(body);
        vh::add("schedules", ex.execs);
        vmc::sched.explore_blocking = vmc::sched.delay_bounded = false;
      }
    }
}

void vh_units() {
  const std::set<std::string> off = {"equal_ss[bb]", "equal_sp[bp]"};
  for (auto f : {FM32, FM64, FM128}) {
    protoUnits(cheetah(f), true, true, off, 8, vh::thorough() ? 2 : 1, {});
    mmulUnits(cheetah(f), true, true);
    randUnits(cheetah(f), true, true);
    seqUnits(cheetah(f), vh::thorough() && f == FM32 ? 3 : 2, {});
  }
  for (auto kind : {CheetahOtKind::YACL_Softspoken, CheetahOtKind::EMP_Ferret}) {
    auto c = cheetah(FM64, kind);
    c.name += std::string("-") + kindName(kind);
    protoUnits(c, true, true, off, 4, 0, {});
  }
  for (auto kind : {CheetahOtKind::YACL_Ferret, CheetahOtKind::YACL_Softspoken}) {
    const std::string n = kindName(kind);
    vh::unit("ot/" + n + "/u8", [=] { transfers<uint8_t>(kind, n + " u8"); });
    vh::unit("ot/" + n + "/u32", [=] { transfers<uint32_t>(kind, n + " u32"); });
    vh::unit("ot/" + n + "/u64", [=] { transfers<uint64_t>(kind, n + " u64"); });
    vh::unit("ot/" + n + "/u128", [=] { transfers<uint128_t>(kind, n + " u128"); });
    for (auto f : {FM32, FM64, FM128}) {
      if (kind != CheetahOtKind::YACL_Ferret && f != FM64 && !vh::thorough()) continue;
      vh::unit(fmt::format("basic/{}/{}", n, fname(f)), [=] { basics(f, kind); });
      vh::unit(fmt::format("truncate/{}/{}", n, fname(f)), [=] { truncation(f, kind); });
      for (size_t radix = 1; radix <= 4; ++radix)
        vh::unit(fmt::format("compare/{}/{}/{}", n, fname(f), radix), [=] { compare(f, kind, radix); });
    }
  }
  for (bool chosen : {false, true})
    vh::unit(fmt::format("supply/{}", chosen ? "chosen" : "random"), [=] { supply(chosen, vh::thorough() ? 4 : 3); });
  vh::unit("triples", [] { triples(vh::thorough() ? 5 : 4); });
  for (int w : {1, 2, 3, 8}) vh::unit(fmt::format("workers/{}", w), [=] { workers(w, false); });
  vh::unit("workers/schedules", [] { workers(2, true); });
  // products by more elements than one ciphertext holds, and fewer
  for (size_t b : {1, 2, 5, 64, 4096})
    vh::unit(fmt::format("ciphertext/{}", b), [=] {
      venv::g_ole_batch = b;
      for (auto f : {FM32, FM64, FM128}) {
        std::vector<Op> ops;
        for (auto& o : ringOps(bitsOf(f), true, true))
          if (o.name.rfind("mul_", 0) == 0 || o.name.rfind("square", 0) == 0) ops.push_back(o);
        runOps(cheetah(f), ops);
      }
    });
}
