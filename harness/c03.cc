// C03: types and values survive serialization; a malformed message is refused.
// States are messages: a valid one, and everything reachable from it by one
// or two edits of its fields.  Built with AddressSanitizer.
#include <algorithm>
#include <functional>
#include <numeric>
#include <set>

#include "venv/env.h"
#include "vh/vh.h"

#include "libspu/core/value.h"
#include "libspu/mpc/aby3/type.h"
#include "libspu/mpc/cheetah/type.h"
#include "libspu/mpc/common/pv2k.h"
#include "libspu/mpc/experimental/swift/type.h"
#include "libspu/mpc/securenn/type.h"
#include "libspu/mpc/semi2k/type.h"
#include "libspu/mpc/spdz2k/type.h"
using namespace spu;
using namespace spu::mpc;

namespace {
struct Ty {
  Type t;
  size_t size;  // bytes of one element, by the definition of the share
  int vis;
};
size_t fs(FieldType f) { return f == FM32 ? 4 : f == FM64 ? 8 : 16; }
std::vector<Ty> storageTypes() {
  static bool once = [] {
    aby3::registerTypes();
    cheetah::registerTypes();
    swift::registerTypes();
    securenn::registerTypes();
    semi2k::registerTypes();
    spdz2k::registerTypes();
    return true;
  }();
  (void)once;
  std::vector<Ty> v;
  for (FieldType f : {FM32, FM64, FM128}) {
    const size_t s = fs(f);
    v.push_back({makeType<Pub2kTy>(f), s, VIS_PUBLIC});
    for (int o : {0, 1, 2, 11}) v.push_back({makeType<Priv2kTy>(f, o), s, VIS_PRIVATE});
    v.push_back({makeType<aby3::AShrTy>(f), 2 * s, VIS_SECRET});
    v.push_back({makeType<aby3::OShrTy>(f), 2 * s, VIS_SECRET});
    v.push_back({makeType<aby3::OPShrTy>(f), s, VIS_SECRET});
    v.push_back({makeType<semi2k::AShrTy>(f), s, VIS_SECRET});
    v.push_back({makeType<securenn::AShrTy>(f), s, VIS_SECRET});
    v.push_back({makeType<cheetah::AShrTy>(f), s, VIS_SECRET});
    v.push_back({makeType<spdz2k::AShrTy>(f), 2 * s, VIS_SECRET});
    v.push_back({makeType<swift::AShrTy>(f), 3 * s, VIS_SECRET});
    for (size_t nb : {size_t(0), size_t(1), size_t(7), size_t(10), s * 8 - 1, s * 8}) {
      v.push_back({makeType<semi2k::BShrTy>(f, nb), s, VIS_SECRET});
      v.push_back({makeType<securenn::BShrTy>(f, nb), s, VIS_SECRET});
      v.push_back({makeType<cheetah::BShrTy>(f, nb), s, VIS_SECRET});
      v.push_back({makeType<swift::BShrTy>(f, nb), 3 * s, VIS_SECRET});
      const PtType bt = f == FM32 ? PT_U32 : f == FM64 ? PT_U64 : PT_U128;
      v.push_back({makeType<spdz2k::BShrTy>(bt, nb, f), s * 2 * (s * 8 / 2), VIS_SECRET});
    }
  }
  for (auto bt : {PT_U8, PT_U16, PT_U32, PT_U64, PT_U128})
    for (size_t nb = 0; nb <= SizeOf(bt) * 8; nb = nb < 3 ? nb + 1 : nb + SizeOf(bt) * 2 + 1)
      v.push_back({makeType<aby3::BShrTy>(bt, nb), SizeOf(bt) * 2, VIS_SECRET});
  v.push_back({makeType<aby3::PShrTy>(), 16, VIS_SECRET});
  v.push_back({makeType<semi2k::PShrTy>(), 8, VIS_SECRET});
  v.push_back({makeType<swift::PShrTy>(), makeType<swift::PShrTy>().size(), VIS_SECRET});
  return v;
}

void types() {
  vh::unit("types", [] {
    auto v = storageTypes();
    for (auto f : {FM32, FM64, FM128}) {
      v.push_back({makeType<RingTy>(f), fs(f), 0});
      v.push_back({makeType<GfmpTy>(f), fs(f), 0});
    }
    for (auto p : {PT_I1, PT_I8, PT_U8, PT_I16, PT_U16, PT_I32, PT_U32, PT_I64, PT_U64, PT_F16, PT_F32, PT_F64,
                   PT_I128, PT_U128, PT_CF32, PT_CF64})
      v.push_back({makePtType(p), SizeOf(p), 0});
    v.push_back({Void, 0, 0});
    std::map<std::string, size_t> names;
    for (size_t i = 0; i < v.size(); ++i) {
      const auto& t = v[i].t;
      auto s = t.toString();
      vh::where(s);
      VH_CHECK(t.size() == v[i].size, "{}: size {} expected {}", s, t.size(), v[i].size);
      Type c(t), d;
      d = t;
      VH_CHECK(c == t && d == t && c.size() == t.size() && d.size() == t.size(), "{}: copy differs", s);
      Type r = Type::fromString(s);
      VH_CHECK(r == t, "{} read back is {}", s, r);
      VH_CHECK(r.size() == t.size(), "{} read back has size {} not {}", s, r.size(), t.size());
      VH_CHECK(r.toString() == s, "{} read back prints {}", s, r);
      VH_CHECK(r.isa<Secret>() == t.isa<Secret>() && r.isa<Public>() == t.isa<Public>() &&
                   r.isa<Private>() == t.isa<Private>() && r.isa<AShare>() == t.isa<AShare>() &&
                   r.isa<BShare>() == t.isa<BShare>() && r.isa<PShare>() == t.isa<PShare>() &&
                   r.isa<OShare>() == t.isa<OShare>() && r.isa<OPShare>() == t.isa<OPShare>() &&
                   r.isa<Ring2k>() == t.isa<Ring2k>(),
               "{} read back is another kind of type", s);
      if (t.isa<BShare>())
        VH_CHECK(r.as<BShare>()->nbits() == t.as<BShare>()->nbits(), "{} read back has {} bits", s,
                 r.as<BShare>()->nbits());
      if (t.isa<Private>())
        VH_CHECK(r.as<Private>()->owner() == t.as<Private>()->owner(), "{} read back: owner", s);
      if (t.isa<Ring2k>())
        VH_CHECK(r.as<Ring2k>()->field() == t.as<Ring2k>()->field(), "{} read back: field", s);
      if (t.isa<spdz2k::BShrTy>())
        VH_CHECK(r.as<spdz2k::BShrTy>()->k() == t.as<spdz2k::BShrTy>()->k() &&
                     r.as<spdz2k::BShrTy>()->getBacktype() == t.as<spdz2k::BShrTy>()->getBacktype(),
                 "{} read back: k or storage", s);
      if (t.isa<GfmpTy>())
        VH_CHECK(r.as<GfmpTy>()->mp_exp() == t.as<GfmpTy>()->mp_exp() && r.as<GfmpTy>()->p() == t.as<GfmpTy>()->p(),
                 "{} read back: prime", s);
      VH_CHECK(names.emplace(s, i).second, "{} names two types", s);
      for (size_t j = 0; j < v.size(); ++j) {
        bool eq = v[j].t == t;
        VH_CHECK(eq == (i == j), "{} == {} is {}", s, v[j].t, eq);
        vh::eval(i * 1000 + j);
      }
      // every truncation and single character change is refused or is another type
      for (size_t k = 0; k <= s.size(); ++k)
        for (int e = 0; e < 4; ++e) {
          std::string m = s;
          if (e == 0) m = s.substr(0, k);
          else if (k == s.size()) continue;
          else if (e == 1) m.erase(k, 1);
          else if (e == 2) m[k] = m[k] == '7' ? '8' : '7';
          else m.insert(k, 1, m[k]);
          if (m == s) continue;
          try {
            Type q = Type::fromString(m);
            VH_CHECK(!(q == t) || q.toString() == t.toString(), "'{}' is read as {}", m, q);
            if (q == t) {
              // spelled otherwise, e.g. a leading zero
              VH_CHECK(m.find('0') != std::string::npos || m.find(',') != std::string::npos, "'{}' is read as {}", m, q);
            }
          } catch (const vh::Violation&) {
            throw;
          } catch (const std::exception&) {
          }
          vh::eval(vh::hash(m));
        }
    }
    for (const char* bad : {"", "<", ">", "<>", "Ring", "Ring<", "Ring>", "Ring<FM64", "Ring<FM16>", "Ring<>", "Nope<FM64>",
                            "semi2k.AShr<>", "aby3.BShr<PT_U8>", "aby3.BShr<,3>", "semi2k.BShr<FM64,>", "Priv2k<FM64,x>"}) {
      bool threw = false;
      try {
        Type::fromString(bad);
      } catch (const std::exception&) {
        threw = true;
      }
      VH_CHECK(threw, "'{}' is read as a type", bad);
      vh::eval(vh::hash(std::string(bad)));
    }
  });
}

std::vector<uint8_t> contents(const NdArrayRef& a) {
  std::vector<uint8_t> out;
  const size_t es = a.elsize();
  int64_t n = 1;
  for (auto d : a.shape()) n *= d;
  std::vector<int64_t> ix(a.shape().size(), 0);
  for (int64_t i = 0; i < n; ++i) {
    int64_t o = 0;
    for (size_t d = 0; d < ix.size(); ++d) o += ix[d] * a.strides()[d];
    const auto* p = a.buf()->data<uint8_t>() + a.offset() + o * static_cast<int64_t>(es);
    out.insert(out.end(), p, p + es);
    for (int d = static_cast<int>(ix.size()) - 1; d >= 0; --d) {
      if (++ix[d] < a.shape()[d]) break;
      ix[d] = 0;
    }
  }
  return out;
}
NdArrayRef filled(const Type& t, const Shape& sh, int salt) {
  NdArrayRef a(t, sh);
  auto* p = a.data<uint8_t>();
  for (int64_t i = 0; i < sh.numel() * static_cast<int64_t>(t.size()); ++i)
    p[i] = static_cast<uint8_t>((i + 1) * 37 + salt + (i >> 8) * 11);
  return a;
}
struct Lay {
  std::string name;
  NdArrayRef a;
};
std::vector<Lay> layouts(const Type& t, int salt) {
  std::vector<Lay> v;
  auto m = filled(t, {2, 3}, salt);
  v.push_back({"scalar", filled(t, {}, salt)});
  v.push_back({"one", filled(t, {1}, salt)});
  v.push_back({"vector", filled(t, {5}, salt)});
  v.push_back({"matrix", m});
  v.push_back({"transposed", m.transpose({1, 0})});
  v.push_back({"reversed", filled(t, {4}, salt).reverse({0})});
  v.push_back({"every other", filled(t, {7}, salt).slice({1}, {7}, {2})});
  v.push_back({"prefix", filled(t, {6}, salt).slice({0}, {3}, {1})});
  v.push_back({"middle", filled(t, {6}, salt).slice({2}, {5}, {1})});
  v.push_back({"row", m.slice({1, 0}, {2, 3}, {1, 1})});
  v.push_back({"broadcast", filled(t, {1}, salt).broadcast_to({4}, {0})});
  v.push_back({"element", m.slice_scalar_at({1, 1})});
  v.push_back({"empty", filled(t, {0}, salt)});
  v.push_back({"empty matrix", filled(t, {3, 0}, salt)});
  return v;
}
ValueProto wire(const ValueProto& p) {  // through the actual bytes
  ValueProto q;
  if (!q.meta.ParseFromString(p.meta.SerializeAsString())) vh::fail("metadata cannot be parsed");
  for (const auto& c : p.chunks) {
    pb::ValueChunkProto d;
    if (!d.ParseFromString(c.SerializeAsString())) vh::fail("chunk cannot be parsed");
    q.chunks.push_back(d);
  }
  return q;
}
void same(const Value& v, const Value& r, const std::string& at) {
  VH_CHECK(r.dtype() == v.dtype() && r.vtype() == v.vtype(), "{}: data type or visibility", at);
  VH_CHECK(r.shape() == v.shape(), "{}: shape {}", at, r.shape());
  VH_CHECK(r.storage_type() == v.storage_type() && r.storage_type().size() == v.storage_type().size(), "{}: type {}", at,
           r.storage_type());
  VH_CHECK(r.isComplex() == v.isComplex(), "{}: complex", at);
  VH_CHECK(contents(r.data()) == contents(v.data()), "{}: contents", at);
  if (v.isComplex()) VH_CHECK(contents(*r.imag()) == contents(*v.imag()), "{}: imaginary contents", at);
}

void roundTrips() {
  auto tys = storageTypes();
  const size_t parts = 8;
  for (size_t part = 0; part < parts; ++part)
    vh::unit(fmt::format("round trips/{}", part), [=] {
      for (size_t ti = part; ti < tys.size(); ti += parts) {
        const auto& t = tys[ti];
        for (bool cplx : {false, true})
          for (auto& l : layouts(t.t, 3)) {
            for (DataType dt : {DT_I1, DT_I8, DT_U64, DT_F32, DT_F64}) {
              if (dt != DT_F32 && (cplx || l.name != "vector")) continue;
              NdArrayRef im = layouts(t.t, 101)[&l - &l].a;  // replaced below
              Value v(l.a, dt);
              if (cplx) {
                for (auto& k : layouts(t.t, 101))
                  if (k.name == l.name) im = k.a;
                v = Value(l.a, im, dt);
              }
              VH_CHECK(v.vtype() == t.vis, "visibility of {}", t.t);
              const size_t total = l.a.numel() * t.size;
              std::set<size_t> chunk = {total, total + 1, 128UL << 20};
              if (total > 0) {
                chunk.insert({std::max<size_t>(total - 1, 1), (total + 1) / 2, std::max<size_t>(total / 3, 1)});
                if (total <= 64) chunk.insert({1, 2, 3, 5, 7, 16});
              }
              for (size_t c : chunk) {
                if (c == 0) continue;
                std::string at = fmt::format("{} {} {}{} chunks of {}", t.t, dt, l.name, cplx ? " complex" : "", c);
                vh::where(at);
                auto before = contents(v.data());
                auto p = v.toProto(c);
                VH_CHECK(contents(v.data()) == before, "{}: changed by serialization", at);
                for (auto& ch : p.chunks)
                  VH_CHECK(ch.content().size() <= c && !ch.content().empty(), "{}: chunk of {} bytes", at,
                           ch.content().size());
                size_t expect = (total + c - 1) / c * (cplx ? 2 : 1);
                VH_CHECK(p.chunks.size() == expect, "{}: {} chunks", at, p.chunks.size());
                VH_CHECK(v.chunksCount(c) == (total + c - 1) / c, "{}: chunksCount", at);
                same(v, Value::fromProto(wire(p)), at);
                vh::eval(vh::hash(at));
                // chunks of one part may arrive in any order
                if (!cplx && p.chunks.size() >= 2 && p.chunks.size() <= 5) {
                  std::vector<int> o(p.chunks.size());
                  std::iota(o.begin(), o.end(), 0);
                  while (std::next_permutation(o.begin(), o.end())) {
                    ValueProto q;
                    q.meta = p.meta;
                    for (int i : o) q.chunks.push_back(p.chunks[i]);
                    same(v, Value::fromProto(wire(q)), at + " reordered");
                    vh::add("orders");
                    vh::eval(vh::hash(fmt::format("{}{}", at, fmt::join(o, ","))));
                  }
                }
              }
              // a copy is independent
              auto cl = v.clone();
              same(v, cl, "clone");
              VH_CHECK(v.numel() == 0 || cl.data().buf() != v.data().buf(), "clone shares storage");
            }
          }
      }
    });
}

// ---- malformed messages ------------------------------------------------------
using Edit = std::pair<std::string, std::function<bool(ValueProto&)>>;
std::vector<Edit> edits(size_t nchunks) {
  std::vector<Edit> e;
  for (size_t i = 0; i < nchunks; ++i) {
    auto on = [&](const std::string& n, const std::function<void(ValueProto&)>& f) {
      e.emplace_back(fmt::format("chunk {} {}", i, n), [=](ValueProto& p) {
        if (p.chunks.size() <= i) return false;
        f(p);
        return true;
      });
    };
    on("grows", [i](ValueProto& p) { p.chunks[i].set_content(p.chunks[i].content() + "xyz"); });
    on("grows a lot", [i](ValueProto& p) { p.chunks[i].set_content(p.chunks[i].content() + std::string(5000, 'q')); });
    on("shrinks", [i](ValueProto& p) {
      auto c = p.chunks[i].content();
      if (!c.empty()) c.pop_back();
      p.chunks[i].set_content(c);
    });
    on("is emptied", [i](ValueProto& p) { p.chunks[i].set_content(""); });
    on("is dropped", [i](ValueProto& p) { p.chunks.erase(p.chunks.begin() + i); });
    on("is repeated", [i](ValueProto& p) { p.chunks.push_back(p.chunks[i]); });
    on("moves up", [i](ValueProto& p) { p.chunks[i].set_chunk_offset(p.chunks[i].chunk_offset() + 1); });
    on("moves down", [i](ValueProto& p) { p.chunks[i].set_chunk_offset(p.chunks[i].chunk_offset() - 1); });
    on("moves far", [i](ValueProto& p) { p.chunks[i].set_chunk_offset(1ULL << 40); });
    on("moves to 0", [i](ValueProto& p) { p.chunks[i].set_chunk_offset(0); });
    on("total + 1", [i](ValueProto& p) { p.chunks[i].set_total_bytes(p.chunks[i].total_bytes() + 1); });
    on("total - 1", [i](ValueProto& p) { p.chunks[i].set_total_bytes(p.chunks[i].total_bytes() - 1); });
    on("total 0", [i](ValueProto& p) { p.chunks[i].set_total_bytes(0); });
    on("total of one", [i](ValueProto& p) { p.chunks[i].set_total_bytes(p.chunks[i].content().size()); });
  }
  auto add = [&](const std::string& n, const std::function<void(ValueProto&)>& f) {
    e.emplace_back(n, [f](ValueProto& p) {
      f(p);
      return true;
    });
  };
  add("an extra chunk of nothing", [](ValueProto& p) {
    pb::ValueChunkProto c;
    c.set_chunk_offset(999);
    p.chunks.push_back(c);
  });
  add("no chunks", [](ValueProto& p) { p.chunks.clear(); });
  add("chunks reversed", [](ValueProto& p) { std::reverse(p.chunks.begin(), p.chunks.end()); });
  add("a longer axis", [](ValueProto& p) {
    if (p.meta.shape().dims_size() > 0) p.meta.mutable_shape()->set_dims(0, p.meta.shape().dims(0) + 1);
  });
  add("a shorter axis", [](ValueProto& p) {
    if (p.meta.shape().dims_size() > 0) p.meta.mutable_shape()->set_dims(0, p.meta.shape().dims(0) - 1);
  });
  add("a negative axis", [](ValueProto& p) {
    if (p.meta.shape().dims_size() > 0) p.meta.mutable_shape()->set_dims(0, -p.meta.shape().dims(0));
  });
  add("another negative axis", [](ValueProto& p) { p.meta.mutable_shape()->add_dims(-1); });
  add("an empty axis", [](ValueProto& p) { p.meta.mutable_shape()->add_dims(0); });
  add("an axis of 1", [](ValueProto& p) { p.meta.mutable_shape()->add_dims(1); });
  add("axes whose product wraps", [](ValueProto& p) {
    p.meta.mutable_shape()->clear_dims();
    p.meta.mutable_shape()->add_dims(1LL << 32);
    p.meta.mutable_shape()->add_dims(1LL << 32);
  });
  add("bytes whose product wraps", [](ValueProto& p) {
    p.meta.mutable_shape()->clear_dims();
    p.meta.mutable_shape()->add_dims(1LL << 31);
    p.meta.mutable_shape()->add_dims(1LL << 30);
  });
  add("no data type", [](ValueProto& p) { p.meta.set_data_type(pb::DataType(0)); });
  for (int vis = 0; vis < 4; ++vis)
    add(fmt::format("visibility {}", vis), [vis](ValueProto& p) { p.meta.set_visibility(pb::Visibility(vis)); });
  for (const char* s : {"", "Nope<FM64>", "semi2k.AShr<FM64", "semi2k.AShr<FM32>", "semi2k.AShr<FM128>", "Pub2k<FM64>",
                        "Pub2k<FM99>", "Priv2k<FM64,0>"})
    add(fmt::format("type '{}'", s), [s](ValueProto& p) { p.meta.set_storage_type(s); });
  add("complex flipped", [](ValueProto& p) { p.meta.set_is_complex(!p.meta.is_complex()); });
  return e;
}

// What a message means: empty if it means nothing.
struct Meaning {
  bool ok = false, any = false;
  std::vector<uint8_t> re, im;
};
bool half(const ValueProto& p, size_t b, size_t n, size_t want, std::vector<uint8_t>& out) {
  std::vector<const pb::ValueChunkProto*> c;
  for (size_t i = b; i < b + n; ++i) c.push_back(&p.chunks[i]);
  std::stable_sort(c.begin(), c.end(), [](auto* x, auto* y) { return x->chunk_offset() < y->chunk_offset(); });
  for (size_t i = 0; i < c.size(); ++i) {
    if (i > 0 && c[i]->chunk_offset() == c[i - 1]->chunk_offset()) return false;
    if (c[i]->chunk_offset() != out.size()) return false;
    out.insert(out.end(), c[i]->content().begin(), c[i]->content().end());
    if (out.size() > want) return false;
  }
  return out.size() == want && (n == 0 ? want == 0 : p.chunks[b].total_bytes() == want);
}
Meaning meaning(const ValueProto& p) {
  Meaning m;
  Type t;
  try {
    t = Type::fromString(p.meta.storage_type());
  } catch (const std::exception&) {
    return m;
  }
  int vis = t.isa<Secret>() ? VIS_SECRET : t.isa<Public>() ? VIS_PUBLIC : t.isa<Private>() ? VIS_PRIVATE : VIS_INVALID;
  if (static_cast<int>(p.meta.visibility()) != vis || static_cast<int>(p.meta.data_type()) == 0) return m;
  __int128 n = t.size();
  for (auto d : p.meta.shape().dims()) {
    if (d < 0) return m;
    n *= d;
    if (n > (__int128(1) << 62)) {
      m.any = true;  // refused or, with an empty axis later, accepted
      n = __int128(1) << 62;
    }
  }
  if (n > (1 << 20)) return m;
  const size_t want = static_cast<size_t>(n);
  if (!p.meta.is_complex()) {
    m.ok = half(p, 0, p.chunks.size(), want, m.re);
  } else {
    const size_t k = p.chunks.size() / 2;
    m.ok = p.chunks.size() % 2 == 0 && half(p, 0, k, want, m.re) && half(p, k, k, want, m.im);
  }
  return m;
}

void malformed() {
  struct Base {
    std::string name;
    Value v;
    size_t chunk;
  };
  storageTypes();
  std::vector<Base> bases;
  auto ty = makeType<semi2k::AShrTy>(FM64);
  bases.push_back({"secret[3]", Value(filled(ty, {3}, 1), DT_F32), 9});
  bases.push_back({"public[2,2]", Value(filled(makeType<Pub2kTy>(FM64), {2, 2}, 2), DT_I32), 16});
  bases.push_back({"complex[2]", Value(filled(ty, {2}, 3), filled(ty, {2}, 4), DT_F32), 8});
  bases.push_back({"scalar", Value(filled(ty, {}, 5), DT_I1), 100});
  bases.push_back({"empty", Value(filled(ty, {0}, 6), DT_I1), 100});
  for (const auto& b : bases)
    vh::unit("malformed/" + b.name, [b] {
      const auto p0 = b.v.toProto(b.chunk);
      auto es = edits(std::max<size_t>(p0.chunks.size(), 1));
      std::set<std::string> seen;
      auto key = [](const ValueProto& p) {
        std::string s = p.meta.SerializeAsString();
        for (auto& c : p.chunks) s += "|" + c.SerializeAsString();
        return s;
      };
      auto check = [&](const ValueProto& p, const std::string& path) {
        if (!seen.insert(key(p)).second) return false;
        vh::where(b.name + ": " + path);
        auto m = meaning(p);
        bool ok = true;
        Value r;
        try {
          r = Value::fromProto(p);
        } catch (const std::exception&) {
          ok = false;
        }
        VH_CHECK(ok == m.ok || m.any, "{} ({}): {}", b.name, path, ok ? "accepted, but means nothing" : "refused, but is valid");
        if (ok && m.ok) {
          VH_CHECK(contents(r.data()) == m.re, "{} ({}): contents", b.name, path);
          VH_CHECK(r.isComplex() == p.meta.is_complex(), "{} ({}): complex", b.name, path);
          if (r.isComplex()) VH_CHECK(contents(*r.imag()) == m.im, "{} ({}): imaginary contents", b.name, path);
          vh::add("accepted");
        }
        vh::add("states");
        vh::eval(vh::hash(key(p)), true);
        return true;
      };
      check(p0, "as sent");
      const int depth = vh::thorough() ? 4 : 3;
      std::vector<std::pair<ValueProto, std::string>> fr = {{p0, ""}};
      for (int d = 0; d < depth; ++d) {
        std::vector<std::pair<ValueProto, std::string>> nx;
        for (auto& [p, path] : fr)
          for (auto& [n, f] : es) {
            ValueProto q = p;
            if (!f(q)) continue;
            vh::add("transitions");
            std::string np = path.empty() ? n : path + ", " + n;
            if (check(q, np) && d + 1 < depth) nx.emplace_back(std::move(q), np);
          }
        fr = std::move(nx);
      }
    });
}
}  // namespace

void vh_units() {
  types();
  roundTrips();
  malformed();
}
