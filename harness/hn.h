// Typed tensor programs over the hal/hlo kernels: inputs, execution at every
// party under the controlled scheduler, and comparison with plain tensors.
#pragma once
#include "net.h"
#include "protos.h"

#include <cmath>

#include "libspu/core/config.h"

namespace vn {
using Ix = std::vector<int64_t>;
// Calls f with every index of a shape, in row major order.
inline void eachIx(const Shape& shape, const std::function<void(const Ix&)>& f) {
  int64_t n = 1;
  for (auto d : shape) n *= d;
  Ix ix(shape.size(), 0);
  for (int64_t i = 0; i < n; ++i) {
    f(ix);
    for (int d = static_cast<int>(shape.size()) - 1; d >= 0; --d) {
      if (++ix[d] < shape[d]) break;
      ix[d] = 0;
    }
  }
}
// A plain tensor of ring words, as signed numbers.
struct T {
  Shape shape;
  std::vector<int64_t> v;
  int64_t lin(const Ix& ix) const {
    int64_t o = 0;
    for (size_t d = 0; d < shape.size(); ++d) o = o * shape[d] + ix[d];
    return o;
  }
  int64_t at(const Ix& ix) const { return v[lin(ix)]; }
  int64_t& at(const Ix& ix) { return v[lin(ix)]; }
  static T make(const Shape& s, const std::function<int64_t(const Ix&)>& f) {
    T t{s, {}};
    eachIx(s, [&](const Ix& ix) { t.v.push_back(f(ix)); });
    return t;
  }
  static T iota(const Shape& s, int64_t first = 100, int64_t step = 7) {
    T t{s, {}};
    for (int64_t i = 0; i < s.numel(); ++i) t.v.push_back(first + i * step);
    return t;
  }
};
struct In {
  char kind = 'p';
  spu::DataType dt = spu::DT_I32;
  T t;
  int layout = kCompact;
  std::vector<int64_t> im;  // complex part
};
inline std::string kindsOf(const Conf& c) { return c.name.rfind("ref2k", 0) == 0 ? "psvw" : "pabvw"; }

inline Value mkIn(SPUContext* ctx, FieldType f, const In& in) {
  auto one = [&](const std::vector<int64_t>& v) {
    Arg a;
    a.kind = in.kind;
    a.shape = in.t.shape;
    a.layout = in.layout == kBroadcast ? kCompact : in.layout;
    for (auto x : v) a.data.push_back(static_cast<U>(static_cast<int128_t>(x)) & maskOf(bitsOf(f)));
    auto r = mkArg(ctx, f, a);
    r.setDtype(in.dt, true);
    return r;
  };
  auto re = one(in.t.v);
  if (in.im.empty()) return re;
  auto im = one(in.im);
  return Value(re.data(), im.data(), in.dt);
}
struct Out {
  Shape shape;
  spu::DataType dt;
  spu::Visibility vis;
  std::vector<int64_t> v, im;
};
using Prog = std::function<std::vector<Value>(SPUContext*, const std::vector<Value>&)>;

inline Out openOut(SPUContext* ctx, const Value& r, FieldType f) {
  Out o{r.shape(), r.dtype(), r.vtype(), {}, {}};
  auto one = [&](const NdArrayRef& a) {
    std::vector<int64_t> v;
    for (auto x : readArr(reveal(ctx, Value(a, r.dtype())).data())) {
      int128_t s = sgn(x, bitsOf(f));
      // words beyond 64 bits never equal a reference value
      v.push_back(s == static_cast<int64_t>(s) ? static_cast<int64_t>(s) : INT64_MIN + 7);
    }
    return v;
  };
  o.v = one(r.data());
  if (r.isComplex()) o.im = one(*r.imag());
  return o;
}
// Runs the program at every party; all parties must agree on the outputs and
// inputs must be left alone.
inline std::vector<Out> exec(Net& net, const std::string& what, const std::vector<In>& ins, const Prog& fn) {
  vh::where(net.conf.str() + " " + what);
  std::vector<std::vector<Out>> out(net.conf.npc);
  std::vector<std::string> changed(net.conf.npc);
  net.run(what, [&](SPUContext* ctx, size_t i) {
    std::vector<Value> v;
    for (auto& x : ins) v.push_back(mkIn(ctx, net.conf.pub, x));
    std::vector<std::vector<U>> before;
    for (auto& x : v) before.push_back(readArr(x.data()));
    auto r = fn(ctx, v);
    for (size_t j = 0; j < v.size(); ++j)
      if (readArr(v[j].data()) != before[j]) changed[i] = fmt::format("operand {} was modified", j);
    for (auto& x : r) out[i].push_back(openOut(ctx, x, net.conf.pub));
  });
  for (size_t i = 0; i < net.conf.npc; ++i) {
    VH_CHECK(changed[i].empty(), "{} {}: {}", net.conf.str(), what, changed[i]);
    VH_CHECK(out[i].size() == out[0].size(), "{} {}: parties disagree on the outputs", net.conf.str(), what);
    for (size_t j = 0; j < out[i].size(); ++j)
      VH_CHECK(out[i][j].shape == out[0][j].shape && out[i][j].dt == out[0][j].dt && out[i][j].v == out[0][j].v &&
                   out[i][j].im == out[0][j].im && out[i][j].vis == out[0][j].vis,
               "{} {}: parties disagree on output {}", net.conf.str(), what, j);
  }
  vh::eval(vh::hash(net.conf.str() + what));
  return out[0];
}
// Exact comparison.
inline void expectT(const Net& net, const std::string& what, const Out& o, const T& want,
                    spu::DataType dt = spu::DT_INVALID) {
  VH_CHECK(o.shape == want.shape, "{} {}: result shape {} expected {}", net.conf.str(), what, o.shape, want.shape);
  if (dt != spu::DT_INVALID)
    VH_CHECK(o.dt == dt, "{} {}: data type {} expected {}", net.conf.str(), what, int(o.dt), int(dt));
  for (size_t i = 0; i < want.v.size(); ++i)
    VH_CHECK(o.v[i] == want.v[i], "{} {}: element {}: {} expected {}", net.conf.str(), what, i, o.v[i], want.v[i]);
}

inline Conf fullConf(Conf c) {
  c.rc = spu::makeFullRuntimeConfig(c.rc);
  return c;
}
// The protocols a tensor program is explored under.
inline std::vector<Conf> hloConfs(std::vector<FieldType> fs = {FM64}) {
  std::vector<Conf> r;
  for (auto f : fs) {
#ifdef USE_REF2K
    r.push_back(fullConf(ref2k(2, f)));
#endif
#ifdef USE_SEMI2K
    r.push_back(fullConf(semi2k(2, f)));
    if (vh::thorough()) r.push_back(fullConf(semi2k(3, f)));
#endif
#ifdef USE_ABY3
    r.push_back(fullConf(aby3(f)));
#endif
  }
  return r;
}
inline std::vector<std::vector<int64_t>> tuples(const std::vector<std::vector<int64_t>>& dom) {
  std::vector<std::vector<int64_t>> r = {{}};
  for (auto& d : dom) {
    std::vector<std::vector<int64_t>> n;
    for (auto& p : r)
      for (auto x : d) {
        n.push_back(p);
        n.back().push_back(x);
      }
    r = n;
  }
  return r;
}
inline std::vector<int64_t> rangeOf(int64_t a, int64_t b) {  // inclusive
  std::vector<int64_t> r;
  for (; a <= b; ++a) r.push_back(a);
  return r;
}
}  // namespace vn
