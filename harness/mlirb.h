// Builds programs for the runtime's executors (see env/include/mlir/mini.h).
#pragma once
#include "libspu/core/config.h"
#include "libspu/device/api.h"
#include "libspu/device/executor.h"
#include "libspu/dialect/pphlo/IR/ops.h"
#include "libspu/version.h"

namespace mb {
using mlir::Attribute;
using mlir::AttrStorage;
using mlir::Operation;
using mlir::Region;
using I64s = std::vector<int64_t>;
using V = mlir::Value;

inline Attribute mk(AttrStorage s) {
  Attribute a;
  a.impl = std::make_shared<AttrStorage>(std::move(s));
  return a;
}
inline Attribute boolA(bool b) {
  AttrStorage s{AttrStorage::Bool};
  s.i = b;
  return mk(s);
}
inline Attribute intA(int64_t i) {
  AttrStorage s{AttrStorage::Int};
  s.i = i;
  return mk(s);
}
inline Attribute strA(const std::string& v) {
  AttrStorage s{AttrStorage::Str};
  s.s = v;
  return mk(s);
}
inline Attribute arrA(const I64s& v) {
  AttrStorage s{AttrStorage::Array};
  s.a = v;
  return mk(s);
}
inline Attribute dictA(std::map<std::string, Attribute> d) {
  AttrStorage s{AttrStorage::Dict};
  s.d = std::move(d);
  return mk(s);
}
inline Attribute dimsA(AttrStorage::Kind k, std::vector<I64s> d) {
  AttrStorage s{k};
  s.dims = std::move(d);
  return mk(s);
}
inline mlir::Type i(int w) { return mlir::IntegerType::get(w); }
inline mlir::Type ui(int w) { return mlir::IntegerType::get(w, 2); }
inline mlir::Type f(int w) { return mlir::FloatType::get(w); }
inline mlir::Type cplx(int w) { return mlir::ComplexType::get(f(w)); }
inline mlir::Type sec(const mlir::Type& t) { return mlir::spu::pphlo::SecretType::get(t); }
inline mlir::Type ten(const I64s& shape, const mlir::Type& e) {
  return mlir::RankedTensorType::get(shape, e);
}
// Dense elements of a plain C type.
template <class T>
Attribute dense(const I64s& shape, const mlir::Type& e, const std::vector<T>& v, bool splat = false) {
  AttrStorage s{AttrStorage::Dense};
  s.type = ten(shape, e);
  s.splat = splat;
  s.raw.resize(v.size() * sizeof(T));
  std::memcpy(s.raw.data(), v.data(), s.raw.size());
  return mk(s);
}
using Attrs = std::map<std::string, Attribute>;

inline Operation* op(Region& r, const std::string& name, const std::vector<V>& operands,
                     const std::vector<mlir::Type>& results, Attrs attrs = {}) {
  auto o = std::make_unique<Operation>();
  o->name.n = name.find('.') == std::string::npos ? "pphlo." + name : name;
  o->operands = operands;
  for (size_t k = 0; k < results.size(); ++k) {
    o->results.push_back(std::make_unique<mlir::ValueImpl>());
    o->results.back()->type = results[k];
    o->results.back()->def = o.get();
    o->results.back()->index = static_cast<unsigned>(k);
  }
  o->attrs = std::move(attrs);
  o->parent = &r;
  r.block.ops.push_back(std::move(o));
  return r.block.ops.back().get();
}
inline V op1(Region& r, const std::string& name, const std::vector<V>& operands,
             const mlir::Type& result, Attrs attrs = {}) {
  return op(r, name, operands, {result}, std::move(attrs))->getResult(0);
}
inline Region& region(Operation* o) {
  o->regions.push_back(std::make_unique<Region>());
  o->regions.back()->owner = o;
  o->regions.back()->number = static_cast<unsigned>(o->regions.size() - 1);
  return *o->regions.back();
}
inline void ret(Region& r, const std::vector<V>& vs) { op(r, "return", vs, {}); }

// A program: its entry region and the text that stands for it.
struct Module {
  std::shared_ptr<mlir::ModuleOp::Impl> m = std::make_shared<mlir::ModuleOp::Impl>();
  Region* main = nullptr;
  std::string text;
  explicit Module(const std::string& t, const std::string& fn = "main") : text(t) {
    m->attrs["pphlo.version"] = strA(std::string(spu::getVersionStr()));
    main = &func(fn);
    mlir::mini::modules()[t] = m;
  }
  Region& func(const std::string& fn) {
    m->funcs.push_back(std::make_unique<mlir::func::FuncOp::Impl>());
    m->funcs.back()->name = fn;
    return m->funcs.back()->body;
  }
  ~Module() { mlir::mini::modules().erase(text); }
};
}  // namespace mb
