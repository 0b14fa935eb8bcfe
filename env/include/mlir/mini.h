// A stand-in for the few parts of MLIR the runtime touches: programs are built
// in memory (mlir::mini), not parsed.  Operations, values, blocks and regions
// behave as MLIR's; types and attributes are interned / shared immutable data.
#pragma once
#include <algorithm>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <queue>
#include <thread>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include "llvm/ADT/ArrayRef.h"
#include "llvm/ADT/DenseMapInfo.h"
#include "llvm/ADT/STLExtras.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/ADT/StringRef.h"
#include "llvm/Support/Casting.h"

namespace mlir {

class Operation;
class Region;
class Block;
class Type;
class Attribute;

struct Diagnostic {
  std::string str() const { return ""; }
};
struct DiagnosticEngine {
  template <class F>
  void registerHandler(F&&) {}
};
class MLIRContext {
  DiagnosticEngine eng_;

 public:
  template <class... D>
  void loadDialect() {}
  DiagnosticEngine& getDiagEngine() { return eng_; }
  void enableMultithreading(bool = true) {}
  void enterMultiThreadedExecution() {}
  void exitMultiThreadedExecution() {}
};

using llvm::ArrayRef;
using llvm::SmallVector;
using llvm::StringRef;

// ---------------------------------------------------------------- casting --
template <class T, class U>
bool isa(const U& u) {
  return T::classof(u);
}
template <class T, class U>
T dyn_cast(const U& u) {
  if (!u || !T::classof(u)) return T();
  T t;
  t.setImpl(u);
  return t;
}
template <class T, class U>
T cast(const U& u) {
  if (!u || !T::classof(u)) throw std::logic_error("mlir::cast");
  return dyn_cast<T>(u);
}

// ------------------------------------------------------------------ types --
struct TypeStorage {
  enum Kind { Int, Float, Complex, Tensor, Secret } kind;
  int width = 0;
  int sign = 0;  // 0 signless, 1 signed, 2 unsigned
  const TypeStorage* elem = nullptr;
  std::vector<int64_t> shape;
  bool operator==(const TypeStorage& o) const {
    return kind == o.kind && width == o.width && sign == o.sign &&
           elem == o.elem && shape == o.shape;
  }
};
namespace mini {
inline const TypeStorage* intern(const TypeStorage& t) {
  static auto* all = new std::vector<std::unique_ptr<TypeStorage>>();
  for (auto& p : *all)
    if (*p == t) return p.get();
  all->push_back(std::make_unique<TypeStorage>(t));
  return all->back().get();
}
MLIRContext* context();
}  // namespace mini

class Type {
 public:
  const TypeStorage* impl = nullptr;
  Type() = default;
  explicit Type(const TypeStorage* i) : impl(i) {}
  void setImpl(const Type& t) { impl = t.impl; }
  explicit operator bool() const { return impl != nullptr; }
  bool operator!() const { return impl == nullptr; }
  bool operator==(const Type& o) const { return impl == o.impl; }
  bool operator!=(const Type& o) const { return impl != o.impl; }
  MLIRContext* getContext() const { return mini::context(); }
  bool isF16() const { return isFloat(16); }
  bool isF32() const { return isFloat(32); }
  bool isF64() const { return isFloat(64); }
  bool isFloat(int w) const {
    return impl && impl->kind == TypeStorage::Float && impl->width == w;
  }
  bool isInteger(unsigned w) const {
    return impl && impl->kind == TypeStorage::Int &&
           impl->width == static_cast<int>(w);
  }
  bool isInteger() const { return impl && impl->kind == TypeStorage::Int; }
  std::string str() const;
};
class IntegerType : public Type {
 public:
  static bool classof(const Type& t) { return t.impl && t.impl->kind == TypeStorage::Int; }
  unsigned getWidth() const { return static_cast<unsigned>(impl->width); }
  bool isUnsigned() const { return impl->sign == 2; }
  bool isSigned() const { return impl->sign == 1; }
  bool isSignless() const { return impl->sign == 0; }
  static IntegerType get(int w, int sign = 0) {
    IntegerType t;
    t.impl = mini::intern({TypeStorage::Int, w, sign, nullptr, {}});
    return t;
  }
};
class FloatType : public Type {
 public:
  static bool classof(const Type& t) { return t.impl && t.impl->kind == TypeStorage::Float; }
  unsigned getWidth() const { return static_cast<unsigned>(impl->width); }
  static FloatType get(int w) {
    FloatType t;
    t.impl = mini::intern({TypeStorage::Float, w, 0, nullptr, {}});
    return t;
  }
};
class ComplexType : public Type {
 public:
  static bool classof(const Type& t) { return t.impl && t.impl->kind == TypeStorage::Complex; }
  Type getElementType() const { return Type(impl->elem); }
  static ComplexType get(Type e) {
    ComplexType t;
    t.impl = mini::intern({TypeStorage::Complex, 0, 0, e.impl, {}});
    return t;
  }
};
class ShapedType : public Type {
 public:
  static bool classof(const Type& t) { return t.impl && t.impl->kind == TypeStorage::Tensor; }
  ArrayRef<int64_t> getShape() const { return impl->shape; }
  Type getElementType() const { return Type(impl->elem); }
  int64_t getRank() const { return static_cast<int64_t>(impl->shape.size()); }
  int64_t getNumElements() const {
    int64_t n = 1;
    for (auto d : impl->shape) n *= d;
    return n;
  }
};
class TensorType : public ShapedType {};
class RankedTensorType : public TensorType {
 public:
  static RankedTensorType get(ArrayRef<int64_t> s, Type e) {
    RankedTensorType t;
    t.impl = mini::intern({TypeStorage::Tensor, 0, 0, e.impl,
                           std::vector<int64_t>(s.begin(), s.end())});
    return t;
  }
};
inline Type getElementTypeOrSelf(const Type& t) {
  return t.impl && t.impl->kind == TypeStorage::Tensor ? Type(t.impl->elem) : t;
}

// ------------------------------------------------------------- attributes --
struct APFloat {
  double v;
  double convertToDouble() const { return v; }
  float convertToFloat() const { return static_cast<float>(v); }
};
struct AttrStorage {
  enum Kind { Bool, Int, Str, Array, Dict, Dense, Conv, Dot } kind;
  int64_t i = 0;
  std::string s;
  std::vector<int64_t> a;
  std::map<std::string, Attribute> d;
  // dense
  Type type;  // ranked tensor
  std::vector<char> raw;
  bool splat = false;
  // dimension numbers
  std::vector<std::vector<int64_t>> dims;
};
class Attribute {
 public:
  std::shared_ptr<const AttrStorage> impl;
  void setImpl(const Attribute& t) { impl = t.impl; }
  explicit operator bool() const { return impl != nullptr; }
  bool operator!() const { return impl == nullptr; }
};
#define MINI_ATTR(K) \
  static bool classof(const Attribute& a) { return a.impl && a.impl->kind == AttrStorage::K; }
class BoolAttr : public Attribute {
 public:
  MINI_ATTR(Bool)
  bool getValue() const { return impl->i != 0; }
};
class IntegerAttr : public Attribute {
 public:
  MINI_ATTR(Int)
  int64_t getInt() const { return impl->i; }
};
class StringAttr : public Attribute {
 public:
  MINI_ATTR(Str)
  StringRef getValue() const { return impl->s; }
  std::string str() const { return impl->s; }
};
class DenseI64ArrayAttr : public Attribute {
 public:
  MINI_ATTR(Array)
  ArrayRef<int64_t> asArrayRef() const { return impl->a; }
  operator ArrayRef<int64_t>() const { return impl->a; }
};
class DictionaryAttr : public Attribute {
 public:
  MINI_ATTR(Dict)
  Attribute get(StringRef k) const {
    auto it = impl->d.find(k.str());
    return it == impl->d.end() ? Attribute() : it->second;
  }
};
class DenseElementsAttr : public Attribute {
 public:
  MINI_ATTR(Dense)
  bool isSplat() const { return impl->splat; }
  RankedTensorType getType() const { return mlir::cast<RankedTensorType>(impl->type); }
  Type getElementType() const { return getType().getElementType(); }
  ArrayRef<char> getRawData() const { return ArrayRef<char>(impl->raw.data(), impl->raw.size()); }
  template <class T>
  std::vector<T> getValues() const {
    static_assert(std::is_same_v<T, bool>);
    std::vector<T> r;
    auto n = getType().getNumElements();
    for (int64_t k = 0; k < n; ++k)
      r.push_back(impl->raw[splatAt(k)] != 0);
    return r;
  }
  template <class T>
  T getSplatValue() const {
    if (!impl->splat) throw std::logic_error("not a splat");
    if constexpr (std::is_same_v<T, bool>) {
      return impl->raw[0] != 0;
    } else {
      static_assert(std::is_same_v<T, APFloat>);
      if (getElementType().isF32()) {
        float f;
        std::copy_n(impl->raw.data(), 4, reinterpret_cast<char*>(&f));
        return {f};
      }
      double f;
      std::copy_n(impl->raw.data(), 8, reinterpret_cast<char*>(&f));
      return {f};
    }
  }

 private:
  size_t splatAt(int64_t k) const { return impl->splat ? 0 : static_cast<size_t>(k); }
};
using ElementsAttr = DenseElementsAttr;

// ----------------------------------------------------------------- values --
struct ValueImpl {
  Type type;
  Operation* def = nullptr;  // null: block argument
  unsigned index = 0;
};
class Value {
 public:
  ValueImpl* impl = nullptr;
  Value() = default;
  Value(ValueImpl* i) : impl(i) {}
  explicit operator bool() const { return impl != nullptr; }
  bool operator==(const Value& o) const { return impl == o.impl; }
  bool operator!=(const Value& o) const { return impl != o.impl; }
  Type getType() const { return impl->type; }
  MLIRContext* getContext() const { return mini::context(); }
  Operation* getDefiningOp() const { return impl->def; }
  template <class OpT>
  OpT getDefiningOp() const;
};
class BlockArgument : public Value {
 public:
  using Value::Value;
  unsigned getArgNumber() const { return impl->index; }
};
class OpResult : public Value {
 public:
  using Value::Value;
};

// A view of an operation's operands, results or their types: iterators of two
// calls on the same operation may be mixed, as in MLIR.
template <class V>
class VRange {
  const V* b_ = nullptr;
  size_t n_ = 0;
  std::shared_ptr<std::vector<V>> own_;

 public:
  VRange() = default;
  VRange(const V* b, size_t n) : b_(b), n_(n) {}
  explicit VRange(std::vector<V> v) : own_(std::make_shared<std::vector<V>>(std::move(v))) {
    b_ = own_->data();
    n_ = own_->size();
  }
  const V* begin() const { return b_; }
  const V* end() const { return b_ + n_; }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  V operator[](size_t i) const {
    if (i >= n_) throw std::out_of_range("range");
    return b_[i];
  }
  V front() const { return (*this)[0]; }
};
using OperandRange = VRange<Value>;
using ValueRange = VRange<Value>;
using ResultRange = VRange<Value>;
using TypeRange = VRange<Type>;

struct OperationName {
  std::string n;
  StringRef getStringRef() const { return n; }
};
struct Location {};

template <class T>
class OwnedRange {  // iterates T& over vector<unique_ptr<T>>
 public:
  using Vec = std::vector<std::unique_ptr<T>>;
  struct It {
    typename Vec::const_iterator it;
    T& operator*() const { return **it; }
    T* operator->() const { return it->get(); }
    It& operator++() {
      ++it;
      return *this;
    }
    bool operator!=(const It& o) const { return it != o.it; }
    bool operator==(const It& o) const { return it == o.it; }
  };
  OwnedRange(const Vec& v, size_t n) : b_{v.begin()}, e_{v.begin() + static_cast<long>(n)} {}
  It begin() const { return b_; }
  It end() const { return e_; }

 private:
  It b_, e_;
};

class Block {
 public:
  std::vector<std::unique_ptr<Operation>> ops;
  Region* parent = nullptr;
  OwnedRange<Operation> without_terminator() const { return {ops, ops.size() - 1}; }
  Operation* getTerminator() const { return ops.empty() ? nullptr : ops.back().get(); }
  Operation& back() const { return *ops.back(); }
  OwnedRange<Operation> all() const { return {ops, ops.size()}; }
};

class Region {
 public:
  Block block;
  std::vector<std::unique_ptr<ValueImpl>> args;
  Operation* owner = nullptr;
  unsigned number = 0;
  Region() { block.parent = this; }
  Region(const Region&) = delete;
  unsigned getNumArguments() const { return static_cast<unsigned>(args.size()); }
  std::vector<BlockArgument> getArguments() const {
    std::vector<BlockArgument> r;
    for (auto& a : args) r.emplace_back(a.get());
    return r;
  }
  unsigned getRegionNumber() const { return number; }
  bool hasOneBlock() const { return true; }
  Block& front() { return block; }
  Block& back() { return block; }
  template <class F>
  void walk(F&& f);
  BlockArgument addArgument(Type t) {
    args.push_back(std::make_unique<ValueImpl>());
    args.back()->type = t;
    args.back()->index = static_cast<unsigned>(args.size() - 1);
    return BlockArgument(args.back().get());
  }
};

class Operation {
 public:
  OperationName name;
  std::vector<Value> operands;
  std::vector<std::unique_ptr<ValueImpl>> results;
  std::vector<std::unique_ptr<Region>> regions;
  std::map<std::string, Attribute> attrs;
  Region* parent = nullptr;
  mutable std::vector<Value> result_values_;

  const OperationName& getName() const { return name; }
  OperandRange getOperands() const { return {operands.data(), operands.size()}; }
  unsigned getNumOperands() const { return static_cast<unsigned>(operands.size()); }
  Value getOperand(unsigned i) const { return operands.at(i); }
  TypeRange getOperandTypes() const {
    std::vector<Type> r;
    for (auto& o : operands) r.push_back(o.getType());
    return TypeRange(r);
  }
  ResultRange getResults() const {
    if (result_values_.size() != results.size()) {
      result_values_.clear();
      for (auto& o : results) result_values_.emplace_back(o.get());
    }
    return {result_values_.data(), result_values_.size()};
  }
  unsigned getNumResults() const { return static_cast<unsigned>(results.size()); }
  Value getResult(unsigned i) const { return Value(results.at(i).get()); }
  TypeRange getResultTypes() const {
    std::vector<Type> r;
    for (auto& o : results) r.push_back(o->type);
    return TypeRange(r);
  }
  unsigned getNumRegions() const { return static_cast<unsigned>(regions.size()); }
  OwnedRange<Region> getRegions() const { return {regions, regions.size()}; }
  Region& getRegion(unsigned i) const { return *regions.at(i); }
  Region* getParentRegion() const { return parent; }
  Attribute getAttr(StringRef k) const {
    auto it = attrs.find(k.str());
    return it == attrs.end() ? Attribute() : it->second;
  }
  bool hasAttr(StringRef k) const { return attrs.count(k.str()) != 0; }
  template <class A>
  A getAttrOfType(StringRef k) const {
    return mlir::dyn_cast<A>(getAttr(k));
  }
  MLIRContext* getContext() const { return mini::context(); }
  Location getLoc() const { return {}; }
};

template <class F>
void Region::walk(F&& f) {
  for (auto& op : block.ops) {
    for (auto& r : op->regions) r->walk(f);
    f(op.get());
  }
}

class OpState {
 public:
  Operation* op_ = nullptr;
  OpState() = default;
  explicit OpState(Operation* op) : op_(op) {}
  explicit operator bool() const { return op_ != nullptr; }
  Operation* operator->() const { return op_; }
  Operation* getOperation() const { return op_; }
  operator Operation*() const { return op_; }
  MLIRContext* getContext() const { return mini::context(); }
  ResultRange getResults() const { return op_->getResults(); }
  OperandRange getOperands() const { return op_->getOperands(); }
  Value getResult(unsigned i) const { return op_->getResult(i); }
  // single-result conveniences
  Value getResult() const { return op_->getResult(0); }
  Type getType() const { return op_->getResult(0).getType(); }

 protected:
  std::optional<ArrayRef<int64_t>> optArr(const char* k) const {
    auto a = op_->getAttrOfType<DenseI64ArrayAttr>(k);
    if (!a) return std::nullopt;
    return a.asArrayRef();
  }
  ArrayRef<int64_t> arr(const char* k) const {
    auto a = op_->getAttrOfType<DenseI64ArrayAttr>(k);
    if (!a) throw std::logic_error(std::string("missing attribute ") + k);
    return a.asArrayRef();
  }
  int64_t i64(const char* k, int64_t dflt) const {
    auto a = op_->getAttrOfType<IntegerAttr>(k);
    return a ? a.getInt() : dflt;
  }
  bool flag(const char* k, bool dflt) const {
    auto a = op_->getAttrOfType<BoolAttr>(k);
    return a ? a.getValue() : dflt;
  }
  OperandRange operandsFrom(size_t b, size_t e) const {
    return {op_->operands.data() + b, e - b};
  }
};

template <class OpT>
OpT Value::getDefiningOp() const {
  if (impl->def && OpT::classof(impl->def)) return OpT(impl->def);
  return OpT();
}

// ---------------------------------------------------------- module & func --
namespace func {
class FuncOp {
 public:
  struct Impl {
    std::string name;
    Region body;
  };
  Impl* impl = nullptr;
  explicit operator bool() const { return impl != nullptr; }
  Region& getBody() const { return impl->body; }
  std::string getName() const { return impl->name; }
};
class FuncDialect {};
}  // namespace func

class ModuleOp {
 public:
  struct Impl {
    std::map<std::string, Attribute> attrs;
    std::vector<std::unique_ptr<func::FuncOp::Impl>> funcs;
    bool hasAttr(StringRef k) const { return attrs.count(k.str()) != 0; }
    Attribute getAttr(StringRef k) const {
      auto it = attrs.find(k.str());
      return it == attrs.end() ? Attribute() : it->second;
    }
  };
  Impl* impl = nullptr;
  explicit operator bool() const { return impl != nullptr; }
  Impl* operator->() const { return impl; }
  template <class F>
  F lookupSymbol(StringRef n) const {
    for (auto& f : impl->funcs)
      if (f->name == n) return F{f.get()};
    return F{};
  }
  template <class F>
  std::vector<F> getOps() const {
    std::vector<F> r;
    for (auto& f : impl->funcs) r.push_back(F{f.get()});
    return r;
  }
};
template <class M>
struct OwningOpRef {
  M m;
  M get() const { return m; }
  explicit operator bool() const { return static_cast<bool>(m); }
};
namespace mini {
// "Source text" is the name of a module registered here.
std::map<std::string, std::shared_ptr<ModuleOp::Impl>>& modules();
}
template <class M>
OwningOpRef<M> parseSourceString(const std::string& text, MLIRContext*) {
  auto it = mini::modules().find(text);
  if (it == mini::modules().end()) return {};
  return {M{it->second.get()}};
}
}  // namespace mlir

namespace llvm {
template <>
struct DenseMapInfo<mlir::Value> {
  static mlir::Value getEmptyKey() {
    return mlir::Value(DenseMapInfo<mlir::ValueImpl*>::getEmptyKey());
  }
  static mlir::Value getTombstoneKey() {
    return mlir::Value(DenseMapInfo<mlir::ValueImpl*>::getTombstoneKey());
  }
  static unsigned getHashValue(mlir::Value v) {
    return DenseMapInfo<mlir::ValueImpl*>::getHashValue(v.impl);
  }
  static bool isEqual(mlir::Value a, mlir::Value b) { return a == b; }
};
template <typename T>
struct CastInfo<T, ::mlir::Operation,
                std::enable_if_t<std::is_base_of_v<::mlir::OpState, T>>> {
  static bool isPossible(::mlir::Operation& op) { return T::classof(&op); }
  static T doCast(::mlir::Operation& op) { return T(&op); }
  static T castFailed() { return T(); }
  static T doCastIfPossible(::mlir::Operation& op) {
    return isPossible(op) ? doCast(op) : castFailed();
  }
};
}  // namespace llvm
