// Programs run through the runtime's front door: symbol table in, symbol
// table out, every operation dispatched by the PPHLO executor.
#pragma once
#include "hn.h"
#include "mlirb.h"
#include "libspu/device/pphlo/pphlo_executor.h"
#include "libspu/device/symbol_table.h"

namespace vn {
using Vals = std::vector<Value>;

inline mlir::Type elemTy(spu::DataType dt) {
  switch (dt) {
    case spu::DT_I1: return mb::i(1);
    case spu::DT_I8: return mb::i(8);
    case spu::DT_U8: return mb::ui(8);
    case spu::DT_I16: return mb::i(16);
    case spu::DT_U16: return mb::ui(16);
    case spu::DT_I32: return mb::i(32);
    case spu::DT_U32: return mb::ui(32);
    case spu::DT_I64: return mb::i(64);
    case spu::DT_U64: return mb::ui(64);
    case spu::DT_F16: return mb::f(16);
    case spu::DT_F32: return mb::f(32);
    case spu::DT_F64: return mb::f(64);
    default: return mlir::Type();
  }
}
inline mlir::Type tyOf(const Shape& s, spu::DataType dt, bool secret, bool cplx = false) {
  auto e = elemTy(dt);
  if (cplx) e = mlir::ComplexType::get(e);
  if (secret) e = mb::sec(e);
  return mb::ten(mb::I64s(s.begin(), s.end()), e);
}
inline int g_mods = 0;
// A program under construction with its inputs.
struct PM {
  mb::Module m;
  std::vector<In> ins;
  std::vector<std::string> in_names, out_names;
  PM() : m(fmt::format("program-{}", g_mods++)) {}
  mb::Region& r() { return *m.main; }
  mb::V arg(const In& in) {
    ins.push_back(in);
    in_names.push_back(fmt::format("in{}", in_names.size()));
    return r().addArgument(tyOf(in.t.shape, in.dt, in.kind != 'p', !in.im.empty()));
  }
  mb::V add(const std::string& name, const std::vector<mb::V>& ops, const mlir::Type& t, mb::Attrs a = {}) {
    return mb::op1(r(), name, ops, t, std::move(a));
  }
  void finish(const std::vector<mb::V>& outs) {
    mb::ret(r(), outs);
    out_names.clear();
    for (size_t k = 0; k < outs.size(); ++k) out_names.push_back(fmt::format("out{}", k));
  }
  // serial or parallel is up to the configuration of the context
  Prog prog() const {
    return [this](SPUContext* cx, const std::vector<Value>& v) {
      spu::device::SymbolTable env;
      for (size_t k = 0; k < v.size(); ++k) env.setVar(in_names[k], v[k]);
      spu::device::pphlo::PPHloExecutor ex;
      spu::device::execute(&ex, cx, m.text, in_names, out_names, &env);
      Vals out;
      for (auto& n : out_names) out.push_back(env.getVar(n));
      return out;
    };
  }
  std::vector<Out> run(Net& net, const std::string& what) const { return exec(net, what, ins, prog()); }
};
inline Conf ppConf(Conf c) {
  c.rc.enable_type_checker = true;
  return c;
}
}  // namespace vn
