#pragma once
#include <string>
#include "mlir/mini.h"
namespace mlir::spu {
inline std::string mlirObjectToString(const Type& t) { return t.str(); }
inline std::string mlirObjectToString(const Operation& t) { return t.name.n; }
inline std::string mlirObjectToString(const Location&) { return "-"; }
inline std::string mlirObjectToString(const OpState& t) { return t.op_->name.n; }
mlir::func::FuncOp get_entrypoint(ModuleOp op);
}  // namespace mlir::spu
