#include "mlir/mini.h"
namespace mlir {
namespace mini {
MLIRContext* context() {
  static auto* c = new MLIRContext();
  return c;
}
std::map<std::string, std::shared_ptr<ModuleOp::Impl>>& modules() {
  static auto* m = new std::map<std::string, std::shared_ptr<ModuleOp::Impl>>();
  return *m;
}
}  // namespace mini
std::string Type::str() const {
  if (!impl) return "none";
  switch (impl->kind) {
    case TypeStorage::Int:
      return (impl->sign == 2 ? "ui" : impl->sign == 1 ? "si" : "i") +
             std::to_string(impl->width);
    case TypeStorage::Float:
      return "f" + std::to_string(impl->width);
    case TypeStorage::Complex:
      return "complex<" + Type(impl->elem).str() + ">";
    case TypeStorage::Secret:
      return "secret<" + Type(impl->elem).str() + ">";
    case TypeStorage::Tensor: {
      std::string s = "tensor<";
      for (auto d : impl->shape) s += std::to_string(d) + "x";
      return s + Type(impl->elem).str() + ">";
    }
  }
  return "?";
}
}  // namespace mlir
