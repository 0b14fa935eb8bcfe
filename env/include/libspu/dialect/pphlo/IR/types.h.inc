namespace mlir::spu::pphlo {
class SecretType : public ::mlir::Type {
 public:
  static bool classof(const ::mlir::Type& t) {
    return t.impl && t.impl->kind == ::mlir::TypeStorage::Secret;
  }
  ::mlir::Type getBaseType() const { return ::mlir::Type(impl->elem); }
  static SecretType get(const ::mlir::Type& e) {
    SecretType t;
    t.impl = ::mlir::mini::intern({::mlir::TypeStorage::Secret, 0, 0, e.impl, {}});
    return t;
  }
};
}  // namespace mlir::spu::pphlo
