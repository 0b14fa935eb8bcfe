// The accessors ops.td generates, over mlir/mini.h.
#pragma once
#include "libspu/dialect/pphlo/IR/base_enums.h"
#include "libspu/dialect/pphlo/IR/types.h"
#include "mlir/mini.h"

namespace mlir::spu::pphlo {

class ConvDimensionNumbersAttr : public Attribute {
 public:
  MINI_ATTR(Conv)
  int64_t getInputBatchDimension() const { return one(0); }
  int64_t getInputFeatureDimension() const { return one(1); }
  ArrayRef<int64_t> getInputSpatialDimensions() const { return impl->dims.at(2); }
  int64_t getKernelInputFeatureDimension() const { return one(3); }
  int64_t getKernelOutputFeatureDimension() const { return one(4); }
  ArrayRef<int64_t> getKernelSpatialDimensions() const { return impl->dims.at(5); }
  int64_t getOutputBatchDimension() const { return one(6); }
  int64_t getOutputFeatureDimension() const { return one(7); }
  ArrayRef<int64_t> getOutputSpatialDimensions() const { return impl->dims.at(8); }

 private:
  int64_t one(size_t k) const { return impl->dims.at(k).at(0); }
};
class DotDimensionNumbersAttr : public Attribute {
 public:
  MINI_ATTR(Dot)
  ArrayRef<int64_t> getLhsBatchingDimensions() const { return impl->dims.at(0); }
  ArrayRef<int64_t> getRhsBatchingDimensions() const { return impl->dims.at(1); }
  ArrayRef<int64_t> getLhsContractingDimensions() const { return impl->dims.at(2); }
  ArrayRef<int64_t> getRhsContractingDimensions() const { return impl->dims.at(3); }
};

#define MINI_OP(Cls, Name)                                     \
 public:                                                       \
  Cls() = default;                                             \
  explicit Cls(Operation* op) : OpState(op) {}                 \
  static constexpr const char* kName = "pphlo." Name;          \
  static bool classof(const Operation* o) { return o->name.n == kName; }

#define MINI_OPND(I, G) \
  Value get##G() const { return op_->getOperand(I); }

#define MINI_UNARY(Cls, Name) \
  class Cls : public OpState { MINI_OP(Cls, Name) MINI_OPND(0, Operand) };
#define MINI_BINARY(Cls, Name) \
  class Cls : public OpState { MINI_OP(Cls, Name) MINI_OPND(0, Lhs) MINI_OPND(1, Rhs) };

MINI_UNARY(AbsOp, "abs") MINI_UNARY(CeilOp, "ceil") MINI_UNARY(ConvertOp, "convert")
MINI_UNARY(CosineOp, "cosine") MINI_UNARY(ExpOp, "exponential")
MINI_UNARY(Expm1Op, "exponential_minus_one") MINI_UNARY(FloorOp, "floor")
MINI_UNARY(LogOp, "log") MINI_UNARY(Log1pOp, "log_plus_one")
MINI_UNARY(LogisticOp, "logistic") MINI_UNARY(NegOp, "negate") MINI_UNARY(NotOp, "not")
MINI_UNARY(PopcntOp, "popcnt") MINI_UNARY(RoundOp, "round_nearest_afz")
MINI_UNARY(RoundNearestEvenOp, "round_nearest_even") MINI_UNARY(RsqrtOp, "rsqrt")
MINI_UNARY(SineOp, "sine") MINI_UNARY(SqrtOp, "sqrt") MINI_UNARY(TanhOp, "tanh")
MINI_UNARY(BitcastConvertOp, "bitcast_convert") MINI_UNARY(ReshapeOp, "reshape")
MINI_UNARY(RealOp, "real") MINI_UNARY(ImagOp, "imag") MINI_UNARY(FreeOp, "free")
MINI_UNARY(ReciprocalOp, "reciprocal")

MINI_BINARY(AddOp, "add") MINI_BINARY(DivOp, "divide") MINI_BINARY(MaxOp, "maximum")
MINI_BINARY(MinOp, "minimum") MINI_BINARY(MulOp, "multiply") MINI_BINARY(PowOp, "power")
MINI_BINARY(RemOp, "remainder") MINI_BINARY(Atan2Op, "atan2")
MINI_BINARY(ShiftLeftOp, "shift_left")
MINI_BINARY(ShiftRightArithmeticOp, "shift_right_arithmetic")
MINI_BINARY(ShiftRightLogicalOp, "shift_right_logical")
MINI_BINARY(SubtractOp, "subtract") MINI_BINARY(AndOp, "and") MINI_BINARY(OrOp, "or")
MINI_BINARY(XorOp, "xor") MINI_BINARY(EqualOp, "equal")
MINI_BINARY(NotEqualOp, "not_equal") MINI_BINARY(GreaterEqualOp, "greater_equal")
MINI_BINARY(GreaterOp, "greater") MINI_BINARY(LessEqualOp, "less_equal")
MINI_BINARY(LessOp, "less") MINI_BINARY(BroadcastShapeAsOp, "broadcast_as")
MINI_BINARY(DotOp, "dot") MINI_BINARY(ComplexOp, "complex")

class ConstantOp : public OpState {
  MINI_OP(ConstantOp, "constant")
  ElementsAttr getValue() const { return op_->getAttrOfType<ElementsAttr>("value"); }
  RankedTensorType getType() const {
    return mlir::cast<RankedTensorType>(op_->getResult(0).getType());
  }
};
class IotaOp : public OpState {
  MINI_OP(IotaOp, "iota")
  uint64_t getIotaDimension() const { return static_cast<uint64_t>(i64("iota_dimension", 0)); }
  Value getOutput() const { return op_->getResult(0); }
};
class SignOp : public OpState {
  MINI_OP(SignOp, "sign") MINI_OPND(0, Operand)
  bool getIgnoreZero() const { return flag("ignore_zero", false); }
};
class RngOp : public OpState {
  MINI_OP(RngOp, "rng") MINI_OPND(0, A) MINI_OPND(1, B)
};
class BroadcastOp : public OpState {
  MINI_OP(BroadcastOp, "broadcast") MINI_OPND(0, Operand)
  ArrayRef<int64_t> getBroadcastDimensions() const { return arr("broadcast_dimensions"); }
};
class ClampOp : public OpState {
  MINI_OP(ClampOp, "clamp") MINI_OPND(0, Min) MINI_OPND(1, Operand) MINI_OPND(2, Max)
};
class ConcatenateOp : public OpState {
  MINI_OP(ConcatenateOp, "concatenate")
  OperandRange getInputs() const { return op_->getOperands(); }
  uint64_t getDimension() const { return static_cast<uint64_t>(i64("dimension", 0)); }
};
class ConvolutionOp : public OpState {
  MINI_OP(ConvolutionOp, "convolution") MINI_OPND(0, Lhs) MINI_OPND(1, Rhs)
  std::optional<ArrayRef<int64_t>> getWindowStrides() const { return optArr("window_strides"); }
  ConvDimensionNumbersAttr getDimensionNumbers() const {
    return op_->getAttrOfType<ConvDimensionNumbersAttr>("dimension_numbers");
  }
};
class DotGeneralOp : public OpState {
  MINI_OP(DotGeneralOp, "dot_general") MINI_OPND(0, Lhs) MINI_OPND(1, Rhs)
  DotDimensionNumbersAttr getDotDimensionNumbers() const {
    return op_->getAttrOfType<DotDimensionNumbersAttr>("dot_dimension_numbers");
  }
};
class DynamicSliceOp : public OpState {
  MINI_OP(DynamicSliceOp, "dynamic_slice") MINI_OPND(0, Operand)
  OperandRange getStartIndices() const { return operandsFrom(1, op_->getNumOperands()); }
  ArrayRef<int64_t> getSliceSizes() const { return arr("slice_sizes"); }
};
class DynamicUpdateSliceOp : public OpState {
  MINI_OP(DynamicUpdateSliceOp, "dynamic_update_slice") MINI_OPND(0, Operand) MINI_OPND(1, Update)
  OperandRange getStartIndices() const { return operandsFrom(2, op_->getNumOperands()); }
};
class PadOp : public OpState {
  MINI_OP(PadOp, "pad") MINI_OPND(0, Operand) MINI_OPND(1, PaddingValue)
  ArrayRef<int64_t> getEdgePaddingLow() const { return arr("edge_padding_low"); }
  ArrayRef<int64_t> getEdgePaddingHigh() const { return arr("edge_padding_high"); }
  ArrayRef<int64_t> getInteriorPadding() const { return arr("interior_padding"); }
};
#define MINI_HALVES                                                             \
  OperandRange getInputs() const { return operandsFrom(0, op_->getNumOperands() / 2); } \
  OperandRange getInitValues() const {                                          \
    return operandsFrom(op_->getNumOperands() / 2, op_->getNumOperands());      \
  }
class ReduceOp : public OpState {
  MINI_OP(ReduceOp, "reduce") MINI_HALVES
  ArrayRef<int64_t> getDimensions() const { return arr("dimensions"); }
  Region& getBody() const { return op_->getRegion(0); }
};
class ReduceWindowOp : public OpState {
  MINI_OP(ReduceWindowOp, "reduce_window") MINI_HALVES
  ArrayRef<int64_t> getWindowDimensions() const { return arr("window_dimensions"); }
  std::optional<ArrayRef<int64_t>> getWindowStrides() const { return optArr("window_strides"); }
  std::optional<ArrayRef<int64_t>> getWindowDilations() const { return optArr("window_dilations"); }
  Region& getBody() const { return op_->getRegion(0); }
};
class ReverseOp : public OpState {
  MINI_OP(ReverseOp, "reverse") MINI_OPND(0, Operand)
  ArrayRef<int64_t> getDimensions() const { return arr("dimensions"); }
};
class SelectOp : public OpState {
  MINI_OP(SelectOp, "select") MINI_OPND(0, Pred) MINI_OPND(1, OnTrue) MINI_OPND(2, OnFalse)
};
class SelectAndScatterOp : public OpState {
  MINI_OP(SelectAndScatterOp, "select_and_scatter")
  MINI_OPND(0, Operand) MINI_OPND(1, Source) MINI_OPND(2, InitValue)
  ArrayRef<int64_t> getWindowDimensions() const { return arr("window_dimensions"); }
  std::optional<ArrayRef<int64_t>> getWindowStrides() const { return optArr("window_strides"); }
  Region& getSelect() const { return op_->getRegion(0); }
  Region& getScatter() const { return op_->getRegion(1); }
};
class SliceOp : public OpState {
  MINI_OP(SliceOp, "slice") MINI_OPND(0, Operand)
  ArrayRef<int64_t> getStartIndices() const { return arr("start_indices"); }
  ArrayRef<int64_t> getLimitIndices() const { return arr("limit_indices"); }
  ArrayRef<int64_t> getStrides() const { return arr("strides"); }
};
class SortOp : public OpState {
  MINI_OP(SortOp, "sort")
  int64_t getDimension() const { return i64("dimension", -1); }
  bool getIsStable() const { return flag("is_stable", false); }
  Region& getComparator() const { return op_->getRegion(0); }
};
class TransposeOp : public OpState {
  MINI_OP(TransposeOp, "transpose") MINI_OPND(0, Operand)
  ArrayRef<int64_t> getPermutation() const { return arr("permutation"); }
};
class CaseOp : public OpState {
  MINI_OP(CaseOp, "case") MINI_OPND(0, Index)
  OwnedRange<Region> getBranches() const { return op_->getRegions(); }
};
class IfOp : public OpState {
  MINI_OP(IfOp, "if") MINI_OPND(0, Condition)
  Region& getTrueBranch() const { return op_->getRegion(0); }
  Region& getFalseBranch() const { return op_->getRegion(1); }
};
class WhileOp : public OpState {
  MINI_OP(WhileOp, "while")
  OperandRange getArgs() const { return op_->getOperands(); }
  Region& getCond() const { return op_->getRegion(0); }
  Region& getBody() const { return op_->getRegion(1); }
};
class CustomCallOp : public OpState {
  MINI_OP(CustomCallOp, "custom_call")
  OperandRange getInputs() const { return op_->getOperands(); }
  StringRef getCallTargetName() const {
    return op_->attrs.at("call_target_name").impl->s;
  }
  bool getHasSideEffect() const { return flag("has_side_effect", false); }
};
class EpsilonOp : public OpState {
  MINI_OP(EpsilonOp, "epsilon")
};
class MaxPoolScatterOp : public OpState {
  MINI_OP(MaxPoolScatterOp, "maxpool_scatter") MINI_OPND(0, ScatterIndices) MINI_OPND(1, Update)
  ArrayRef<int64_t> getWindowDimensions() const { return arr("window_dimensions"); }
  std::optional<ArrayRef<int64_t>> getWindowStrides() const { return optArr("window_strides"); }
};
class ArgMaxOp : public OpState {
  MINI_OP(ArgMaxOp, "argmax") MINI_OPND(0, Input)
  ArrayRef<int64_t> getWindowDimensions() const { return arr("window_dimensions"); }
  std::optional<ArrayRef<int64_t>> getWindowStrides() const { return optArr("window_strides"); }
  std::optional<ArrayRef<int64_t>> getWindowDilations() const { return optArr("window_dilations"); }
  bool getOnehotIndex() const { return flag("onehot_index", true); }
};
class ReturnOp : public OpState {
  MINI_OP(ReturnOp, "return")
};
class SimpleSortOp : public OpState {
  MINI_OP(SimpleSortOp, "simple_sort")
  int64_t getDimension() const { return i64("dimension", -1); }
  int64_t getNumKeys() const { return i64("num_keys", 1); }
  SortDirection getSortDirection() const {
    return static_cast<SortDirection>(i64("sort_direction", 0));
  }
};
}  // namespace mlir::spu::pphlo
