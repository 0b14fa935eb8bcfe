#ifdef GET_OP_LIST
#undef GET_OP_LIST
::mlir::spu::pphlo::ConstantOp,
::mlir::spu::pphlo::IotaOp,
::mlir::spu::pphlo::AbsOp,
::mlir::spu::pphlo::CeilOp,
::mlir::spu::pphlo::ConvertOp,
::mlir::spu::pphlo::CosineOp,
::mlir::spu::pphlo::ExpOp,
::mlir::spu::pphlo::Expm1Op,
::mlir::spu::pphlo::FloorOp,
::mlir::spu::pphlo::LogOp,
::mlir::spu::pphlo::Log1pOp,
::mlir::spu::pphlo::LogisticOp,
::mlir::spu::pphlo::NegOp,
::mlir::spu::pphlo::NotOp,
::mlir::spu::pphlo::PopcntOp,
::mlir::spu::pphlo::RoundOp,
::mlir::spu::pphlo::RoundNearestEvenOp,
::mlir::spu::pphlo::RsqrtOp,
::mlir::spu::pphlo::SignOp,
::mlir::spu::pphlo::SineOp,
::mlir::spu::pphlo::SqrtOp,
::mlir::spu::pphlo::TanhOp,
::mlir::spu::pphlo::AddOp,
::mlir::spu::pphlo::DivOp,
::mlir::spu::pphlo::MaxOp,
::mlir::spu::pphlo::MinOp,
::mlir::spu::pphlo::MulOp,
::mlir::spu::pphlo::PowOp,
::mlir::spu::pphlo::RemOp,
::mlir::spu::pphlo::Atan2Op,
::mlir::spu::pphlo::ShiftLeftOp,
::mlir::spu::pphlo::ShiftRightArithmeticOp,
::mlir::spu::pphlo::ShiftRightLogicalOp,
::mlir::spu::pphlo::SubtractOp,
::mlir::spu::pphlo::AndOp,
::mlir::spu::pphlo::OrOp,
::mlir::spu::pphlo::XorOp,
::mlir::spu::pphlo::EqualOp,
::mlir::spu::pphlo::NotEqualOp,
::mlir::spu::pphlo::GreaterEqualOp,
::mlir::spu::pphlo::GreaterOp,
::mlir::spu::pphlo::LessEqualOp,
::mlir::spu::pphlo::LessOp,
::mlir::spu::pphlo::RngOp,
::mlir::spu::pphlo::BitcastConvertOp,
::mlir::spu::pphlo::BroadcastOp,
::mlir::spu::pphlo::BroadcastShapeAsOp,
::mlir::spu::pphlo::ClampOp,
::mlir::spu::pphlo::ConcatenateOp,
::mlir::spu::pphlo::ConvolutionOp,
::mlir::spu::pphlo::DotOp,
::mlir::spu::pphlo::DotGeneralOp,
::mlir::spu::pphlo::DynamicSliceOp,
::mlir::spu::pphlo::DynamicUpdateSliceOp,
::mlir::spu::pphlo::PadOp,
::mlir::spu::pphlo::ReduceOp,
::mlir::spu::pphlo::ReshapeOp,
::mlir::spu::pphlo::ReduceWindowOp,
::mlir::spu::pphlo::ReverseOp,
::mlir::spu::pphlo::SelectOp,
::mlir::spu::pphlo::SelectAndScatterOp,
::mlir::spu::pphlo::SliceOp,
::mlir::spu::pphlo::SortOp,
::mlir::spu::pphlo::TransposeOp,
::mlir::spu::pphlo::CaseOp,
::mlir::spu::pphlo::IfOp,
::mlir::spu::pphlo::WhileOp,
::mlir::spu::pphlo::ComplexOp,
::mlir::spu::pphlo::RealOp,
::mlir::spu::pphlo::ImagOp,
::mlir::spu::pphlo::CustomCallOp,
::mlir::spu::pphlo::EpsilonOp,
::mlir::spu::pphlo::ReciprocalOp,
::mlir::spu::pphlo::MaxPoolScatterOp,
::mlir::spu::pphlo::ArgMaxOp,
::mlir::spu::pphlo::ReturnOp,
::mlir::spu::pphlo::FreeOp,
::mlir::spu::pphlo::SimpleSortOp
#endif
