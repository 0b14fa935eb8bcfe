#pragma once
#include "libspu/dialect/pphlo/IR/ops.h"
namespace mlir::spu::pphlo {
class PPHloDialect {};
}
