#pragma once
#include <cstdint>
namespace mlir::spu::pphlo {
enum class Visibility { PUBLIC, SECRET };
enum class SortDirection : uint32_t { ASC = 0, DES = 1 };
}  // namespace mlir::spu::pphlo
