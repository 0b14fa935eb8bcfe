#pragma once
#include "mlir/mini.h"
