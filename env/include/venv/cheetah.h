#pragma once
#include <cstddef>
namespace venv {
extern size_t g_ole_batch;  // products one ciphertext holds
}
