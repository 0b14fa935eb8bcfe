// Harness driver: a check is a list of named units; every unit is a closed
// exploration that runs in its own process.
#pragma once
#include <cstdint>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>

#include "fmt/format.h"
#include "fmt/ranges.h"
#include "vmc/vmc.h"

namespace vh {

struct Violation : std::runtime_error {
  std::string key;
  Violation(const std::string& m, std::string k)
      : std::runtime_error(m), key(std::move(k)) {}
};

// Registers a unit.  Names are stable: a replay file names the unit.
void unit(const std::string& name, std::function<void()> fn);
bool thorough();
int seed();

// Stops the unit with a violation.  key identifies the failing case for the
// known-findings file.
[[noreturn]] void fail(const std::string& msg, const std::string& key = "");
// Records a violation that is on the known-findings list and returns; a
// violation that is not listed stops the unit like fail().
void failKeyed(const std::string& msg, const std::string& key);

// One evaluated case.  h identifies it (for the distinct count).
void eval(uint64_t h, bool nontrivial = true);
void add(const char* counter, long n = 1);
void sample(const std::string& s);
uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
inline uint64_t hash(const std::string& s) { return hash(s.data(), s.size()); }
// What the unit is doing now; shown with a crash or a violation.
void where(const std::string& s);
// True once the unit's soft time budget is used up (thorough runs only).
bool timeUp();

}  // namespace vh

#define VH_CHECK(cond, ...)                                              \
  do {                                                                   \
    if (!(cond)) ::vh::fail(::fmt::format(__VA_ARGS__));                 \
  } while (0)

// Defined by every harness: registers its units.
void vh_units();
