// Precompiled: everything that does not come from /repo.
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <functional>
#include <future>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <random>
#include <regex>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stack>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include "absl/numeric/bits.h"
#include "absl/types/span.h"
#include "fmt/format.h"
#include "fmt/ostream.h"
#include "fmt/ranges.h"
#include "llvm/ADT/ArrayRef.h"
#include "google/protobuf/message.h"
#include "google/protobuf/util/json_util.h"
#include "Eigen/Core"
#include "llvm/ADT/STLExtras.h"
#include "magic_enum.hpp"
#include "spdlog/spdlog.h"
#include "venv/env.h"
#include "xtensor/xarray.hpp"
