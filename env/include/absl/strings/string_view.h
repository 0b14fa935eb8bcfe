#pragma once
// As in the production build (C++17): absl::string_view is std::string_view.
#include <string_view>
namespace absl {
using std::string_view;
}
