#pragma once
// protobuf 3.21 has the JSON mapping under util.
#include <google/protobuf/util/json_util.h>
#include <string>
#include <string_view>
namespace google::protobuf::json {
inline auto JsonStringToMessage(std::string_view s, Message* m) {
  return ::google::protobuf::util::JsonStringToMessage(std::string(s), m);
}
}  // namespace google::protobuf::json
