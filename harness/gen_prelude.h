#include <algorithm>
#include <cstdint>
#include <iostream>
#include <tuple>
#include <utility>
#include "absl/base/no_destructor.h"
#include "absl/container/flat_hash_map.h"
#include "absl/functional/any_invocable.h"
#include "absl/log/log.h"
namespace vf {
enum class OpcodeEnum {
  kNone, kI0, kI1, kI2, kI3, kI4, kI5, kI6, kI7, kI8, kI9, kPastMaxValue
};
}
