// The installed abseil returns an unsigned type from bit_width(); the version
// mpact-sim is written for returns int.
#pragma once
#define bit_width bit_width_unsigned
#include_next "absl/numeric/bits.h"
#undef bit_width
namespace absl {
template <typename T>
constexpr int bit_width(T x) {
  return static_cast<int>(bit_width_unsigned(x));
}
}  // namespace absl
