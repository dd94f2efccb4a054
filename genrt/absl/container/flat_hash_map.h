#pragma once
#include <map>
#include <tuple>
namespace absl {
template <typename K, typename V>
using flat_hash_map = std::map<K, V>;
}  // namespace absl
