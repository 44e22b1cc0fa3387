#pragma once
#include <cassert>
#include <cstdint>
#include "absl/base/attributes.h"
#include <map>
namespace absl {
template <typename K, typename V, typename C = std::less<K>> using btree_map = std::map<K, V, C>;
template <typename K, typename V, typename C = std::less<K>> using btree_multimap = std::multimap<K, V, C>;
}
