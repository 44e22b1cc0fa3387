#pragma once
#include <cassert>
#include <cstdint>
#include "absl/base/attributes.h"
#include <set>
namespace absl {
template <typename K, typename C = std::less<K>> using btree_set = std::set<K, C>;
template <typename K, typename C = std::less<K>> using btree_multiset = std::multiset<K, C>;
}
