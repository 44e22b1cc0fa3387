#pragma once
#include <cassert>
#include <cstdint>
#include "absl/base/attributes.h"
#include <string>
#include "absl/container/shim_table.h"
namespace absl {
template <typename K, typename M, typename H = typename shim_internal::DefaultHash<K>::H,
          typename E = typename shim_internal::DefaultHash<K>::E, typename A = void>
using node_hash_map = shim_internal::MapTable<K, M, H, E>;
}
