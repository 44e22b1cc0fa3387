#pragma once
#include <cassert>
#include <cstdint>
#include "absl/base/attributes.h"
#include <vector>
namespace absl {
template <typename T, size_t N> using InlinedVector = std::vector<T>;
}
