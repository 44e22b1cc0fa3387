#pragma once
#include <bit>
namespace absl {
using std::bit_cast;
template <typename To>
constexpr To implicit_cast(To t) { return t; }
}
