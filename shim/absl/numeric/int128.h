#pragma once
#include <cassert>
#include <cstdint>
#include "absl/base/attributes.h"
namespace absl { using uint128 = unsigned __int128; using int128 = __int128; }
