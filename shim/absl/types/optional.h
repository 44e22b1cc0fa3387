#pragma once
#include <cassert>
#include <cstdint>
#include "absl/base/attributes.h"
#include <optional>
namespace absl {
using std::bad_optional_access;
using std::in_place;
using std::in_place_t;
using std::make_optional;
using std::nullopt;
using std::nullopt_t;
using std::optional;
}
