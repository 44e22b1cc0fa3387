#pragma once
#include <cassert>
#include <cstdint>
#include "absl/base/attributes.h"
#include <charconv>
namespace absl { using std::from_chars; using std::from_chars_result; using std::chars_format; }
