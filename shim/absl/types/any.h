#pragma once
#include <cassert>
#include <cstdint>
#include "absl/base/attributes.h"
#include <any>
namespace absl { using std::any; using std::any_cast; using std::make_any; }
