#pragma once
#include <cassert>
#include "absl/base/attributes.h"
#define ABSL_ASSERT(e) assert(e)
#define ABSL_ARRAYSIZE(a) (sizeof(a) / sizeof((a)[0]))
