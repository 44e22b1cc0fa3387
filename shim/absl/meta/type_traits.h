#pragma once
#include <cassert>
#include <cstdint>
#include "absl/base/attributes.h"
#include <type_traits>
namespace absl { using std::enable_if_t; using std::decay_t; using std::conditional_t; using std::void_t; using std::remove_cv_t; using std::remove_reference_t; using std::conjunction; using std::disjunction; using std::negation; }
