#pragma once
#include <cassert>
#include <cstdint>
#include "absl/base/attributes.h"
#include <tuple>
#include <utility>
namespace absl { using std::apply; using std::exchange; using std::forward; using std::move; using std::in_place; using std::integer_sequence; using std::make_index_sequence; using std::index_sequence; }
