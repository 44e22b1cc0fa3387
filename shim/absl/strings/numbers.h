#pragma once
#include <cassert>
#include <cstdint>
#include "absl/base/attributes.h"
#include <charconv>
#include <cstdint>
#include <limits>
#include <string>
#include <type_traits>
#include "absl/strings/ascii.h"
namespace absl {
namespace shim_internal {
template <typename Int>
bool ParseInt(string_view s, Int* out, int base) {
  s = StripAsciiWhitespace(s);
  *out = 0;
  bool neg = false;
  if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; s.remove_prefix(1); }
  if (base == 16 && s.size() >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) s.remove_prefix(2);
  else if (base == 0) {
    if (s.size() >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { base = 16; s.remove_prefix(2); }
    else if (!s.empty() && s[0] == '0') base = 8;
    else base = 10;
  }
  if (s.empty() || (neg && !std::is_signed_v<Int>)) return false;
  std::string t = (neg ? "-" : "") + std::string(s);
  Int v{};
  auto r = std::from_chars(t.data(), t.data() + t.size(), v, base);
  if (r.ec == std::errc::result_out_of_range) {
    *out = neg ? std::numeric_limits<Int>::min() : std::numeric_limits<Int>::max();
    return false;
  }
  if (r.ec != std::errc() || r.ptr != t.data() + t.size()) return false;
  *out = v;
  return true;
}
}
template <typename Int> bool SimpleAtoi(string_view s, Int* out) { return shim_internal::ParseInt(s, out, 10); }
template <typename Int> bool SimpleHexAtoi(string_view s, Int* out) { return shim_internal::ParseInt(s, out, 16); }
template <typename Int> bool safe_strtoi_base(string_view s, Int* out, int b) { return shim_internal::ParseInt(s, out, b); }
}
