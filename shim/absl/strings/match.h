#pragma once
#include <cassert>
#include <cstdint>
#include "absl/base/attributes.h"
#include "absl/strings/ascii.h"
namespace absl {
inline bool StrContains(string_view h, string_view n) { return h.find(n) != string_view::npos; }
inline bool StrContains(string_view h, char n) { return h.find(n) != string_view::npos; }
inline bool StartsWith(string_view t, string_view p) { return t.substr(0, p.size()) == p; }
inline bool EndsWith(string_view t, string_view p) {
  return t.size() >= p.size() && t.substr(t.size() - p.size()) == p;
}
inline bool EqualsIgnoreCase(string_view a, string_view b) {
  return a.size() == b.size() && AsciiStrToLower(a) == AsciiStrToLower(b);
}
inline bool StartsWithIgnoreCase(string_view t, string_view p) { return EqualsIgnoreCase(t.substr(0, p.size()), p); }
inline bool EndsWithIgnoreCase(string_view t, string_view p) {
  return t.size() >= p.size() && EqualsIgnoreCase(t.substr(t.size() - p.size()), p);
}
}
