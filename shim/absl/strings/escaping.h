#pragma once
#include <cassert>
#include <cstdint>
#include "absl/base/attributes.h"
#include <string>
#include "absl/strings/ascii.h"
namespace absl {
inline std::string CEscape(string_view s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\r";
    else if (c == '"' || c == '\'' || c == '\\') { r += '\\'; r += c; }
    else if (ascii_isprint(c)) r += c;
    else { char b[8]; snprintf(b, sizeof b, "\\%03o", c); r += b; }
  }
  return r;
}
inline std::string BytesToHexString(string_view s) {
  std::string r;
  for (unsigned char c : s) { r += "0123456789abcdef"[c >> 4]; r += "0123456789abcdef"[c & 15]; }
  return r;
}
}
