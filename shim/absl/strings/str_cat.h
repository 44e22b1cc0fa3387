#pragma once
#include <cassert>
#include <cstdint>
#include "absl/base/attributes.h"
#include <cstdint>
#include <cstdio>
#include <initializer_list>
#include <string>
#include <type_traits>
#include "absl/strings/numbers.h"
#include "absl/strings/string_view.h"
namespace absl {
enum PadSpec : uint8_t {
  kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8,
  kZeroPad9, kZeroPad10, kZeroPad16 = kZeroPad2 + 14,
};
struct Hex {
  unsigned long long v; PadSpec p;
  template <typename Int, typename = std::enable_if_t<std::is_integral_v<Int>>>
  explicit Hex(Int i, PadSpec pad = kNoPad) : v(static_cast<std::make_unsigned_t<Int>>(i)), p(pad) {}
};
struct Dec {
  long long v; PadSpec p;
  explicit Dec(long long i, PadSpec pad = kNoPad) : v(i), p(pad) {}
};
class AlphaNum {
 public:
  AlphaNum(bool) = delete;
  AlphaNum(int x) : s_(std::to_string(x)) {}
  AlphaNum(unsigned x) : s_(std::to_string(x)) {}
  AlphaNum(long x) : s_(std::to_string(x)) {}
  AlphaNum(unsigned long x) : s_(std::to_string(x)) {}
  AlphaNum(long long x) : s_(std::to_string(x)) {}
  AlphaNum(unsigned long long x) : s_(std::to_string(x)) {}
  AlphaNum(float f) { Dbl(f); }
  AlphaNum(double f) { Dbl(f); }
  AlphaNum(Hex h) {
    char b[40]; snprintf(b, sizeof b, "%0*llx", h.p == kNoPad ? 1 : int(h.p), h.v); s_ = b;
  }
  AlphaNum(Dec h) {
    char b[40]; snprintf(b, sizeof b, "%0*lld", h.p == kNoPad ? 1 : int(h.p), h.v); s_ = b;
  }
  AlphaNum(const char* c) : s_(NullSafeStringView(c)) {}
  AlphaNum(string_view c) : s_(c) {}
  AlphaNum(const std::string& c) : s_(c) {}
  AlphaNum(char) = delete;
  template <typename T, typename = std::enable_if_t<std::is_enum_v<T> && std::is_convertible_v<T, int>>>
  AlphaNum(T e) : s_(std::to_string(static_cast<std::underlying_type_t<T>>(e))) {}
  string_view Piece() const { return s_; }
 private:
  void Dbl(double d) { char b[64]; snprintf(b, sizeof b, "%g", d); s_ = b; }
  std::string s_;
};
inline void StrAppendPieces(std::string* d, std::initializer_list<AlphaNum> l) {
  std::string t;
  for (const auto& a : l) t.append(a.Piece());
  d->append(t);
}
template <typename... A>
[[nodiscard]] std::string StrCat(const A&... a) {
  std::string r;
  StrAppendPieces(&r, {AlphaNum(a)...});
  return r;
}
template <typename... A>
void StrAppend(std::string* d, const A&... a) { StrAppendPieces(d, {AlphaNum(a)...}); }
}
