#pragma once
#include <cassert>
#include <cstdint>
#include "absl/base/attributes.h"
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <ostream>
#include <string>
#include <type_traits>
#include "absl/strings/string_view.h"
namespace absl {
namespace shim_internal {
struct FormatArg {
  enum Kind { kSigned, kUnsigned, kDouble, kString, kPtr } k;
  long long i = 0; unsigned long long u = 0; double d = 0; string_view s; const void* p = nullptr;
  int bytes = 8;
  template <typename T, std::enable_if_t<(std::is_integral_v<T> || std::is_enum_v<T>), int> = 0>
  FormatArg(const T& v) {
    bytes = sizeof(T);
    if constexpr (std::is_enum_v<T>) {
      using U = std::underlying_type_t<T>;
      if (std::is_signed_v<U>) { k = kSigned; i = (long long)v; u = (unsigned long long)(std::make_unsigned_t<U>)v; }
      else { k = kUnsigned; u = (unsigned long long)v; i = (long long)u; }
    } else if constexpr (std::is_same_v<T, bool>) {
      k = kSigned; i = v; u = v;
    } else if constexpr (std::is_signed_v<T>) {
      k = kSigned; i = v; u = (std::make_unsigned_t<T>)v;
    } else { k = kUnsigned; u = v; i = (long long)v; }
  }
  FormatArg(const double& v) : k(kDouble), d(v) {}
  FormatArg(const float& v) : k(kDouble), d(v) {}
  FormatArg(const std::string& v) : k(kString), s(v) {}
  FormatArg(const string_view& v) : k(kString), s(v) {}
  FormatArg(const char* const& v) : k(kString), s(v ? string_view(v) : string_view()) {}
  FormatArg(char* const& v) : k(kString), s(v ? string_view(v) : string_view()) {}
  template <size_t N> FormatArg(const char (&v)[N]) : k(kString), s(v) {}
};
inline std::string Format(string_view f, const FormatArg* a, size_t n) {
  std::string r;
  size_t next = 0;
  auto fail = [&]() { fprintf(stderr, "shim: bad format '%.*s'\n", (int)f.size(), f.data()); abort(); };
  for (size_t p = 0; p < f.size();) {
    if (f[p] != '%') { r += f[p++]; continue; }
    if (++p >= f.size()) { fail(); }
    if (f[p] == '%') { r += '%'; ++p; continue; }
    std::string spec = "%";
    bool left = false;
    while (p < f.size() && string_view("-+ #0").find(f[p]) != string_view::npos) { left |= f[p] == '-'; spec += f[p++]; }
    int width = -1, prec = -1;
    auto num = [&]() {
      int v = 0;
      if (p < f.size() && f[p] == '*') { ++p; if (next >= n) fail(); return (int)a[next++].i; }
      while (p < f.size() && f[p] >= '0' && f[p] <= '9') v = v * 10 + (f[p++] - '0');
      return v;
    };
    if (p < f.size() && ((f[p] >= '1' && f[p] <= '9') || f[p] == '*')) { width = num(); if (width < 0) { left = true; width = -width; spec += '-'; } }
    if (p < f.size() && f[p] == '.') { ++p; prec = num(); }
    while (p < f.size() && string_view("hlLqjzt").find(f[p]) != string_view::npos) ++p;
    if (p >= f.size() || next >= n) fail();
    char c = f[p++];
    const FormatArg& x = a[next++];
    if (c == 'v') c = x.k == FormatArg::kString ? 's' : x.k == FormatArg::kDouble ? 'g' : x.k == FormatArg::kSigned ? 'd' : 'u';
    if (c == 's') {
      if (x.k != FormatArg::kString) fail();
      string_view s = x.s;
      if (prec >= 0) s = s.substr(0, prec);
      size_t pad = width > (int)s.size() ? width - s.size() : 0;
      if (!left) r.append(pad, ' ');
      r.append(s);
      if (left) r.append(pad, ' ');
      continue;
    }
    if (width >= 0) spec += std::to_string(width);
    if (prec >= 0) spec += "." + std::to_string(prec);
    char b[400];
    int got = 0;
    if (c == 'c') { spec += 'c'; got = snprintf(b, sizeof b, spec.c_str(), (int)x.i); }
    else if (c == 'd' || c == 'i') {
      if (x.k == FormatArg::kUnsigned) { spec += "llu"; got = snprintf(b, sizeof b, spec.c_str(), x.u); }
      else if (x.k == FormatArg::kSigned) { spec += "lld"; got = snprintf(b, sizeof b, spec.c_str(), x.i); }
      else fail();
    } else if (c == 'u' || c == 'x' || c == 'X' || c == 'o') {
      if (x.k != FormatArg::kSigned && x.k != FormatArg::kUnsigned) fail();
      spec += "ll"; spec += c; got = snprintf(b, sizeof b, spec.c_str(), x.u);
    } else if (string_view("fFeEgGaA").find(c) != string_view::npos) {
      spec += c; got = snprintf(b, sizeof b, spec.c_str(), x.k == FormatArg::kDouble ? x.d : (double)x.i);
    } else if (c == 'p') { spec += 'p'; got = snprintf(b, sizeof b, spec.c_str(), x.p); }
    else fail();
    if (got < 0) fail();
    r.append(b, (size_t)got < sizeof b ? got : sizeof b - 1);
  }
  return r;
}
struct Spec {
  string_view f;
  template <size_t N> constexpr Spec(const char (&s)[N]) : f(s) {}
  template <typename T, typename = std::enable_if_t<std::is_convertible_v<const T&, string_view>>>
  Spec(const T& s) : f(s) {}
  Spec(const Spec&) = default;
};
template <typename... A>
std::string Do(const Spec& f, const A&... a) {
  if constexpr (sizeof...(A) == 0) return Format(f.f, nullptr, 0);
  else { FormatArg arr[] = {FormatArg(a)...}; return Format(f.f, arr, sizeof...(A)); }
}
}
template <typename...> using FormatSpec = shim_internal::Spec;
template <typename... A>
[[nodiscard]] std::string StrFormat(const FormatSpec<A...>& f, const A&... a) { return shim_internal::Do(f, a...); }
template <typename... A>
std::string& StrAppendFormat(std::string* d, const FormatSpec<A...>& f, const A&... a) {
  d->append(shim_internal::Do(f, a...));
  return *d;
}
template <typename... A>
int FPrintF(std::FILE* o, const FormatSpec<A...>& f, const A&... a) {
  std::string s = shim_internal::Do(f, a...);
  return fwrite(s.data(), 1, s.size(), o) == s.size() ? (int)s.size() : -1;
}
template <typename... A>
int PrintF(const FormatSpec<A...>& f, const A&... a) { return FPrintF<A...>(stdout, f, a...); }
template <typename... A>
int SNPrintF(char* out, std::size_t n, const FormatSpec<A...>& f, const A&... a) {
  std::string s = shim_internal::Do(f, a...);
  return snprintf(out, n, "%s", s.c_str());
}
template <typename... A>
struct StreamedFormat { std::string s; };
template <typename... A>
std::string StreamFormat(const FormatSpec<A...>& f, const A&... a) { return shim_internal::Do(f, a...); }
template <typename T> std::string FormatStreamed(const T& t);
}
