#pragma once
#include <cassert>
#include <cstdint>
#include "absl/base/attributes.h"
#include <string>
#include <utility>
#include <vector>
#include "absl/strings/ascii.h"
#include "absl/strings/strip.h"
namespace absl {
struct AllowEmpty { bool operator()(string_view) const { return true; } };
struct SkipEmpty { bool operator()(string_view s) const { return !s.empty(); } };
struct SkipWhitespace { bool operator()(string_view s) const { return !StripAsciiWhitespace(s).empty(); } };
struct ByString { std::string d; explicit ByString(string_view s) : d(s) {}
  std::pair<size_t, size_t> Find(string_view t, size_t p) const {
    if (d.empty()) return {p + 1 < t.size() ? p + 1 : string_view::npos, 0};
    return {t.find(d, p), d.size()}; } };
struct ByChar { char c; explicit ByChar(char x) : c(x) {}
  std::pair<size_t, size_t> Find(string_view t, size_t p) const { return {t.find(c, p), 1}; } };
struct ByAnyChar { std::string d; explicit ByAnyChar(string_view s) : d(s) {}
  std::pair<size_t, size_t> Find(string_view t, size_t p) const { return {t.find_first_of(d, p), 1}; } };
template <typename D> struct MaxSplitsShim { D d; int n; };
template <typename D> MaxSplitsShim<D> MaxSplits(D d, int n) { return {d, n}; }
inline MaxSplitsShim<ByChar> MaxSplits(char c, int n) { return {ByChar(c), n}; }
inline MaxSplitsShim<ByString> MaxSplits(const char* c, int n) { return {ByString(c), n}; }
namespace shim_internal {
inline ByChar Delim(char c) { return ByChar(c); }
inline ByString Delim(const char* s) { return ByString(s); }
inline ByString Delim(string_view s) { return ByString(s); }
inline ByString Delim(const std::string& s) { return ByString(s); }
template <typename D> D Delim(D d) { return d; }
template <typename D, typename P>
std::vector<std::pair<size_t, size_t>> Split(string_view t, const D& d, P pred, int max = -1) {
  std::vector<std::pair<size_t, size_t>> r;
  size_t p = 0;
  while (true) {
    auto [q, len] = max == 0 ? std::pair<size_t, size_t>{string_view::npos, 0} : d.Find(t, p);
    size_t e = q == string_view::npos ? t.size() : q;
    if (pred(t.substr(p, e - p))) r.emplace_back(p, e - p);
    if (q == string_view::npos) break;
    p = q + len;
    if (max > 0) --max;
  }
  return r;
}
template <typename D, typename P>
std::vector<std::pair<size_t, size_t>> Split(string_view t, const MaxSplitsShim<D>& d, P pred) {
  return Split(t, d.d, pred, d.n);
}
struct Splitter {
  std::string own;        // owns a copy when the source was a temporary
  string_view text;
  bool owned = false;
  std::vector<std::pair<size_t, size_t>> parts;
  std::vector<string_view> views;
  void Fill() { string_view t = owned ? string_view(own) : text;
    for (auto& p : parts) views.push_back(t.substr(p.first, p.second)); }
  template <typename C, typename = typename C::value_type,
            typename = std::enable_if_t<std::is_constructible_v<typename C::value_type, string_view> &&
                                        !std::is_same_v<C, std::string> && !std::is_same_v<C, string_view>>>
  operator C() const {
    C c;
    for (auto v : views) c.insert(c.end(), typename C::value_type(v));
    return c;
  }
  template <typename A, typename B> operator std::pair<A, B>() const {
    std::pair<A, B> r;
    if (views.size() > 0) r.first = A(views[0]);
    if (views.size() > 1) r.second = B(views[1]);
    return r;
  }
  auto begin() const { return views.begin(); }
  auto end() const { return views.end(); }
};
}
template <typename D, typename P = AllowEmpty>
shim_internal::Splitter StrSplit(string_view t, D d, P p = P()) {
  shim_internal::Splitter s;
  s.text = t;
  s.parts = shim_internal::Split(t, shim_internal::Delim(d), p);
  s.Fill();
  return s;
}
}
