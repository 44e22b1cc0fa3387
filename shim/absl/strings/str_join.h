#pragma once
#include <cassert>
#include <cstdint>
#include "absl/base/attributes.h"
#include <initializer_list>
#include <iterator>
#include <string>
#include <type_traits>
#include <utility>
#include "absl/strings/str_cat.h"
namespace absl {
struct AlphaNumFormatterShim {
  template <typename T> void operator()(std::string* o, const T& t) const { StrAppend(o, t); }
};
inline AlphaNumFormatterShim AlphaNumFormatter() { return {}; }
template <typename A, typename B>
struct PairFormatterShim {
  A a; std::string sep; B b;
  template <typename P> void operator()(std::string* o, const P& p) {
    a(o, p.first); o->append(sep); b(o, p.second);
  }
};
template <typename A, typename B>
PairFormatterShim<A, B> PairFormatter(A a, string_view s, B b) { return {a, std::string(s), b}; }
inline auto PairFormatter(string_view s) { return PairFormatter(AlphaNumFormatter(), s, AlphaNumFormatter()); }
template <typename It, typename F,
          typename = typename std::iterator_traits<It>::iterator_category>
std::string StrJoin(It b, It e, string_view sep, F f) {
  std::string r;
  bool first = true;
  for (; b != e; ++b) {
    if (!first) r.append(sep);
    first = false;
    f(&r, *b);
  }
  return r;
}
template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
std::string StrJoin(It b, It e, string_view sep) { return StrJoin(b, e, sep, AlphaNumFormatter()); }
template <typename R, typename F, typename = decltype(std::begin(std::declval<const R&>())),
          typename = std::enable_if_t<!std::is_convertible_v<F, string_view>>>
std::string StrJoin(const R& r, string_view sep, F f) { return StrJoin(std::begin(r), std::end(r), sep, f); }
template <typename R, typename = decltype(std::begin(std::declval<const R&>()))>
std::string StrJoin(const R& r, string_view sep) { return StrJoin(std::begin(r), std::end(r), sep); }
template <typename T>
std::string StrJoin(std::initializer_list<T> r, string_view sep) { return StrJoin(r.begin(), r.end(), sep); }
}
