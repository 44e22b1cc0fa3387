#pragma once
#include <cassert>
#include <cstdint>
#include "absl/base/attributes.h"
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
namespace absl {
namespace shim_internal {
// The iteration order of an unordered container is unspecified; the salt moves
// it, so that a run can be repeated with a different order.
inline uint64_t& Salt() {
  static uint64_t s = [] { const char* e = getenv("NSASM_HASH_SALT"); return e ? strtoull(e, nullptr, 10) : 0; }();
  return s;
}
// For tables made from now on; a table keeps the one it was made with.
inline uint64_t& TableSalt() { static uint64_t s = 0; return s; }
inline uint64_t Mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h ^= h >> 31; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 29;
  return h;
}
struct HashState;
template <typename T> HashState HashOne(HashState s, const T& t);
struct HashState {
  uint64_t v;
  static HashState combine(HashState s) { return s; }
  template <typename T, typename... R>
  static HashState combine(HashState s, const T& t, const R&... r) { return combine(HashOne(s, t), r...); }
  template <typename T>
  static HashState combine_contiguous(HashState s, const T* p, size_t n) {
    for (size_t i = 0; i < n; ++i) s = HashOne(s, p[i]);
    return HashState{Mix(s.v, n)};
  }
};
template <typename T, typename = void> struct HasAbsl : std::false_type {};
template <typename T>
struct HasAbsl<T, std::void_t<decltype(AbslHashValue(std::declval<HashState>(), std::declval<const T&>()))>> : std::true_type {};
template <typename A, typename B> HashState HashSpecial(HashState s, const std::pair<A, B>& p) { return HashState::combine(s, p.first, p.second); }
template <typename... A> HashState HashSpecial(HashState s, const std::tuple<A...>& p) {
  return std::apply([&](const auto&... x) { return HashState::combine(s, x...); }, p);
}
template <typename A> HashState HashSpecial(HashState s, const std::vector<A>& p) { return HashState::combine_contiguous(s, p.data(), p.size()); }
template <typename A> HashState HashSpecial(HashState s, const std::optional<A>& p) { return p ? HashState::combine(s, *p, true) : HashState::combine(s, false); }
template <typename... A> HashState HashSpecial(HashState s, const std::variant<A...>& p) {
  s = HashState::combine(s, p.index());
  return std::visit([&](const auto& x) { return HashState::combine(s, x); }, p);
}
template <typename T, typename = void> struct HasSpecial : std::false_type {};
template <typename T>
struct HasSpecial<T, std::void_t<decltype(HashSpecial(std::declval<HashState>(), std::declval<const T&>()))>> : std::true_type {};
template <typename T> HashState HashOne(HashState s, const T& t) {
  if constexpr (HasAbsl<T>::value) return AbslHashValue(std::move(s), t);
  else if constexpr (HasSpecial<T>::value) return HashSpecial(s, t);
  else if constexpr (std::is_convertible_v<const T&, std::string_view>) return HashState{Mix(s.v, std::hash<std::string_view>()(t))};
  else return HashState{Mix(s.v, std::hash<T>()(t))};
}
}
template <typename T>
struct Hash {
  size_t operator()(const T& t) const { return shim_internal::HashOne(shim_internal::HashState{shim_internal::Salt()}, t).v; }
};
template <typename... T> size_t HashOf(const T&... t) { return shim_internal::HashState::combine(shim_internal::HashState{shim_internal::Salt()}, t...).v; }
namespace shim_internal {
struct StringHash {
  using is_transparent = void;
  size_t operator()(std::string_view s) const { return Hash<std::string_view>()(s); }
};
struct StringEq {
  using is_transparent = void;
  bool operator()(std::string_view a, std::string_view b) const { return a == b; }
};
template <typename K, typename = void> struct DefaultHash { using H = Hash<K>; using E = std::equal_to<K>; };
template <typename K>
struct DefaultHash<K, std::enable_if_t<std::is_same_v<K, std::string> || std::is_same_v<K, std::string_view>>> {
  using H = StringHash; using E = StringEq;
};
template <typename T> struct PtrHash {
  using is_transparent = void;
  size_t operator()(const T* p) const { return Hash<const T*>()(p); }
};
}
}
