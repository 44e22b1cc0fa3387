#pragma once
#include <cassert>
#include <cstdint>
#include "absl/base/attributes.h"
#include <cassert>
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <type_traits>
#include <vector>
#include <stdexcept>
namespace absl {
template <typename T>
class Span {
 public:
  using element_type = T;
  using value_type = std::remove_cv_t<T>;
  using pointer = T*;
  using const_pointer = const T*;
  using reference = T&;
  using const_reference = const T&;
  using iterator = T*;
  using const_iterator = const T*;
  using reverse_iterator = std::reverse_iterator<T*>;
  using const_reverse_iterator = std::reverse_iterator<const T*>;
  using size_type = size_t;
  using difference_type = ptrdiff_t;
  static constexpr size_t npos = static_cast<size_t>(-1);
  constexpr Span() noexcept : p_(nullptr), n_(0) {}
  constexpr Span(T* p, size_t n) noexcept : p_(p), n_(n) {}
  template <size_t N>
  constexpr Span(T (&a)[N]) noexcept : p_(a), n_(N) {}
  template <typename C, typename = std::enable_if_t<
                            !std::is_same_v<std::decay_t<C>, Span> &&
                            std::is_convertible_v<
                                std::remove_pointer_t<decltype(std::declval<C&>().data())> (*)[],
                                T (*)[]>>>
  constexpr Span(C& c) : p_(c.data()), n_(c.size()) {}
  template <typename C, typename U = T,
            typename = std::enable_if_t<
                std::is_const_v<U> && !std::is_same_v<std::decay_t<C>, Span> &&
                std::is_convertible_v<
                    std::remove_pointer_t<decltype(std::declval<const C&>().data())> (*)[],
                    T (*)[]>>,
            typename = void>
  constexpr Span(const C& c) : p_(c.data()), n_(c.size()) {}
  template <typename U = T, typename = std::enable_if_t<std::is_const_v<U>>>
  constexpr Span(std::initializer_list<value_type> l) : p_(l.begin()), n_(l.size()) {}
  constexpr T* data() const { return p_; }
  constexpr size_t size() const { return n_; }
  constexpr size_t length() const { return n_; }
  constexpr bool empty() const { return n_ == 0; }
  constexpr T& operator[](size_t i) const { assert(i < n_); return p_[i]; }
  constexpr T& at(size_t i) const {
    if (i >= n_) throw std::out_of_range("Span::at");
    return p_[i];
  }
  constexpr T& front() const { assert(n_); return p_[0]; }
  constexpr T& back() const { assert(n_); return p_[n_ - 1]; }
  constexpr T* begin() const { return p_; }
  constexpr T* end() const { return p_ + n_; }
  constexpr const T* cbegin() const { return p_; }
  constexpr const T* cend() const { return p_ + n_; }
  reverse_iterator rbegin() const { return reverse_iterator(end()); }
  reverse_iterator rend() const { return reverse_iterator(begin()); }
  void remove_prefix(size_t k) { assert(k <= n_); p_ += k; n_ -= k; }
  void remove_suffix(size_t k) { assert(k <= n_); n_ -= k; }
  constexpr Span subspan(size_t pos = 0, size_t len = npos) const {
    if (pos > n_) throw std::out_of_range("Span::subspan");
    return Span(p_ + pos, len < n_ - pos ? len : n_ - pos);
  }
  constexpr Span first(size_t len) const {
    if (len > n_) throw std::out_of_range("Span::first");
    return Span(p_, len);
  }
  constexpr Span last(size_t len) const {
    if (len > n_) throw std::out_of_range("Span::last");
    return Span(p_ + n_ - len, len);
  }
  template <typename U>
  friend bool operator==(Span a, Span<U> b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
      if (!(a.data()[i] == b.data()[i])) return false;
    return true;
  }

 private:
  T* p_;
  size_t n_;
};
template <typename T> Span<T> MakeSpan(T* p, size_t n) { return Span<T>(p, n); }
template <typename T> Span<T> MakeSpan(T* b, T* e) { return Span<T>(b, e - b); }
template <typename C> auto MakeSpan(C& c) -> Span<std::remove_pointer_t<decltype(c.data())>> {
  return {c.data(), c.size()};
}
template <typename T, size_t N> Span<T> MakeSpan(T (&a)[N]) { return Span<T>(a, N); }
template <typename T> Span<const T> MakeConstSpan(T* p, size_t n) { return {p, n}; }
template <typename T> Span<const T> MakeConstSpan(T* b, T* e) { return {b, size_t(e - b)}; }
template <typename C>
auto MakeConstSpan(const C& c) -> Span<std::remove_pointer_t<decltype(c.data())>> {
  return {c.data(), c.size()};
}
template <typename T, size_t N> Span<const T> MakeConstSpan(const T (&a)[N]) { return {a, N}; }
}  // namespace absl
