// An open-addressing table: elements move when it grows (so that a reference
// kept across an insertion is a heap-use-after-free under AddressSanitizer, as
// with abseil's flat containers), and the order of iteration depends on a salt.
#pragma once
#include <cassert>
#include <cstdint>
#include "absl/base/attributes.h"
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <new>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include "absl/hash/hash.h"
namespace absl {
namespace shim_internal {
template <typename H, typename E, typename = void> struct Transparent : std::false_type {};
template <typename H, typename E>
struct Transparent<H, E, std::void_t<typename H::is_transparent, typename E::is_transparent>> : std::true_type {};
// KeyArg<K, Q>: what a lookup by Q uses.
template <typename K, typename V, typename Stored, typename Policy, typename H, typename E>
class Table {
 public:
  template <bool C> class Iter;
  using key_type = K;
  using value_type = V;
  using size_type = size_t;
  using difference_type = ptrdiff_t;
  using hasher = H;
  using key_equal = E;
  using reference = V&;
  using const_reference = const V&;
  using iterator = Iter<Policy::kConst>;
  using const_iterator = Iter<true>;
  Table() = default;
  explicit Table(size_t n, const H& h = H(), const E& e = E()) : h_(h), e_(e) { reserve(n); }
  Table(std::initializer_list<V> l) { for (auto& v : l) insert(v); }
  template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
  Table(It b, It e) { insert(b, e); }
  Table(const Table& o) : h_(o.h_), e_(o.e_) { for (auto& v : o) insert(v); }
  Table(Table&& o) noexcept { swap(o); }
  Table& operator=(const Table& o) { if (this != &o) { Table t(o); swap(t); } return *this; }
  Table& operator=(Table&& o) noexcept { if (this != &o) { clear(); swap(o); } return *this; }
  Table& operator=(std::initializer_list<V> l) { Table t(l); swap(t); return *this; }
  ~Table() { Free(); }
  void swap(Table& o) noexcept {
    std::swap(slots_, o.slots_); std::swap(full_, o.full_); std::swap(cap_, o.cap_);
    std::swap(size_, o.size_); std::swap(used_, o.used_); std::swap(h_, o.h_); std::swap(e_, o.e_);
    std::swap(salt_, o.salt_);
  }
  iterator begin() { return iterator(this, Next(0)); }
  iterator end() { return iterator(this, cap_); }
  const_iterator begin() const { return const_iterator(this, Next(0)); }
  const_iterator end() const { return const_iterator(this, cap_); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  bool empty() const { return size_ == 0; }
  size_t size() const { return size_; }
  size_t capacity() const { return cap_; }
  void clear() { Free(); }
  void reserve(size_t n) { if (n * 2 > cap_) Grow(n * 2); }
  void rehash(size_t n) { if (n * 2 > cap_) Grow(n * 2); else if (cap_) Grow(cap_); }

  template <typename Q> size_t Index(const Q& q) const {
    if (!cap_) return cap_;
    size_t i = Hs(q) & (cap_ - 1);
    while (full_[i]) {
      if (full_[i] == 1 && e_(Policy::Key(slots_[i]->get()), q)) return i;
      i = (i + 1) & (cap_ - 1);
    }
    return cap_;
  }
  iterator find(const K& k) { return iterator(this, Index(k)); }
  const_iterator find(const K& k) const { return const_iterator(this, Index(k)); }
  template <typename Q, typename HH = H, typename = std::enable_if_t<Transparent<HH, E>::value && !std::is_same_v<Q, K>>>
  iterator find(const Q& k) { return iterator(this, Index(k)); }
  template <typename Q, typename HH = H, typename = std::enable_if_t<Transparent<HH, E>::value && !std::is_same_v<Q, K>>>
  const_iterator find(const Q& k) const { return const_iterator(this, Index(k)); }
  bool contains(const K& k) const { return Index(k) != cap_; }
  template <typename Q, typename HH = H, typename = std::enable_if_t<Transparent<HH, E>::value && !std::is_same_v<Q, K>>>
  bool contains(const Q& k) const { return Index(k) != cap_; }
  size_t count(const K& k) const { return contains(k); }
  template <typename Q, typename HH = H, typename = std::enable_if_t<Transparent<HH, E>::value && !std::is_same_v<Q, K>>>
  size_t count(const Q& k) const { return contains(k); }
  template <typename Q> std::pair<iterator, iterator> equal_range(const Q& q) {
    auto a = find(q); auto b = a; if (b != end()) ++b; return {a, b};
  }

  std::pair<iterator, bool> insert(const V& v) { return Put(Stored(v)); }
  std::pair<iterator, bool> insert(V&& v) { return Put(Stored(std::move(v))); }
  template <typename P, typename = std::enable_if_t<std::is_constructible_v<V, P&&> && !std::is_same_v<std::decay_t<P>, V>>>
  std::pair<iterator, bool> insert(P&& p) { return Put(Stored(V(std::forward<P>(p)))); }
  iterator insert(const_iterator, const V& v) { return insert(v).first; }
  template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
  void insert(It b, It e) { for (; b != e; ++b) insert(V(*b)); }
  void insert(std::initializer_list<V> l) { for (auto& v : l) insert(v); }
  template <typename... A> std::pair<iterator, bool> emplace(A&&... a) { return Put(Stored(V(std::forward<A>(a)...))); }
  template <typename... A> iterator emplace_hint(const_iterator, A&&... a) { return emplace(std::forward<A>(a)...).first; }

  iterator EraseAt(size_t i) {
    std::unique_ptr<Stored> gone(TakeSlot(i));
    full_[i] = 2;
    --size_;
    return iterator(this, Next(i));
  }
  void erase(const_iterator it) { EraseAt(it.i_); }
  template <bool D = Policy::kConst, typename = std::enable_if_t<!D>>
  void erase(iterator it) { EraseAt(it.i_); }
  iterator erase(const_iterator b, const_iterator e) {
    while (b != e) { size_t i = b.i_; ++b; EraseAt(i); }
    return iterator(this, b.i_);
  }
  template <typename Q, typename = std::enable_if_t<std::is_convertible_v<const Q&, const K&> || Transparent<H, E>::value>,
            typename = std::enable_if_t<!std::is_convertible_v<Q, const_iterator>>>
  size_t erase(const Q& q) {
    size_t i = Index(q);
    if (i == cap_) return 0;
    EraseAt(i);
    return 1;
  }
  friend bool operator==(const Table& a, const Table& b) {
    if (a.size() != b.size()) return false;
    for (auto& v : a) {
      auto it = b.find(Policy::Key(v));
      if (it == b.end() || !(*it == v)) return false;
    }
    return true;
  }
  friend bool operator!=(const Table& a, const Table& b) { return !(a == b); }

 protected:
  // One block of memory for all elements, so growth moves every element.
  struct Slot {
    alignas(Stored) unsigned char b[sizeof(Stored)];
    Stored* st() { return reinterpret_cast<Stored*>(b); }
    V& get() { return st()->get(); }
  };
  std::pair<iterator, bool> Put(Stored&& s) {
    size_t i = Index(Policy::Key(s.get()));
    if (i != cap_ && cap_) return {iterator(this, i), false};
    if ((used_ + 1) * 8 > cap_ * 7) Grow(size_ * 2 + 2);
    i = PlaceFor(Policy::Key(s.get()));
    new (slots_[i]->b) Stored(std::move(s));
    full_[i] = 1;
    ++size_; ++used_;
    return {iterator(this, i), true};
  }
  template <typename Q> size_t Hs(const Q& q) const { return salt_ ? Mix(h_(q), salt_) : h_(q); }
  template <typename Q> size_t PlaceFor(const Q& q) {
    size_t i = Hs(q) & (cap_ - 1);
    while (full_[i]) i = (i + 1) & (cap_ - 1);
    return i;
  }
  Stored* TakeSlot(size_t i) {
    Stored* r = new Stored(std::move(*slots_[i]->st()));
    slots_[i]->st()->~Stored();
    return r;
  }
  size_t Next(size_t i) const { while (i < cap_ && full_[i] != 1) ++i; return i; }
  void Grow(size_t want) {
    size_t c = 4;
    while (c < want) c *= 2;
    Table t;
    t.h_ = h_; t.e_ = e_; t.salt_ = salt_;
    t.cap_ = c;
    t.slots_.p = static_cast<Slot*>(::operator new(sizeof(Slot) * c));
    t.full_ = new unsigned char[c]();
    for (size_t i = 0; i < cap_; ++i) {
      if (full_[i] != 1) continue;
      size_t j = t.PlaceFor(Policy::Key(slots_[i]->get()));
      new (t.slots_[j]->b) Stored(std::move(*slots_[i]->st()));
      t.full_[j] = 1;
      ++t.size_; ++t.used_;
    }
    swap(t);
  }
  void Free() {
    for (size_t i = 0; i < cap_; ++i) if (full_[i] == 1) slots_[i]->st()->~Stored();
    ::operator delete(slots_.p);
    delete[] full_;
    slots_.p = nullptr; full_ = nullptr; cap_ = size_ = used_ = 0;
  }
  struct Slots {
    Slot* p = nullptr;
    Slot* operator[](size_t i) const { return p + i; }
  };

 public:
  template <bool C> class Iter {
   public:
    using iterator_category = std::forward_iterator_tag;
    using value_type = V;
    using difference_type = ptrdiff_t;
    using reference = std::conditional_t<C, const V&, V&>;
    using pointer = std::conditional_t<C, const V*, V*>;
    Iter() = default;
    template <bool D, typename = std::enable_if_t<C && !D>>
    Iter(const Iter<D>& o) : t_(o.t_), i_(o.i_) {}
    reference operator*() const { return t_->slots_[i_]->get(); }
    pointer operator->() const { return &t_->slots_[i_]->get(); }
    Iter& operator++() { i_ = t_->Next(i_ + 1); return *this; }
    Iter operator++(int) { Iter r = *this; ++*this; return r; }
    friend bool operator==(const Iter& a, const Iter& b) { return a.i_ == b.i_; }
    friend bool operator!=(const Iter& a, const Iter& b) { return a.i_ != b.i_; }
    const Table* t_ = nullptr;
    size_t i_ = 0;
    Iter(const Table* t, size_t i) : t_(t), i_(i) {}
  };

 protected:
  Slots slots_;
  unsigned char* full_ = nullptr;
  size_t cap_ = 0, size_ = 0, used_ = 0;
  uint64_t salt_ = TableSalt();
  H h_;
  E e_;
};
template <typename K, typename M> struct MapStored {
  using V = std::pair<const K, M>;
  union { std::pair<K, M> m; V v; };
  explicit MapStored(const V& x) : m(x.first, x.second) {}
  explicit MapStored(V&& x) : m(std::move(const_cast<K&>(x.first)), std::move(x.second)) {}
  MapStored(MapStored&& o) : m(std::move(o.m)) {}
  ~MapStored() { m.~pair(); }
  V& get() { return *std::launder(reinterpret_cast<V*>(&m)); }
};
template <typename K> struct SetStored {
  K m;
  explicit SetStored(const K& x) : m(x) {}
  explicit SetStored(K&& x) : m(std::move(x)) {}
  K& get() { return m; }
};
struct MapPolicy {
  static constexpr bool kConst = false;
  template <typename V> static const auto& Key(const V& v) { return v.first; }
};
struct SetPolicy {
  static constexpr bool kConst = true;
  template <typename V> static const V& Key(const V& v) { return v; }
};
template <typename K, typename M, typename H, typename E>
class MapTable : public Table<K, std::pair<const K, M>, MapStored<K, M>, MapPolicy, H, E> {
  using B = Table<K, std::pair<const K, M>, MapStored<K, M>, MapPolicy, H, E>;
 public:
  using mapped_type = M;
  using B::B;
  using typename B::iterator;
  using typename B::const_iterator;
  template <typename Q = K> M& operator[](Q&& q) { return try_emplace(std::forward<Q>(q)).first->second; }
  template <typename Q = K, typename... A> std::pair<iterator, bool> try_emplace(Q&& q, A&&... a) {
    if constexpr (std::is_same_v<std::decay_t<Q>, K>) {
      auto it = this->find(q);
      if (it != this->end()) return {it, false};
      return this->insert(std::pair<const K, M>(std::piecewise_construct, std::forward_as_tuple(std::forward<Q>(q)), std::forward_as_tuple(std::forward<A>(a)...)));
    } else {
      K k(std::forward<Q>(q));
      return try_emplace(std::move(k), std::forward<A>(a)...);
    }
  }
  template <typename Q = K, typename X = M> std::pair<iterator, bool> insert_or_assign(Q&& q, X&& x) {
    K k(std::forward<Q>(q));
    auto it = this->find(k);
    if (it != this->end()) { it->second = std::forward<X>(x); return {it, false}; }
    return this->insert(std::pair<const K, M>(std::move(k), std::forward<X>(x)));
  }
  template <typename Q = K> M& at(const Q& q) {
    auto it = this->find(q);
    if (it == this->end()) throw std::out_of_range("map::at");
    return it->second;
  }
  template <typename Q = K> const M& at(const Q& q) const {
    auto it = this->find(q);
    if (it == this->end()) throw std::out_of_range("map::at");
    return it->second;
  }
};
template <typename K, typename H, typename E>
class SetTable : public Table<K, K, SetStored<K>, SetPolicy, H, E> {
  using B = Table<K, K, SetStored<K>, SetPolicy, H, E>;
 public:
  using B::B;
};
}
template <typename C, typename P>
auto erase_if(C& c, P p) -> decltype(c.capacity(), size_t()) {
  size_t n = 0;
  for (auto it = c.begin(); it != c.end();) {
    auto cur = it++;
    if (p(*cur)) { c.erase(cur); ++n; }
  }
  return n;
}
}
