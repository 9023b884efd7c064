// Verification model of absl hash containers: an insertion-ordered sequence of
// nodes searched linearly.  One of the iteration orders absl allows.
#ifndef VF_FLAT_HASH_MAP_H_
#define VF_FLAT_HASH_MAP_H_
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <tuple>
#include <utility>
#include <vector>
#include "vf_check.h"
namespace absl {
template <class T> struct Hash { size_t operator()(const T&) const { return 0; } };
namespace vf_hash {
template <class V, class N>
class Iter {
 public:
  using iterator_category = std::forward_iterator_tag;
  using value_type = V; using difference_type = ptrdiff_t; using pointer = V*; using reference = V&;
  Iter() : p_(nullptr) {}
  explicit Iter(N* const* p) : p_(p) {}
  template <class V2, class = std::enable_if_t<std::is_convertible_v<V2*, V*>>>
  Iter(const Iter<V2, N>& o) : p_(o.raw()) {}
  V& operator*() const { return **p_; }
  V* operator->() const { return *p_; }
  Iter& operator++() { ++p_; return *this; }
  Iter operator++(int) { Iter r = *this; ++p_; return r; }
  N* const* raw() const { return p_; }
  friend bool operator==(const Iter& a, const Iter& b) { return a.p_ == b.p_; }
  friend bool operator!=(const Iter& a, const Iter& b) { return a.p_ != b.p_; }
 private:
  N* const* p_;
};
template <class K, class N, class KeyOf, bool kSet>
class Table {
 public:
  using key_type = K; using value_type = N; using size_type = size_t; using difference_type = ptrdiff_t;
  using reference = N&; using const_reference = const N&;
  using const_iterator = Iter<const N, N>;
  using iterator = std::conditional_t<kSet, const_iterator, Iter<N, N>>;
  Table() {}
  Table(std::initializer_list<N> l) { v_.reserve(l.size()); for (const N& x : l) insert(x); }
  template <class It> Table(It b, It e) { for (; b != e; ++b) insert(*b); }
  Table(const Table& o) { v_.reserve(o.v_.size()); for (N* p : o.v_) v_.push_back(new N(*p)); }
  Table(Table&& o) noexcept : v_(std::move(o.v_)) { o.v_.clear(); }
  Table& operator=(const Table& o) { if (this != &o) { clear(); v_.reserve(o.v_.size()); for (N* p : o.v_) v_.push_back(new N(*p)); } return *this; }
  Table& operator=(Table&& o) noexcept { if (this != &o) { clear(); v_ = std::move(o.v_); o.v_.clear(); } return *this; }
  Table& operator=(std::initializer_list<N> l) { clear(); for (const N& x : l) insert(x); return *this; }
  ~Table() { clear(); }
  iterator begin() { return iterator(v_.data()); }
  iterator end() { return iterator(v_.data() + v_.size()); }
  const_iterator begin() const { return const_iterator(v_.data()); }
  const_iterator end() const { return const_iterator(v_.data() + v_.size()); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  size_t size() const { return v_.size(); }
  bool empty() const { return v_.empty(); }
  void clear() { for (N* p : v_) delete p; v_.clear(); }
  void reserve(size_t) {}
  void rehash(size_t) {}
  template <class Q> size_t index_of(const Q& k) const {
    size_t n = v_.size();
    for (size_t i = 0; i < n; ++i) if (KeyOf()(*v_[i]) == k) return i;
    return n;
  }
  template <class Q = K> iterator find(const Q& k) { return iterator(v_.data() + index_of(k)); }
  template <class Q = K> const_iterator find(const Q& k) const { return const_iterator(v_.data() + index_of(k)); }
  template <class Q = K> bool contains(const Q& k) const { return index_of(k) != v_.size(); }
  template <class Q = K> size_t count(const Q& k) const { return contains(k) ? 1 : 0; }
  std::pair<iterator, bool> insert(const N& x) { return add(KeyOf()(x), [&] { return new N(x); }); }
  std::pair<iterator, bool> insert(N&& x) { return add(KeyOf()(x), [&] { return new N(std::move(x)); }); }
  iterator insert(const_iterator, const N& x) { return insert(x).first; }
  template <class It> void insert(It b, It e) { for (; b != e; ++b) insert(*b); }
  void insert(std::initializer_list<N> l) { for (const N& x : l) insert(x); }
  template <class... A> std::pair<iterator, bool> emplace(A&&... a) {
    N* n = new N(std::forward<A>(a)...);
    size_t i = index_of(KeyOf()(*n));
    if (i != v_.size()) { delete n; return {iterator(v_.data() + i), false}; }
    v_.push_back(n);
    return {iterator(v_.data() + i), true};
  }
  template <class Q = K, class = std::enable_if_t<!std::is_convertible_v<Q, const_iterator>>> size_t erase(const Q& k) {
    size_t i = index_of(k);
    if (i == v_.size()) return 0;
    drop(i);
    return 1;
  }
  void erase(const_iterator it) { drop(it.raw() - v_.data()); }
  void swap(Table& o) { v_.swap(o.v_); }
  friend bool operator==(const Table& a, const Table& b) {
    if (a.size() != b.size()) return false;
    for (N* p : a.v_) {
      size_t i = b.index_of(KeyOf()(*p));
      if (i == b.v_.size() || !(*b.v_[i] == *p)) return false;
    }
    return true;
  }
  friend bool operator!=(const Table& a, const Table& b) { return !(a == b); }

 protected:
  template <class F> std::pair<iterator, bool> add(const K& k, F make) {
    size_t i = index_of(k);
    if (i != v_.size()) return {iterator(v_.data() + i), false};
    v_.push_back(make());
    return {iterator(v_.data() + i), true};
  }
  void drop(size_t i) {
    delete v_[i];
    for (size_t j = i + 1; j < v_.size(); ++j) v_[j - 1] = v_[j];
    v_.pop_back();
  }
  std::vector<N*> v_;
};
struct First { template <class P> const auto& operator()(const P& p) const { return p.first; } };
struct Self { template <class P> const P& operator()(const P& p) const { return p; } };
}  // namespace vf_hash
template <class K, class V, class H = void, class E = void>
class flat_hash_map : public vf_hash::Table<K, std::pair<const K, V>, vf_hash::First, false> {
  using B = vf_hash::Table<K, std::pair<const K, V>, vf_hash::First, false>;
 public:
  using mapped_type = V; using typename B::iterator; using typename B::const_iterator;
  using B::B;
  flat_hash_map() {}
  template <class Q = K> V& operator[](const Q& k) { return this->add(k, [&] { return new std::pair<const K, V>(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple()); }).first->second; }
  template <class Q = K> V& at(const Q& k) { size_t i = this->index_of(k); VF_LIBCHECK(i != this->v_.size(), "map::at: no such key"); return this->v_[i]->second; }
  template <class Q = K> const V& at(const Q& k) const { size_t i = this->index_of(k); VF_LIBCHECK(i != this->v_.size(), "map::at: no such key"); return this->v_[i]->second; }
  template <class Q = K, class... A> std::pair<iterator, bool> try_emplace(const Q& k, A&&... a) {
    return this->add(k, [&] { return new std::pair<const K, V>(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<A>(a)...)); });
  }
  template <class Q = K, class W> std::pair<iterator, bool> insert_or_assign(const Q& k, W&& w) {
    auto r = this->add(k, [&] { return new std::pair<const K, V>(k, std::forward<W>(w)); });
    if (!r.second) r.first->second = std::forward<W>(w);
    return r;
  }
};
template <class K, class H = void, class E = void>
class flat_hash_set : public vf_hash::Table<K, K, vf_hash::Self, true> {
 public:
  using vf_hash::Table<K, K, vf_hash::Self, true>::Table;
  flat_hash_set() {}
};
template <class K, class V> using node_hash_map = flat_hash_map<K, V>;
template <class K> using node_hash_set = flat_hash_set<K>;
template <class C, class P> size_t erase_if(C& c, P p) {
  size_t n = 0;
  for (auto it = c.begin(); it != c.end();) { if (p(*it)) { c.erase(it); ++n; } else ++it; }
  return n;
}
}  // namespace absl
#endif
