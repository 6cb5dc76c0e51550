// Stand-in with the observable semantics of an unordered map (insertion order iteration).
#pragma once
#include <initializer_list>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include "symx.h"
namespace absl {
template <class K, class V, class... X>
class flat_hash_map {
 public:
  using key_type = K; using mapped_type = V; using value_type = std::pair<const K, V>;
 private:
  std::vector<std::unique_ptr<value_type>> v_;
  template <class Q> size_t idx(const Q& k) const { for (size_t i = 0; i < v_.size(); i++) if (v_[i]->first == k) return i; return v_.size(); }
 public:
  template <class B, class R> struct It {
    using iterator_category = std::forward_iterator_tag; using value_type = R; using difference_type = std::ptrdiff_t; using pointer = R*; using reference = R&;
    B b{}; It() = default; explicit It(B x) : b(x) {} template <class B2, class R2> It(const It<B2, R2>& o) : b(o.b) {}
    R& operator*() const { return **b; } R* operator->() const { return b->get(); } It& operator++() { ++b; return *this; } It operator++(int) { auto t = *this; ++b; return t; }
    friend bool operator==(It a, It c) { return a.b == c.b; } friend bool operator!=(It a, It c) { return a.b != c.b; }
  };
  using iterator = It<std::unique_ptr<value_type>*, value_type>; using const_iterator = It<const std::unique_ptr<value_type>*, const value_type>;
  flat_hash_map() = default; flat_hash_map(flat_hash_map&&) = default; flat_hash_map& operator=(flat_hash_map&&) = default;
  flat_hash_map(std::initializer_list<value_type> l) { for (auto& x : l) insert(x); }
  flat_hash_map(const flat_hash_map& o) { for (auto& x : o.v_) v_.push_back(std::make_unique<value_type>(*x)); }
  flat_hash_map& operator=(const flat_hash_map& o) { if (this != &o) { v_.clear(); for (auto& x : o.v_) v_.push_back(std::make_unique<value_type>(*x)); } return *this; }
  iterator begin() { return iterator(v_.data()); } iterator end() { return iterator(v_.data() + v_.size()); } const_iterator begin() const { return const_iterator(v_.data()); } const_iterator end() const { return const_iterator(v_.data() + v_.size()); }
  template <class Q> iterator find(const Q& k) { return iterator(v_.data() + idx(k)); } template <class Q> const_iterator find(const Q& k) const { return const_iterator(v_.data() + idx(k)); }
  template <class Q> bool contains(const Q& k) const { return idx(k) < v_.size(); } template <class Q> size_t count(const Q& k) const { return contains(k); }
  size_t size() const { return v_.size(); } bool empty() const { return v_.empty(); } void clear() { v_.clear(); } void reserve(size_t) {}
  template <class Q> V& operator[](Q&& k) { size_t i = idx(k); if (i == v_.size()) v_.push_back(std::make_unique<value_type>(std::piecewise_construct, std::forward_as_tuple(std::forward<Q>(k)), std::forward_as_tuple())); return v_[i]->second; }
  template <class Q> V& at(const Q& k) { size_t i = idx(k); if (i == v_.size()) symx_fatal("map.at"); return v_[i]->second; } template <class Q> const V& at(const Q& k) const { size_t i = idx(k); if (i == v_.size()) symx_fatal("map.at"); return v_[i]->second; }
  template <class Q, class... A> std::pair<iterator, bool> try_emplace(Q&& k, A&&... a) { size_t i = idx(k); bool n = i == v_.size(); if (n) v_.push_back(std::make_unique<value_type>(std::piecewise_construct, std::forward_as_tuple(std::forward<Q>(k)), std::forward_as_tuple(std::forward<A>(a)...))); return {iterator(v_.data() + i), n}; }
  template <class Q, class A> std::pair<iterator, bool> emplace(Q&& k, A&& a) { return try_emplace(std::forward<Q>(k), std::forward<A>(a)); }
  std::pair<iterator, bool> insert(const value_type& x) { return try_emplace(x.first, x.second); }
  std::pair<iterator, bool> insert(value_type&& x) { return try_emplace(x.first, std::move(x.second)); }
  template <class P> std::pair<iterator, bool> insert(P&& x) { return try_emplace(std::forward<P>(x).first, std::forward<P>(x).second); }
  template <class Q, class A> std::pair<iterator, bool> insert_or_assign(Q&& k, A&& a) { auto r = try_emplace(std::forward<Q>(k), a); if (!r.second) r.first->second = std::forward<A>(a); return r; }
  template <class Q> size_t erase(const Q& k) { size_t i = idx(k); if (i == v_.size()) return 0; v_.erase(v_.begin() + i); return 1; }
};
template <class K, class... X> class flat_hash_set {
  std::vector<K> v_;
  template <class Q> size_t idx(const Q& k) const { for (size_t i = 0; i < v_.size(); i++) if (v_[i] == k) return i; return v_.size(); }
 public:
  using key_type = K; using value_type = K; using iterator = const K*; using const_iterator = const K*;
  flat_hash_set() = default; flat_hash_set(std::initializer_list<K> l) { for (auto& x : l) insert(x); } template <class It> flat_hash_set(It b, It e) { for (; b != e; ++b) insert(*b); }
  iterator begin() const { return v_.data(); } iterator end() const { return v_.data() + v_.size(); }
  size_t size() const { return v_.size(); } bool empty() const { return v_.empty(); } void clear() { v_.clear(); } void reserve(size_t) {}
  template <class Q> iterator find(const Q& k) const { return v_.data() + idx(k); } template <class Q> bool contains(const Q& k) const { return idx(k) < v_.size(); } template <class Q> size_t count(const Q& k) const { return contains(k); }
  template <class Q> std::pair<iterator, bool> insert(Q&& k) { size_t i = idx(k); bool n = i == v_.size(); if (n) v_.emplace_back(std::forward<Q>(k)); return {v_.data() + i, n}; }
  template <class It> void insert(It b, It e) { for (; b != e; ++b) insert(*b); }
  template <class... A> std::pair<iterator, bool> emplace(A&&... a) { return insert(K(std::forward<A>(a)...)); }
  template <class Q> size_t erase(const Q& k) { size_t i = idx(k); if (i == v_.size()) return 0; v_.erase(v_.begin() + i); return 1; }
};
template <class K, class V, class... X> class node_hash_map : public flat_hash_map<K, V, X...> {};
}  // namespace absl
