// Stand-in: std::map (the tree support routines are in rt/env.cc).
#pragma once
#include <functional>
#include <map>
#include <set>
#include "symx.h"
namespace absl {
template <class K, class V, class C = std::less<>, class... A> class btree_map : public std::map<K, V, C> {
 public:
  using std::map<K, V, C>::map;
  template <class Q> bool contains(const Q& k) const { return this->find(k) != this->end(); }
};
template <class K, class V, class C = std::less<>, class... A> class btree_multimap : public std::multimap<K, V, C> { public: using std::multimap<K, V, C>::multimap; template <class Q> bool contains(const Q& k) const { return this->find(k) != this->end(); } };
template <class K, class C = std::less<>, class... A> class btree_set : public std::set<K, C> { public: using std::set<K, C>::set; template <class Q> bool contains(const Q& k) const { return this->find(k) != this->end(); } };
template <class K, class V, class C, class... A, class P> size_t erase_if(btree_map<K, V, C, A...>& m, P p) { size_t n = 0; for (auto i = m.begin(); i != m.end();) if (p(*i)) { i = m.erase(i); n++; } else ++i; return n; }
}  // namespace absl
