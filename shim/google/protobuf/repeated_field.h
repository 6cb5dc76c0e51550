#pragma once
#include <cstddef>
#include <iterator>
#include <type_traits>
#include <memory>
#include <utility>
#include <vector>
extern "C" void symx_fatal(const char* msg);
namespace google { namespace protobuf {
template <class T, class Base, class Ref>
struct PtrIter {
  using iterator_category = std::random_access_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = std::remove_reference_t<Ref>*; using reference = Ref;
  Base b{};
  PtrIter() = default; explicit PtrIter(Base x) : b(x) {}
  template <class B2, class R2> PtrIter(const PtrIter<T, B2, R2>& o) : b(o.b) {}
  reference operator*() const { return **b; } pointer operator->() const { return *b; } reference operator[](difference_type n) const { return **(b + n); }
  PtrIter& operator++() { ++b; return *this; } PtrIter operator++(int) { auto t = *this; ++b; return t; } PtrIter& operator--() { --b; return *this; } PtrIter operator--(int) { auto t = *this; --b; return t; }
  PtrIter& operator+=(difference_type n) { b += n; return *this; } PtrIter& operator-=(difference_type n) { b -= n; return *this; }
  friend PtrIter operator+(PtrIter a, difference_type n) { return PtrIter(a.b + n); } friend PtrIter operator+(difference_type n, PtrIter a) { return PtrIter(a.b + n); } friend PtrIter operator-(PtrIter a, difference_type n) { return PtrIter(a.b - n); }
  friend difference_type operator-(PtrIter a, PtrIter c) { return a.b - c.b; }
  friend bool operator==(PtrIter a, PtrIter c) { return a.b == c.b; } friend bool operator!=(PtrIter a, PtrIter c) { return a.b != c.b; } friend bool operator<(PtrIter a, PtrIter c) { return a.b < c.b; } friend bool operator<=(PtrIter a, PtrIter c) { return a.b <= c.b; } friend bool operator>(PtrIter a, PtrIter c) { return a.b > c.b; } friend bool operator>=(PtrIter a, PtrIter c) { return a.b >= c.b; }
};
template <class T>
class RepeatedPtrField {
  std::vector<T*> v_;
 public:
  using value_type = T; using reference = T&; using const_reference = const T&; using size_type = int; using difference_type = std::ptrdiff_t;
  using iterator = PtrIter<T, T* const*, T&>;
  using const_iterator = PtrIter<T, T* const*, const T&>;
  RepeatedPtrField() = default;
  RepeatedPtrField(const RepeatedPtrField& o) { MergeFrom(o); }
  RepeatedPtrField(RepeatedPtrField&& o) noexcept { v_.swap(o.v_); }
  ~RepeatedPtrField() { Clear(); }
  template <class It, class = typename std::iterator_traits<It>::iterator_category> RepeatedPtrField(It b, It e) { for (; b != e; ++b) *Add() = *b; }
  RepeatedPtrField& operator=(const RepeatedPtrField& o) { if (this != &o) { Clear(); MergeFrom(o); } return *this; }
  RepeatedPtrField& operator=(RepeatedPtrField&& o) noexcept { if (this != &o) { Clear(); v_.swap(o.v_); } return *this; }
  void MergeFrom(const RepeatedPtrField& o) { size_t n = o.v_.size(); for (size_t i = 0; i < n; i++) v_.push_back(new T(*o.v_[i])); }
  void CopyFrom(const RepeatedPtrField& o) { *this = o; }
  int size() const { return static_cast<int>(v_.size()); } bool empty() const { return v_.empty(); }
  void Chk(int i) const { if (i < 0 || static_cast<size_t>(i) >= v_.size()) symx_fatal("repeated field index out of range"); }
  const T& Get(int i) const { Chk(i); return *v_[i]; } const T& operator[](int i) const { return Get(i); } T& operator[](int i) { Chk(i); return *v_[i]; } const T& at(int i) const { return Get(i); }
  T* Mutable(int i) { Chk(i); return v_[i]; }
  T* Add() { v_.push_back(new T()); return v_.back(); }
  void Add(T&& x) { v_.push_back(new T(std::move(x))); }
  template <class It> void Add(It b, It e) { for (; b != e; ++b) *Add() = *b; }
  template <class It> void Assign(It b, It e) { Clear(); Add(b, e); }
  template <class It> void assign(It b, It e) { Clear(); Add(b, e); }
  void AddAllocated(T* p) { v_.push_back(p); }
  T* ReleaseLast() { T* p = v_.back(); v_.pop_back(); return p; }
  template <class It> iterator insert(const_iterator pos, It b, It e) { auto i = pos - cbegin(); std::vector<T*> n; for (; b != e; ++b) n.push_back(new T(*b)); v_.insert(v_.begin() + i, n.begin(), n.end()); return begin() + i; }
  iterator erase(const_iterator a, const_iterator c) { auto i = a - cbegin(), j = c - cbegin(); DeleteSubrange(static_cast<int>(i), static_cast<int>(j - i)); return begin() + i; }
  void Reserve(int) {} void Clear() { for (T* p : v_) delete p; v_.clear(); } void RemoveLast() { delete v_.back(); v_.pop_back(); }
  void DeleteSubrange(int s, int n) { for (int i = s; i < s + n; i++) delete v_[i]; v_.erase(v_.begin() + s, v_.begin() + s + n); }
  void Swap(RepeatedPtrField* o) { v_.swap(o->v_); }
  void SwapElements(int a, int b) { std::swap(v_[a], v_[b]); }
  const T& front() const { return *v_.front(); } const T& back() const { return *v_.back(); }
  iterator begin() { return iterator(v_.data()); } iterator end() { return iterator(v_.data() + v_.size()); }
  const_iterator begin() const { return const_iterator(v_.data()); } const_iterator end() const { return const_iterator(v_.data() + v_.size()); }
  const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
  const T* const* data() const { return v_.data(); } T** mutable_data() { return v_.data(); }
  iterator erase(const_iterator p) { auto i = p - cbegin(); delete v_[i]; v_.erase(v_.begin() + i); return begin() + i; }
};
template <class T>
class RepeatedField {
  std::vector<T> v_;
 public:
  using value_type = T; using iterator = T*; using const_iterator = const T*;
  int size() const { return static_cast<int>(v_.size()); } bool empty() const { return v_.empty(); }
  void Chk(int i) const { if (i < 0 || static_cast<size_t>(i) >= v_.size()) symx_fatal("repeated field index out of range"); }
  T Get(int i) const { Chk(i); return v_[i]; } T operator[](int i) const { return Get(i); } void Set(int i, T x) { Chk(i); v_[i] = x; } T* Mutable(int i) { Chk(i); return &v_[i]; }
  void Add(T x) { v_.push_back(x); } void Clear() { v_.clear(); } void Reserve(int) {}
  void MergeFrom(const RepeatedField& o) { size_t n = o.v_.size(); for (size_t i = 0; i < n; i++) v_.push_back(o.v_[i]); }
  T* begin() { return v_.data(); } T* end() { return v_.data() + v_.size(); } const T* begin() const { return v_.data(); } const T* end() const { return v_.data() + v_.size(); }
};
}}  // namespace google::protobuf
