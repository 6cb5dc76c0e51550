// Symbolic values of the DPF output groups.
#pragma once
#include "common.h"
#include "dpf/distributed_point_function.h"
#include "dpf/int_mod_n.h"
#include "dpf/tuple.h"
#include "dpf/xor_wrapper.h"
namespace dpf = distributed_point_functions;
template <class T, class = void> struct V;
template <class T> struct V<T, std::enable_if_t<std::is_integral<T>::value || std::is_same<T, absl::uint128>::value>> {
  static T make(const char* n) { T x; symx_make(&x, sizeof x, n); return x; }
  static bool eq(const T& a, const T& b) { return symx_eq(&a, &b, sizeof a); }
  static T zero() { return T{0}; }
  static T add(const T& a, const T& b) { return static_cast<T>(a + b); }   // reference group operation
  static void obs(const T& a, const char* n) { observe(a, n); }
};
template <class I> struct V<dpf::XorWrapper<I>> {
  using T = dpf::XorWrapper<I>;
  static T make(const char* n) { return T(V<I>::make(n)); }
  static bool eq(const T& a, const T& b) { return V<I>::eq(a.value(), b.value()); }
  static T zero() { return T(I{0}); }
  static T add(const T& a, const T& b) { return T(static_cast<I>(a.value() ^ b.value())); }
  static void obs(const T& a, const char* n) { V<I>::obs(a.value(), n); }
};
template <class I, class M, M N> struct V<dpf::dpf_internal::IntModNImpl<I, M, N>> {
  using T = dpf::dpf_internal::IntModNImpl<I, M, N>;
  static T make(const char* n) { I x = V<I>::make(n); symx_assume(x < static_cast<I>(N)); return T(x); }
  static bool eq(const T& a, const T& b) { return V<I>::eq(a.value(), b.value()); }
  static T zero() { return T(I{0}); }
  static T add(const T& a, const T& b) {   // a + b mod N without division, a,b < N
    I x = a.value(), y = b.value(), n = static_cast<I>(N);
    I gap = n - y;
    I r = x >= gap ? static_cast<I>(x - gap) : static_cast<I>(x + y);
    return T(r);
  }
  static void obs(const T& a, const char* n) { V<I>::obs(a.value(), n); }
};
template <class... E> struct V<dpf::Tuple<E...>> {
  using T = dpf::Tuple<E...>;
  template <size_t... I> static T mk(const char* n, std::index_sequence<I...>) { T t; (void)std::initializer_list<int>{(std::get<I>(t.value()) = V<E>::make(n), 0)...}; return t; }
  static T make(const char* n) { return mk(n, std::index_sequence_for<E...>()); }
  template <size_t... I> static bool eqi(const T& a, const T& b, std::index_sequence<I...>) { return all_of(V<E>::eq(std::get<I>(a.value()), std::get<I>(b.value()))..., true); }
  static bool eq(const T& a, const T& b) { return eqi(a, b, std::index_sequence_for<E...>()); }
  static T zero() { return T(V<E>::zero()...); }
  template <size_t... I> static T addi(const T& a, const T& b, std::index_sequence<I...>) { return T(V<E>::add(std::get<I>(a.value()), std::get<I>(b.value()))...); }
  static T add(const T& a, const T& b) { return addi(a, b, std::index_sequence_for<E...>()); }
  template <size_t... I> static void obsi(const T& a, const char* n, std::index_sequence<I...>) { (void)std::initializer_list<int>{(V<E>::obs(std::get<I>(a.value()), n), 0)...}; }
  static void obs(const T& a, const char* n) { obsi(a, n, std::index_sequence_for<E...>()); }
};
