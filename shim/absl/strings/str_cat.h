// StrCat of strings and constant integers is implemented faithfully; other pieces
// (symbolic numbers, which only occur in error messages) are rendered as "?".
#pragma once
#include <string>
#include <type_traits>
#include "absl/strings/string_view.h"
extern "C" int symx_is_const(uint64_t);
namespace absl {
namespace symx_impl {
template <class T> using Stringy = std::integral_constant<bool, std::is_convertible<const T&, absl::string_view>::value>;
template <class A> inline void cat(std::string& r, const A& a) {
  if constexpr (Stringy<A>::value) { absl::string_view s = a; r.append(s.data(), s.size()); }
  else if constexpr (std::is_integral<A>::value && sizeof(A) <= 8) {
    if (!symx_is_const(static_cast<uint64_t>(a))) { r += '?'; return; }
    uint64_t v = static_cast<uint64_t>(a); bool neg = false;
    if constexpr (std::is_signed<A>::value) if (a < 0) { neg = true; v = 0 - v; }
    char b[24]; int n = 24; do { b[--n] = static_cast<char>('0' + v % 10); v /= 10; } while (v);
    if (neg) b[--n] = '-';
    r.append(b + n, static_cast<size_t>(24 - n));
  } else r += '?';
}
}
struct AlphaNum { absl::string_view v; template <class T, std::enable_if_t<symx_impl::Stringy<T>::value, int> = 0> AlphaNum(const T& t) : v(t) {} template <class T, std::enable_if_t<!symx_impl::Stringy<T>::value, int> = 0> AlphaNum(const T&) {} };
template <class... B> std::string StrCat(const B&... b) { std::string r; (symx_impl::cat(r, b), ...); return r; }
template <class... B> void StrAppend(std::string* d, const B&... b) { d->append(StrCat(b...)); }
}  // namespace absl
