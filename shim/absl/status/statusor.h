#pragma once
#include <optional>
#include <type_traits>
#include <utility>
#include "absl/meta/type_traits.h"
#include "absl/status/status.h"
#include "symx.h"
namespace absl {
template <class T> class [[nodiscard]] StatusOr {
 public:
  using value_type = T;
  StatusOr() : s_(StatusCode::kUnknown, "") {}
  StatusOr(const Status& s) : s_(s) { if (s_.ok()) s_ = Status(StatusCode::kInternal, ""); }
  StatusOr(Status&& s) : s_(s) { if (s_.ok()) s_ = Status(StatusCode::kInternal, ""); }
  template <class U = T, std::enable_if_t<std::is_constructible<T, U&&>::value && std::is_convertible<U&&, T>::value && !std::is_same<std::decay_t<U>, StatusOr<T>>::value && !std::is_same<std::decay_t<U>, Status>::value && !std::is_same<std::decay_t<U>, std::in_place_t>::value, int> = 0>
  StatusOr(U&& u) : v_(std::forward<U>(u)) {}
  template <class U = T, std::enable_if_t<std::is_constructible<T, U&&>::value && !std::is_convertible<U&&, T>::value && !std::is_same<std::decay_t<U>, StatusOr<T>>::value && !std::is_same<std::decay_t<U>, Status>::value && !std::is_same<std::decay_t<U>, std::in_place_t>::value, int> = 0>
  explicit StatusOr(U&& u) : v_(std::forward<U>(u)) {}
  template <class U, std::enable_if_t<!std::is_same<T, U>::value && std::is_constructible<T, const U&>::value && !std::is_constructible<T, const StatusOr<U>&>::value, int> = 0>
  StatusOr(const StatusOr<U>& o) : s_(o.status()) { if (o.ok()) v_.emplace(*o); }
  template <class U, std::enable_if_t<!std::is_same<T, U>::value && std::is_constructible<T, U&&>::value && !std::is_constructible<T, StatusOr<U>&&>::value, int> = 0>
  StatusOr(StatusOr<U>&& o) : s_(o.status()) { if (o.ok()) v_.emplace(std::move(*o)); }
  template <class... A> explicit StatusOr(std::in_place_t, A&&... a) : v_(std::in_place, std::forward<A>(a)...) {}
  StatusOr(const StatusOr&) = default; StatusOr(StatusOr&&) = default; StatusOr& operator=(const StatusOr&) = default; StatusOr& operator=(StatusOr&&) = default;
  bool ok() const { return s_.ok(); }
  const Status& status() const& { return s_; } Status status() && { return s_; }
  const T& value() const& { Chk(); return *v_; } T& value() & { Chk(); return *v_; } T&& value() && { Chk(); return std::move(*v_); }
  const T& operator*() const& { Chk(); return *v_; } T& operator*() & { Chk(); return *v_; } T&& operator*() && { Chk(); return std::move(*v_); }
  const T* operator->() const { Chk(); return &*v_; } T* operator->() { Chk(); return &*v_; }
  template <class U> T value_or(U&& d) const& { return ok() ? *v_ : static_cast<T>(std::forward<U>(d)); }
  void IgnoreError() const {}
  template <class... A> T& emplace(A&&... a) { s_ = Status(); return v_.emplace(std::forward<A>(a)...); }
 private:
  void Chk() const { if (!s_.ok()) symx_fatal("access to the value of a non-OK StatusOr"); }
  Status s_;
  std::optional<T> v_;
};
}  // namespace absl
