// Stand-in: every outcome in the range is possible (one path per value).
#pragma once
#include "symx.h"
extern "C" int symx_fixed_choices;   // > 0: the outcomes given by the engine instead of all outcomes
namespace absl {
template <class T = int> class uniform_int_distribution {
 public:
  using result_type = T;
  uniform_int_distribution() : uniform_int_distribution(0) {}
  explicit uniform_int_distribution(T lo, T hi = static_cast<T>(0x7fffffff)) : lo_(lo), hi_(hi) {}
  template <class R> T operator()(R& r) {
    if (hi_ <= lo_) return lo_;
    const uint64_t n = static_cast<uint64_t>(hi_ - lo_) + 1;
    return static_cast<T>(lo_ + static_cast<T>(symx_fixed_choices > 0 ? static_cast<uint64_t>(r()) % n : symx_choice(n, "random_choice")));
  }
  T a() const { return lo_; } T b() const { return hi_; } T min() const { return lo_; } T max() const { return hi_; }
  void reset() {}
 private:
  T lo_, hi_;
};
}  // namespace absl
