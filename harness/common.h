// Helpers shared by the harnesses.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <tuple>
#include <vector>
#include "absl/numeric/int128.h"
#include "absl/types/span.h"
#include "symx.h"

// No-fork conjunction of conditions: every operand is already a 0/1 value.
static inline bool all_of(bool a) { return a; }
template <class... B> static inline bool all_of(bool a, B... b) { return static_cast<bool>(static_cast<int>(a) & static_cast<int>(all_of(b...))); }

static inline absl::uint128 u128(uint64_t hi, uint64_t lo) { return absl::MakeUint128(hi, lo); }
// Arbitrary n-bit number, 0 <= n <= 128.
static inline absl::uint128 sym_bits128(int n, const char* name) {
  if (n <= 0) return 0;
  if (n <= 64) return symx_bits(static_cast<unsigned>(n), name);
  absl::uint128 x; symx_make(&x, 16, name);
  if (n < 128) x &= (absl::uint128{1} << n) - 1;
  return x;
}
static inline absl::uint128 conc128(absl::uint128 x) { return u128(symx_concretize(absl::Uint128High64(x)), symx_concretize(absl::Uint128Low64(x))); }
// Enumerated n-bit number: one path per value.
static inline uint64_t choice_bits(int n, const char* name) { return symx_choice(uint64_t{1} << n, name); }
template <class T> static inline void observe(const T& v, const char* name) { symx_observe(&v, sizeof v, name); }
extern "C" { extern int symx_fixed_choices, symx_sha_salt, symx_sha_buckets, symx_sha_skip, symx_rand_fixed, symx_rand_fail, symx_rand_calls, symx_rand_fail_at; extern size_t symx_rand_len[64]; extern uint8_t symx_rand_log[64][64]; }
