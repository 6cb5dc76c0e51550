// Force-included in native replay builds of the SIMD sources: the AES-NI rounds
// go through the same function table as everywhere else, so that a replay agrees
// with the solver's interpretation of the AES round function (real AES when the
// replay file leaves it open).
#pragma once
#include <immintrin.h>
#include <cstring>
#include "symx.h"
static inline __m128i symx_aes(__m128i s, __m128i k, const char* fn) { __m128i r; symx_uf(&r, 16, &s, 16, fn); return _mm_xor_si128(r, k); }
#define _mm_aesenc_si128(s, k) symx_aes(s, k, "aes_round_sub")
#define _mm_aesenclast_si128(s, k) symx_aes(s, k, "aes_last_sub")
