// Default interpretation of the uninterpreted functions, shared by the symbolic
// executor (model completion, folding of AES on constants) and by the native
// replay runtime, so that both agree on every input a solver model leaves open.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
namespace uf_default_impl {
inline uint8_t xt(uint8_t x) { return (uint8_t)((x << 1) ^ ((x >> 7) * 0x1b)); }
inline uint8_t gmul(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = xt(a); b >>= 1; } return r; }
inline const uint8_t* sbox() {
  static uint8_t s[256]; static bool init = false;
  if (!init) {
    for (int i = 0; i < 256; i++) {
      uint8_t inv = 0;
      if (i) { uint8_t r = 1, b = (uint8_t)i; int e = 254; while (e) { if (e & 1) r = gmul(r, b); b = gmul(b, b); e >>= 1; } inv = r; }
      uint8_t x = inv, y = inv;
      for (int k = 0; k < 4; k++) { y = (uint8_t)((y << 1) | (y >> 7)); x ^= y; }
      s[i] = x ^ 0x63;
    }
    init = true;
  }
  return s;
}
inline void sub_shift(const uint8_t* in, uint8_t* o) { const uint8_t* s = sbox(); for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) o[c * 4 + r] = s[in[((c + r) & 3) * 4 + r]]; }
inline void round_sub(const uint8_t* in, uint8_t* out) {
  uint8_t t[16]; sub_shift(in, t);
  for (int c = 0; c < 4; c++) { uint8_t* p = t + 4 * c; uint8_t a = p[0], b = p[1], d = p[2], e = p[3];
    out[4*c] = xt(a) ^ xt(b) ^ b ^ d ^ e; out[4*c+1] = a ^ xt(b) ^ xt(d) ^ d ^ e; out[4*c+2] = a ^ b ^ xt(d) ^ xt(e) ^ e; out[4*c+3] = xt(a) ^ a ^ b ^ d ^ xt(e); }
}
inline void key_schedule(const uint8_t* k, uint8_t* rk) {
  const uint8_t* s = sbox(); memcpy(rk, k, 16); uint8_t rc = 1;
  for (int i = 4; i < 44; i++) { uint8_t t[4]; memcpy(t, rk + 4 * (i - 1), 4);
    if (i % 4 == 0) { uint8_t x = t[0]; t[0] = s[t[1]] ^ rc; t[1] = s[t[2]]; t[2] = s[t[3]]; t[3] = s[x]; rc = xt(rc); }
    for (int j = 0; j < 4; j++) rk[4 * i + j] = rk[4 * (i - 4) + j] ^ t[j]; }
}
}
inline void uf_default(const char* name, const uint8_t* in, size_t nin, uint8_t* out, size_t nout) {
  using namespace uf_default_impl;
  if (!strcmp(name, "aes_round_sub") && nin == 16 && nout == 16) { round_sub(in, out); return; }
  if (!strcmp(name, "aes_last_sub") && nin == 16 && nout == 16) { sub_shift(in, out); return; }
  if (!strcmp(name, "aes_ks") && nin == 16 && nout == 176) { key_schedule(in, out); return; }
  if (!strcmp(name, "ctr_next") && nin == 16 && nout == 16) { memcpy(out, in, 16); for (int i = 15; i >= 0 && ++out[i] == 0; i--) {} return; }
  uint64_t h = 0xcbf29ce484222325ull;
  for (const char* p = name; *p; p++) h = (h ^ (uint8_t)*p) * 0x100000001b3ull;
  for (size_t i = 0; i < nin; i++) h = (h ^ in[i]) * 0x100000001b3ull;
  for (size_t i = 0; i < nout; i++) { h += 0x9E3779B97F4A7C15ull; uint64_t z = h; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; out[i] = (uint8_t)((z ^ (z >> 31)) >> 24); }
}
