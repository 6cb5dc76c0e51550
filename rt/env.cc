// Environment model, compiled into every harness (to bitcode for the symbolic
// executor, natively for replay). AES is built from two uninterpreted functions,
//   aes_round_sub = MixColumns.ShiftRows.SubBytes, aes_last_sub = ShiftRows.SubBytes
// and the real XOR structure; the same two functions model AES-NI instructions.
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include "openssl/base.h"
#include "symx.h"

static void aes_encrypt(const AES_KEY* k, const uint8_t* in, uint8_t* out) {
  unsigned __int128 s, r, t;
  const char* rk = reinterpret_cast<const char*>(k->rd_key);
  memcpy(&s, in, 16); memcpy(&r, rk, 16); s ^= r;
  for (int i = 1; i < 10; i++) { symx_uf(&t, 16, &s, 16, "aes_round_sub"); memcpy(&r, rk + 16 * i, 16); s = t ^ r; }
  symx_uf(&t, 16, &s, 16, "aes_last_sub"); memcpy(&r, rk + 160, 16); s = t ^ r;
  memcpy(out, &s, 16);
}
static uint64_t be64(uint64_t x) { return __builtin_bswap64(x); }
extern "C" {
int symx_rand_fail = 0;   // harnesses may set this: RAND_bytes then reports failure
int AES_set_encrypt_key(const uint8_t* key, unsigned bits, AES_KEY* k) {
  if (!key || !k) return -1;
  if (bits != 128) return -2;
  symx_uf(k->rd_key, 176, key, 16, "aes_ks");
  k->rounds = 10;
  return 0;
}
void AES_encrypt(const uint8_t* in, uint8_t* out, const AES_KEY* key) { aes_encrypt(key, in, out); }
// The next counter block: 128-bit big-endian increment; of arbitrary blocks, an uninterpreted function with that default.
void symx_ctr_next(uint8_t* ivec) {
  uint64_t hi, lo; memcpy(&hi, ivec, 8); memcpy(&lo, ivec + 8, 8);
#ifdef SYMX_NATIVE
  const bool opaque = true;
#else
  const bool opaque = !symx_is_const(hi) || !symx_is_const(lo);
#endif
  if (opaque) { uint8_t t[16]; symx_uf(t, 16, ivec, 16, "ctr_next"); memcpy(ivec, t, 16); return; }
  unsigned __int128 c = ((unsigned __int128)be64(hi) << 64) | be64(lo);
  c += 1;
  hi = be64((uint64_t)(c >> 64)); lo = be64((uint64_t)c);
  memcpy(ivec, &hi, 8); memcpy(ivec + 8, &lo, 8);
}
void AES_ctr128_encrypt(const uint8_t* in, uint8_t* out, size_t len, const AES_KEY* key, uint8_t ivec[16], uint8_t ecount_buf[16], unsigned int* num) {
  unsigned n = *num;
  if (n >= 16) symx_fatal("AES_ctr128_encrypt: num >= 16");
  for (size_t i = 0; i < len; i++) {
    if (n == 0) {
      aes_encrypt(key, ivec, ecount_buf);
      symx_ctr_next(ivec);
    }
    out[i] = in[i] ^ ecount_buf[n];
    n = (n + 1) % 16;
  }
  *num = n;
}
EVP_CIPHER_CTX* EVP_CIPHER_CTX_new(void) { return new EVP_CIPHER_CTX(); }
void EVP_CIPHER_CTX_free(EVP_CIPHER_CTX* c) { delete c; }
const EVP_CIPHER* EVP_aes_128_ecb(void) { static EVP_CIPHER c = {1}; return &c; }
int EVP_EncryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, void*, const uint8_t* key, const uint8_t*) {
  if (!c || !t || !key) return 0;
  c->initialised = 1;
  return AES_set_encrypt_key(key, 128, &c->key) == 0;
}
int EVP_Cipher(EVP_CIPHER_CTX* c, uint8_t* out, const uint8_t* in, size_t len) {
  if (!c || !c->initialised || len % 16) return 0;
  for (size_t i = 0; i < len; i += 16) aes_encrypt(&c->key, in + i, out + i);
  return 1;
}
int EVP_CIPHER_CTX_set_padding(EVP_CIPHER_CTX*, int) { return 1; }
int EVP_EncryptUpdate(EVP_CIPHER_CTX* c, uint8_t* out, int* out_len, const uint8_t* in, int in_len) {
  *out_len = in_len; return EVP_Cipher(c, out, in, static_cast<size_t>(in_len));
}
int symx_rand_fixed = 0;  // nonzero: a fixed pseudorandom sequence instead of arbitrary bytes
static uint64_t rand_state = 0x1234567;
int symx_rand_calls = 0, symx_rand_fail_at = -1; size_t symx_rand_len[64]; uint8_t symx_rand_log[64][64];   // the draws made (first 64 bytes of each)
static int rand_bytes(uint8_t* buf, size_t len);
int RAND_bytes(uint8_t* buf, size_t len) {
  const int i = symx_rand_calls++;
  if (symx_rand_fail || i == symx_rand_fail_at) return 0;
  const int r = rand_bytes(buf, len);
  if (i < 64) { symx_rand_len[i] = len; memcpy(symx_rand_log[i], buf, len < 64 ? len : 64); }
  return r;
}
static int rand_bytes(uint8_t* buf, size_t len) {
  if (symx_rand_fixed) {   // n > 1: the next n - 1 calls only
    if (symx_rand_fixed > 1 && --symx_rand_fixed == 1) symx_rand_fixed = 0;
    for (size_t i = 0; i < len; i++) { rand_state = rand_state * 6364136223846793005ull + 1442695040888963407ull; buf[i] = static_cast<uint8_t>(rand_state >> 56); }
    return 1;
  }
  if (len) symx_make(buf, len, "rand");
  return 1;
}
int SHA256_Init(SHA256_CTX* c) { memset(c, 0, sizeof *c); return 1; }
int SHA256_Update(SHA256_CTX* c, const void* d, size_t n) {
  if (n > sizeof(c->data) - c->len) { symx_fatal("SHA256 stand-in: input too long"); return 0; }
  if (n) memcpy(c->data + c->len, d, n);
  c->len += static_cast<unsigned>(n); return 1;
}
// symx_sha_buckets > 0: the digest of each new constant input is one of 0..symx_sha_buckets-1 (one path per value), the same for equal inputs;
// inputs of symx_sha_skip bytes keep the uninterpreted digest.
int symx_sha_buckets = 0, symx_sha_skip = -1, symx_sha_salt = 0, symx_fixed_choices = 0;
static struct { uint8_t data[64]; size_t len; uint8_t value; } sha_memo[64]; static int sha_memos = 0;
static void sha256(const uint8_t* d, size_t n, uint8_t* o) {
  if (symx_sha_buckets < 0 && static_cast<int>(n) != symx_sha_skip) {   // fixed digests, selected by symx_sha_salt
    uint32_t h = 2166136261u + 40503u * static_cast<uint32_t>(symx_sha_salt); for (size_t i = 0; i < n; i++) h = (h ^ d[i]) * 16777619u;
    memset(o, 0, 32); o[0] = static_cast<uint8_t>((h >> 9) % static_cast<uint32_t>(-symx_sha_buckets)); return;
  }
  if (symx_sha_buckets > 0 && static_cast<int>(n) != symx_sha_skip && n <= 64) {
    int i = 0; for (; i < sha_memos; i++) if (sha_memo[i].len == n && memcmp(sha_memo[i].data, d, n) == 0) break;
    if (i == 64) symx_fatal("SHA256 stand-in: too many inputs");
    if (i == sha_memos) { memcpy(sha_memo[i].data, d, n); sha_memo[i].len = n; sha_memo[i].value = static_cast<uint8_t>(symx_choice(static_cast<uint64_t>(symx_sha_buckets), "digest")); sha_memos++; }
    memset(o, 0, 32); o[0] = sha_memo[i].value; return;
  }
  symx_uf(o, 32, d, n, "sha256");
}
int SHA256_Final(uint8_t* o, SHA256_CTX* c) { sha256(c->data, c->len, o); return 1; }
uint8_t* SHA256(const uint8_t* d, size_t n, uint8_t* out) { sha256(d, n, out); return out; }
uint32_t ERR_get_error(void) { return 0; }
void ERR_error_string_n(uint32_t, char* b, size_t n) { if (n) b[0] = 0; }
}
#ifndef SYMX_NATIVE
extern "C" void symx_fatal(const char* msg) { symx_fail(msg); }
// libstdc++ support routines for ordered containers: binary search tree
// without rebalancing (the containers' contract does not depend on balance).
#include <bits/stl_tree.h>
namespace std {
using B = _Rb_tree_node_base;
B* _Rb_tree_increment(B* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  B* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
const B* _Rb_tree_increment(const B* x) throw() { return _Rb_tree_increment(const_cast<B*>(x)); }
B* _Rb_tree_decrement(B* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { B* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  B* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const B* _Rb_tree_decrement(const B* x) throw() { return _Rb_tree_decrement(const_cast<B*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, B* x, B* p, B& h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;   // only the header is red
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
  } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
B* _Rb_tree_rebalance_for_erase(B* const z, B& h) throw() {
  auto replace = [&](B* o, B* n) {
    B* p = o->_M_parent;
    if (p == &h) h._M_parent = n; else if (p->_M_left == o) p->_M_left = n; else p->_M_right = n;
    if (n) n->_M_parent = p;
  };
  B* next = _Rb_tree_increment(z); B* lm = h._M_left; B* rm = h._M_right;
  if (lm == z) lm = next;
  if (rm == z) rm = _Rb_tree_decrement(z);
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    B* y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; } else { h._M_left = lm; h._M_right = rm; }
  return z;
}
}
#endif
// hwy aligned allocation
namespace hwy {
using AllocPtr = void* (*)(void*, size_t); using FreePtr = void (*)(void*, void*);
void* AllocateAlignedBytes(size_t n, AllocPtr a, void* o);
void FreeAlignedBytes(const void* p, FreePtr f, void* o);
void* AllocateAlignedBytes(size_t n, AllocPtr, void*) {
  if (n == 0) abort();   // Highway asserts payload_size != 0
  if (n >= SIZE_MAX / 2) return nullptr;
  return aligned_alloc(64, (n + 63) / 64 * 64); }
void FreeAlignedBytes(const void* p, FreePtr, void*) { free(const_cast<void*>(p)); }
}
#include "absl/base/internal/throw_delegate.h"
namespace absl { namespace base_internal {
void ThrowStdOutOfRange(const char* m) { symx_fatal("exception: out of range"); __builtin_abort(); }
void ThrowStdLengthError(const char* m) { symx_fatal("exception: length error"); __builtin_abort(); }
void ThrowStdInvalidArgument(const char* m) { symx_fatal("exception: invalid argument"); __builtin_abort(); }
} }
