// Stand-in for BoringSSL. AES is modelled round by round: the key schedule and
// the XORs are concrete code, the SubBytes/ShiftRows/MixColumns permutation is
// an uninterpreted function (see rt/env.cc); RAND_bytes returns arbitrary bytes;
// SHA-256 is an uninterpreted function of the whole input.
#pragma once
#include <cstddef>
#include <cstdint>
#include <memory>
#include "symx.h"
typedef struct aes_key_st { uint32_t rd_key[60]; unsigned rounds; } AES_KEY;
struct EVP_CIPHER { int dummy; };
struct EVP_CIPHER_CTX { AES_KEY key; int initialised = 0; };
struct SHA256_CTX { uint32_t h[8]; unsigned len; uint8_t data[256]; };
#define SHA256_DIGEST_LENGTH 32
#define AES_BLOCK_SIZE 16
extern "C" {
int AES_set_encrypt_key(const uint8_t* key, unsigned bits, AES_KEY* k);
void AES_encrypt(const uint8_t* in, uint8_t* out, const AES_KEY* key);
void AES_ctr128_encrypt(const uint8_t* in, uint8_t* out, size_t len, const AES_KEY* key, uint8_t ivec[16], uint8_t ecount_buf[16], unsigned int* num);
EVP_CIPHER_CTX* EVP_CIPHER_CTX_new(void);
void EVP_CIPHER_CTX_free(EVP_CIPHER_CTX*);
const EVP_CIPHER* EVP_aes_128_ecb(void);
int EVP_EncryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, void* e, const uint8_t* key, const uint8_t* iv);
int EVP_Cipher(EVP_CIPHER_CTX* c, uint8_t* out, const uint8_t* in, size_t len);
int EVP_EncryptUpdate(EVP_CIPHER_CTX* c, uint8_t* out, int* out_len, const uint8_t* in, int in_len);
int EVP_CIPHER_CTX_set_padding(EVP_CIPHER_CTX* c, int pad);
int RAND_bytes(uint8_t* buf, size_t len);
int SHA256_Init(SHA256_CTX*); int SHA256_Update(SHA256_CTX*, const void*, size_t); int SHA256_Final(uint8_t*, SHA256_CTX*);
uint8_t* SHA256(const uint8_t* d, size_t n, uint8_t* out);
uint32_t ERR_get_error(void); void ERR_error_string_n(uint32_t e, char* b, size_t n);
}
namespace bssl {
struct CtxDel { void operator()(EVP_CIPHER_CTX* c) const { EVP_CIPHER_CTX_free(c); } };
template <class T> using UniquePtr = std::unique_ptr<T, CtxDel>;
}
