// Harness interface. Under symx these are builtins of the symbolic executor; in
// the native replay build they are defined by rt/native_rt.cc.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void symx_make(void* p, size_t n, const char* name);
uint64_t symx_bits(unsigned nbits, const char* name);
uint64_t symx_choice(uint64_t n, const char* name);   // enumerated, 0..n-1
void symx_assume(int c);
void symx_assert_(int c, const char* msg);
void symx_fail(const char* msg);
void symx_stop(void);                                  // end this path (no failure)
void symx_reach(const char* tag);                      // reachability witness
void symx_observe(const void* p, size_t n, const char* name);
void symx_uf(void* out, size_t nout, const void* in, size_t nin, const char* name);
void symx_opaque(void* p, size_t n);                    // no effect on values
uint64_t symx_concretize(uint64_t v);
int symx_is_const(uint64_t v);
int symx_eq(const void* p, const void* q, size_t n);   // byte equality without forking
void symx_print(const char* name, uint64_t v);
void symx_fatal(const char* msg);
}
#define CHECK_PROP(c, msg) symx_assert_((c) ? 1 : 0, msg)
