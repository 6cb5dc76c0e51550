// Native replay runtime: the harness interface over a replay file written by
// tools/check.py. Lines: "in NAME W HEX" (little-endian bytes), "uf FN IN OUT".
// Exit codes: 0 ran to the end, 1 assertion failed, 77 assumption violated,
// anything else (abort, sanitizer) is a crash. Observations go to stdout.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "rt/uf_default.h"
#include "symx.h"
namespace {
std::map<std::string, std::vector<uint8_t>> ins;
std::map<std::pair<std::string, std::vector<uint8_t>>, std::vector<uint8_t>> ufs;
std::map<std::string, int> cnt;
uint64_t g_seed = 0;
std::vector<uint8_t> unhex(const std::string& h) { std::vector<uint8_t> r; for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((uint8_t)std::stoi(h.substr(i, 2), nullptr, 16)); return r; }
std::string fresh(const char* n) { int k = cnt[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
void get(const std::string& nm, uint8_t* p, size_t n) {
  auto it = ins.find(nm);
  if (it == ins.end()) {   // input the solver left open: pseudo-random, deterministic
    uint64_t h = 0x1234567 + g_seed; for (char c : nm) h = (h ^ (uint8_t)c) * 0x100000001b3ull;
    for (size_t i = 0; i < n; i++) { h += 0x9E3779B97F4A7C15ull; uint64_t z = h; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; p[i] = (uint8_t)(z >> 29); }
    return;
  }
  memset(p, 0, n); memcpy(p, it->second.data(), std::min(n, it->second.size()));
}
}
extern "C" {
void symx_make(void* p, size_t n, const char* name) {
  std::string nm = fresh(name);
  if (n <= 32) { get(nm, (uint8_t*)p, n); return; }
  for (size_t o = 0; o < n; o += 16) get(nm + "[" + std::to_string(o) + "]", (uint8_t*)p + o, std::min<size_t>(16, n - o));
}
uint64_t symx_bits(unsigned w, const char* name) { uint64_t v = 0; get(fresh(name), (uint8_t*)&v, 8); return w >= 64 ? v : v & ((uint64_t{1} << w) - 1); }
uint64_t symx_choice(uint64_t n, const char* name) { uint64_t v = 0; get(fresh(name), (uint8_t*)&v, 8); return v < n ? v : v % n; }
void symx_assume(int c) { if (!c) { fflush(stdout); printf("ASSUMPTION-VIOLATED\n"); fflush(stdout); _Exit(77); } }
void symx_fail(const char* msg) { printf("ASSERT-FAILED %s\n", msg); fflush(stdout); _Exit(1); }
void symx_assert_(int c, const char* msg) { if (!c) symx_fail(msg); }
void symx_fatal(const char* msg) { printf("ASSERT-FAILED %s\n", msg); fflush(stdout); _Exit(1); }
void symx_stop(void) { printf("STOP\n"); fflush(stdout); _Exit(0); }
void symx_reach(const char* t) { printf("REACH %s\n", t); fflush(stdout); }
void symx_observe(const void* p, size_t n, const char* name) {
  printf("OBS %s ", name); for (size_t i = 0; i < n; i++) printf("%02x", ((const uint8_t*)p)[i]);
  printf("\n"); fflush(stdout);
}
void symx_uf(void* out, size_t nout, const void* in, size_t nin, const char* name) {
  std::vector<uint8_t> k((const uint8_t*)in, (const uint8_t*)in + nin);
  if (!nin) k.push_back(0);
  auto it = ufs.find({name, k});
  if (it != ufs.end() && it->second.size() == nout) { memcpy(out, it->second.data(), nout); return; }
  std::vector<uint8_t> r(nout + 1);
  uf_default(name, k.data(), k.size(), r.data(), nout);
  memcpy(out, r.data(), nout);
}
void symx_opaque(void*, size_t) {}
uint64_t symx_concretize(uint64_t v) { return v; }
int symx_is_const(uint64_t) { return 1; }
int symx_eq(const void* p, const void* q, size_t n) { return n == 0 || memcmp(p, q, n) == 0; }
void symx_print(const char* name, uint64_t v) { fprintf(stderr, "%s = %llu\n", name, (unsigned long long)v); }
}
#ifndef SYMX_MAIN
#define SYMX_MAIN
#endif
void symx_entry(const std::string& name, const std::vector<long long>& args);  // generated by tools/check.py
int main(int argc, char** argv) {
  if (argc < 3) { fprintf(stderr, "usage: %s REPLAY_FILE ENTRY [ARG...]\n", argv[0]); return 2; }
  std::ifstream f(argv[1]); std::string line;
  while (std::getline(f, line)) {
    std::istringstream s(line); std::string k; s >> k;
    if (k == "in") { std::string n, w, h; s >> n >> w >> h; ins[n] = unhex(h); }
    else if (k == "uf") { std::string n, i, o; s >> n >> i >> o; ufs[{n, unhex(i)}] = unhex(o); }
    else if (k == "seed") s >> g_seed;
  }
  std::vector<long long> a; for (int i = 3; i < argc; i++) a.push_back(atoll(argv[i]));
  symx_entry(argv[2], a);
  printf("DONE\n");
  return 0;
}
