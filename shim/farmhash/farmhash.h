// Stand-in for FarmHash: an uninterpreted function of (bytes, seed).
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <utility>
#include "symx.h"
namespace util {
using uint128_t = std::pair<uint64_t, uint64_t>;
inline uint64_t Uint128Low64(uint128_t x) { return x.first; }
inline uint64_t Uint128High64(uint128_t x) { return x.second; }
inline uint128_t Uint128(uint64_t lo, uint64_t hi) { return uint128_t(lo, hi); }
inline uint128_t Hash128WithSeed(const char* s, size_t n, uint128_t seed) {
  std::string b(s, n); b.append(reinterpret_cast<const char*>(&seed.first), 8); b.append(reinterpret_cast<const char*>(&seed.second), 8);
  uint64_t o[2]; symx_uf(o, 16, b.data(), b.size(), "farmhash128"); return {o[0], o[1]};
}
template <class S> uint128_t Hash128(const S& s) { uint64_t o[2]; symx_uf(o, 16, s.data(), s.size(), "farmhash128_noseed"); return {o[0], o[1]}; }
template <class S> uint128_t Hash128WithSeed(const S& s, uint128_t seed) { return Hash128WithSeed(s.data(), s.size(), seed); }
inline uint32_t Fingerprint32(const char* s, size_t n) { uint32_t o; symx_uf(&o, 4, s, n, "farm_fp32"); return o; }
inline uint64_t Fingerprint64(const char* s, size_t n) { uint64_t o; symx_uf(&o, 8, s, n, "farm_fp64"); return o; }
inline uint32_t Fingerprint32(const std::string& s) { return Fingerprint32(s.data(), s.size()); }
inline uint64_t Fingerprint64(const std::string& s) { return Fingerprint64(s.data(), s.size()); }
inline uint32_t Hash32(const char* s, size_t n) { uint32_t o; symx_uf(&o, 4, s, n, "farm_h32"); return o; }
inline uint64_t Hash64(const char* s, size_t n) { uint64_t o; symx_uf(&o, 8, s, n, "farm_h64"); return o; }
}
