// C14: seeded pseudorandom streams and the basic random number generator.
#include "common.h"
#include "dcf/fss_gates/prng/basic_rng.h"
#include "openssl/aes.h"
#include "pir/prng/aes_128_ctr_seeded_prng.h"
namespace dpf = distributed_point_functions;
using Prng = dpf::Aes128CtrSeededPrng;
extern "C" void symx_ctr_next(uint8_t* block);
static std::string sym_string(size_t n, const char* name) { std::string s(n, '\0'); if (n) symx_make(&s[0], n, name); return s; }
// Keystream by definition: block i is AES_seed(nonce + i), the counter big endian modulo 2^128.
static std::string keystream(const std::string& seed, const std::string& nonce, size_t len) {
  AES_KEY k; AES_set_encrypt_key(reinterpret_cast<const uint8_t*>(seed.data()), 128, &k);
  uint8_t c[16], o[16]; memcpy(c, nonce.data(), 16); std::string out;
  for (size_t i = 0; i * 16 < len; ++i) { AES_encrypt(c, o, &k); out.append(reinterpret_cast<char*>(o), 16); symx_ctr_next(c); }
  out.resize(len); return out;
}
// with_nonce 0: Create, 1: CreateWithNonce. Requests of chosen lengths, `steps` of them.
extern "C" void prng_stream(int with_nonce, int steps, int lengths) {
  static const int kLen[] = {0, 1, 15, 16, 17, 33, 3, 48, 64, 100};
  const std::string seed = sym_string(16, "seed"), nonce = with_nonce ? sym_string(16, "nonce") : std::string(16, '\0');
  std::string s2 = seed, n2 = nonce;
  auto p = with_nonce ? Prng::CreateWithNonce(s2, n2) : Prng::Create(s2);
  auto q = with_nonce ? Prng::CreateWithNonce(s2, n2) : Prng::Create(s2);
  CHECK_PROP(p.ok() && q.ok(), "a seed of 16 bytes is accepted"); if (!p.ok() || !q.ok()) return;
  std::fill(s2.begin(), s2.end(), 'z'); std::fill(n2.begin(), n2.end(), 'z');   // the generator keeps no reference
  std::string all;
  for (int i = 0; i < steps; ++i) {
    const size_t n = kLen[symx_choice(lengths, "length")]; const std::string r = (*p)->GetRandomBytes(n);
    CHECK_PROP(r.size() == n, "as many bytes as requested"); all += r;
  }
  const std::string want = keystream(seed, nonce, all.size());
  for (size_t i = 0; i < all.size(); ++i) CHECK_PROP(symx_eq(&all[i], &want[i], 1), "the stream is the AES-CTR keystream without gaps");
  const std::string one = (*q)->GetRandomBytes(all.size());
  CHECK_PROP(one.size() == all.size() && symx_eq(one.data(), all.data(), all.size()), "independent of how the requests are split");
  symx_reach("stream");
  if (!all.empty()) symx_observe(all.data(), all.size() < 16 ? all.size() : 16, "bytes");
}
// Interleaved use of two generators, and long requests.
extern "C" void prng_long(int len, int first) {
  const std::string sa = sym_string(16, "seed_a"), sb = sym_string(16, "seed_b"), nonce = sym_string(16, "nonce");
  auto a = Prng::CreateWithNonce(sa, nonce), b = Prng::Create(sb); CHECK_PROP(a.ok() && b.ok(), "created"); if (!a.ok() || !b.ok()) return;
  std::string x = (*a)->GetRandomBytes(first), y = (*b)->GetRandomBytes(first); x += (*a)->GetRandomBytes(len - first); y += (*b)->GetRandomBytes(len - first);
  const std::string wx = keystream(sa, nonce, len), wy = keystream(sb, std::string(16, '\0'), len);
  CHECK_PROP(x.size() == size_t(len) && y.size() == size_t(len), "length");
  CHECK_PROP(symx_eq(x.data(), wx.data(), len) && symx_eq(y.data(), wy.data(), len), "generators do not disturb each other");
  symx_reach("long");
}
extern "C" void prng_sizes(int maxn) {
  const size_t n = symx_choice(maxn + 1, "seed_size"), m = symx_choice(maxn + 1, "nonce_size");
  const std::string s = sym_string(n, "seed"), v = sym_string(m, "nonce");
  const auto a = Prng::CreateWithNonce(s, v); CHECK_PROP(a.ok() == (n == 16 && m == 16), "seed and nonce are 16 bytes, everything else is refused");
  if (!a.ok()) { CHECK_PROP(a.status().code() == absl::StatusCode::kInvalidArgument, "InvalidArgument"); symx_reach("refused"); } else symx_reach("accepted");
  const auto b = Prng::Create(s); CHECK_PROP(b.ok() == (n == 16), "the seed is 16 bytes");
  if (!b.ok()) CHECK_PROP(b.status().code() == absl::StatusCode::kInvalidArgument, "InvalidArgument");
  CHECK_PROP(Prng::SeedSize() == 16, "seed size");
}
extern "C" void prng_seed(int n) {
  const int fail = static_cast<int>(symx_choice(n + 1, "fail"));   // the call that fails; n: none
  symx_rand_fail_at = fail;
  for (int i = 0; i < n; ++i) {
    const int before = symx_rand_calls; auto s = Prng::GenerateSeed();
    CHECK_PROP(symx_rand_calls > before, "a new seed draws new randomness");
    if (i == fail) { CHECK_PROP(!s.ok(), "a failing random source is reported"); symx_reach("failure"); symx_rand_fail_at = -1; continue; }
    CHECK_PROP(s.ok(), "a seed"); if (!s.ok()) return;
    CHECK_PROP(s->size() == 16, "16 bytes"); CHECK_PROP(symx_rand_calls == before + 1 && symx_rand_len[before] == 16 && symx_eq(s->data(), symx_rand_log[before], 16), "the seed is the fresh system bytes");
    symx_reach("seed");
  }
}
extern "C" void basic_rng(int n) {
  auto r = dpf::BasicRng::Create(""); CHECK_PROP(r.ok(), "created"); if (!r.ok()) return;
  const int fail = static_cast<int>(symx_choice(n + 1, "fail")); symx_rand_fail_at = fail;
  for (int i = 0; i < n; ++i) {
    const int before = symx_rand_calls, w = static_cast<int>(symx_choice(3, "width")); absl::Status st; uint8_t got[16]; size_t len = 0;
    auto take = [&](auto v) { st = v.status(); if (v.ok()) { len = sizeof *v; memcpy(got, &*v, len); } };
    if (w == 0) take((*r)->Rand8()); else if (w == 1) take((*r)->Rand64()); else take((*r)->Rand128());
    CHECK_PROP(symx_rand_calls == before + 1, "each integer is drawn once from the system");
    if (i == fail) { CHECK_PROP(st.code() == absl::StatusCode::kInternal, "a failing random source is reported"); symx_reach("failure"); continue; }
    CHECK_PROP(st.ok() && len == (w == 0 ? 1u : w == 1 ? 8u : 16u) && symx_rand_len[before] == len, "an integer of the right width");
    CHECK_PROP(symx_eq(got, symx_rand_log[before], len), "the integer is the fresh bytes"); symx_reach("drawn");
  }
}
