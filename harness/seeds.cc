// C05: seed evaluation (vectorised dispatch and portable variant) against an
// own definition written from the documentation.
#include "common.h"
#include "dpf/aes_128_fixed_key_hash.h"
#include "dpf/internal/evaluate_prg_hwy.h"
#include "hwy/aligned_allocator.h"
#include "openssl/aes.h"
namespace dpf = distributed_point_functions;
using absl::uint128;
static const uint128 KL = u128(0x0123456789abcdefull, 0x0011223344556677ull), KR = u128(0xfedcba9876543210ull, 0x8899aabbccddeeffull);
static dpf::Aes128FixedKeyHash mk(uint128 k) { auto r = dpf::Aes128FixedKeyHash::Create(k); if (!r.ok()) symx_fatal("Create failed"); return *std::move(r); }
static uint128 prg1(const dpf::Aes128FixedKeyHash& h, uint128 x) { uint128 r; if (!h.Evaluate(absl::MakeConstSpan(&x, 1), absl::MakeSpan(&r, 1)).ok()) symx_fatal("hash failed"); return r; }
// which: 0 dispatching EvaluateSeeds, 1 EvaluateSeedsNoHwy.
// per: 0 one correction word per level, 1 one per seed and level.
// place: 0 aligned separate output, 1 aligned in place, 2 seeds unaligned, 3 paths unaligned, 4 output unaligned.
// pat: 0 every assignment of the used path bits, 1 sixteen patterns; all unused path bits are symbolic.
extern "C" void eval_seeds(int which, int n, int levels, int per, int rs, int place, int pat) {
  int ncw = per ? n * levels : levels;
  auto l = mk(KL), r = mk(KR);
  auto sin = hwy::AllocateAligned<uint128>(n + 2), pth = hwy::AllocateAligned<uint128>(n + 2), cs = hwy::AllocateAligned<uint128>(ncw + 2), out = hwy::AllocateAligned<uint128>(n + 2);
  std::vector<uint8_t> cb(n + 1), cb2(n + 1), cl(ncw + 1), cr(ncw + 1);
  uint128 *ps = sin.get() + (place == 2), *pp = pth.get() + (place == 3), *po = place == 1 ? ps : out.get() + (place == 4);
  bool *bi = reinterpret_cast<bool*>(cb.data()), *bo = place == 1 ? bi : reinterpret_cast<bool*>(cb2.data());
  auto nm = [](char* b, char c, int i) { b[0] = c; b[1] = '0' + i / 100; b[2] = '0' + i / 10 % 10; b[3] = '0' + i % 10; b[4] = 0; return b; };
  char nb[5];
  unsigned used = levels < 128 - rs ? levels : (rs >= 128 ? 0 : 128 - rs);
  uint128 um = rs >= 128 ? uint128{0} : (((uint128{1} << used) - 1) << rs);
  int pt = pat == 1 ? symx_choice(16, "pattern") : pat == 2 ? 10 + symx_choice(3, "pattern") : 0;
  // pat 2: batches longer than 64; only the elements around the boundary are symbolic
  auto symb = [&](int i) { return pat != 2 || i == 0 || i == 63 || i == 64; };
  auto mkx = [&](uint128* x, int i, const char* nm) { if (symb(i)) symx_make(x, 16, nm); else *x = u128(0x9e3779b97f4a7c15ull * (i + nm[0]), 0xbf58476d1ce4e5b9ull * (i + 77) + nm[0]); };
  auto mkb = [&](int i, const char* nm) -> uint8_t { if (symb(i)) return which == 1 || place >= 2 ? symx_choice(2, nm) : symx_bits(1, nm); return ((i * 2654435761u + nm[0]) >> 9) & 1; };
  for (int i = 0; i < n; i++) {
    mkx(&ps[i], i, nm(nb, 's', i)); cb[i] = mkb(i, nm(nb, 'c', i));
    mkx(&pp[i], i, nm(nb, 'p', i));
    uint64_t v = 0;
    if (!pat) v = choice_bits(used, nm(nb, 'b', i));
    else for (unsigned j = 0; j < used; j++) {
      unsigned k = i * used + j, h = (k * 2654435761u + pt * 40503u) >> 7;
      bool bit = pt == 0 ? 0 : pt == 1 ? 1 : pt == 2 ? i & 1 : pt == 3 ? !(i & 1) : pt == 4 ? j & 1 : pt == 5 ? (i ^ j) & 1 : pt == 6 ? i == n - 1 : pt == 7 ? j == used - 1 : pt == 8 ? (i >> 1) & 1 : pt == 9 ? (i >> 2) & 1 : pt == 10 ? i == 0 : h & 1;
      v |= static_cast<uint64_t>(bit) << j;
    }
    pp[i] = (pp[i] & ~um) | (rs >= 128 ? uint128{0} : uint128{v} << rs);
  }
  for (int i = 0; i < ncw; i++) {
    int e = per ? i % n : pat == 2 ? 1 : 0;
    auto bit = [&](const char* m) -> uint8_t { return symb(e) ? symx_bits(1, m) : ((i * 40503u + m[0]) >> 5) & 1; };
    mkx(&cs[i], e, nm(nb, 'w', i)); if (!symb(e)) cs[i] += i;
    cl[i] = bit(nm(nb, 'l', i)); cr[i] = bit(nm(nb, 'r', i));
  }
  // guards: the slot after the last output must stay untouched
  uint128 guard = u128(0x5555aaaa5555aaaaull, 0x1234123412341234ull);
  po[n] = guard; bo[n] = 0;
  std::vector<uint128> es(n), want(n); std::vector<uint8_t> wc(n);
  for (int i = 0; i < n; i++) {
    uint128 s = ps[i]; bool t = cb[i];
    for (int j = 0; j < levels; j++) {
      // the portable code branches on control bits: split the cases here too
      if (which == 1 || place >= 2) t = symx_concretize(t) != 0;
      int bit = levels - 1 - j + rs;
      bool right = bit < 128 ? absl::Uint128Low64((pp[i] >> bit) & 1) != 0 : false;
      uint128 a = prg1(l, s), b = prg1(r, s), m = uint128{0} - uint128{static_cast<uint64_t>(right)};
      uint128 h = (a & ~m) | (b & m);
      int w = per ? j * n + i : j;
      uint128 tm = uint128{0} - uint128{static_cast<uint64_t>(t)};
      h ^= cs[w] & tm;
      bool nt = absl::Uint128Low64(h) & 1;
      h &= ~uint128{1};
      int corr = right ? cr[w] : cl[w];
      nt = (static_cast<int>(nt) ^ (static_cast<int>(t) & corr)) != 0;
      s = h; t = nt;
    }
    want[i] = s; wc[i] = t;
  }
  auto f = which ? dpf::dpf_internal::EvaluateSeedsNoHwy : dpf::dpf_internal::EvaluateSeeds;
  absl::Status st = f(n, levels, ncw, ps, bi, pp, rs, cs.get(), reinterpret_cast<const bool*>(cl.data()), reinterpret_cast<const bool*>(cr.data()), l, r, po, bo);
  CHECK_PROP(st.ok(), "evaluation refused");
  if (levels > 0 || place == 1)
    for (int i = 0; i < n; i++) {
      CHECK_PROP(symx_eq(&po[i], &want[i], 16), "seed differs from the definition");
      CHECK_PROP(reinterpret_cast<uint8_t*>(bo)[i] == wc[i], "control bit differs from the definition");
    }
  CHECK_PROP(po[n] == guard && !bo[n], "wrote past the outputs");
  symx_reach("evaluated");
  if (n && levels > 0) { observe(po[n - 1], "last"); observe(bo[0], "first_bit"); }
}
// A count of correction words that fits neither layout is refused.
extern "C" void eval_seeds_bad(int which, int maxn, int maxl) {
  int n = 1 + symx_choice(maxn, "n"), levels = 1 + symx_choice(maxl, "levels"), ncw = symx_choice(maxn * maxl + 3, "ncw");
  if (ncw == levels || ncw == n * levels) { symx_stop(); return; }
  auto l = mk(KL), r = mk(KR);
  int tot = n * levels + ncw + 2;
  auto a = hwy::AllocateAligned<uint128>(n), b = hwy::AllocateAligned<uint128>(n), c = hwy::AllocateAligned<uint128>(tot), d = hwy::AllocateAligned<uint128>(n);
  for (int i = 0; i < n; i++) { a[i] = i; b[i] = i; d[i] = 0; }
  for (int i = 0; i < tot; i++) c[i] = i;
  std::vector<uint8_t> v(tot, 0), w(n, 0);
  auto f = which ? dpf::dpf_internal::EvaluateSeedsNoHwy : dpf::dpf_internal::EvaluateSeeds;
  absl::Status st = f(n, levels, ncw, a.get(), reinterpret_cast<bool*>(w.data()), b.get(), 0, c.get(), reinterpret_cast<bool*>(v.data()), reinterpret_cast<bool*>(v.data()), l, r, d.get(), reinterpret_cast<bool*>(w.data()));
  CHECK_PROP(st.code() == absl::StatusCode::kInvalidArgument, "wrong number of correction words accepted");
  symx_reach("refused");
}
// C13: the fixed-key hash.
extern "C" void fixed_hash(int n, int mode) {
  uint128 key; symx_make(&key, 16, "key");
  auto h = mk(key);
  CHECK_PROP(symx_eq(&h.key(), &key, 16), "key() is not the key");
  std::vector<uint128> in(n), out(n + 1), want(n);
  char nb[8];
  for (int i = 0; i < n; i++) {
    int x = i; int p = 0; nb[p++] = 'x'; for (int d = 1000; d; d /= 10) nb[p++] = '0' + x / d % 10; nb[p] = 0;
    symx_make(&in[i], 16, nb);
  }
  out[n] = 7;
  for (int i = 0; i < n; i++) {
    uint64_t hi = absl::Uint128High64(in[i]), lo = absl::Uint128Low64(in[i]);
    uint64_t sg[2] = {hi, hi ^ lo};   // little endian: low half is hi, high half is hi ^ lo
    uint64_t e[2]; AES_KEY ek;
    AES_set_encrypt_key(reinterpret_cast<const uint8_t*>(&key), 128, &ek);
    AES_encrypt(reinterpret_cast<const uint8_t*>(sg), reinterpret_cast<uint8_t*>(e), &ek);
    e[0] ^= sg[0]; e[1] ^= sg[1];
    memcpy(&want[i], e, 16);
  }
  absl::Status st;
  uint128* res = out.data();
  if (mode == 1) { st = h.Evaluate(in, absl::MakeSpan(in)); res = in.data(); }                       // same buffer
  else if (mode == 2) { auto h2 = std::move(h); st = h2.Evaluate(in, absl::MakeSpan(out.data(), n)); }  // moved object
  else if (mode == 3) { st = h.Evaluate(in, absl::MakeSpan(out.data(), n)); if (st.ok()) st = h.Evaluate(in, absl::MakeSpan(out.data(), n)); }
  else if (mode == 4) { for (int i = 0; i < n && st.ok(); i += 3) { int k = std::min(3, n - i); st = h.Evaluate(absl::MakeConstSpan(in.data() + i, k), absl::MakeSpan(out.data() + i, k)); } }
  else st = h.Evaluate(in, absl::MakeSpan(out.data(), n));
  CHECK_PROP(st.ok(), "hash refused");
  for (int i = 0; i < n; i++) CHECK_PROP(symx_eq(&res[i], &want[i], 16), "hash differs from AES_k(sigma(x)) ^ sigma(x)");
  CHECK_PROP(out[n] == 7, "wrote past the output");
  symx_reach("hashed");
  if (n) observe(res[n - 1], "hash");
}
extern "C" void fixed_hash_sizes(int maxn) {
  int n = symx_choice(maxn + 1, "n"), m = symx_choice(maxn + 1, "m");
  if (n == m) { symx_stop(); return; }
  uint128 key; symx_make(&key, 16, "key");
  auto h = mk(key);
  std::vector<uint128> in(n, 3), out(m, 5);
  CHECK_PROP(h.Evaluate(in, absl::MakeSpan(out)).code() == absl::StatusCode::kInvalidArgument, "size mismatch accepted");
  for (auto& o : out) CHECK_PROP(o == 5, "output written despite the error");
  symx_reach("refused");
}
