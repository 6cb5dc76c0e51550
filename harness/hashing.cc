// C18: hash tables. C19: hash functions and families.
#include "common.h"
#include <map>
#include "openssl/sha.h"
#include "pir/hashing/cuckoo_hash_table.h"
#include "pir/hashing/farm_hash_family.h"
#include "pir/hashing/hash_family.h"
#include "pir/hashing/hash_family_config.h"
#include "pir/hashing/multiple_choice_hash_table.h"
#include "pir/hashing/sha256_hash_family.h"
#include "pir/hashing/simple_hash_table.h"
#include <farmhash/farmhash.h>
namespace dpf = distributed_point_functions;
static std::string sym_string(size_t n, const char* name) { std::string s(n, '\0'); if (n) symx_make(&s[0], n, name); return s; }
// Hash functions with arbitrary outcomes: function f maps element e to bucket g_hash[f][e].
static int g_hash[4][8], g_calls; static bool g_range_ok;
static int element(absl::string_view s) { return s.size() == 2 && s[0] == 'e' ? s[1] - '0' : -1; }
static std::string name_of(int e) { std::string s = "e0"; s[1] = static_cast<char>('0' + e); return s; }
static std::vector<dpf::HashFunction> functions(int nf, int ne, int buckets) {
  std::vector<dpf::HashFunction> v; g_range_ok = true;
  for (int f = 0; f < nf; ++f) {
    for (int e = 0; e < ne; ++e) g_hash[f][e] = static_cast<int>(symx_choice(static_cast<uint64_t>(buckets), "hash"));
    v.push_back([f, buckets](absl::string_view s, int bound) { const int e = element(s); if (e < 0 || bound != buckets) { g_range_ok = false; return 0; } return g_hash[f][e]; });
  }
  return v;
}
static bool at_bucket(int e, int b, int nf) { for (int f = 0; f < nf; ++f) if (g_hash[f][e] == b) return true; return false; }
// `ops` insertions of elements chosen among `ne`, `nf` functions, relocation limit `rel`, stash limit `stash` (-1: none).
extern "C" void cuckoo(int ops, int ne, int buckets, int nf, int rel, int stash) {
  auto t = dpf::CuckooHashTable::Create(functions(nf, ne, buckets), buckets, rel, stash < 0 ? absl::optional<int>() : absl::optional<int>(stash));
  CHECK_PROP(t.ok(), "created"); if (!t.ok()) return;
  std::vector<int> count(ne, 0);
  for (int i = 0; i < ops; ++i) {
    const int e = static_cast<int>(symx_choice(static_cast<uint64_t>(std::min(ne, i + 1)), "element"));
    const size_t before = (*t)->GetStash().size(); const absl::Status st = (*t)->Insert(name_of(e));
    if (st.ok()) count[e]++;
    else { symx_reach("refused"); CHECK_PROP(st.code() == absl::StatusCode::kInternal && stash >= 0 && before >= static_cast<size_t>(stash), "refused only when the stash is full"); }
    CHECK_PROP((*t)->GetTable().size() == static_cast<size_t>(buckets), "table size");
    CHECK_PROP(stash < 0 || (*t)->GetStash().size() <= static_cast<size_t>(stash), "the stash bound is respected");
    std::vector<int> seen(ne, 0); bool known = true, placed = true; int b = 0;
    for (auto& s : (*t)->GetTable()) { if (s) { const int x = element(*s); if (x < 0 || x >= ne) known = false; else { seen[x]++; if (!at_bucket(x, b, nf)) placed = false; } } ++b; }
    for (auto& s : (*t)->GetStash()) { const int x = element(s); if (x < 0 || x >= ne) known = false; else { seen[x]++; symx_reach("stashed"); } }
    CHECK_PROP(known, "only inserted elements are stored"); CHECK_PROP(placed, "every element is at one of its hash buckets");
    CHECK_PROP(seen == count, "every inserted element is stored as often as it was inserted");
  }
  CHECK_PROP(g_range_ok, "elements are hashed unaltered into the number of buckets"); CHECK_PROP((*t)->GetHashFunctions().size() == static_cast<size_t>(nf), "hash functions");
  symx_reach("inserted");
}
// kind 0: SimpleHashTable, 1: MultipleChoiceHashTable; maxb < 0: unlimited.
template <class T> static void buckets_run(int kind, int ops, int ne, int buckets, int nf, int maxb) {
  auto t = T::Create(functions(nf, ne, buckets), buckets, maxb < 0 ? absl::optional<int>() : absl::optional<int>(maxb)); CHECK_PROP(t.ok(), "created"); if (!t.ok()) return;
  std::vector<std::vector<int>> model(buckets, std::vector<int>(ne, 0)); std::vector<int> size(buckets, 0), mult(ne, 0);
  for (int i = 0; i < ops; ++i) {
    const int e = static_cast<int>(symx_choice(static_cast<uint64_t>(std::min(ne, i + 1)), "element")); const absl::Status st = (*t)->Insert(name_of(e));
    bool full;
    if (kind == 0) { std::vector<int> add(buckets, 0); full = false; for (int f = 0; f < nf; ++f) add[g_hash[f][e]]++; for (int b = 0; b < buckets; ++b) if (add[b] && maxb >= 0 && size[b] + add[b] > maxb) full = true;
      if (!full) for (int b = 0; b < buckets; ++b) { size[b] += add[b]; model[b][e] += add[b]; } }
    else { full = maxb >= 0; for (int f = 0; f < nf; ++f) if (size[g_hash[f][e]] < maxb) full = false; }
    CHECK_PROP(st.ok() == !full, "refused exactly when the bucket limit would be exceeded");
    if (!st.ok()) { CHECK_PROP(st.code() == absl::StatusCode::kInternal, "Internal"); symx_reach("refused"); } else { symx_reach("inserted"); mult[e]++; }
    CHECK_PROP((*t)->GetTable().size() == static_cast<size_t>(buckets), "table size"); if ((*t)->GetTable().size() != static_cast<size_t>(buckets)) return;
    bool known = true; std::vector<std::vector<int>> now(buckets, std::vector<int>(ne, 0)); std::vector<int> nsize(buckets, 0);
    for (int b = 0; b < buckets; ++b) for (auto& s : (*t)->GetTable()[b]) { const int x = element(s); if (x < 0 || x >= ne) known = false; else now[b][x]++; nsize[b]++; }
    CHECK_PROP(known, "only inserted elements are stored");
    for (int b = 0; b < buckets; ++b) CHECK_PROP(maxb < 0 || nsize[b] <= maxb, "buckets respect their maximum size");
    if (kind == 0) CHECK_PROP(now == model, "an element is in the bucket of each of its hash functions, or nowhere if refused");
    else {
      if (st.ok()) {   // exactly one more copy, in a least full of the element's buckets
        int where = -1, least = 1 << 30; for (int f = 0; f < nf; ++f) least = std::min(least, size[g_hash[f][e]]);
        for (int b = 0; b < buckets; ++b) if (nsize[b] != size[b]) { CHECK_PROP(where < 0 && nsize[b] == size[b] + 1, "one bucket grows by one"); where = b; }
        CHECK_PROP(where >= 0 && at_bucket(e, where, nf) && size[where] == least, "inserted into a least full bucket of the element");
        if (where >= 0) model[where][e]++;
      }
      CHECK_PROP(now == model, "no element is lost, moved or duplicated"); size = nsize;
    }
  }
  CHECK_PROP(g_range_ok, "elements are hashed unaltered into the number of buckets");
}
extern "C" void bucket_tables(int kind, int ops, int ne, int buckets, int nf, int maxb) {
  if (kind == 0) buckets_run<dpf::SimpleHashTable>(0, ops, ne, buckets, nf, maxb); else buckets_run<dpf::MultipleChoiceHashTable>(1, ops, ne, buckets, nf, maxb);
}
static int sym_int(const char* n) { return static_cast<int>(static_cast<uint32_t>(symx_bits(32, n))); }
extern "C" void table_params(int kind) {
  const int nf = static_cast<int>(symx_choice(4, "functions")), buckets = symx_choice(2, "big") ? static_cast<int>(symx_choice(3, "buckets")) : -1 - static_cast<int>(symx_choice(2, "neg") * 0x7ffffffeu);
  const bool limit = symx_choice(2, "limit") != 0; const int lim = limit ? sym_int("limit_value") : 0; if (lim > 3) { symx_stop(); return; }
  absl::Status st; bool ok = buckets > 0; absl::optional<int> l; if (limit) l = lim;
  if (kind == 2) { const int rel = sym_int("relocations"); st = dpf::CuckooHashTable::Create(functions(nf, 1, 1), buckets, rel, l).status(); ok = ok && nf >= 2 && rel >= 0 && !(limit && lim < 0); }
  else if (kind == 1) { st = dpf::MultipleChoiceHashTable::Create(functions(nf, 1, 1), buckets, l).status(); ok = ok && nf >= 2 && !(limit && lim <= 0); }
  else { st = dpf::SimpleHashTable::Create(functions(nf, 1, 1), buckets, l).status(); ok = ok && nf >= 1 && !(limit && lim <= 0); }
  CHECK_PROP(st.ok() == ok, "created exactly with valid limits and enough hash functions");
  if (st.ok()) symx_reach("accepted"); else { CHECK_PROP(st.code() == absl::StatusCode::kInvalidArgument, "InvalidArgument"); symx_reach("refused"); }
}
// ---- C19 ----
static const int kBounds[] = {1, 2, 3, 5, 7, 10, 16, 100, 255, 256, 1000, 65535, 65536, 1000003, 1 << 30, 2147483647};
static int bound_of(int kind) { if (kind) { const int b = sym_int("bound"); symx_assume(b > 0); return b; } return kBounds[symx_choice(16, "bound")]; }
// The digest of the bytes, as a little-endian 256-bit number, modulo b.
static int reduce256(const std::string& bytes, int b) {
  uint64_t d[4]; SHA256_CTX c; SHA256_Init(&c); SHA256_Update(&c, bytes.data(), bytes.size()); SHA256_Final(reinterpret_cast<uint8_t*>(d), &c);
  const absl::uint128 m = static_cast<absl::uint128>(b); absl::uint128 r = absl::MakeUint128(d[3], d[2]) % m;
  r = absl::MakeUint128(static_cast<uint64_t>(r), d[1]) % m; r = absl::MakeUint128(static_cast<uint64_t>(r), d[0]) % m;
  return static_cast<int>(r);
}
static const size_t kLen[] = {0, 1, 7, 16, 33};
extern "C" void sha_hash(int symbolic_bound) {
  const std::string seed = sym_string(kLen[symx_choice(5, "seed_size")], "seed"), in = sym_string(kLen[symx_choice(5, "input_size")], "input"); const int b = bound_of(symbolic_bound);
  std::string tmp = seed; dpf::SHA256HashFunction f(tmp); std::fill(tmp.begin(), tmp.end(), 'z');
  const int h = f(in, b), want = reduce256(seed + in, b);
  CHECK_PROP(h == want, "the digest of seed and input modulo the bound"); CHECK_PROP(h >= 0, "not negative"); CHECK_PROP(h < b, "below the bound");
  const int other = f("other", b); (void)other; CHECK_PROP(f(in, b) == h, "the same answer on every call");
  const dpf::SHA256HashFunction g(f); CHECK_PROP(g(in, b) == h, "copies agree"); dpf::HashFunction k = dpf::SHA256HashFamily()(seed); CHECK_PROP(k(in, b) == h, "the family creates the same function");
  symx_reach("hashed"); observe(h, "hash");
}
extern "C" void farm_hash(int symbolic_bound) {
  const std::string seed = sym_string(kLen[symx_choice(5, "seed_size")], "seed"), in = sym_string(kLen[symx_choice(5, "input_size")], "input"); const int b = bound_of(symbolic_bound);
  dpf::HashFunction f = dpf::FarmHashFamily()(seed); const int h = f(in, b);
  const auto r = util::Hash128WithSeed(in.data(), in.size(), util::Hash128(seed));
  CHECK_PROP(h == static_cast<int>(absl::MakeUint128(r.second, r.first) % static_cast<absl::uint128>(b)), "the seeded hash modulo the bound"); CHECK_PROP(h >= 0 && h < b, "in range");
  CHECK_PROP(f(in, b) == h, "the same answer on every call"); symx_reach("hashed");
}
// The functions of a configured family: number i is seeded with the configured seed followed by i in decimal.
extern "C" void family(int max_functions) {
  const std::string seed = sym_string(kLen[1 + symx_choice(3, "seed_size")], "seed"), in = sym_string(3, "input"); const int b = kBounds[4 + symx_choice(2, "bound") * 9];
  dpf::HashFamilyConfig c; c.set_hash_family(dpf::HashFamilyConfig::HASH_FAMILY_SHA256); c.set_seed(seed);
  auto a = dpf::CreateHashFamilyFromConfig(c); CHECK_PROP(a.ok(), "the configuration is supported"); if (!a.ok()) return;
  c.set_seed("changed");
  const int n = static_cast<int>(symx_choice(static_cast<uint64_t>(max_functions), "functions"));
  auto f = dpf::CreateHashFunctions(*std::move(a), n); CHECK_PROP(f.ok() && f->size() == static_cast<size_t>(n), "as many functions as requested"); if (!f.ok() || f->size() != static_cast<size_t>(n)) return;
  for (int i = 0; i < n; ++i) {
    std::string num; if (i >= 10) num += static_cast<char>('0' + i / 10); num += static_cast<char>('0' + i % 10);
    CHECK_PROP((*f)[i](in, b) == reduce256(seed + num + in, b), "function i is seeded with the configured seed and i");
  }
  auto farm = dpf::CreateHashFunctions(dpf::FarmHashFamily(), n); CHECK_PROP(farm.ok() && farm->size() == static_cast<size_t>(n), "farm hash functions");
  if (farm.ok() && n > 1) CHECK_PROP((*farm)[1](in, b) == dpf::FarmHashFunction("1")(in, b), "seeded with i");
  symx_reach("family");
}
extern "C" void family_config(int n) {
  dpf::HashFamilyConfig c; const int v = sym_int("family"); c.set_hash_family(static_cast<dpf::HashFamilyConfig::HashFamily>(v)); const size_t len = symx_choice(static_cast<uint64_t>(n), "seed_size"); c.set_seed(sym_string(len, "seed"));
  auto a = dpf::CreateHashFamilyFromConfig(c); CHECK_PROP(a.ok() == (len > 0 && v == 1), "supported exactly: SHA256 with a seed");
  if (a.ok()) symx_reach("accepted"); else { CHECK_PROP(a.status().code() == absl::StatusCode::kInvalidArgument, "InvalidArgument"); symx_reach("refused"); }
  const int k = sym_int("functions"); if (k > 3) { symx_stop(); return; }
  auto f = dpf::CreateHashFunctions(dpf::SHA256HashFamily(), k); CHECK_PROP(f.ok() == (k >= 0), "negative numbers of functions are refused"); if (f.ok()) CHECK_PROP(f->size() == static_cast<size_t>(k), "count");
}
