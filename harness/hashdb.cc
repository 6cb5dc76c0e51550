// C17: cuckoo-hashed and simple-hashed databases.
#include "common.h"
#include "pir/cuckoo_hashed_dpf_pir_database.h"
#include "pir/dense_dpf_pir_database.h"
#include "pir/hashing/hash_family_config.h"
#include "pir/hashing/sha256_hash_family.h"
#include "pir/simple_hashed_dpf_pir_database.h"
namespace dpf = distributed_point_functions;
using Block = dpf::XorWrapper<absl::uint128>;
using Record = std::pair<std::string, std::string>;
static std::string sym_string(size_t n, const char* name) { std::string s(n, '\0'); if (n) symx_make(&s[0], n, name); return s; }
static const char* kKeys[] = {"a", "ab", "b", "key number four", "abc"};
static const size_t kVal[] = {3, 1, 0, 9, 2};
static std::string kSeed = "seed-";   // 5 bytes, unlike any hashed input
static dpf::HashFamilyConfig family() { dpf::HashFamilyConfig c; c.set_hash_family(dpf::HashFamilyConfig::HASH_FAMILY_SHA256); c.set_seed(kSeed); return c; }
static std::vector<dpf::HashFunction> functions(int n) {
  auto f = dpf::CreateHashFamilyFromConfig(family()); if (!f.ok()) symx_fatal("family");
  auto v = dpf::CreateHashFunctions(*std::move(f), n); if (!v.ok()) symx_fatal("functions"); return *std::move(v);
}
static std::vector<Record> records(int n, int first = 0) { std::vector<Record> r; for (int i = first; i < first + n; ++i) r.push_back({kKeys[i % 5], sym_string(kVal[i % 5], "value")}); return r; }
static std::vector<Block> single(int b, int buckets) { std::vector<Block> s(static_cast<size_t>(buckets + 127) / 128, Block(absl::uint128{0})); s[b / 128] = Block(absl::uint128{1} << (b % 128)); return s; }
static bool padded(const std::string& got, const std::string& want) {   // want followed by zeros
  if (got.size() < want.size()) return false;
  std::string w = want; w.resize(got.size(), '\0'); return got.empty() || symx_eq(got.data(), w.data(), got.size());
}
static std::string zeros(size_t n) { return std::string(n, '\0'); }
static bool separable(const std::vector<std::vector<int>>& h) {   // no two records share a candidate bucket
  for (size_t i = 0; i < h.size(); ++i) for (size_t j = 0; j < i; ++j) for (int x : h[i]) for (int y : h[j]) if (x == y) return false;
  return true;
}
// Whether every record can have a bucket of its own.
static bool placeable(const std::vector<std::vector<int>>& h, size_t i, std::vector<int> used) {
  if (i == h.size()) return true;
  for (int b : h[i]) {
    bool taken = false; for (int u : used) if (u == b) taken = true;
    if (taken) continue;
    used.push_back(b); if (placeable(h, i + 1, used)) return true; used.pop_back();
  }
  return false;
}
static void check_cuckoo(dpf::PirDatabaseInterface<Block, Record>& db, const std::vector<Record>& recs, const std::vector<std::vector<int>>& h, int buckets) {
  CHECK_PROP(db.size() == recs.size(), "the database reports the number of records"); CHECK_PROP(db.num_selection_bits() == static_cast<size_t>(buckets), "one selection bit per bucket");
  size_t kmax = 0, vmax = 0; for (auto& r : recs) { kmax = std::max(kmax, r.first.size()); vmax = std::max(vmax, r.second.size()); }
  if (!vmax) return;
  std::vector<std::vector<Block>> sel; for (int b = 0; b < buckets; ++b) sel.push_back(single(b, buckets));
  auto r = db.InnerProductWith(sel); CHECK_PROP(r.ok() && r->size() == static_cast<size_t>(buckets), "one result per query"); if (!r.ok() || r->size() != static_cast<size_t>(buckets)) return;
  std::vector<int> where(recs.size(), -1);
  for (int b = 0; b < buckets; ++b) {
    const Record& g = (*r)[b]; CHECK_PROP(g.first.size() == kmax && g.second.size() == vmax, "results have the size of the longest key and value");
    int who = -1; for (size_t i = 0; i < recs.size(); ++i) { std::string k = recs[i].first; k.resize(kmax, '\0'); if (g.first == k) who = static_cast<int>(i); }
    if (who < 0) { CHECK_PROP(g.first == zeros(kmax) && padded(g.second, ""), "an unused bucket is empty"); continue; }
    CHECK_PROP(where[who] < 0, "a record is stored once"); where[who] = b;
    CHECK_PROP(padded(g.second, recs[who].second), "a key is stored with its own value");
  }
  for (size_t i = 0; i < recs.size(); ++i) { bool found = false; for (int x : h[i]) if (x == where[i]) found = true; CHECK_PROP(found, "every record is at a bucket the client queries"); }
  // several buckets at once: the xor of keys and the xor of values
  std::vector<Block> all((buckets + 127) / 128, Block(absl::Uint128Max())); auto x = db.InnerProductWith({all}); CHECK_PROP(x.ok() && x->size() == 1, "inner product"); if (!x.ok()) return;
  std::string kx = zeros(kmax), vx = zeros(vmax); for (auto& rr : recs) { for (size_t i = 0; i < rr.first.size(); ++i) kx[i] ^= rr.first[i]; for (size_t i = 0; i < rr.second.size(); ++i) vx[i] ^= rr.second[i]; }
  CHECK_PROP(padded((*x)[0].first, kx) && padded((*x)[0].second, vx), "the selected keys and values are combined");
  symx_reach("stored"); symx_observe((*x)[0].second.data(), vmax < 8 ? vmax : 8, "values");
}
static std::vector<std::vector<int>> candidates(const std::vector<Record>& recs, int buckets, int nf) {
  auto fs = functions(nf); std::vector<std::vector<int>> h; for (auto& r : recs) { h.emplace_back(); for (auto& f : fs) h.back().push_back(f(r.first, buckets)); } return h;
}
static dpf::CuckooHashingParams cparams(int buckets, int nf) { dpf::CuckooHashingParams p; *p.mutable_hash_family_config() = family(); p.set_num_buckets(buckets); p.set_num_hash_functions(nf); return p; }
static dpf::SimpleHashingParams sparams(int buckets) { dpf::SimpleHashingParams p; *p.mutable_hash_family_config() = family(); p.set_num_buckets(buckets); return p; }
// Every outcome of the hash functions on n records, `nf` functions, `buckets` buckets.
extern "C" void cuckoo_db(int n, int buckets, int nf) {
  symx_sha_buckets = buckets; symx_sha_skip = 5; if (buckets > 8) { symx_sha_buckets = -buckets; symx_sha_salt = static_cast<int>(symx_choice(4, "hashes")); symx_fixed_choices = 1; }
  const auto recs = records(n); const auto h = candidates(recs, buckets, nf);
  dpf::CuckooHashedDpfPirDatabase::Builder b; b.SetParams(cparams(buckets, nf));
  const bool own = symx_choice(2, "own_builders"); if (own) { auto k = std::make_unique<dpf::DenseDpfPirDatabase::Builder>(); k->Insert("left over"); b.SetKeyDatabaseBuilder(std::move(k)); b.SetValueDatabaseBuilder(std::make_unique<dpf::DenseDpfPirDatabase::Builder>()); }
  for (auto& r : recs) b.Insert(r);
  auto db = b.Build();
  if (!db.ok()) { CHECK_PROP(!separable(h), "records with disjoint buckets are placed"); CHECK_PROP(db.status().code() == absl::StatusCode::kInternal, "Internal"); symx_reach("refused"); return; }
  CHECK_PROP(placeable(h, 0, {}), "success means every record has a bucket");
  check_cuckoo(**db, recs, h, buckets);
}
extern "C" void simple_db(int n, int buckets) {
  symx_sha_buckets = buckets; symx_sha_skip = 5; if (buckets > 8) { symx_sha_buckets = -buckets; symx_sha_salt = static_cast<int>(symx_choice(4, "hashes")); }
  const auto recs = records(n); auto fs = functions(1); std::vector<int> h; for (auto& r : recs) h.push_back(fs[0](r.first, buckets));
  dpf::SimpleHashedDpfPirDatabase::Builder b; b.SetParams(sparams(buckets)); if (symx_choice(2, "own_builders")) { auto k = std::make_unique<dpf::DenseDpfPirDatabase::Builder>(); k->Insert("left over"); b.SetDenseDatabaseBuilder(std::move(k)); }
  for (auto& r : recs) b.Insert(r);
  auto db = b.Build(); CHECK_PROP(db.ok(), "built"); if (!db.ok()) return;
  CHECK_PROP((*db)->size() == static_cast<size_t>(n) && (*db)->num_selection_bits() == static_cast<size_t>(buckets), "the database reports its size");
  if (!n) return;
  std::vector<std::vector<Block>> sel; for (int i = 0; i < buckets; ++i) sel.push_back(single(i, buckets));
  auto r = (*db)->InnerProductWith(sel); CHECK_PROP(r.ok() && r->size() == static_cast<size_t>(buckets), "one result per query"); if (!r.ok() || r->size() != static_cast<size_t>(buckets)) return;
  std::vector<int> seen(n, 0);
  for (int i = 0; i < buckets; ++i) {
    dpf::HashedPirDatabaseBucket p; ::google::protobuf::io::CodedInputStream cs(reinterpret_cast<const uint8_t*>((*r)[i].data()), static_cast<int>((*r)[i].size())); p.ParseFromCodedStream(&cs);
    CHECK_PROP(p.keys_size() == p.values_size(), "as many keys as values"); if (p.keys_size() != p.values_size()) return;
    for (int j = 0; j < p.keys_size(); ++j) {
      int who = -1; for (int q = 0; q < n; ++q) if (recs[q].first == std::string(p.keys(j))) who = q;
      CHECK_PROP(who >= 0 && h[who] == i, "a record is in the bucket of its hash"); if (who < 0) return;
      seen[who]++; const std::string v(p.values(j)); CHECK_PROP(v.size() == recs[who].second.size() && (v.empty() || symx_eq(v.data(), recs[who].second.data(), v.size())), "a key is stored with its own value");
    }
  }
  for (int q = 0; q < n; ++q) CHECK_PROP(seen[q] == 1, "every record is stored once");
  symx_reach("stored");
}
// Histories of a builder: Clear, Clone, a second Build. kind 0: cuckoo, 1: simple.
template <class B, class P, class Check> static void history(B& b, const P& p, int n, Check check) {
  b.SetParams(p); auto recs = records(n); std::vector<Record> kept; decltype(b.Clone()) clone; std::vector<Record> ckept;
  const int clear = static_cast<int>(symx_choice(n + 1, "clear_before")), cl = static_cast<int>(symx_choice(n + 1, "clone_before"));
  for (int i = 0; i <= n; ++i) {
    if (i == clear) { b.Clear(); kept.clear(); }
    if (i == cl) { clone = b.Clone(); ckept = kept; }
    if (i < n) { b.Insert(recs[i]); kept.push_back(recs[i]); }
  }
  const bool clone_first = symx_choice(2, "clone_first");
  auto more = records(1, 3); ckept.push_back(more[0]); clone->Insert(more[0]);
  if (clone_first) { auto c = clone->Build(); check(c, ckept); }
  auto db = b.Build(); check(db, kept);
  auto again = b.Build(); CHECK_PROP(again.status().code() == absl::StatusCode::kFailedPrecondition, "a second Build is refused");
  auto copy = b.Clone(); CHECK_PROP(!copy->Build().ok(), "a clone of a built builder is built");
  if (!clone_first) { auto c = clone->Build(); check(c, ckept); }
  b.Clear(); auto fresh = records(2, 1); b.Insert(fresh[1]); b.Insert(fresh[0]); auto d = b.Build(); check(d, fresh);
  symx_reach("history");
}
extern "C" void db_history(int kind, int n, int buckets) {
  symx_fixed_choices = 1; symx_sha_buckets = -buckets; symx_sha_skip = 5; symx_sha_salt = static_cast<int>(symx_choice(4, "hashes"));
  if (kind == 0) { dpf::CuckooHashedDpfPirDatabase::Builder b; if (symx_choice(2, "own_builders")) b.SetKeyDatabaseBuilder(std::make_unique<dpf::DenseDpfPirDatabase::Builder>());
    history(b, cparams(buckets, 3), n, [&](auto& db, const std::vector<Record>& r) { const auto h = candidates(r, buckets, 3); if (!db.ok()) { CHECK_PROP(!separable(h), "built"); symx_stop(); } check_cuckoo(**db, r, h, buckets); }); }
  else { dpf::SimpleHashedDpfPirDatabase::Builder b; if (symx_choice(2, "own_builders")) b.SetDenseDatabaseBuilder(std::make_unique<dpf::DenseDpfPirDatabase::Builder>());
    history(b, sparams(buckets), n, [&](auto& db, const std::vector<Record>& recs) {
      CHECK_PROP(db.ok(), "built"); if (!db.ok()) return; CHECK_PROP((*db)->size() == recs.size(), "size"); auto fs = functions(1);
      if (recs.empty()) return;
      for (auto& x : recs) { auto r = (*db)->InnerProductWith({single(fs[0](x.first, buckets), buckets)}); CHECK_PROP(r.ok() && r->size() == 1, "inner product"); if (!r.ok()) return;
        dpf::HashedPirDatabaseBucket p; ::google::protobuf::io::CodedInputStream cs(reinterpret_cast<const uint8_t*>((*r)[0].data()), static_cast<int>((*r)[0].size())); p.ParseFromCodedStream(&cs);
        int hit = 0; for (int j = 0; j < p.keys_size() && j < p.values_size(); ++j) if (std::string(p.keys(j)) == x.first) { hit++; const std::string v(p.values(j)); CHECK_PROP(v.size() == x.second.size() && (v.empty() || symx_eq(v.data(), x.second.data(), v.size())), "the value of the key"); }
        CHECK_PROP(hit == 1, "the record is in its bucket"); }
      int total = 0; for (int b2 = 0; b2 < buckets; ++b2) { auto r = (*db)->InnerProductWith({single(b2, buckets)}); if (!r.ok()) continue; dpf::HashedPirDatabaseBucket p; ::google::protobuf::io::CodedInputStream cs(reinterpret_cast<const uint8_t*>((*r)[0].data()), static_cast<int>((*r)[0].size())); p.ParseFromCodedStream(&cs); total += p.keys_size(); }
      CHECK_PROP(total == static_cast<int>(recs.size()), "nothing else is stored"); }); }
}
extern "C" void db_refuse(int kind) {
  const int nb = static_cast<int>(symx_choice(4, "buckets")) - 1, nf = static_cast<int>(symx_choice(4, "functions")) - 1; const int fam = static_cast<int>(symx_choice(3, "family")); const bool seed = symx_choice(2, "seed"), empty = symx_choice(2, "empty_key"); const bool params = symx_choice(4, "params") != 0;
  dpf::HashFamilyConfig c; c.set_hash_family(static_cast<dpf::HashFamilyConfig::HashFamily>(fam)); if (seed) c.set_seed(kSeed);
  absl::Status st; bool ok = params && nb > 0 && fam == 1 && seed && !empty;
  if (kind == 0) { dpf::CuckooHashedDpfPirDatabase::Builder b; auto p = cparams(nb, nf); *p.mutable_hash_family_config() = c; if (params) b.SetParams(p); b.Insert({empty ? "" : "k", "v"}); st = b.Build().status(); ok = ok && nf >= 2; }
  else { dpf::SimpleHashedDpfPirDatabase::Builder b; auto p = sparams(nb); *p.mutable_hash_family_config() = c; if (params) b.SetParams(p); b.Insert({empty ? "" : "k", "v"}); st = b.Build().status(); }
  CHECK_PROP(st.ok() == ok, "built exactly with valid parameters and keys"); if (!st.ok()) CHECK_PROP(st.code() == absl::StatusCode::kInvalidArgument, "InvalidArgument");
  symx_reach(st.ok() ? "accepted" : "refused");
}
