// C21: keyword PIR, end to end.
#include "common.h"
#include "dpf/distributed_point_function.h"
#include "pir/cuckoo_hashed_dpf_pir_database.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_client.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_server.h"
#include "pir/hashing/sha256_hash_family.h"
#include "pir/simple_hashed_dpf_pir_database.h"
#include "pir/simple_hashing_sparse_dpf_pir_client.h"
#include "pir/simple_hashing_sparse_dpf_pir_server.h"
#include <limits>
namespace dpf = distributed_point_functions;
using Record = std::pair<std::string, std::string>;
using Answers = std::vector<absl::optional<std::string>>;
static std::string sym_string(size_t n, const char* name) { std::string s(n, '\0'); if (n) symx_make(&s[0], n, name); return s; }
static bool same(const std::string& a, const std::string& b) { return a.size() == b.size() && (a.empty() || symx_eq(a.data(), b.data(), a.size())); }
static absl::StatusOr<std::string> seal(absl::string_view text, absl::string_view ctx) { return std::string("<") + std::string(ctx) + ">" + std::string(text); }
static absl::StatusOr<std::string> open_(absl::string_view text, absl::string_view ctx) {
  const std::string h = std::string("<") + std::string(ctx) + ">";
  if (text.size() < h.size() || std::string(text.substr(0, h.size())) != h) return absl::InvalidArgumentError("cannot decrypt");
  return std::string(text.substr(h.size()));
}
static std::string g_seed = "seed-";
static dpf::HashFamilyConfig family(const std::string& seed) { dpf::HashFamilyConfig c; c.set_hash_family(dpf::HashFamilyConfig::HASH_FAMILY_SHA256); c.set_seed(seed); return c; }
struct Cuckoo {
  using Server = dpf::CuckooHashingSparseDpfPirServer; using Client = dpf::CuckooHashingSparseDpfPirClient; using Builder = dpf::CuckooHashedDpfPirDatabase::Builder; using Params = dpf::CuckooHashingParams;
  static constexpr bool kPadded = true;
  static Params params(int buckets, int nf, const std::string& seed) { Params p; *p.mutable_hash_family_config() = family(seed); p.set_num_buckets(buckets); p.set_num_hash_functions(nf); return p; }
  static dpf::PirServerPublicParams pub(const Params& p) { dpf::PirServerPublicParams q; *q.mutable_cuckoo_hashing_sparse_dpf_pir_server_params() = p; return q; }
  static dpf::PirConfig config(int64_t n, int f) { dpf::PirConfig c; c.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_num_elements(n); c.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_hash_family(static_cast<dpf::HashFamilyConfig::HashFamily>(f)); return c; }
};
struct Simple {
  using Server = dpf::SimpleHashingSparseDpfPirServer; using Client = dpf::SimpleHashingSparseDpfPirClient; using Builder = dpf::SimpleHashedDpfPirDatabase::Builder; using Params = dpf::SimpleHashingParams;
  static constexpr bool kPadded = false;
  static Params params(int buckets, int, const std::string& seed) { Params p; *p.mutable_hash_family_config() = family(seed); p.set_num_buckets(buckets); return p; }
  static dpf::PirServerPublicParams pub(const Params& p) { dpf::PirServerPublicParams q; *q.mutable_simple_hashing_sparse_dpf_pir_server_params() = p; return q; }
  static dpf::PirConfig config(int64_t n, int f) { dpf::PirConfig c; c.mutable_simple_hashing_sparse_dpf_pir_config()->set_num_buckets(n); c.mutable_simple_hashing_sparse_dpf_pir_config()->set_hash_family(static_cast<dpf::HashFamilyConfig::HashFamily>(f)); return c; }
};
static const char* kKeys[] = {"ab", "b", "a", "key number four"};
static const size_t kVal[] = {2, 3, 0, 5};
static std::vector<Record> records(int n) { std::vector<Record> r; for (int i = 0; i < n; ++i) r.push_back({kKeys[i % 4], sym_string(kVal[i % 4], "value")}); return r; }
template <class K> static std::unique_ptr<typename K::Server::Database> build(const std::vector<Record>& recs, const typename K::Params& p) {
  typename K::Builder b; b.SetParams(p); for (auto& r : recs) b.Insert(r); auto d = b.Build(); if (!d.ok()) symx_stop(); return *std::move(d);
}
static absl::StatusOr<dpf::PirResponse> plain(const dpf::PirServer& s, const dpf::DpfPirRequest::PlainRequest& r) { dpf::PirRequest q; *q.mutable_dpf_pir_request()->mutable_plain_request() = r; return s.HandleRequest(q); }
// The client's answers, through a leader and a helper.
template <class K> static Answers ask(const std::vector<Record>& recs, const typename K::Params& p, const std::vector<std::string>& query) {
  auto h = K::Server::CreateHelper(p, build<K>(recs, p), open_);
  CHECK_PROP(h.ok(), "helper created"); if (!h.ok()) symx_stop();
  auto l = K::Server::CreateLeader(p, build<K>(recs, p), [&](const dpf::PirRequest& r, absl::AnyInvocable<void()> w) -> absl::StatusOr<dpf::PirResponse> { w(); return (*h)->HandleRequest(r); });
  CHECK_PROP(l.ok(), "leader created"); if (!l.ok()) symx_stop();
  auto c = K::Client::Create((*l)->GetPublicParams(), seal); CHECK_PROP(c.ok(), "the client accepts the server's parameters"); if (!c.ok()) symx_stop();
  auto q = (*c)->CreateRequest(query); CHECK_PROP(q.ok(), "request created"); if (!q.ok()) symx_stop();
  auto r = (*l)->HandleRequest(q->first); CHECK_PROP(r.ok(), "the leader answers"); if (!r.ok()) symx_stop();
  auto a = (*c)->HandleResponse(*r, q->second); CHECK_PROP(a.ok(), "the client reads the answer"); if (!a.ok()) symx_stop();
  return *a;
}
template <class K> static void check(const std::vector<Record>& recs, const std::vector<std::string>& query, const Answers& got) {
  size_t vmax = 0; for (auto& r : recs) vmax = std::max(vmax, r.second.size());
  CHECK_PROP(got.size() == query.size(), "one answer per query"); if (got.size() != query.size()) return;
  for (size_t i = 0; i < query.size(); ++i) {
    const Record* hit = nullptr; for (auto& r : recs) if (r.first == query[i]) hit = &r;
    CHECK_PROP(got[i].has_value() == (hit != nullptr), "present exactly when the key is stored"); if (!hit || !got[i].has_value()) { if (!hit) symx_reach("absent"); continue; }
    std::string want = hit->second; if (K::kPadded) want.resize(vmax, '\0');
    CHECK_PROP(same(*got[i], want), "the value stored with the key"); symx_reach("present"); symx_observe(got[i]->data(), got[i]->size() < 8 ? got[i]->size() : 8, "value");
  }
}
static std::string pick(int n, const char* name) { static const char* other[] = {"abc", "zz", "", "a query longer than each stored key"}; const int q = static_cast<int>(symx_choice(n + 4, name)); return q < n ? kKeys[q] : other[q - n]; }
// n records, every outcome of the hash functions (buckets > 8: fixed outcomes), nq queries.
template <class K> static void kw(int n, int buckets, int nf, int nq, int fixed) {
  symx_sha_skip = 5; symx_sha_buckets = buckets; symx_fixed_choices = 1; if (buckets > 4) { symx_sha_buckets = -buckets; symx_sha_salt = static_cast<int>(symx_choice(6, "hashes")); }
  const auto recs = records(n); std::vector<std::string> q; for (int i = 0; i < nq; ++i) q.push_back(pick(n, "query"));
  symx_rand_fixed = fixed;
  check<K>(recs, q, ask<K>(recs, K::params(buckets, nf, g_seed), q));
}
extern "C" void kw_cuckoo(int n, int buckets, int nf, int nq, int fixed) { kw<Cuckoo>(n, buckets, nf, nq, fixed); }
extern "C" void kw_simple(int n, int buckets, int nq, int fixed) { kw<Simple>(n, buckets, 1, nq, fixed); }
// Keys and queries that end in zero bytes.
template <class K> static void nul(int which) {
  symx_rand_fixed = 1; symx_sha_skip = 5; symx_sha_buckets = 2; symx_fixed_choices = 1;
  std::vector<Record> recs; std::vector<std::string> q;
  if (which == 0) { recs = {{"ab", sym_string(2, "value")}, {"long key", sym_string(1, "value")}}; q = {std::string("ab\0", 3)}; }
  if (which == 1) { recs = {{std::string("ab\0", 3), sym_string(2, "value")}}; q = {"ab"}; }
  if (which == 2) { recs = {{std::string("a\0b", 3), sym_string(2, "value")}, {"a", sym_string(2, "value")}}; q = {symx_choice(2, "query") ? std::string("a\0b", 3) : std::string("a")}; }
  check<K>(recs, q, ask<K>(recs, K::params(2, 2, g_seed), q));
}
extern "C" void kw_nul(int kind, int which) { if (kind == 0) nul<Cuckoo>(which); else nul<Simple>(which); }
// Parameters that differ between the client and the servers; other refusals of the plain server.
template <class K> static void server(void) {
  symx_rand_fixed = 1; symx_sha_skip = 5; symx_sha_buckets = -3;
  const std::string other = symx_choice(2, "seed") ? "other" : g_seed; const auto recs = records(2); const auto p = K::params(3, 2, g_seed), pc = K::params(3, 2, other);
  auto s = K::Server::CreatePlain(p, build<K>(recs, p)); CHECK_PROP(s.ok(), "server created"); if (!s.ok()) return;
  auto c = K::Client::Create(K::pub(pc), seal); CHECK_PROP(c.ok(), "client created"); if (!c.ok()) return;
  auto q = (*c)->CreatePlainRequests({"ab", "b"}); CHECK_PROP(q.ok(), "request created"); if (!q.ok()) return;
  const int defect = static_cast<int>(symx_choice(6, "defect")); dpf::PirRequest r; auto pr = symx_choice(2, "party") ? std::get<0>(*q) : std::get<1>(*q).plain_request();
  const uint32_t fs = static_cast<uint32_t>(dpf::SHA256HashFunction("")(g_seed, std::numeric_limits<int>::max())), fc = static_cast<uint32_t>(dpf::SHA256HashFunction("")(other, std::numeric_limits<int>::max()));
  CHECK_PROP(pr.seed_fingerprint() == fc, "both requests carry the fingerprint of the client's seed");
  if (defect == 1) pr.clear_dpf_key(); if (defect != 2 && defect != 3 && defect != 4) *r.mutable_dpf_pir_request()->mutable_plain_request() = pr;
  if (defect == 3) *r.mutable_dpf_pir_request()->mutable_leader_request()->mutable_plain_request() = pr; if (defect == 4) r.mutable_dpf_pir_request();
  if (defect == 5) r.mutable_dpf_pir_request()->mutable_plain_request()->set_seed_fingerprint(0);
  const bool structural = defect >= 1 && defect <= 4, mismatch = defect != 5 && fc != 0 && fc != fs;
  auto a = (*s)->HandleRequest(r); CHECK_PROP(a.ok() == (!structural && !mismatch), "refused exactly when malformed or made for other parameters");
  if (!a.ok()) CHECK_PROP(a.status().code() == absl::StatusCode::kInvalidArgument, "InvalidArgument");
  else CHECK_PROP(a->dpf_pir_response().masked_response_size() == (K::kPadded ? 2 * 2 * 2 : 2), "answers for each query");
  symx_reach(a.ok() ? "accepted" : "refused");
}
extern "C" void kw_server(int kind) { if (kind == 0) server<Cuckoo>(); else server<Simple>(); }
// Configurations of servers and clients.
template <class K> static void configs(void) {
  symx_rand_fixed = 1; symx_sha_skip = 5; symx_sha_buckets = -3; const auto recs = records(1); const auto ok = K::params(3, 2, g_seed);
  int64_t nb; symx_make(&nb, 8, "num_buckets"); symx_assume(nb <= 3); const int nf = static_cast<int>(symx_choice(3, "functions")) - 1, fam = static_cast<int>(symx_choice(2, "family")); if (nb == 3) nb = 3; else if (nb == 2) nb = 2; else if (nb == 1) nb = 1;
  auto p = K::params(1, nf, g_seed); p.set_num_buckets(nb); p.mutable_hash_family_config()->set_hash_family(static_cast<dpf::HashFamilyConfig::HashFamily>(fam));
  const int role = static_cast<int>(symx_choice(4, "role")); const bool nulldb = symx_choice(3, "database") == 0, nullfn = symx_choice(3, "function") == 0;
  const bool nfok = !K::kPadded || nf > 0; bool good; absl::Status st;
  if (role == 3) {
    auto pub = K::pub(p); const bool wrong = symx_choice(3, "message") == 0; if (wrong) pub = dpf::PirServerPublicParams();
    st = K::Client::Create(pub, nullfn ? typename K::Client::EncryptHelperRequestFn() : typename K::Client::EncryptHelperRequestFn(seal)).status(); good = !wrong && !nullfn && nb > 0 && nfok && fam == 1;
  } else {
    auto db = nulldb ? nullptr : build<K>(recs, ok); using S = typename K::Server;
    auto send = [](const dpf::PirRequest&, absl::AnyInvocable<void()>) -> absl::StatusOr<dpf::PirResponse> { return dpf::PirResponse(); };
    auto s = role == 0 ? S::CreatePlain(p, std::move(db)) : role == 1 ? S::CreateLeader(p, std::move(db), nullfn ? typename S::ForwardHelperRequestFn() : typename S::ForwardHelperRequestFn(send)) : S::CreateHelper(p, std::move(db), nullfn ? typename S::DecryptHelperRequestFn() : typename S::DecryptHelperRequestFn(open_));
    good = nb == 3 && nfok && fam == 1 && !nulldb && !(role && nullfn); st = s.status();
    if (s.ok()) CHECK_PROP((*s)->role() == (role == 0 ? S::Role::kPlain : role == 1 ? S::Role::kLeader : S::Role::kHelper), "the role of the server");
  }
  CHECK_PROP(st.ok() == good, "accepted exactly when valid"); if (!good) CHECK_PROP(st.code() == absl::StatusCode::kInvalidArgument, "InvalidArgument"); symx_reach(good ? "accepted" : "refused");
}
extern "C" void kw_configs(int kind) { if (kind == 0) configs<Cuckoo>(); else configs<Simple>(); }
// Generated parameters fit a database of the configured size, and their seed is the drawn randomness.
template <class K> static void generate(int max) {
  const int64_t n = static_cast<int64_t>(symx_choice(max + 2, "elements")) - 1; const int fam = static_cast<int>(symx_choice(2, "family")); const bool wrong = symx_choice(4, "message") == 0;
  auto p = K::Server::GenerateParams(wrong ? dpf::PirConfig() : K::config(n, fam)); const bool good = !wrong && n > 0 && fam == 1; CHECK_PROP(p.ok() == good, "accepted exactly when valid");
  if (!p.ok()) { CHECK_PROP(p.status().code() == absl::StatusCode::kInvalidArgument, "InvalidArgument"); symx_reach("refused"); return; }
  CHECK_PROP(p->num_buckets() >= n, "at least one bucket per element"); const std::string s = p->hash_family_config().seed(); CHECK_PROP(p->hash_family_config().hash_family() == 1, "the configured family");
  CHECK_PROP(symx_rand_calls == 1 && symx_rand_len[0] == 16 && s.size() == 16 && symx_eq(s.data(), symx_rand_log[0], 16), "the seed is fresh randomness");
  CHECK_PROP(K::Client::Create(K::pub(*p), seal).ok(), "a client can use the parameters"); symx_reach("accepted");
}
extern "C" void kw_generate(int kind, int max) { symx_sha_skip = -1; if (kind == 0) generate<Cuckoo>(max); else generate<Simple>(max); }
// Responses and states that do not fit together.
template <class K> static void responses(void) {
  symx_rand_fixed = 1; symx_sha_skip = 5; symx_sha_buckets = -3; auto c = K::Client::Create(K::pub(K::params(3, 2, g_seed)), seal); if (!c.ok()) symx_fatal("client");
  const int nq = static_cast<int>(symx_choice(3, "queries")); std::vector<std::string> q(nq, "ab"); auto t = (*c)->CreateRequest(q); CHECK_PROP(t.ok(), "request"); if (!t.ok()) return;
  dpf::PirRequestClientState cs = t->second; const int nr = static_cast<int>(symx_choice(10, "responses")), len = static_cast<int>(symx_choice(4, "length")); dpf::PirResponse r; r.mutable_dpf_pir_response(); for (int i = 0; i < nr; ++i) *r.mutable_dpf_pir_response()->add_masked_response() = sym_string(len, "response");
  const int d = static_cast<int>(symx_choice(4, "defect")); if (d == 1) r = dpf::PirResponse(); if (d == 2) cs.mutable_dense_dpf_pir_request_client_state()->set_one_time_pad_seed("0123456789abcdef"); if (d == 3) cs = dpf::PirRequestClientState();
  auto a = (*c)->HandleResponse(r, cs); const bool good = d == 0 && nq > 0 && nr == nq * (K::kPadded ? 4 : 1);
  CHECK_PROP(a.ok() == good, "refused exactly when the counts or kinds do not match"); if (a.ok()) CHECK_PROP(a->size() == static_cast<size_t>(nq), "one answer per query"); else CHECK_PROP(a.status().code() == absl::StatusCode::kInvalidArgument, "InvalidArgument");
  symx_reach(good ? "accepted" : "refused");
}
extern "C" void kw_responses(int kind) { if (kind == 0) responses<Cuckoo>(); else responses<Simple>(); }
