// C20: dense PIR, C21: keyword PIR, C22: leader and helper; end to end.
#include "common.h"
#include "dpf/distributed_point_function.h"
#include "pir/cuckoo_hashed_dpf_pir_database.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_client.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_server.h"
#include "pir/dense_dpf_pir_client.h"
#include "pir/dense_dpf_pir_database.h"
#include "pir/dense_dpf_pir_server.h"
#include "pir/hashing/sha256_hash_family.h"
#include "pir/simple_hashed_dpf_pir_database.h"
#include "pir/simple_hashing_sparse_dpf_pir_client.h"
#include "pir/simple_hashing_sparse_dpf_pir_server.h"
#include <limits>
namespace dpf = distributed_point_functions;
static std::string sym_string(size_t n, const char* name) { std::string s(n, '\0'); if (n) symx_make(&s[0], n, name); return s; }
static bool same(const std::string& a, const std::string& b) { return a.size() == b.size() && (a.empty() || symx_eq(a.data(), b.data(), a.size())); }
static std::string padded(std::string s, size_t n) { s.resize(n, '\0'); return s; }
// An invertible stand-in for the encryption: the text is tied to its context.
static absl::StatusOr<std::string> seal(absl::string_view text, absl::string_view ctx) { return std::string("<") + std::string(ctx) + ">" + std::string(text); }
static absl::StatusOr<std::string> open_(absl::string_view text, absl::string_view ctx) {
  const std::string h = std::string("<") + std::string(ctx) + ">";
  if (text.size() < h.size() || std::string(text.substr(0, h.size())) != h) return absl::InvalidArgumentError("cannot decrypt");
  return std::string(text.substr(h.size()));
}
static size_t record_size(int p, int i) { static const size_t s[] = {3, 1, 0, 2, 5, 3, 17, 4}; return p == 0 ? 2 : p == 1 ? s[i % 8] : static_cast<size_t>(1 + i % 3); }
using Dense = dpf::DenseDpfPirServer;
static std::unique_ptr<Dense::Database> dense(const std::vector<std::string>& recs) { dpf::DenseDpfPirDatabase::Builder b; for (auto& r : recs) b.Insert(r); auto d = b.Build(); if (!d.ok()) symx_fatal("database"); return *std::move(d); }
static dpf::PirConfig dense_config(int64_t n) { dpf::PirConfig c; c.mutable_dense_dpf_pir_config()->set_num_elements(n); return c; }
static absl::StatusOr<dpf::PirResponse> plain(const dpf::PirServer& s, const dpf::DpfPirRequest::PlainRequest& r) { dpf::PirRequest q; *q.mutable_dpf_pir_request()->mutable_plain_request() = r; return s.HandleRequest(q); }
// The answers of two plain servers combined; empty if one of them refuses.
static std::vector<std::string> combine(const absl::StatusOr<dpf::PirResponse>& a, const absl::StatusOr<dpf::PirResponse>& b) {
  std::vector<std::string> r; CHECK_PROP(a.ok() && b.ok(), "plain servers answer"); if (!a.ok() || !b.ok()) return r;
  const auto &x = a->dpf_pir_response(), &y = b->dpf_pir_response(); CHECK_PROP(x.masked_response_size() == y.masked_response_size(), "as many answers from both"); if (x.masked_response_size() != y.masked_response_size()) return r;
  for (int i = 0; i < x.masked_response_size(); ++i) { std::string s = x.masked_response(i); const std::string& t = y.masked_response(i); CHECK_PROP(s.size() == t.size(), "answers of equal size"); for (size_t j = 0; j < s.size() && j < t.size(); ++j) s[j] ^= t[j]; r.push_back(s); }
  return r;
}
static void check_answers(const std::vector<std::string>& got, const std::vector<std::string>& recs, const std::vector<int>& idx, size_t max) {
  CHECK_PROP(got.size() == idx.size(), "one answer per query"); if (got.size() != idx.size()) return;
  for (size_t i = 0; i < idx.size(); ++i) CHECK_PROP(same(got[i], padded(recs[idx[i]], max)), "the answer is the record at the index");
}
// n records, nq queries (nq < 0: one query from a list of positions), fixed: concrete randomness, way 0: two plain servers, 1: leader and helper.
extern "C" void dense_e2e(int n, int nq, int fixed, int sizes, int way) {
  std::vector<std::string> recs; size_t max = 0; for (int i = 0; i < n; ++i) { recs.push_back(sym_string(record_size(sizes, i), "record")); max = std::max(max, recs.back().size()); }
  std::vector<int> idx;
  if (nq < 0) { const int at[] = {0, n - 1, n / 2, 127 < n ? 127 : 0, 128 < n ? 128 : 0, 1}; for (int i = 0; i < -nq; ++i) idx.push_back(at[symx_choice(6, "position")]); }
  else for (int i = 0; i < nq; ++i) idx.push_back(static_cast<int>(symx_choice(n, "index")));
  symx_rand_fixed = fixed;
  auto c = dpf::DenseDpfPirClient::Create(dense_config(n), seal); CHECK_PROP(c.ok(), "client created"); if (!c.ok()) return;
  std::vector<std::string> got;
  if (way == 0) {
    auto a = Dense::CreatePlain(dense_config(n), dense(recs)), b = Dense::CreatePlain(dense_config(n), dense(recs)); CHECK_PROP(a.ok() && b.ok(), "servers created"); if (!a.ok() || !b.ok()) return;
    auto q = (*c)->CreatePlainRequests(idx); CHECK_PROP(q.ok(), "requests created"); if (!q.ok()) return;
    CHECK_PROP(std::get<0>(*q).dpf_key_size() == static_cast<int>(idx.size()) && std::get<1>(*q).plain_request().dpf_key_size() == static_cast<int>(idx.size()), "one key per query");
    auto x = plain(**a, std::get<0>(*q)), y = plain(**b, std::get<1>(*q).plain_request());
    got = combine(x, y);
  } else {
    auto h = Dense::CreateHelper(dense_config(n), dense(recs), open_); CHECK_PROP(h.ok(), "helper created"); if (!h.ok()) return;
    const int late = way == 2;
    auto l = Dense::CreateLeader(dense_config(n), dense(recs), [&](const dpf::PirRequest& r, absl::AnyInvocable<void()> w) -> absl::StatusOr<dpf::PirResponse> { if (!late) w(); auto x = (*h)->HandleRequest(r); if (late) w(); return x; });
    CHECK_PROP(l.ok(), "leader created"); if (!l.ok()) return;
    auto q = (*c)->CreateRequest(idx); CHECK_PROP(q.ok(), "request created"); if (!q.ok()) return;
    auto r = (*l)->HandleRequest(q->first); CHECK_PROP(r.ok(), "the leader answers"); if (!r.ok()) return;
    auto g = (*c)->HandleResponse(*r, q->second); CHECK_PROP(g.ok(), "the client reads the answer"); if (!g.ok()) return;
    got = *g;
  }
  check_answers(got, recs, idx, max); symx_reach("answered"); if (!got.empty()) symx_observe(got[0].data(), max, "answer");
}
// Every index and database size of a small client; other refusals.
extern "C" void dense_refuse(int n) {
  auto c = dpf::DenseDpfPirClient::Create(dense_config(n), seal); CHECK_PROP(c.ok(), "created"); if (!c.ok()) return; symx_rand_fixed = 1;
  const int k = static_cast<int>(symx_choice(3, "position")); int32_t x; symx_make(&x, 4, "index");
  std::vector<int> q(3, 0); q[k] = x; const bool good = x >= 0 && x < n; if (good) q[k] = static_cast<int>(symx_concretize(x));
  auto r = (*c)->CreateRequest(q); CHECK_PROP(r.ok() == good, "refused exactly when an index is out of range"); if (!r.ok()) CHECK_PROP(r.status().code() == absl::StatusCode::kInvalidArgument, "InvalidArgument");
  symx_reach(r.ok() ? "accepted" : "refused");
}
extern "C" void dense_config_refuse(int n) {
  int64_t m; symx_make(&m, 8, "num_elements"); symx_assume(m < 64);
  const int kind = static_cast<int>(symx_choice(4, "kind")); dpf::PirConfig c; if (kind == 0) c.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_num_elements(m); else if (kind == 1) c.mutable_simple_hashing_sparse_dpf_pir_config()->set_num_buckets(m); else if (kind == 2) c = dense_config(m);
  const bool pos = kind == 2 && m > 0; if (pos) { m = static_cast<int64_t>(symx_concretize(m)); c = dense_config(m); }
  const bool nulldb = symx_choice(4, "database") == 0; const int role = static_cast<int>(symx_choice(4, "role")); const bool nullfn = symx_choice(2, "function");
  std::vector<std::string> recs(n, "r"); auto db = nulldb ? nullptr : dense(recs);
  if (role == 3) { auto r = dpf::DenseDpfPirClient::Create(c, nullfn ? dpf::DenseDpfPirClient::EncryptHelperRequestFn() : dpf::DenseDpfPirClient::EncryptHelperRequestFn(seal)); const bool good = pos && !nullfn; CHECK_PROP(r.ok() == good, "client configurations"); if (!r.ok()) CHECK_PROP(r.status().code() == absl::StatusCode::kInvalidArgument, "InvalidArgument"); symx_reach(good ? "accepted" : "refused"); return; }
  auto send = [](const dpf::PirRequest&, absl::AnyInvocable<void()>) -> absl::StatusOr<dpf::PirResponse> { return dpf::PirResponse(); };
  auto s = role == 0 ? Dense::CreatePlain(c, std::move(db)) : role == 1 ? Dense::CreateLeader(c, std::move(db), nullfn ? Dense::ForwardHelperRequestFn() : Dense::ForwardHelperRequestFn(send)) : Dense::CreateHelper(c, std::move(db), nullfn ? Dense::DecryptHelperRequestFn() : Dense::DecryptHelperRequestFn(open_));
  const bool good = pos && !nulldb && m == n && !(role && nullfn); CHECK_PROP(s.ok() == good, "server configurations"); if (!s.ok()) CHECK_PROP(s.status().code() == absl::StatusCode::kInvalidArgument, "InvalidArgument");
  if (good) CHECK_PROP((*s)->role() == (role == 0 ? Dense::Role::kPlain : role == 1 ? Dense::Role::kLeader : Dense::Role::kHelper), "the role of the server");
  symx_reach(good ? "accepted" : "refused");
}
// Requests that are not what the role expects, responses that do not fit.
extern "C" void dense_malformed(int n) {
  symx_rand_fixed = 1; std::vector<std::string> recs(n, "rec"); auto c = dpf::DenseDpfPirClient::Create(dense_config(n), seal); auto s = Dense::CreatePlain(dense_config(n), dense(recs)); if (!c.ok() || !s.ok()) symx_fatal("setup");
  auto q = (*c)->CreateRequest({1}); if (!q.ok()) symx_fatal("request");
  const int k = static_cast<int>(symx_choice(10, "defect")); dpf::PirRequest r; bool bad = true; absl::Status st;
  if (k < 5) {
    if (k == 1) r = q->first;
    if (k == 2) r.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->set_encrypted_request("x");
    if (k == 3) r.mutable_dpf_pir_request()->mutable_plain_request();
    if (k == 4) *r.mutable_dpf_pir_request()->mutable_plain_request() = q->first.dpf_pir_request().leader_request().plain_request(), bad = false;
    auto a = (*s)->HandleRequest(r); st = a.status(); if (a.ok()) CHECK_PROP(a->dpf_pir_response().masked_response_size() == 1, "one answer");
  } else {
    dpf::PirResponse p; dpf::PirRequestClientState cs; *p.mutable_dpf_pir_response()->add_masked_response() = "abc"; cs.mutable_dense_dpf_pir_request_client_state()->set_one_time_pad_seed("0123456789abcdef");
    if (k == 5) p = dpf::PirResponse(); if (k == 6) cs.mutable_cuckoo_hashing_sparse_dpf_pir_request_client_state(); if (k == 7) p.mutable_dpf_pir_response()->clear_masked_response(); if (k == 8) cs.mutable_dense_dpf_pir_request_client_state()->set_one_time_pad_seed(symx_choice(2, "seed") ? "" : "short"); if (k == 9) bad = false;
    st = (*c)->HandleResponse(p, cs).status();
  }
  CHECK_PROP(st.ok() == !bad, "malformed messages are refused"); if (bad) CHECK_PROP(st.code() == absl::StatusCode::kInvalidArgument, "InvalidArgument"); symx_reach(bad ? "refused" : "accepted");
}
