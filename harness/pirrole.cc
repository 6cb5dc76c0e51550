// C22: the leader/helper protocol.
#include "common.h"
#include "dpf/distributed_point_function.h"
#include "pir/dense_dpf_pir_client.h"
#include "pir/dpf_pir_server.h"
#include "pir/prng/aes_128_ctr_seeded_prng.h"
namespace dpf = distributed_point_functions;
static std::string sym_string(size_t n, const char* name) { std::string s(n, '\0'); if (n) symx_make(&s[0], n, name); return s; }
static bool same(absl::string_view a, absl::string_view b) { return a.size() == b.size() && (a.empty() || symx_eq(a.data(), b.data(), a.size())); }
static const char kCtx[] = "some context";
// A server whose plain answers are given.
struct Stub : dpf::DpfPirServer {
  Stub() = default;
  using DpfPirServer::MakeHelper; using DpfPirServer::MakeLeader;
  const dpf::PirServerPublicParams& GetPublicParams() const override { return dpf::PirServerPublicParams::default_instance(); }
  absl::StatusOr<dpf::PirResponse> HandlePlainRequest(const dpf::PirRequest& r) const override { calls++; seen = r; return answer; }
  mutable int calls = 0; mutable dpf::PirRequest seen; absl::StatusOr<dpf::PirResponse> answer = dpf::PirResponse();
};
static dpf::PirResponse response(const std::vector<std::string>& v) { dpf::PirResponse r; r.mutable_dpf_pir_response(); for (auto& s : v) *r.mutable_dpf_pir_response()->add_masked_response() = s; return r; }
static std::vector<std::string> strings(const dpf::PirResponse& r) { std::vector<std::string> v; for (int i = 0; i < r.dpf_pir_response().masked_response_size(); ++i) v.push_back(r.dpf_pir_response().masked_response(i)); return v; }
static absl::Status error(int k) { return k == 1 ? absl::UnavailableError("e1") : k == 2 ? absl::InvalidArgumentError("e2") : absl::InternalError("e3"); }
static bool same_status(const absl::Status& a, const absl::Status& b) { return a.code() == b.code() && std::string(a.message()) == std::string(b.message()); }
// A plain request with symbolic contents.
static void fill(dpf::DpfPirRequest::PlainRequest* p, int keys) {
  uint64_t s; symx_make(&s, 8, "key"); uint32_t f; symx_make(&f, 4, "fingerprint");
  for (int i = 0; i < keys; ++i) { auto* k = p->add_dpf_key(); k->mutable_seed()->set_high(s + i); k->mutable_seed()->set_low(s ^ i); k->set_party(i); }
  p->set_seed_fingerprint(f);
}
static bool same_plain(const dpf::PirRequest& r, const dpf::DpfPirRequest::PlainRequest& p) {
  if (r.wrapped_pir_request_case() != dpf::PirRequest::kDpfPirRequest || r.dpf_pir_request().wrapped_request_case() != dpf::DpfPirRequest::kPlainRequest) return false;
  return same(r.dpf_pir_request().plain_request().SerializeAsString(), p.SerializeAsString());
}
static std::vector<std::string> lists(int maxn, const char* what) { static const size_t len[] = {0, 1, 3, 17}; const int n = static_cast<int>(symx_choice(maxn + 1, what)); std::vector<std::string> v; for (int i = 0; i < n; ++i) v.push_back(sym_string(len[symx_choice(4, "length")], what)); return v; }
// What a server that is a leader (role 1), a helper (2) or plain (0) does with a request of any other kind.
extern "C" void role_kinds(int roles) {
  const int role = static_cast<int>(symx_choice(roles, "role")), kind = static_cast<int>(symx_choice(6, "kind")); int sent = 0, decrypted = 0; Stub s; s.answer = response({sym_string(2, "answer")});
  if (role == 1) CHECK_PROP(s.MakeLeader([&](const dpf::PirRequest&, absl::AnyInvocable<void()> w) -> absl::StatusOr<dpf::PirResponse> { sent++; w(); return response({std::string(2, 'x')}); }).ok(), "a leader");
  if (role == 2) CHECK_PROP(s.MakeHelper([&](absl::string_view t, absl::string_view) -> absl::StatusOr<std::string> { decrypted++; return std::string(t); }, kCtx).ok(), "a helper");
  CHECK_PROP(static_cast<int>(s.role()) == role, "the role of the server");
  dpf::PirRequest r; dpf::DpfPirRequest::HelperRequest h; fill(h.mutable_plain_request(), 1); h.set_one_time_pad_seed(sym_string(16, "pad"));
  if (kind == 1) r.mutable_dpf_pir_request(); if (kind == 2) *r.mutable_dpf_pir_request()->mutable_plain_request() = h.plain_request();
  if (kind == 3 || kind == 5) *r.mutable_dpf_pir_request()->mutable_leader_request()->mutable_plain_request() = h.plain_request(); if (kind == 3) r.mutable_dpf_pir_request()->mutable_leader_request()->mutable_encrypted_helper_request()->set_encrypted_request("x");
  if (kind == 4) r.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->set_encrypted_request(h.SerializeAsString());
  auto a = s.HandleRequest(r);
  if (role == 0) { CHECK_PROP(a.ok() && s.calls == 1 && same(s.seen.SerializeAsString(), r.SerializeAsString()), "a plain server handles the request itself"); symx_reach("accepted"); return; }
  const bool good = role == 1 ? kind == 3 : kind == 4; CHECK_PROP(a.ok() == good, "each role accepts its own requests only");
  if (!good) { CHECK_PROP(a.status().code() == absl::StatusCode::kInvalidArgument, "InvalidArgument"); CHECK_PROP(!s.calls && !sent && !decrypted, "nothing is done with a refused request"); }
  symx_reach(good ? "accepted" : "refused");
}
// Leader: every combination of answers, sizes and failures of the helper, the callback and the leader itself.
extern "C" void role_leader(int n) {
  Stub s; const auto own = lists(n, "leader"), theirs = lists(n, "helper"); const int fail_own = static_cast<int>(symx_choice(3, "own_error")), fail_send = static_cast<int>(symx_choice(3, "helper_error")), wait = static_cast<int>(symx_choice(3, "callback")), keys = 1;
  if (fail_own) s.answer = error(fail_own); else s.answer = response(own);
  int sent = 0; dpf::PirRequest got; bool early = false;
  CHECK_PROP(s.MakeLeader([&](const dpf::PirRequest& r, absl::AnyInvocable<void()> w) -> absl::StatusOr<dpf::PirResponse> { sent++; got = r; if (wait == 1) w(); early = s.calls > 0; if (wait == 2) w(); if (fail_send) return error(3 - fail_send); return response(theirs); }).ok(), "a leader");
  dpf::PirRequest r; fill(r.mutable_dpf_pir_request()->mutable_leader_request()->mutable_plain_request(), keys); r.mutable_dpf_pir_request()->mutable_leader_request()->mutable_encrypted_helper_request()->set_encrypted_request(sym_string(9, "sealed"));
  auto a = s.HandleRequest(r); const auto& lr = r.dpf_pir_request().leader_request();
  CHECK_PROP(sent == 1, "the helper is asked once"); CHECK_PROP(got.dpf_pir_request().wrapped_request_case() == dpf::DpfPirRequest::kEncryptedHelperRequest, "the helper gets an encrypted request");
  CHECK_PROP(same(got.dpf_pir_request().encrypted_helper_request().encrypted_request(), lr.encrypted_helper_request().encrypted_request()), "exactly the encrypted part"); CHECK_PROP(s.calls == (wait ? 1 : 0) && early == (wait == 1), "the leader computes when told to");
  if (wait) CHECK_PROP(same_plain(s.seen, lr.plain_request()), "the leader answers its own part");
  if (fail_send) { CHECK_PROP(!a.ok() && same_status(a.status(), error(3 - fail_send)), "the helper's error is returned"); symx_reach("helper_error"); return; }
  if (!wait) { CHECK_PROP(a.status().code() == absl::StatusCode::kFailedPrecondition, "FailedPrecondition"); symx_reach("not_called"); return; }
  if (fail_own) { CHECK_PROP(!a.ok() && same_status(a.status(), error(fail_own)), "the leader's error is returned"); symx_reach("own_error"); return; }
  bool fit = own.size() == theirs.size(); for (size_t i = 0; fit && i < own.size(); ++i) fit = own[i].size() == theirs[i].size();
  CHECK_PROP(a.ok() == fit, "answers of different shape are refused"); if (!a.ok()) { CHECK_PROP(a.status().code() == absl::StatusCode::kInternal, "Internal"); symx_reach("mismatch"); return; }
  const auto v = strings(*a); CHECK_PROP(v.size() == own.size(), "one answer per query"); if (v.size() != own.size()) return;
  for (size_t i = 0; i < v.size(); ++i) { std::string x = own[i]; for (size_t j = 0; j < x.size(); ++j) x[j] ^= theirs[i][j]; CHECK_PROP(same(v[i], x), "the answers are combined"); }
  symx_reach("combined");
}
// Helper: decryption, one-time pad, failures.
extern "C" void role_helper(int n) {
  Stub s; const auto own = lists(n, "helper"); const int fail_own = static_cast<int>(symx_choice(2, "own_error")), fail_dec = static_cast<int>(symx_choice(4, "decryption")); static const size_t seeds[] = {16, 15, 0, 17}; const size_t sl = seeds[symx_choice(4, "seed_size")];
  if (fail_own) s.answer = error(1); else s.answer = response(own);
  const std::string sealed = sym_string(7, "sealed"), pad = sym_string(sl, "pad"); dpf::DpfPirRequest::HelperRequest h; fill(h.mutable_plain_request(), 2); h.set_one_time_pad_seed(pad); int dec = 0; std::string text, ctx;
  CHECK_PROP(s.MakeHelper([&](absl::string_view t, absl::string_view c) -> absl::StatusOr<std::string> { dec++; text = std::string(t); ctx = std::string(c); if (fail_dec == 1) return error(2); if (fail_dec == 2) return std::string("\xff\xff not a request"); if (fail_dec == 3) return std::string("\x0a"); return h.SerializeAsString(); }, kCtx).ok(), "a helper");
  dpf::PirRequest r; r.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->set_encrypted_request(sealed);
  auto a = s.HandleRequest(r); CHECK_PROP(dec == 1 && same(text, sealed) && ctx == kCtx, "the request and the context are decrypted once");
  if (fail_dec == 1) { CHECK_PROP(same_status(a.status(), error(2)) && !s.calls, "the decryption's error is returned"); symx_reach("undecrypted"); return; }
  if (fail_dec) { CHECK_PROP(a.status().code() == absl::StatusCode::kInvalidArgument && !s.calls, "an unreadable request is refused"); symx_reach("unreadable"); return; }
  if (sl == 16 || s.calls) CHECK_PROP(s.calls == 1 && same_plain(s.seen, h.plain_request()), "the helper answers its own part");
  if (fail_own && sl == 16) { CHECK_PROP(same_status(a.status(), error(1)), "the helper's error is returned"); symx_reach("own_error"); return; }
  if (sl != 16) { CHECK_PROP(!a.ok(), "a pad seed of the wrong size is refused"); if (!fail_own) CHECK_PROP(a.status().code() == absl::StatusCode::kInvalidArgument, "InvalidArgument"); symx_reach("bad_seed"); return; }
  CHECK_PROP(a.ok(), "answered"); if (!a.ok()) return; const auto v = strings(*a); CHECK_PROP(v.size() == own.size(), "one answer per query"); if (v.size() != own.size()) return;
  size_t total = 0; for (auto& x : own) total += x.size(); auto g = dpf::Aes128CtrSeededPrng::Create(pad); if (!g.ok()) symx_fatal("prng"); const std::string m = (*g)->GetRandomBytes(total); size_t at = 0;
  for (size_t i = 0; i < v.size(); ++i) { std::string x = own[i]; for (auto& c : x) c ^= m[at++]; CHECK_PROP(same(v[i], x), "each answer is masked with its part of the pad"); }
  symx_reach("masked"); if (total) symx_observe(m.data(), total < 8 ? total : 8, "pad");
}
// The client: what is sealed, what it returns, how it unmasks; then the whole protocol with arbitrary plain answers.
extern "C" void role_client(int n, int nq) {
  symx_rand_fixed = 1; dpf::PirConfig cfg; cfg.mutable_dense_dpf_pir_config()->set_num_elements(n);
  const int fail = static_cast<int>(symx_choice(2, "encryption_error")); const bool own_ctx = symx_choice(2, "context"); int sealed = 0; std::string text, ctx; const std::string cipher = sym_string(5, "cipher");
  auto enc = [&](absl::string_view t, absl::string_view c) -> absl::StatusOr<std::string> { sealed++; text = std::string(t); ctx = std::string(c); if (fail) return error(1); return cipher; };
  auto c = own_ctx ? dpf::DenseDpfPirClient::Create(cfg, enc, kCtx) : dpf::DenseDpfPirClient::Create(cfg, enc); CHECK_PROP(c.ok(), "client"); if (!c.ok()) return;
  std::vector<int> idx(nq, 0); for (auto& i : idx) i = static_cast<int>(symx_choice(n, "index"));
  auto q = (*c)->CreateRequest(idx); CHECK_PROP(sealed == 1 && ctx == (own_ctx ? std::string(kCtx) : std::string(dpf::DenseDpfPirServer::kEncryptionContextInfo)), "one request is encrypted, for the configured context");
  if (fail) { CHECK_PROP(!q.ok() && same_status(q.status(), error(1)), "the encryption's error is returned"); symx_reach("error"); return; }
  CHECK_PROP(q.ok(), "created"); if (!q.ok()) return;
  const auto& r = q->first.dpf_pir_request(); CHECK_PROP(r.wrapped_request_case() == dpf::DpfPirRequest::kLeaderRequest, "a leader request"); CHECK_PROP(same(r.leader_request().encrypted_helper_request().encrypted_request(), cipher), "the helper's part is what the encryption returned");
  dpf::DpfPirRequest::HelperRequest h; CHECK_PROP(h.ParseFromString(text), "the helper's part is a request"); const std::string pad = h.one_time_pad_seed();
  CHECK_PROP(h.plain_request().dpf_key_size() == nq && r.leader_request().plain_request().dpf_key_size() == nq, "one key per query and server"); CHECK_PROP(pad.size() == 16 && same(q->second.dense_dpf_pir_request_client_state().one_time_pad_seed(), pad), "the client keeps the pad it sent");
  for (int i = 0; i < nq; ++i) CHECK_PROP(h.plain_request().dpf_key(i).party() != r.leader_request().plain_request().dpf_key(i).party(), "the servers get different shares");
  const auto v = lists(2, "response"); auto a = (*c)->HandleResponse(response(v), q->second); CHECK_PROP(a.ok() == !v.empty(), "an empty response is refused"); if (!a.ok()) { symx_reach("empty"); return; }
  size_t total = 0; for (auto& x : v) total += x.size(); auto g = dpf::Aes128CtrSeededPrng::Create(pad); const std::string m = (*g)->GetRandomBytes(total); size_t at = 0; CHECK_PROP(a->size() == v.size(), "one answer per response"); if (a->size() != v.size()) return;
  for (size_t i = 0; i < v.size(); ++i) { std::string x = v[i]; for (auto& ch : x) ch ^= m[at++]; CHECK_PROP(same((*a)[i], x), "each response is unmasked with its part of the pad"); }
  symx_reach("unmasked");
}
extern "C" void role_flow(int nq, int fixed) {
  symx_rand_fixed = fixed; dpf::PirConfig cfg; cfg.mutable_dense_dpf_pir_config()->set_num_elements(2);
  auto c = dpf::DenseDpfPirClient::Create(cfg, [](absl::string_view t, absl::string_view x) -> absl::StatusOr<std::string> { return std::string(x) + std::string(t); }, kCtx); CHECK_PROP(c.ok(), "client"); if (!c.ok()) return;
  static const size_t len[] = {3, 0, 17, 1, 16}; std::vector<std::string> x, y; for (int i = 0; i < nq; ++i) { const size_t n = len[symx_choice(5, "length")]; x.push_back(sym_string(n, "leader")); y.push_back(sym_string(n, "helper")); }
  Stub l, h; l.answer = response(x); h.answer = response(y);
  CHECK_PROP(h.MakeHelper([](absl::string_view t, absl::string_view z) -> absl::StatusOr<std::string> { return std::string(t.substr(z.size())); }, kCtx).ok(), "helper");
  CHECK_PROP(l.MakeLeader([&](const dpf::PirRequest& r, absl::AnyInvocable<void()> w) -> absl::StatusOr<dpf::PirResponse> { auto a = h.HandleRequest(r); w(); return a; }).ok(), "leader");
  auto q = (*c)->CreateRequest(std::vector<int>(nq, 1)); CHECK_PROP(q.ok(), "created"); if (!q.ok()) return; auto a = l.HandleRequest(q->first); CHECK_PROP(a.ok(), "answered"); if (!a.ok()) return; auto r = (*c)->HandleResponse(*a, q->second); CHECK_PROP(r.ok() && r->size() == x.size(), "read"); if (!r.ok() || r->size() != x.size()) return;
  for (size_t i = 0; i < x.size(); ++i) { std::string w = x[i]; for (size_t j = 0; j < w.size(); ++j) w[j] ^= y[i][j]; CHECK_PROP(same((*r)[i], w), "the answer is that of two plain servers"); }
  symx_reach("answered"); if (!(*r)[0].empty()) symx_observe((*r)[0].data(), 1, "answer");
}
extern "C" void role_null(int unused) { (void)unused;
  Stub s; CHECK_PROP(s.MakeLeader(dpf::DpfPirServer::ForwardHelperRequestFn()).code() == absl::StatusCode::kInvalidArgument, "no sender"); CHECK_PROP(s.role() == Stub::Role::kPlain, "still plain");
  CHECK_PROP(s.MakeHelper(dpf::DpfPirServer::DecryptHelperRequestFn(), kCtx).code() == absl::StatusCode::kInvalidArgument, "no decrypter"); CHECK_PROP(s.role() == Stub::Role::kPlain, "still plain"); symx_reach("refused");
}
