// C23: shapes of keys and requests, correction words shared by the parties, fresh randomness.
#include "keys.h"
#include "dcf/distributed_comparison_function.h"
#include "dcf/fss_gates/multiple_interval_containment.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_client.h"
#include "pir/dense_dpf_pir_client.h"
#include "pir/simple_hashing_sparse_dpf_pir_client.h"
using namespace distributed_point_functions; using fss_gates::MicKey; using fss_gates::MicParameters;
using Shape = std::vector<int64_t>;
// Which of the two integer forms a (pseudorandom) number below 2^64 takes is not part of the shape.
static void shape(Shape& s, const Value::Integer& v) { s.push_back(v.value_case() != Value::Integer::VALUE_NOT_SET); }
static void shape(Shape& s, const Value& v) {
  s.push_back(v.value_case());
  switch (v.value_case()) {
    case Value::kInteger: shape(s, v.integer()); break;
    case Value::kXorWrapper: shape(s, v.xor_wrapper()); break;
    case Value::kIntModN: shape(s, v.int_mod_n()); break;
    case Value::kTuple: s.push_back(v.tuple().elements_size()); for (int i = 0; i < v.tuple().elements_size(); ++i) shape(s, v.tuple().elements(i)); break;
    default: break;
  }
}
static void shape(Shape& s, const DpfKey& k) {
  s.push_back(k.has_seed()); s.push_back(k.correction_words_size());
  for (int i = 0; i < k.correction_words_size(); ++i) { const auto& c = k.correction_words(i); s.push_back(c.has_seed()); s.push_back(c.value_correction_size()); for (int j = 0; j < c.value_correction_size(); ++j) shape(s, c.value_correction(j)); }
  s.push_back(k.last_level_value_correction_size()); for (int j = 0; j < k.last_level_value_correction_size(); ++j) shape(s, k.last_level_value_correction(j));
}
static void shape(Shape& s, const DcfKey& k) { shape(s, k.key()); }
static void shape(Shape& s, const MicKey& k) { shape(s, k.dcfkey()); s.push_back(k.output_mask_share_size()); for (int i = 0; i < k.output_mask_share_size(); ++i) shape(s, k.output_mask_share(i)); }
static void shape(Shape& s, const DpfPirRequest::PlainRequest& r) { s.push_back(r.dpf_key_size()); for (int i = 0; i < r.dpf_key_size(); ++i) shape(s, r.dpf_key(i)); }
template <class M> static Shape shape_of(const M& m) { Shape s; shape(s, m); return s; }
static bool same(absl::string_view a, absl::string_view b) { return a.size() == b.size() && (a.empty() || symx_eq(a.data(), b.data(), a.size())); }
// The two keys differ in the seed and the party only.
static void check_parties(const DpfKey& a, const DpfKey& b) {
  CHECK_PROP(shape_of(a) == shape_of(b), "the parties' keys have one shape"); CHECK_PROP(a.party() == 0 && b.party() == 1, "the parties are 0 and 1");
  DpfKey x = a; *x.mutable_seed() = b.seed(); x.set_party(b.party()); CHECK_PROP(same(x.SerializeAsString(), b.SerializeAsString()), "the parties share every correction word");
}
static int g_from = 0;             // draws before the current call
static std::vector<std::string> g_used;   // material already accounted for
static std::string block_bytes(const Block& b) { uint64_t w[2] = {b.low(), b.high()}; return std::string(reinterpret_cast<char*>(w), 16); }
static bool g_const = false;       // concrete randomness: reuse is decided, too
// `m` was drawn in the current call (from draw g_from on) and not used before.
static void check_fresh(const std::string& m, const char* what) {
  int found = 0;
  for (int i = g_from; i < symx_rand_calls && i < 64; ++i) { const size_t n = symx_rand_len[i] < 64 ? symx_rand_len[i] : 64; for (size_t o = 0; o + m.size() <= n; o += 8) found |= symx_eq(m.data(), symx_rand_log[i] + o, m.size()); }
  CHECK_PROP(found, what);
  if (!g_const) return;
  for (auto& u : g_used) CHECK_PROP(!same(u, m), "random material is used once");
  g_used.push_back(m);
}
static void randomness(int fixed) { symx_rand_fixed = fixed; g_const = fixed; }
template <class... T> static void dpf_shape(std::vector<int> dom, int calls, int fixed) {
  Levels<T...> L; L.dom = dom; auto d = L.create(); randomness(fixed);
  const Shape ref = shape_of(Levels<T...>::skeleton(*d, 0)); randomness(fixed);
  const int n = dom.back(); int draws = -1;
  for (int c = 0; c < calls; ++c) {
    absl::uint128 alpha = n <= 4 ? absl::uint128(symx_choice(uint64_t{1} << n, "alpha")) : symx_choice(2, "alpha") ? (n >= 128 ? absl::Uint128Max() : (absl::uint128{1} << n) - 1) : (u128(0xA5A5A5A55A5A5A5Aull, 0xC3A5F00F12345678ull) & (n >= 128 ? absl::Uint128Max() : (absl::uint128{1} << n) - 1));
    std::vector<Value> b = {*d->ToValue(V<T>::make("beta"))...}; g_from = symx_rand_calls;
    auto k = d->GenerateKeysIncremental(alpha, b); CHECK_PROP(k.ok(), "keys"); if (!k.ok()) return;
    check_parties(k->first, k->second); CHECK_PROP(shape_of(k->first) == ref, "the shape depends on the parameters only");
    CHECK_PROP(draws < 0 || draws == symx_rand_calls - g_from, "the amount of randomness does not depend on the secret"); draws = symx_rand_calls - g_from;
    check_fresh(block_bytes(k->first.seed()), "the first party's seed is fresh randomness"); check_fresh(block_bytes(k->second.seed()), "the second party's seed is fresh randomness");
    symx_observe(block_bytes(k->first.seed()).data(), 16, "seed");
  }
  symx_reach("keys");
}
extern "C" void shape_dpf(int cfg, int calls, int fixed) {
  using M = IntModN<uint32_t, 4294967291u>; using X = XorWrapper<absl::uint128>;
  switch (cfg) {
    case 0: dpf_shape<uint64_t>({3}, calls, fixed); break;
    case 1: dpf_shape<X>({2}, calls, fixed); break;
    case 2: dpf_shape<uint8_t, uint16_t>({2, 4}, calls, fixed); break;
    case 3: dpf_shape<Tuple<uint32_t, XorWrapper<uint64_t>>, absl::uint128>({1, 3}, calls, fixed); break;
    case 4: dpf_shape<uint8_t>({0}, calls, fixed); break;
    case 5: dpf_shape<M>({3}, calls, fixed); break;
    case 6: dpf_shape<uint8_t, uint64_t, X>({1, 2, 3}, calls, fixed); break;
    case 7: dpf_shape<uint32_t>({20}, calls, fixed); break;
    case 8: dpf_shape<X>({128}, calls, fixed); break;
    case 9: dpf_shape<Tuple<M, M>, uint64_t>({2, 40}, calls, fixed); break;
    default: symx_fatal("configuration");
  }
}
template <class T> static void dcf_shape(int n, int calls, int fixed) {
  DcfParameters p; p.mutable_parameters()->set_log_domain_size(n); *p.mutable_parameters()->mutable_value_type() = ToValueType<T>(); auto d = DistributedComparisonFunction::Create(p); if (!d.ok()) symx_fatal("dcf");
  symx_rand_fixed = 1; const Shape ref = shape_of((*d)->GenerateKeys(0, V<T>::zero())->first); randomness(fixed);
  for (int c = 0; c < calls; ++c) {
    const absl::uint128 alpha = n <= 4 ? absl::uint128(symx_choice(uint64_t{1} << n, "alpha")) : absl::uint128(symx_choice(2, "alpha") ? 0x5A5A5A5A5A5A5A5Aull & ((n >= 64 ? 0 : uint64_t{1} << n) - 1) : ((n >= 64 ? 0 : uint64_t{1} << n) - 1)); g_from = symx_rand_calls;
    auto k = (*d)->GenerateKeys(alpha, V<T>::make("beta")); CHECK_PROP(k.ok(), "keys"); if (!k.ok()) return;
    check_parties(k->first.key(), k->second.key()); CHECK_PROP(shape_of(k->first) == ref && shape_of(k->second) == ref, "the shape depends on the parameters only");
    check_fresh(block_bytes(k->first.key().seed()), "the first party's seed is fresh randomness"); check_fresh(block_bytes(k->second.key().seed()), "the second party's seed is fresh randomness");
  }
  symx_reach("keys");
}
extern "C" void shape_dcf(int t, int n, int calls, int fixed) { if (t == 0) dcf_shape<uint32_t>(n, calls, fixed); else if (t == 1) dcf_shape<XorWrapper<uint64_t>>(n, calls, fixed); else if (t == 2) dcf_shape<absl::uint128>(n, calls, fixed); else dcf_shape<Tuple<uint8_t, uint16_t>>(n, calls, fixed); }
// Gate keys: the first party's output mask shares are fresh randomness, whatever the masks are.
extern "C" void shape_mic(int n, int intervals, int calls, int fixed) {
  MicParameters p; p.set_log_group_size(n); for (int i = 0; i < intervals; ++i) { auto* v = p.add_intervals(); v->mutable_lower_bound()->mutable_value_uint128()->set_low(i % 2); v->mutable_upper_bound()->mutable_value_uint128()->set_low((1 << n) - 1 - i % 2); }
  auto g = fss_gates::MultipleIntervalContainmentGate::Create(p); if (!g.ok()) symx_fatal("gate");
  symx_rand_fixed = 1; const Shape ref = shape_of((*g)->Gen(0, std::vector<absl::uint128>(intervals, 0))->first); randomness(fixed);
  for (int c = 0; c < calls; ++c) {
    const absl::uint128 r = symx_choice(uint64_t{1} << n, "r_in"); std::vector<absl::uint128> out; for (int i = 0; i < intervals; ++i) out.push_back(sym_bits128(n, "r_out")); g_from = symx_rand_calls;
    auto k = (*g)->Gen(r, out); CHECK_PROP(k.ok(), "keys"); if (!k.ok()) return;
    check_parties(k->first.dcfkey().key(), k->second.dcfkey().key()); CHECK_PROP(shape_of(k->first) == ref && shape_of(k->second) == ref, "the shape depends on the parameters only");
    check_fresh(block_bytes(k->first.dcfkey().key().seed()), "the first party's seed is fresh randomness"); check_fresh(block_bytes(k->second.dcfkey().key().seed()), "the second party's seed is fresh randomness");
    // each share of party 0 is a fresh draw reduced to the group (either byte order), one draw per share
    std::vector<int> taken(64, 0); const absl::uint128 mask = (absl::uint128{1} << n) - 1;
    for (int i = 0; i < intervals; ++i) {
      const absl::uint128 z = u128(k->first.output_mask_share(i).value_uint128().high(), k->first.output_mask_share(i).value_uint128().low()); int found = 0;
      for (int j = g_from; j < symx_rand_calls && j < 64; ++j) { if (g_const && taken[j]) continue; for (size_t o = 0; o + 16 <= symx_rand_len[j] && o + 16 <= 64; o += 16) {
          uint64_t lo, hi; memcpy(&lo, symx_rand_log[j] + o, 8); memcpy(&hi, symx_rand_log[j] + o + 8, 8); const absl::uint128 a = u128(hi, lo) & mask, b = u128(lo, hi) & mask; const int hit = symx_eq(&z, &a, 16) | symx_eq(&z, &b, 16); if (g_const && hit) { taken[j] = 1; found = 1; j = 64; break; } found |= hit; } }
      CHECK_PROP(found, "each output mask share is fresh randomness");
    }
  }
  symx_reach("keys");
}
// PIR requests. kind 0: dense, 1: cuckoo, 2: simple.
static std::string g_text; static absl::StatusOr<std::string> seal(absl::string_view t, absl::string_view) { g_text = std::string(t); return std::string("sealed"); }
template <class C, class Q> static void pir_shape(C& c, Q query, int nq, int keys_per_query, int calls, int fixed) {
  Shape ref; 
  for (int k = 0; k < calls; ++k) {
    auto q = query(k); g_from = symx_rand_calls; auto r = c.CreateRequest(q); CHECK_PROP(r.ok(), "request"); if (!r.ok()) return;
    DpfPirRequest::HelperRequest h; CHECK_PROP(h.ParseFromString(g_text), "the sealed part"); const auto& l = r->first.dpf_pir_request().leader_request().plain_request();
    Shape s = shape_of(l), t = shape_of(h.plain_request()); CHECK_PROP(s == t, "both servers get requests of one shape"); CHECK_PROP(l.dpf_key_size() == nq * keys_per_query, "the number of keys depends on the number of queries"); if (!k) ref = s; CHECK_PROP(s == ref, "the shape does not depend on the query");
    CHECK_PROP(l.seed_fingerprint() == h.plain_request().seed_fingerprint(), "one fingerprint");
    for (int i = 0; i < l.dpf_key_size(); ++i) { check_parties(l.dpf_key(i), h.plain_request().dpf_key(i)); check_fresh(block_bytes(l.dpf_key(i).seed()), "a fresh seed for each key"); check_fresh(block_bytes(h.plain_request().dpf_key(i).seed()), "a fresh seed for each key"); }
    check_fresh(h.one_time_pad_seed(), "a fresh one-time pad");
  }
  symx_reach("requests");
}
extern "C" void shape_pir(int kind, int n, int nq, int calls, int fixed) {
  symx_sha_buckets = -n; HashFamilyConfig f; f.set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256); f.set_seed("seed"); 
  static std::vector<std::string> words; static std::vector<int> idx;
  auto strings = [nq](int) { static const char* w[] = {"", "a", "a longer query string"}; words.clear(); for (int i = 0; i < nq; ++i) words.push_back(w[symx_choice(3, "query")]); return absl::Span<const std::string>(words); };
  randomness(fixed);
  if (kind == 0) { PirConfig cfg; cfg.mutable_dense_dpf_pir_config()->set_num_elements(n); auto c = DenseDpfPirClient::Create(cfg, seal); if (!c.ok()) symx_fatal("client");
    pir_shape(**c, [n, nq](int) { idx.clear(); for (int i = 0; i < nq; ++i) idx.push_back(n > 8 ? static_cast<int>(symx_choice(2, "index")) * (n - 1) : static_cast<int>(symx_choice(n, "index"))); return absl::Span<const int>(idx); }, nq, 1, calls, fixed); }
  if (kind == 1) { PirServerPublicParams p; auto* q = p.mutable_cuckoo_hashing_sparse_dpf_pir_server_params(); *q->mutable_hash_family_config() = f; q->set_num_buckets(n); q->set_num_hash_functions(3); auto c = CuckooHashingSparseDpfPirClient::Create(p, seal); if (!c.ok()) symx_fatal("client"); pir_shape(**c, strings, nq, 3, calls, fixed); }
  if (kind == 2) { PirServerPublicParams p; auto* q = p.mutable_simple_hashing_sparse_dpf_pir_server_params(); *q->mutable_hash_family_config() = f; q->set_num_buckets(n); auto c = SimpleHashingSparseDpfPirClient::Create(p, seal); if (!c.ok()) symx_fatal("client"); pir_shape(**c, strings, nq, 1, calls, fixed); }
}
