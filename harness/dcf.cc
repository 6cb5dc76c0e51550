// C11: distributed comparison functions. C12: interval containment gate.
#include "keys.h"
#include "dcf/distributed_comparison_function.h"
#include "dcf/fss_gates/multiple_interval_containment.h"
using namespace distributed_point_functions;
using M32 = IntModN<uint32_t, 4294967291u>; using M64 = IntModN<uint64_t, 18446744073709551557ull>;
using X8 = XorWrapper<uint8_t>; using X64 = XorWrapper<uint64_t>; using X128 = XorWrapper<absl::uint128>;
using TX = Tuple<uint32_t, XorWrapper<uint64_t>>; using TM = Tuple<M32, M32>; using T3 = Tuple<absl::uint128, Tuple<uint8_t, XorWrapper<uint16_t>>, uint64_t>;
template <class F> static void with_type(int t, F f) {
  switch (t) {
    case 0: f(static_cast<uint8_t*>(nullptr)); break;
    case 1: f(static_cast<uint16_t*>(nullptr)); break;
    case 2: f(static_cast<uint32_t*>(nullptr)); break;
    case 3: f(static_cast<uint64_t*>(nullptr)); break;
    case 4: f(static_cast<absl::uint128*>(nullptr)); break;
    case 5: f(static_cast<X128*>(nullptr)); break;
    case 6: f(static_cast<X8*>(nullptr)); break;
    case 7: f(static_cast<M32*>(nullptr)); break;
    case 8: f(static_cast<M64*>(nullptr)); break;
    case 9: f(static_cast<TX*>(nullptr)); break;
    case 10: f(static_cast<T3*>(nullptr)); break;
    case 11: f(static_cast<TM*>(nullptr)); break;
    case 12: f(static_cast<X64*>(nullptr)); break;
    default: symx_fatal("type");
  }
}
template <class T> static std::unique_ptr<DistributedComparisonFunction> make_dcf(int n) {
  DcfParameters p; p.mutable_parameters()->set_log_domain_size(n); *p.mutable_parameters()->mutable_value_type() = ToValueType<T>();
  auto d = DistributedComparisonFunction::Create(p);
  CHECK_PROP(d.ok(), "DCF creation accepts valid parameters"); if (!d.ok()) symx_stop();
  return *std::move(d);
}
static absl::uint128 pattern(int p, int n) {
  absl::uint128 full = n >= 128 ? absl::Uint128Max() : (absl::uint128{1} << n) - 1, v;
  switch (p) { case 0: v = 0; break; case 1: v = full; break; case 2: v = u128(0xA5A5A5A55A5A5A5Aull, 0xC3A5F00F12345678ull); break; default: v = u128(0x0123456789ABCDEFull, 0x8000000000000001ull); }
  return v & full;
}
// mode 0: all alpha and x; mode 1: patterns with a flipped bit, symbolic seeds; mode 2: patterns, fixed seed; mode 3: sparse patterns, fixed seed
extern "C" void dcf_point(int type, int n, int mode) {
  with_type(type, [n, mode](auto* tt) {
    using T = std::remove_pointer_t<decltype(tt)>;
    auto d = make_dcf<T>(n);
    if (mode >= 2) symx_rand_fixed = 1;
    absl::uint128 alpha, x;
    if (mode == 0) { alpha = choice_bits(n, "alpha"); x = choice_bits(n, "x"); }
    else {
      alpha = pattern(static_cast<int>(symx_choice(mode == 3 ? 2 : 4, "pattern")) + (mode == 3 ? 2 : 0), n);
      const uint64_t k = symx_choice(n + 1, "k");
      if (mode == 3 && k % 11 != 4 && k != uint64_t(n) && k != 0 && k != uint64_t(n) - 1) symx_stop();
      x = alpha;
      if (k < uint64_t(n)) { x ^= absl::uint128{1} << k; if (symx_choice(2, "below")) x ^= ((absl::uint128{1} << k) - 1) & u128(0x9999999999999999ull, 0x6666666666666666ull); }
    }
    T beta = V<T>::make("beta");
    auto keys = d->GenerateKeys(alpha, beta);
    CHECK_PROP(keys.ok(), "GenerateKeys succeeds"); if (!keys.ok()) return;
    auto a = d->template Evaluate<T>(keys->first, x), b = d->template Evaluate<T>(keys->second, x);
    CHECK_PROP(a.ok() && b.ok(), "Evaluate succeeds"); if (!a.ok() || !b.ok()) return;
    T s = V<T>::add(*a, *b); V<T>::obs(s, "sum");
    if (x < alpha) { symx_reach("below"); CHECK_PROP(V<T>::eq(s, beta), "shares sum to beta below alpha"); }
    else { symx_reach("above"); CHECK_PROP(V<T>::eq(s, V<T>::zero()), "shares sum to zero at or above alpha"); }
  });
}
// Arbitrary keys: a batch of keys and points gives, for each, the sum of the
// incremental DPF's values at the prefixes of x over the levels where x has a zero bit.
extern "C" void dcf_batch(int type, int n, int maxk) {
  with_type(type, [n, maxk](auto* tt) {
    using T = std::remove_pointer_t<decltype(tt)>;
    auto d = make_dcf<T>(n);
    std::vector<DpfParameters> ps(n);
    for (int i = 0; i < n; ++i) { ps[i].set_log_domain_size(i); *ps[i].mutable_value_type() = ToValueType<T>(); }
    auto dp = DistributedPointFunction::CreateIncremental(ps); CHECK_PROP(dp.ok(), "DPF"); if (!dp.ok()) return;
    (void)(*dp)->template RegisterValueType<T>();
    symx_rand_fixed = 1;
    std::vector<Value> zero(n, *(*dp)->ToValue(V<T>::zero()));
    auto sk = (*dp)->GenerateKeysIncremental(0, zero); CHECK_PROP(sk.ok(), "keys"); if (!sk.ok()) return;
    symx_rand_fixed = 0;
    const int k = static_cast<int>(symx_choice(maxk + 1, "nkeys"));
    const auto pat = symx_choice(4, "points");
    std::vector<DcfKey> keys(k); std::vector<const DcfKey*> kp; std::vector<absl::uint128> xs;
    const absl::uint128 full = n >= 128 ? absl::Uint128Max() : (absl::uint128{1} << n) - 1;
    for (int i = 0; i < k; ++i) {
      *keys[i].mutable_key() = (i + pat) % 2 ? sk->second : sk->first;
      km_key(keys[i].mutable_key(), std::vector<ValueType>(n, ToValueType<T>()));
      absl::uint128 x = pat == 0 ? absl::uint128{static_cast<uint64_t>(i) * 3 + 1} : pat == 1 ? full - i : pat == 2 ? u128(0xA5A5A5A55A5A5A5Aull, 0xC3A5F00F12345678ull) * (i + 1) : absl::uint128{0};
      xs.push_back(x & full);
    }
    for (auto& q : keys) kp.push_back(&q);
    absl::StatusOr<std::vector<T>> r = absl::InternalError("");
    const auto form = symx_choice(3, "form");
    if (form == 2) {
      // The caller's buffer may hold anything.
      std::vector<T> buf(k, V<T>::make("junk"));
      if (k > 0) {
        auto bad = d->template BatchEvaluate<T>(absl::MakeConstSpan(keys), xs, absl::MakeSpan(buf).subspan(1));
        CHECK_PROP(!bad.ok(), "a buffer of the wrong size is refused");
      }
      auto st = d->template BatchEvaluate<T>(absl::MakeConstSpan(keys), xs, absl::MakeSpan(buf));
      if (st.ok()) r = buf; else r = st;
    } else if (form) r = d->template BatchEvaluate<T>(absl::MakeConstSpan(kp), xs); else r = d->template BatchEvaluate<T>(absl::MakeConstSpan(keys), xs);
    CHECK_PROP(r.ok(), "BatchEvaluate succeeds"); if (!r.ok()) return;
    CHECK_PROP(static_cast<int>(r->size()) == k, "one output per key");
    symx_reach(k ? "batch" : "empty");
    for (int i = 0; i < k; ++i) {
      auto one = d->template Evaluate<T>(keys[i], xs[i]);
      CHECK_PROP(one.ok(), "Evaluate succeeds"); if (!one.ok()) return;
      CHECK_PROP(V<T>::eq((*r)[i], *one), "batch evaluation agrees with single evaluation");
      T want = V<T>::zero();
      for (int l = 0; l < n; ++l) {
        if (((xs[i] >> (n - 1 - l)) & 1) != 0) continue;
        absl::uint128 pre = xs[i] >> 1 >> (n - 1 - l);
        auto v = (*dp)->template EvaluateAt<T>(keys[i].key(), l, absl::MakeConstSpan(&pre, 1));
        CHECK_PROP(v.ok() && v->size() == 1, "EvaluateAt succeeds"); if (!v.ok()) return;
        want = V<T>::add(want, (*v)[0]);
      }
      V<T>::obs((*r)[i], "value");
      CHECK_PROP(V<T>::eq((*r)[i], want), "the value is the sum over the zero bits of x");
    }
  });
}
extern "C" void dcf_refuse(int n) {
  auto d = make_dcf<uint64_t>(n);
  symx_rand_fixed = 1;
  absl::uint128 alpha; symx_make(&alpha, 16, "alpha");
  const bool in = n >= 128 || (alpha >> n) == 0;
  Value b; b.mutable_integer()->set_value_uint64(symx_bits(64, "beta"));
  if (!in) { auto k = d->GenerateKeys(alpha, b); CHECK_PROP(k.status().code() == absl::StatusCode::kInvalidArgument, "alpha outside the domain is refused"); symx_reach("alpha"); return; }
  if (symx_choice(2, "bad_beta")) {
    Value w; switch (symx_choice(3, "beta_kind")) { case 0: break; case 1: w.mutable_xor_wrapper()->set_value_uint64(1); break; case 2: w.mutable_tuple()->add_elements()->mutable_integer()->set_value_uint64(1); }
    CHECK_PROP(!d->GenerateKeys(1, w).ok(), "a value of the wrong type is refused"); symx_reach("beta"); return; }
  auto k = d->GenerateKeys(1, b); CHECK_PROP(k.ok(), "GenerateKeys succeeds"); if (!k.ok()) return;
  absl::uint128 x; symx_make(&x, 16, "x"); if (n < 128) symx_assume((x >> n) != 0); else symx_stop();
  CHECK_PROP(d->Evaluate<uint64_t>(k->first, x).status().code() == absl::StatusCode::kInvalidArgument, "points outside the domain are refused");
  std::vector<DcfKey> ks(symx_choice(3, "nkeys"), k->first); std::vector<absl::uint128> xs(symx_choice(3, "npoints"), 0); std::vector<uint64_t> out(symx_choice(3, "nout"), 7);
  auto st = d->BatchEvaluate<uint64_t>(ks, xs, absl::MakeSpan(out));
  CHECK_PROP(st.ok() == (ks.size() == xs.size() && out.size() == xs.size()), "sizes must agree");
  symx_reach("x");
}
extern "C" void dcf_params() {
  DcfParameters p; const int n = static_cast<int>(symx_choice(7, "n"));
  const int dom[] = {-5, 0, 1, 128, 129, 2, 2147483647}; p.mutable_parameters()->set_log_domain_size(dom[n]);
  const auto t = symx_choice(3, "type");
  if (t) { int32_t b = static_cast<int32_t>(symx_bits(32, "bitsize")); if (t == 2) symx_assume(b == 8 || b == 128 || b == 0 || b == 129 || b == 24); p.mutable_parameters()->mutable_value_type()->mutable_integer()->set_bitsize(b);
    const bool tok = all_of(b == 1 || b == 2 || b == 4 || b == 8 || b == 16 || b == 32 || b == 64 || b == 128);
    if (t == 1 && tok) symx_stop();
    auto d = DistributedComparisonFunction::Create(p);
    CHECK_PROP(d.ok() == (dom[n] >= 1 && dom[n] <= 128 && tok), "DCF parameters are accepted exactly when valid"); symx_reach(d.ok() ? "accepted" : "refused"); return; }
  CHECK_PROP(!DistributedComparisonFunction::Create(p).ok(), "a value type is required"); symx_reach("refused");
}

// ---- C12 ----
using fss_gates::MultipleIntervalContainmentGate; using fss_gates::MicParameters; using fss_gates::MicKey;
static void set_bound(Value::Integer* v, absl::uint128 x, bool wide) {
  if (!wide) { v->set_value_uint64(absl::Uint128Low64(x)); return; }
  v->mutable_value_uint128()->set_high(absl::Uint128High64(x)); v->mutable_value_uint128()->set_low(absl::Uint128Low64(x));
}
static std::unique_ptr<MultipleIntervalContainmentGate> make_mic(int n, const std::vector<std::pair<absl::uint128, absl::uint128>>& iv, bool wide) {
  MicParameters p; p.set_log_group_size(n);
  for (auto& i : iv) { auto* q = p.add_intervals(); set_bound(q->mutable_lower_bound(), i.first, wide); set_bound(q->mutable_upper_bound(), i.second, wide); }
  auto g = MultipleIntervalContainmentGate::Create(p);
  CHECK_PROP(g.ok(), "the gate accepts valid parameters"); if (!g.ok()) symx_stop();
  return *std::move(g);
}
static absl::uint128 gmask(int n) { return (absl::uint128{1} << n) - 1; }
// Small groups: every interval, input mask and input.
// seeds: 0 symbolic, 1 fixed key seeds (masks and the share randomness stay symbolic).
extern "C" void mic_small(int n, int wide, int seeds) {
  const absl::uint128 m = gmask(n);
  absl::uint128 lo = choice_bits(n, "lo"), hi = choice_bits(n, "hi"); if (lo > hi) { symx_stop(); return; }
  auto g = make_mic(n, {{lo, hi}}, wide != 0);
  const absl::uint128 rin = choice_bits(n, "r_in"), real = choice_bits(n, "x");
  const absl::uint128 rout = sym_bits128(n, "r_out"), x = (real + rin) & m;
  if (seeds) symx_rand_fixed = 3;
  auto k = g->Gen(rin, {rout}); CHECK_PROP(k.ok(), "Gen succeeds"); if (!k.ok()) return;
  auto a = g->Eval(k->first, x), b = g->Eval(k->second, x);
  CHECK_PROP(a.ok() && b.ok(), "Eval succeeds"); if (!a.ok() || !b.ok()) return;
  CHECK_PROP(a->size() == 1 && b->size() == 1, "one output per interval");
  const absl::uint128 s = ((*a)[0] + (*b)[0] - rout) & m, want = real >= lo && real <= hi ? 1 : 0;
  observe(s, "sum"); symx_reach(want != 0 ? "inside" : "outside");
  CHECK_PROP(symx_eq(&s, &want, 16), "shares sum to the indicator of the interval plus the output mask");
  CHECK_PROP((*a)[0] <= m && (*b)[0] <= m, "shares are group elements");
}
// Larger groups, several intervals, batches of two keys; boundary inputs; fixed key seeds.
extern "C" void mic_big(int n, int set) {
  const absl::uint128 m = gmask(n);
  std::vector<std::pair<absl::uint128, absl::uint128>> iv;
  const absl::uint128 mid = m >> 1;
  switch (set) {
    case 0: iv = {{0, m}, {0, 0}, {m, m}}; break;
    case 1: iv = {{1, mid}, {mid, mid}, {mid + 1, m - 1}, {1, mid}}; break;
    default: iv = {{m / 3, m / 5 * 4}, {0, mid}}; break;
  }
  auto g = make_mic(n, iv, true);
  symx_rand_fixed = 3;
  const absl::uint128 rins[] = {0, 1, m, mid, mid + 1, m / 7 * 3};
  const auto& t = iv[symx_choice(iv.size(), "target")];
  const absl::uint128 rin = rins[symx_choice(6, "r_in")];
  absl::uint128 reals[] = {t.first, t.second, t.first - 1, t.second + 1, 0, m};
  const absl::uint128 real = reals[symx_choice(6, "x")] & m, x = (real + rin) & m;
  std::vector<absl::uint128> rout; for (size_t i = 0; i < iv.size(); ++i) rout.push_back(sym_bits128(n, "r_out"));
  auto k = g->Gen(rin, rout), k2 = (symx_rand_fixed = 3, g->Gen((rin + 5) & m, rout)); CHECK_PROP(k.ok() && k2.ok(), "Gen succeeds"); if (!k.ok() || !k2.ok()) return;
  std::vector<MicKey> ka = {k->first, k2->first}, kb = {k->second, k2->second}; std::vector<absl::uint128> xs = {x, (real + rin + 5) & m};
  auto a = g->BatchEval(ka, xs), b = g->BatchEval(kb, xs);
  CHECK_PROP(a.ok() && b.ok(), "BatchEval succeeds"); if (!a.ok() || !b.ok()) return;
  CHECK_PROP(a->size() == 2 * iv.size() && b->size() == 2 * iv.size(), "one output per key and interval");
  for (size_t q = 0; q < 2 * iv.size(); ++q) {
    const size_t i = q % iv.size();
    const absl::uint128 s = ((*a)[q] + (*b)[q] - rout[i]) & m, want = real >= iv[i].first && real <= iv[i].second ? 1 : 0;
    symx_reach(want != 0 ? "inside" : "outside");
    CHECK_PROP(symx_eq(&s, &want, 16), "shares sum to the indicator of the interval plus the output mask");
  }
  if (&t == &iv[0]) {   // a batch may hold keys of both parties
    std::vector<MicKey> kc = {ka[0], kb[0], kb[1]}; std::vector<absl::uint128> xc = {xs[0], xs[0], xs[1]};
    auto c = g->BatchEval(kc, xc);
    CHECK_PROP(c.ok() && c->size() == 3 * iv.size(), "BatchEval succeeds"); if (!c.ok() || c->size() != 3 * iv.size()) return;
    for (size_t q = 0; q < iv.size(); ++q) {
      CHECK_PROP(symx_eq(&(*c)[q], &(*a)[q], 16) && symx_eq(&(*c)[q + iv.size()], &(*b)[q], 16) && symx_eq(&(*c)[q + 2 * iv.size()], &(*b)[q + iv.size()], 16), "each key of a mixed batch is evaluated for its own party");
    }
  }
  observe((*a)[0], "share");
}
extern "C" void mic_params(int count) {
  MicParameters p; const int ns[] = {-1, 0, 1, 5, 64, 127, 128}; const int n = ns[symx_choice(7, "n")]; p.set_log_group_size(n);
  bool ok = n >= 1 && n <= 127;
  for (int i = 0; i < count; ++i) {
    auto* v = p.add_intervals(); absl::uint128 b[2] = {0, 0}; bool have[2];
    for (int j = 0; j < 2; ++j) {
      Value::Integer w; const auto k = symx_choice(3, "kind"); have[j] = k != 0;
      if (k == 1) { uint64_t x = symx_bits(64, "b"); w.set_value_uint64(x); b[j] = x; }
      if (k == 2) { uint64_t h = symx_bits(64, "h"), l = symx_bits(64, "l"); w.mutable_value_uint128()->set_high(h); w.mutable_value_uint128()->set_low(l); b[j] = u128(h, l); }
      if (k) { if (j) *v->mutable_upper_bound() = w; else *v->mutable_lower_bound() = w; }
    }
    if (!have[0] || !have[1]) { ok = false; continue; }
    if (n < 0 || n > 127 || (b[0] >> n) != 0 || (b[1] >> n) != 0 || b[0] > b[1]) ok = false;
  }
  auto g = MultipleIntervalContainmentGate::Create(p);
  CHECK_PROP(g.ok() == ok, "the gate accepts exactly valid parameters"); symx_reach(g.ok() ? "accepted" : "refused");
}
// C10/C12: masks and points outside the group, wrong counts, malformed keys.
extern "C" void mic_refuse(int n) {
  auto g = make_mic(n, {{0, 1}, {1, gmask(n)}}, false);
  symx_rand_fixed = 1;
  absl::uint128 rin, r0, r1; symx_make(&rin, 16, "r_in"); symx_make(&r0, 16, "r0"); symx_make(&r1, 16, "r1");
  const auto cnt = symx_choice(4, "masks"); std::vector<absl::uint128> ro = {r0, r1, 0}; ro.resize(cnt);
  bool ok = cnt == 2 && (rin >> n) == 0 && (cnt < 1 || (r0 >> n) == 0) && (cnt < 2 || (r1 >> n) == 0);
  if (!ok) { CHECK_PROP(g->Gen(rin, ro).status().code() == absl::StatusCode::kInvalidArgument, "invalid masks are refused"); symx_reach("masks"); return; }
  auto k = g->Gen(1, {r0, r1}); CHECK_PROP(k.ok(), "Gen succeeds"); if (!k.ok()) return;
  std::vector<MicKey> ks(symx_choice(3, "nkeys"), k->first); std::vector<absl::uint128> xs(symx_choice(3, "npoints"), 1);
  bool bad = ks.size() != xs.size();
  if (!xs.empty() && symx_choice(2, "far")) { symx_make(&xs.back(), 16, "x"); symx_assume((xs.back() >> n) != 0); bad = true; }
  if (!ks.empty()) switch (symx_choice(8, "spoil")) {
    case 0: break;
    case 1: ks.back().clear_dcfkey(); bad = true; break;
    case 2: ks.back().mutable_output_mask_share()->RemoveLast(); bad = true; break;
    case 3: ks.back().clear_output_mask_share(); bad = true; break;
    case 4: ks.back().add_output_mask_share(); bad = true; break;
    case 5: ks.back().mutable_dcfkey()->mutable_key()->clear_seed(); bad = true; break;
    case 6: ks.back().mutable_dcfkey()->mutable_key()->clear_correction_words(); bad = bad || n > 1; break;
    case 7: ks.back().mutable_dcfkey()->mutable_key()->clear_last_level_value_correction(); bad = true; break;
  }
  auto r = g->BatchEval(ks, xs);
  CHECK_PROP(r.ok() == !bad, "malformed keys and points are refused"); symx_reach(r.ok() ? "result" : "error");
  if (r.ok()) CHECK_PROP(r->size() == 2 * ks.size(), "one output per key and interval");
}
extern "C" void mic_no_intervals(int n) {
  auto g = make_mic(n, {}, false); symx_rand_fixed = 1;
  auto k = g->Gen(symx_bits(n, "r"), {}); CHECK_PROP(k.ok(), "Gen succeeds without intervals"); if (!k.ok()) return;
  auto r = g->Eval(k->first, symx_bits(n, "x")); CHECK_PROP(r.ok() && r->empty(), "no intervals, no outputs"); symx_reach("none");
}
