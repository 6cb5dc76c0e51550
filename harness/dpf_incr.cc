// Incremental DPFs: correctness at every level (C02), history independence of
// the stateful evaluator (C03), agreement of all evaluators (C04).
#include "keys.h"
using namespace distributed_point_functions;

// ---- C02: two-party correctness at hierarchy level l, by three evaluators ----
template <size_t I, class Tup, class L> static void level_check(const L& lv, DistributedPointFunction& d, const std::pair<DpfKey, DpfKey>& keys, uint64_t alpha, const Tup& betas, int how) {
  using T = std::decay_t<decltype(std::get<I>(betas))>;
  const int D = lv.dom.back(), dl = lv.dom[I];
  const uint64_t prefix = alpha >> (D - dl), n = uint64_t{1} << dl;
  std::vector<T> r[2];
  std::vector<absl::uint128> xs;
  if (how == 0) xs.push_back(choice_bits(dl, "x"));
  else if (how != 2) { xs = {(prefix ^ 1) & (n - 1), prefix, prefix ^ (n >> 1), (prefix * 5 + 3) & (n - 1), (prefix + 2) & (n - 1)}; xs.resize(1 + symx_choice(5, "count")); }
  else for (uint64_t i = 0; i < n; ++i) xs.push_back(i);
  for (int p = 0; p < 2; ++p) {
    const DpfKey& k = p ? keys.second : keys.first;
    absl::StatusOr<std::vector<T>> o = absl::InternalError("");
    if (how <= 1) o = d.template EvaluateAt<T>(k, I, xs);
    else { auto c = d.CreateEvaluationContext(k); CHECK_PROP(c.ok(), "CreateEvaluationContext succeeds"); if (!c.ok()) return;
      if (how == 2) o = d.template EvaluateUntil<T>(I, {}, *c); else o = d.template EvaluateAt<T>(I, xs, *c); }
    CHECK_PROP(o.ok(), "evaluation succeeds"); if (!o.ok()) return;
    r[p] = *std::move(o);
  }
  CHECK_PROP(r[0].size() == xs.size() && r[1].size() == xs.size(), "one output per point");
  for (size_t i = 0; i < xs.size(); ++i) {
    T s = V<T>::add(r[0][i], r[1][i]);
    if (xs[i] == prefix) { symx_reach("at"); V<T>::obs(s, "sum"); CHECK_PROP(V<T>::eq(s, std::get<I>(betas)), "shares sum to beta at the prefix of alpha"); }
    else { symx_reach("off"); CHECK_PROP(V<T>::eq(s, V<T>::zero()), "shares sum to zero off the prefix of alpha"); }
  }
}
template <class... T, size_t... I> static void incr_i(const Levels<T...>& lv, int how, std::index_sequence<I...>) {
  auto d = lv.create();
  const uint64_t alpha = choice_bits(lv.dom.back(), "alpha");
  std::tuple<T...> betas{V<T>::make("beta")...};
  auto keys = d->GenerateKeysIncremental(alpha, T(std::get<I>(betas))...);
  CHECK_PROP(keys.ok(), "GenerateKeysIncremental succeeds"); if (!keys.ok()) return;
  const uint64_t l = symx_choice(sizeof...(T), "level");
  (void)std::initializer_list<int>{(l == I ? (level_check<I>(lv, *d, *keys, alpha, betas, how), 0) : 0)...};
}
template <class... T> static void incr(std::vector<int> dom, int how) { incr_i(Levels<T...>{dom}, how, std::index_sequence_for<T...>()); }
using M32 = IntModN<uint32_t, 4294967291u>;
using TM = Tuple<M32, M32>;
using TX = Tuple<uint8_t, XorWrapper<uint16_t>>;
// XOR groups keep pseudorandom control bits out of the control flow, so that
// long histories stay cheap; the packing (elements per block) is that of the width.
using X8 = XorWrapper<uint8_t>; using X16 = XorWrapper<uint16_t>; using X32 = XorWrapper<uint32_t>; using X64 = XorWrapper<uint64_t>; using X128 = XorWrapper<absl::uint128>;
template <class F> static void with_cfg(int c, F f) {
  switch (c) {
    case 0: f(Levels<uint64_t, uint64_t>{{1, 3}}); break;
    case 1: f(Levels<uint8_t, uint8_t>{{2, 5}}); break;             // both packed, second level inside few blocks
    case 2: f(Levels<X8, X128, X32>{{1, 2, 4}}); break;
    case 3: f(Levels<X32, X32, X32>{{0, 2, 3}}); break;
    case 4: f(Levels<TX, M32>{{1, 2}}); break;
    case 5: f(Levels<X128, X8>{{2, 4}}); break;
    case 6: f(Levels<X16, X8, X8, X64>{{0, 1, 2, 4}}); break;
    case 7: f(Levels<TM, uint64_t>{{1, 3}}); break;
    case 8: f(Levels<absl::uint128, absl::uint128>{{1, 2}}); break;
    case 9: f(Levels<uint64_t>{{3}}); break;
    case 10: f(Levels<X16, X16, X16>{{2, 3, 5}}); break;
    case 11: f(Levels<uint32_t, uint8_t>{{2, 3}}); break;
    case 12: f(Levels<X64, X32, X8>{{2, 3, 6}}); break;
    case 13: f(Levels<X8, X8, X8>{{0, 4, 5}}); break;
    default: symx_fatal("configuration");
  }
}
extern "C" void incr_correct(int cfg, int how) {
  switch (cfg) {
    case 0: incr<uint64_t, uint64_t>({1, 3}, how); break;
    case 1: incr<uint8_t, uint8_t>({2, 5}, how); break;
    case 2: incr<uint8_t, X128, uint32_t>({1, 2, 3}, how); break;
    case 3: incr<uint32_t, uint32_t, uint32_t>({0, 2, 3}, how); break;
    case 4: incr<TX, M32>({1, 3}, how); break;
    case 5: incr<XorWrapper<absl::uint128>, XorWrapper<uint8_t>>({2, 4}, how); break;
    case 6: incr<uint16_t, X8, uint8_t, X64>({0, 1, 2, 4}, how); break;
    case 7: incr<TM, uint64_t>({1, 3}, how); break;
    case 8: incr<absl::uint128, absl::uint128>({0, 1}, how); break;
    case 10: incr<uint16_t, uint16_t, uint16_t>({2, 3, 5}, how); break;
    case 11: incr<uint32_t, uint8_t>({2, 3}, how); break;
    default: symx_fatal("configuration");
  }
}

// ---- C02, deep: one concrete seed, symbolic betas. Hierarchies with gaps of
// 64 and more levels, packed types at inner levels, sparse prefixes. ----
static absl::uint128 deep_alpha(int p, int n) {
  const absl::uint128 full = n >= 128 ? absl::Uint128Max() : (absl::uint128{1} << n) - 1;
  const absl::uint128 v = p == 0 ? u128(0xA5A5A5A55A5A5A5Aull, 0xC3A5F00F12345678ull) : p == 1 ? u128(0x0123456789ABCDEFull, 0x8000000000000001ull) : p == 2 ? full : absl::uint128(0);
  return v & full;
}
template <size_t I, class Tup, class L> static void deep_check(const L& lv, DistributedPointFunction& d, const std::pair<DpfKey, DpfKey>& keys, absl::uint128 alpha, const Tup& betas, int how) {
  using T = std::decay_t<decltype(std::get<I>(betas))>;
  const int D = lv.dom.back(), dl = lv.dom[I];
  auto shr = [](absl::uint128 v, int s) { return s >= 128 ? absl::uint128(0) : v >> s; };
  const absl::uint128 prefix = shr(alpha, D - dl);
  // candidate points: the prefix itself and the prefix with one bit flipped, at
  // the positions where block, level and 64-bit boundaries lie
  std::vector<absl::uint128> xs = {prefix};
  for (int k = 0; k < dl; ++k) {
    bool near = k < 5 || k >= dl - 2 || k % 13 == 6 || (k >= 62 && k <= 65);
    for (int b : lv.dom) if (b < dl && (k - (dl - b) <= 1 && k - (dl - b) >= -2)) near = true;
    if (near) xs.push_back(prefix ^ (absl::uint128{1} << k));
  }
  std::vector<T> r[2];
  for (int p = 0; p < 2; ++p) {
    const DpfKey& k = p ? keys.second : keys.first;
    if (how == 0) {
      auto o = d.template EvaluateAt<T>(k, I, xs);
      CHECK_PROP(o.ok(), "evaluation succeeds"); if (!o.ok()) return;
      r[p] = *std::move(o);
    } else {    // expand the previous level's prefixes with the context
      auto c = d.CreateEvaluationContext(k); CHECK_PROP(c.ok(), "CreateEvaluationContext succeeds"); if (!c.ok()) return;
      if constexpr (I > 0) {
        using S = std::decay_t<decltype(std::get<I - 1>(betas))>;
        std::vector<absl::uint128> ps = {shr(prefix, dl - lv.dom[I - 1])};
        for (auto x : xs) { auto q = shr(x, dl - lv.dom[I - 1]); if (std::find(ps.begin(), ps.end(), q) == ps.end()) ps.push_back(q); }
        auto s = d.template EvaluateAt<S>(I - 1, ps, *c); CHECK_PROP(s.ok(), "evaluation succeeds"); if (!s.ok()) return;
      }
      auto o = d.template EvaluateAt<T>(I, xs, *c);
      CHECK_PROP(o.ok(), "evaluation succeeds"); if (!o.ok()) return;
      r[p] = *std::move(o);
    }
  }
  CHECK_PROP(r[0].size() == xs.size() && r[1].size() == xs.size(), "one output per point");
  for (size_t i = 0; i < xs.size(); ++i) {
    T s = V<T>::add(r[0][i], r[1][i]);
    if (xs[i] == prefix) { symx_reach("at"); V<T>::obs(s, "sum"); CHECK_PROP(V<T>::eq(s, std::get<I>(betas)), "shares sum to beta at the prefix of alpha"); }
    else { symx_reach("off"); CHECK_PROP(V<T>::eq(s, V<T>::zero()), "shares sum to zero off the prefix of alpha"); }
  }
}
template <class... T, size_t... I> static void deep_i(const Levels<T...>& lv, int how, std::index_sequence<I...>) {
  symx_rand_fixed = 1;
  auto d = lv.create();
  const absl::uint128 alpha = deep_alpha(static_cast<int>(symx_choice(4, "alpha")), lv.dom.back());
  std::tuple<T...> betas{V<T>::make("beta")...};
  auto keys = d->GenerateKeysIncremental(alpha, T(std::get<I>(betas))...);
  CHECK_PROP(keys.ok(), "GenerateKeysIncremental succeeds"); if (!keys.ok()) return;
  const uint64_t l = symx_choice(sizeof...(T), "level");
  (void)std::initializer_list<int>{(l == I ? (deep_check<I>(lv, *d, *keys, alpha, betas, how), 0) : 0)...};
}
template <class... T> static void deep(std::vector<int> dom, int how) { deep_i(Levels<T...>{dom}, how, std::index_sequence_for<T...>()); }
extern "C" void incr_deep(int cfg, int how) {
  switch (cfg) {
    case 0: deep<uint8_t, uint8_t, uint8_t>({1, 66, 100}, how); break;
    case 1: deep<uint8_t, uint32_t, X8, uint64_t>({3, 40, 80, 120}, how); break;
    case 2: deep<uint16_t, uint16_t>({64, 128}, how); break;
    case 3: deep<uint32_t, absl::uint128>({5, 127}, how); break;
    case 4: deep<uint64_t, TX>({63, 70}, how); break;
    case 5: deep<uint64_t, uint64_t, uint64_t, uint64_t>({10, 11, 74, 128}, how); break;
    default: symx_fatal("configuration");
  }
}
// Full expansion of larger domains from one concrete seed.
template <class A, class B> static void full(int first, int n, int step) {
  symx_rand_fixed = 1;
  Levels<A, B> lv{{first, n}};
  auto d = lv.create();
  const absl::uint128 alpha = deep_alpha(static_cast<int>(symx_choice(2, "alpha")), n);
  A b0 = V<A>::make("beta"); B b1 = V<B>::make("beta");
  auto keys = d->GenerateKeysIncremental(alpha, A(b0), B(b1));
  CHECK_PROP(keys.ok(), "GenerateKeysIncremental succeeds"); if (!keys.ok()) return;
  std::vector<B> r[2];
  std::vector<absl::uint128> prefixes;
  const int two = step ? 1 : 0;
  if (two) for (uint64_t i = 0; i < (uint64_t{1} << first); i += step) prefixes.push_back(i ^ uint64_t(absl::Uint128Low64(alpha >> (n - first))));
  for (int p = 0; p < 2; ++p) {
    auto c = d->CreateEvaluationContext(p ? keys->second : keys->first); CHECK_PROP(c.ok(), "CreateEvaluationContext succeeds"); if (!c.ok()) return;
    if (two) { auto o = d->template EvaluateUntil<A>(0, {}, *c); CHECK_PROP(o.ok() && o->size() == (size_t{1} << first), "evaluation succeeds"); if (!o.ok()) return; }
    auto o = d->template EvaluateUntil<B>(1, prefixes, *c); CHECK_PROP(o.ok(), "evaluation succeeds"); if (!o.ok()) return;
    r[p] = *std::move(o);
  }
  const size_t per = size_t{1} << (n - first), want = two ? prefixes.size() * per : size_t{1} << n;
  CHECK_PROP(r[0].size() == want && r[1].size() == want, "one output per point");
  if (r[0].size() != want || r[1].size() != want) return;
  for (size_t i = 0; i < want; ++i) {
    const absl::uint128 x = two ? (prefixes[i / per] << (n - first)) + i % per : absl::uint128(i);
    B s = V<B>::add(r[0][i], r[1][i]);
    if (x == alpha) { symx_reach("at"); CHECK_PROP(V<B>::eq(s, b1), "shares sum to beta at alpha"); }
    else CHECK_PROP(V<B>::eq(s, V<B>::zero()), "shares sum to zero away from alpha");
  }
}
extern "C" void incr_full(int cfg, int step) {
  switch (cfg) {
    case 0: full<absl::uint128, absl::uint128>(2, 8, step); break;
    case 1: full<uint64_t, uint64_t>(7, 10, step); break;
    case 2: full<uint8_t, uint8_t>(6, 11, step); break;
    case 3: full<X32, uint32_t>(8, 9, step); break;
    default: symx_fatal("configuration");
  }
}

// ---- C03 ----
template <class L> static void history(const L& lv, int first) {
  constexpr int N = L::kNum;
  auto dp = lv.create(); auto& d = *dp;
  const int party = static_cast<int>(symx_choice(2, "party"));
  const DpfKey key = lv.key(d, party);
  auto ctx = d.CreateEvaluationContext(key);
  CHECK_PROP(ctx.ok(), "CreateEvaluationContext succeeds"); if (!ctx.ok()) return;
  std::vector<absl::uint128> known; int cur = -1;   // points evaluated at level cur
  for (int step = 0; cur < N - 1; ++step) {
    const int l = cur + 1 + static_cast<int>(symx_choice(N - 1 - cur, "skip"));
    const int how = static_cast<int>(symx_choice(l == cur + 1 ? 3 : 2, "how"));   // 0 EvaluateUntil 1 EvaluateAt(ctx) 2 EvaluateNext
    const int dl = lv.dom[l], dc = cur < 0 ? 0 : lv.dom[cur];
    const uint64_t gap = uint64_t{1} << (dl - dc);
    std::vector<absl::uint128> pre;
    if (cur >= 0) {
      const size_t k = known.size();
      switch (symx_choice(first ? 2 : 5, "prefixes")) {
        case 0: pre = known; break;
        case 1: pre = {known[k - 1], known[0]}; break;
        case 2: for (size_t i = 0; i < k; ++i) pre.push_back(known[k - 1 - i]); break;
        case 3: pre = {known[k / 2]}; break;
        case 4: pre = {known[k / 3], known[k - 1], known[k / 3]}; break;
      }
    }
    std::vector<absl::uint128> pts;
    if (cur < 0) for (uint64_t i = 0; i < gap; ++i) pts.push_back(i);
    else for (auto p : pre) for (uint64_t i = 0; i < gap; ++i) pts.push_back((p << (dl - dc)) | i);
    if (how == 1) { // a few extensions in an unsorted order
      std::vector<absl::uint128> q; for (size_t i = 0; i < pts.size() && i < 3; ++i) q.push_back(pts[(i * 5 + 3) % pts.size()]);
      pts = q;
    }
    L::at(l, [&](auto* tag) {
      using T = std::decay_t<decltype(*tag)>;
      auto o = how == 0 ? d.template EvaluateUntil<T>(l, pre, *ctx) : how == 1 ? d.template EvaluateAt<T>(l, pts, *ctx) : d.template EvaluateNext<T>(pre, *ctx);
      CHECK_PROP(o.ok(), "stateful evaluation succeeds"); if (!o.ok()) symx_stop();
      CHECK_PROP(o->size() == pts.size(), "one output per extension of each prefix"); if (o->size() != pts.size()) symx_stop();
      for (size_t i = 0; i < pts.size(); ++i) {
        auto r = d.template EvaluateAt<T>(key, l, absl::MakeConstSpan(&pts[i], 1));
        CHECK_PROP(r.ok() && r->size() == 1, "EvaluateAt succeeds"); if (!r.ok()) symx_stop();
        CHECK_PROP(V<T>::eq((*o)[i], (*r)[0]), "stateful result equals stateless result");
      }
      V<T>::obs((*o)[0], "first");
    });
    CHECK_PROP(ctx->previous_hierarchy_level() == l, "context records the evaluated level");
    symx_reach(how == 1 ? "at" : "until");
    // a level already evaluated is refused (on a copy: contents after an error are unspecified)
    if (l == N - 1 || step == 0) {
      EvaluationContext c2 = *ctx;
      L::at(l, [&](auto* tag) { using T = std::decay_t<decltype(*tag)>; auto o = d.template EvaluateUntil<T>(l, absl::MakeConstSpan(pts).subspan(0, 1), c2); CHECK_PROP(!o.ok(), "an evaluated level is refused"); });
    }
    // duplicates may be passed again; remember the distinct points in order of appearance
    known.clear(); for (auto p : pts) if (std::find(known.begin(), known.end(), p) == known.end()) known.push_back(p);
    cur = l;
  }
  symx_reach("complete");
}
extern "C" void incr_history(int cfg, int few) { with_cfg(cfg, [&](auto lv) { history(lv, few); }); }

// Histories over large domains with gaps of up to 128 levels: generated keys
// (fixed randomness, symbolic betas), points given explicitly.
template <class... T, size_t... I> static void hist_deep_i(const Levels<T...>& lv, std::index_sequence<I...>) {
  using L = Levels<T...>; constexpr int N = L::kNum;
  symx_rand_fixed = 1;
  auto dp = lv.create(); auto& d = *dp;
  const absl::uint128 alpha = deep_alpha(static_cast<int>(symx_choice(3, "alpha")), lv.dom.back());
  std::tuple<T...> betas{V<T>::make("beta")...};
  auto keys = d.GenerateKeysIncremental(alpha, T(std::get<I>(betas))...);
  CHECK_PROP(keys.ok(), "GenerateKeysIncremental succeeds"); if (!keys.ok()) return;
  const DpfKey key = symx_choice(2, "party") ? keys->second : keys->first;
  auto ctx = d.CreateEvaluationContext(key);
  CHECK_PROP(ctx.ok(), "CreateEvaluationContext succeeds"); if (!ctx.ok()) return;
  auto shr = [](absl::uint128 v, int s) { return s >= 128 ? absl::uint128(0) : v >> s; };
  const int D = lv.dom.back();
  // points of the last level; every earlier level is evaluated at their prefixes
  std::vector<absl::uint128> last = {alpha, alpha ^ 1, alpha ^ (absl::uint128{1} << (D - 1)), alpha ^ (absl::uint128{1} << (D / 2)), alpha};
  for (int cur = -1; cur < N - 1;) {
    const int l = cur + 1 + static_cast<int>(symx_choice(N - 1 - cur, "skip"));
    const int dl = lv.dom[l], dc = cur < 0 ? 0 : lv.dom[cur];
    std::vector<absl::uint128> pre, pts;
    const int how = dl - dc <= 3 ? static_cast<int>(symx_choice(2, "how")) : 1;
    if (how == 0) {
      if (cur >= 0) for (auto x : last) pre.push_back(shr(x, D - dc));
      const uint64_t gap = uint64_t{1} << (dl - dc);
      if (cur < 0) for (uint64_t i = 0; i < gap; ++i) pts.push_back(i);
      else for (auto p : pre) for (uint64_t i = 0; i < gap; ++i) pts.push_back((p << (dl - dc)) | i);
    } else for (auto x : last) pts.push_back(shr(x, D - dl));
    L::at(l, [&](auto* tag) {
      using U = std::decay_t<decltype(*tag)>;
      auto o = how == 0 ? d.template EvaluateUntil<U>(l, pre, *ctx) : d.template EvaluateAt<U>(l, pts, *ctx);
      CHECK_PROP(o.ok(), "stateful evaluation succeeds"); if (!o.ok()) symx_stop();
      CHECK_PROP(o->size() == pts.size(), "one output per extension of each prefix"); if (o->size() != pts.size()) symx_stop();
      for (size_t i = 0; i < pts.size(); ++i) {
        auto r = d.template EvaluateAt<U>(key, l, absl::MakeConstSpan(&pts[i], 1));
        CHECK_PROP(r.ok() && r->size() == 1, "EvaluateAt succeeds"); if (!r.ok()) symx_stop();
        CHECK_PROP(V<U>::eq((*o)[i], (*r)[0]), "stateful result equals stateless result");
      }
    });
    symx_reach(how == 1 ? "at" : "until");
    cur = l;
  }
  symx_reach("complete");
}
template <class... T> static void hist_deep(std::vector<int> dom) { hist_deep_i(Levels<T...>{dom}, std::index_sequence_for<T...>()); }
extern "C" void incr_hist_deep(int cfg) {
  switch (cfg) {
    case 0: hist_deep<uint8_t, uint8_t, uint8_t>({1, 66, 68}); break;
    case 1: hist_deep<uint64_t, X8, uint64_t>({0, 64, 128}); break;
    case 2: hist_deep<uint32_t, absl::uint128, uint32_t>({2, 4, 127}); break;
    case 3: hist_deep<X16, TX, uint64_t>({3, 40, 120}); break;
    default: symx_fatal("configuration");
  }
}

// ---- C04 ----
template <class T> static void apply(std::vector<int> dom, int maxkeys, int rsmax) {
  Levels<T> lv1{{dom.back()}};
  std::vector<dpf::DpfParameters> ps(dom.size());
  for (size_t i = 0; i < dom.size(); ++i) { ps[i].set_log_domain_size(dom[i]); *ps[i].mutable_value_type() = dpf::ToValueType<T>(); }
  auto dp = DistributedPointFunction::CreateIncremental(ps);
  CHECK_PROP(dp.ok(), "CreateIncremental accepts valid parameters"); if (!dp.ok()) return;
  auto& d = **dp;
  bool reg = d.template RegisterValueType<T>().ok(); CHECK_PROP(reg, "RegisterValueType succeeds");
  const int nk = 1 + static_cast<int>(symx_choice(maxkeys, "keys"));
  const int rs = static_cast<int>(symx_choice(rsmax + 1, "rightshift"));
  const int stop = static_cast<int>(symx_choice(dom.size() + 1, "stop"));   // level at which op asks to stop
  const int pat = static_cast<int>(symx_choice(4, "points"));
  const int n = dom.back();
  std::vector<DpfKey> keys(nk);
  for (int i = 0; i < nk; ++i) {
    int save = symx_rand_fixed; symx_rand_fixed = 1;
    std::vector<dpf::Value> b(dom.size(), *d.ToValue(V<T>::zero()));
    auto k = d.GenerateKeysIncremental(0, b);
    symx_rand_fixed = save;
    CHECK_PROP(k.ok(), "GenerateKeysIncremental succeeds"); if (!k.ok()) return;
    keys[i] = ((i * 7 + pat) / 2) % 2 ? k->second : k->first;
    km_key(&keys[i], std::vector<dpf::ValueType>(dom.size(), dpf::ToValueType<T>()));
  }
  std::vector<absl::uint128> pts(nk);
  const absl::uint128 mask = n + rs >= 128 ? ~absl::uint128{0} : (absl::uint128{1} << (n + rs)) - 1;
  for (int i = 0; i < nk; ++i) {
    absl::uint128 v = pat == 0 ? absl::uint128(i) : pat == 1 ? ~absl::uint128{0} - i : pat == 2 ? u128(0x5a5a3c3c96960ff1ull * (i + 1), 0x9e3779b97f4a7c15ull * (i + 3)) : u128(0x8000000000000001ull ^ (uint64_t{1} << (i * 9)), 0x6000000000000003ull * (2 * i + 1));
    pts[i] = v & mask;
  }
  std::vector<const DpfKey*> ptr; for (auto& k : keys) ptr.push_back(&k);
  int level = 0;
  auto op = [&](absl::Span<const T> values) -> bool {
    CHECK_PROP(values.size() == static_cast<size_t>(nk), "one value per key at every level");
    CHECK_PROP(level < static_cast<int>(dom.size()), "one call per hierarchy level");
    for (int i = 0; i < nk && i < static_cast<int>(values.size()); ++i) {
      const int sh = rs + n - dom[level];
      absl::uint128 x = sh >= 128 ? absl::uint128(0) : pts[i] >> sh;
      auto r = d.template EvaluateAt<T>(keys[i], level, absl::MakeConstSpan(&x, 1));
      CHECK_PROP(r.ok() && r->size() == 1, "EvaluateAt succeeds"); if (!r.ok()) symx_stop();
      CHECK_PROP(V<T>::eq(values[i], (*r)[0]), "fused evaluation equals single evaluation");
    }
    if (!values.empty()) V<T>::obs(values[0], "first");
    return level++ != stop;
  };
  absl::Status s;
  if (pat & 1) s = d.template EvaluateAndApply<T>(absl::MakeConstSpan(ptr), pts, op, rs);
  else s = d.template EvaluateAndApply<T>(keys, pts, op, rs);
  CHECK_PROP(s.ok(), "EvaluateAndApply succeeds");
  CHECK_PROP(level == (stop < static_cast<int>(dom.size()) ? stop + 1 : static_cast<int>(dom.size())), "op is called once per level until it asks to stop");
  symx_reach(stop < static_cast<int>(dom.size()) - 1 ? "stopped" : "complete");
  pts.push_back(0);
  s = d.template EvaluateAndApply<T>(keys, pts, op, rs);
  CHECK_PROP(s.code() == absl::StatusCode::kInvalidArgument, "mismatched number of points is refused");
}
extern "C" void apply_all(int cfg, int maxkeys) {
  switch (cfg) {
    case 0: apply<uint64_t>({3}, maxkeys, 2); break;
    case 1: apply<X8>({2, 5}, maxkeys, 2); break;
    case 2: apply<X32>({0, 2, 3}, maxkeys, 2); break;
    case 3: apply<X128>({1, 3}, maxkeys, 1); break;
    case 4: apply<M32>({1, 3}, maxkeys, 2); break;
    case 5: apply<TX>({0, 1, 3}, maxkeys, 1); break;
    case 6: apply<X16>({1, 2, 3, 5}, maxkeys, 2); break;
    case 7: apply<X64>({7, 20}, maxkeys, 2); break;
    case 8: apply<uint8_t>({4, 6}, maxkeys, 1); break;
    case 9: apply<X32>({60, 127}, maxkeys, 1); break;
    case 10: apply<X64>({128}, maxkeys, 0); break;
    case 11: apply<X64>({0}, maxkeys, 1); break;
    default: symx_fatal("configuration");
  }
}
// A batch of points equals one call per point, with and without a context.
template <class L> static void batch(const L& lv, int maxn) {
  auto dp = lv.create(); auto& d = *dp;
  const DpfKey key = lv.key(d, static_cast<int>(symx_choice(2, "party")));
  const int l = static_cast<int>(symx_choice(L::kNum, "level"));
  const int cnt = static_cast<int>(symx_choice(maxn + 1, "count")), pat = static_cast<int>(symx_choice(3, "points"));
  const uint64_t m = (uint64_t{1} << lv.dom[l]) - 1;
  std::vector<absl::uint128> pts;
  for (int i = 0; i < cnt; ++i) pts.push_back((pat == 0 ? uint64_t(i) : pat == 1 ? m - uint64_t(i / 2) : uint64_t(i * 5 + 3)) & m);
  L::at(l, [&](auto* tag) {
    using T = std::decay_t<decltype(*tag)>;
    auto o = d.template EvaluateAt<T>(key, l, pts);
    auto c = d.CreateEvaluationContext(key); CHECK_PROP(c.ok(), "CreateEvaluationContext succeeds"); if (!c.ok()) return;
    auto oc = d.template EvaluateAt<T>(l, pts, *c);
    CHECK_PROP(o.ok() && oc.ok(), "batch evaluation succeeds"); if (!o.ok() || !oc.ok()) return;
    CHECK_PROP(o->size() == pts.size() && oc->size() == pts.size(), "one output per point");
    if (o->size() != pts.size() || oc->size() != pts.size()) return;
    symx_reach(cnt ? "batch" : "empty");
    for (int i = 0; i < cnt; ++i) {
      auto r = d.template EvaluateAt<T>(key, l, absl::MakeConstSpan(&pts[i], 1));
      CHECK_PROP(r.ok() && r->size() == 1, "EvaluateAt succeeds"); if (!r.ok()) return;
      CHECK_PROP(V<T>::eq((*o)[i], (*r)[0]), "batch value equals single value");
      CHECK_PROP(V<T>::eq((*oc)[i], (*r)[0]), "context value equals single value");
    }
    if (!cnt || pat == 2) return;
    // the same context at the same or an earlier level
    const int l2 = static_cast<int>(symx_choice(l + 1, "again"));
    std::vector<absl::uint128> p2;
    for (auto x : pts) p2.push_back(x >> (lv.dom[l] - lv.dom[l2]));
    L::at(l2, [&](auto* tag2) {
      using U = std::decay_t<decltype(*tag2)>;
      auto o2 = d.template EvaluateAt<U>(l2, p2, *c);
      CHECK_PROP(o2.ok() && o2->size() == p2.size(), "a context can be evaluated at an earlier level"); if (!o2.ok() || o2->size() != p2.size()) return;
      for (int i = 0; i < cnt; ++i) {
        auto r = d.template EvaluateAt<U>(key, l2, absl::MakeConstSpan(&p2[i], 1));
        CHECK_PROP(r.ok() && r->size() == 1, "EvaluateAt succeeds"); if (!r.ok()) return;
        CHECK_PROP(V<U>::eq((*o2)[i], (*r)[0]), "context value at an earlier level equals single value");
      }
    });
  });
}
extern "C" void batch_all(int cfg, int maxn) { with_cfg(cfg, [&](auto lv) { batch(lv, maxn); }); }

// C04: points outside the domain are refused by every evaluator alike.
extern "C" void apply_range(int cfg) {
  with_cfg(cfg, [](auto lv) {
    auto dp = lv.create(); auto& d = *dp;
    const DpfKey a = lv.key(d, 0), b = lv.key(d, 1);
    const int shift = static_cast<int>(symx_choice(3, "shift"));
    const int bits = lv.dom.back() + shift;
    absl::uint128 x; symx_make(&x, 16, "x");
    if (bits < 128) symx_assume((x >> bits) != 0); else { symx_stop(); return; }
    std::vector<absl::uint128> xs = {0, 0}; xs[symx_choice(2, "at")] = x;
    std::vector<DpfKey> ks = {a, b};
    lv.at(lv.kNum - 1, [&](auto* t) {
      using T = std::remove_pointer_t<decltype(t)>;
      int calls = 0;
      auto st = d.template EvaluateAndApply<T>(ks, xs, [&](absl::Span<const T>) { ++calls; return true; }, shift);
      CHECK_PROP(st.code() == absl::StatusCode::kInvalidArgument, "points outside the domain are refused");
      CHECK_PROP(calls == 0, "nothing is delivered for points outside the domain");
      if (shift == 0) {
        CHECK_PROP(d.template EvaluateAt<T>(a, lv.kNum - 1, xs).status().code() == absl::StatusCode::kInvalidArgument, "EvaluateAt refuses points outside the domain");
        auto c = d.CreateEvaluationContext(a);
        CHECK_PROP(c.ok() && d.template EvaluateAt<T>(lv.kNum - 1, xs, *c).status().code() == absl::StatusCode::kInvalidArgument, "EvaluateAt with a context refuses points outside the domain");
      }
      symx_reach("refused");
    });
  });
}
