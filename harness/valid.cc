// C09: parameters, keys and contexts are accepted exactly when valid.
// C10: malformed keys, contexts, values and points give an error, never a crash.
#include <cmath>
#include <limits>
#include "keys.h"
#include "dpf/internal/proto_validator.h"
using namespace distributed_point_functions;
using PV = dpf_internal::ProtoValidator;

// ---- parameters: fully symbolic numbers ----
static bool int_type_ok(int32_t b) { return all_of(b == 1 || b == 2 || b == 4 || b == 8 || b == 16 || b == 32 || b == 64 || b == 128); }
static int32_t sym32(const char* n) { return static_cast<int32_t>(symx_bits(32, n)); }
// Sets a value type of an arbitrary shape; returns whether it is valid.
static bool any_type(ValueType* t, int depth) {
  switch (symx_choice(depth > 0 ? 5 : 4, "kind")) {
    case 0: return false;                                   // unset
    case 1: { int32_t b = sym32("bitsize"); t->mutable_integer()->set_bitsize(b); return int_type_ok(b); }
    case 2: { int32_t b = sym32("bitsize"); t->mutable_xor_wrapper()->set_bitsize(b); return int_type_ok(b); }
    case 3: {
      auto* m = t->mutable_int_mod_n(); int32_t b = sym32("bitsize"); m->mutable_base_integer()->set_bitsize(b);
      bool ok = int_type_ok(b);
      absl::uint128 n = 0; bool have = false;
      switch (symx_choice(3, "modulus")) {
        case 0: break;
        case 1: n = symx_bits(64, "n"); m->mutable_modulus()->set_value_uint64(static_cast<uint64_t>(n)); have = true; break;
        case 2: { uint64_t h = symx_bits(64, "nh"), l = symx_bits(64, "nl"); m->mutable_modulus()->mutable_value_uint128()->set_high(h); m->mutable_modulus()->mutable_value_uint128()->set_low(l); n = u128(h, l); have = true; break; }
      }
      if (!ok) return false;
      if (b == 128) return true;                            // an absent 128-bit modulus is caught when sizes are computed
      return have && n < (absl::uint128{1} << b);
    }
    default: {
      const int n = 1 + static_cast<int>(symx_choice(2, "elements")); bool ok = true;
      for (int i = 0; i < n; ++i) if (!any_type(t->mutable_tuple()->add_elements(), depth - 1)) ok = false;
      return ok;
    }
  }
}
static const double kSec[] = {0.0, -0.0, 40.0, 128.0, 127.99999, 128.0000001, -1e-300, -1.0, 1e300, 5e-324, NAN, INFINITY, -INFINITY};
extern "C" void params_accept(int n, int depth) {
  std::vector<DpfParameters> ps(n);
  bool ok = n > 0; int64_t prev = -1;
  const int special = n ? static_cast<int>(symx_choice(n, "special")) : 0;    // one level has an arbitrary type
  for (int i = 0; i < n; ++i) {
    const int32_t d = sym32("log_domain"); ps[i].set_log_domain_size(d);
    if (d < 0 || d > 128 || static_cast<int64_t>(d) <= prev) ok = false;
    prev = d;
    if (i == special) {
      if (symx_choice(2, "has_type")) { if (!any_type(ps[i].mutable_value_type(), depth)) ok = false; } else ok = false;
      const double s = kSec[symx_choice(13, "security")]; ps[i].set_security_parameter(s);
      if (!(s >= 0 && s <= 128)) ok = false;
    } else *ps[i].mutable_value_type() = ToValueType<uint32_t>();
  }
  const absl::Status st = PV::ValidateParameters(ps);
  CHECK_PROP(st.ok() == ok, "parameters are accepted exactly when valid");
  if (st.ok()) symx_reach("accepted"); else { symx_reach("refused"); CHECK_PROP(st.code() == absl::StatusCode::kInvalidArgument, "invalid parameters give InvalidArgument"); }
}
// ---- creation: hierarchy mapping ----
static const int kDom[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20, 62, 63, 64, 120, 127, 128, -1, 129};
static ValueType pick_type(uint64_t i, int* bits) {
  switch (i) {
    case 0: *bits = 8; return ToValueType<uint8_t>();
    case 1: *bits = 16; return ToValueType<XorWrapper<uint16_t>>();
    case 2: *bits = 32; return ToValueType<uint32_t>();
    case 3: *bits = 64; return ToValueType<uint64_t>();
    case 4: *bits = 128; return ToValueType<absl::uint128>();
    case 5: *bits = 24; return ToValueType<Tuple<uint8_t, uint16_t>>();
    case 6: *bits = 160; return ToValueType<Tuple<uint32_t, absl::uint128>>();
    case 7: *bits = 128; return ToValueType<IntModN<uint32_t, 4294967291u>>();
    default: { ValueType t; t.mutable_integer()->set_bitsize(1); *bits = 1; return t; }
  }
}
extern "C" void params_map(int n, int types) {
  std::vector<DpfParameters> ps(n); std::vector<int> bits(n); bool ok = true; int prev = -1;
  for (int i = 0; i < n; ++i) {
    const int d = kDom[symx_choice(20, "log_domain")]; ps[i].set_log_domain_size(d);
    if (d < 0 || d > 128 || d <= prev) ok = false;
    const auto ty = symx_choice(types, "type");
    if (ty == 7 && d > 58) ok = false;                      // sampling modulo a 32-bit N cannot give 40 + d bits of security
    prev = d; *ps[i].mutable_value_type() = pick_type(ty, &bits[i]);
  }
  auto v = PV::Create(ps);
  CHECK_PROP(v.ok() == ok, "Create accepts exactly the valid parameters");
  auto d = DistributedPointFunction::CreateIncremental(ps);
  CHECK_PROP(d.ok() == ok, "CreateIncremental accepts exactly the valid parameters");
  if (!v.ok() || !d.ok()) { symx_reach("refused"); return; }
  symx_reach("accepted");
  CHECK_PROP(static_cast<int>((*v)->hierarchy_to_tree().size()) == n && static_cast<int>((*v)->parameters().size()) == n && static_cast<int>((*v)->tree_to_hierarchy().size()) == n, "one tree level per hierarchy level");
  int last = -1;
  for (int i = 0; i < n; ++i) {
    const int t = (*v)->hierarchy_to_tree()[i], dom = ps[i].log_domain_size();
    CHECK_PROP(t > last, "tree levels increase strictly");
    CHECK_PROP(t >= 0 && t <= dom, "a tree level lies within the domain");
    // The values of a domain prefix subtree fit one block, and no smaller tree level would do unless taken.
    const int64_t per = int64_t{1} << (dom - t > 40 ? 40 : dom - t);
    CHECK_PROP(per == 1 || per * bits[i] <= 128, "values of one tree leaf fit its block");
    CHECK_PROP(t == 0 || t == last + 1 || 2 * per * bits[i] > 128, "leaves are packed");
    auto it = (*v)->tree_to_hierarchy().find(t);
    CHECK_PROP(it != (*v)->tree_to_hierarchy().end() && it->second == i, "tree_to_hierarchy is the inverse map");
    const DpfParameters& p = (*v)->parameters()[i];
    CHECK_PROP(p.log_domain_size() == dom, "log domain size kept");
    CHECK_PROP(p.security_parameter() == 40.0 + dom, "default security parameter");
    CHECK_PROP((*d)->parameters()[i].log_domain_size() == dom, "parameters getter");
    last = t;
  }
  CHECK_PROP((*v)->tree_levels_needed() == last + 1, "tree height is that of the last level");
}

// ---- keys ----
using X8 = XorWrapper<uint8_t>; using X64 = XorWrapper<uint64_t>; using X128 = XorWrapper<absl::uint128>; using X32 = XorWrapper<uint32_t>;
using M32 = IntModN<uint32_t, 4294967291u>; using TX = Tuple<uint8_t, XorWrapper<uint16_t>>;
template <class F> static void with_cfg(int c, F f) {
  switch (c) {
    case 0: f(Levels<X64>{{2}}); break;
    case 1: f(Levels<X64, X64>{{1, 3}}); break;
    case 2: f(Levels<X8, X32, X128>{{2, 4, 5}}); break;
    case 3: f(Levels<X8>{{3}}); break;                       // a single block: no correction words
    case 4: f(Levels<TX, X128>{{3, 4}}); break;
    case 5: f(Levels<X128, X8>{{1, 3}}); break;
    case 6: f(Levels<uint32_t, M32>{{1, 2}}); break;
    case 7: f(Levels<M32>{{2}}); break;
    case 8: f(Levels<uint8_t, uint64_t>{{2, 3}}); break;
    case 9: f(Levels<X8, X8, X8>{{0, 2, 5}}); break;
    case 10: f(Levels<Tuple<uint8_t, uint16_t, uint32_t>, Tuple<uint32_t, M32>>{{2, 3}}); break;
    default: symx_fatal("configuration");
  }
}
// Tree level (index of the correction word) holding the value correction of level l, by independent computation.
template <class L> static std::vector<int> tree_levels(const L& lv, DistributedPointFunction& d) {
  std::vector<int> r; int next = 0;
  for (size_t i = 0; i < lv.dom.size(); ++i) {
    int bits = *dpf_internal::BitsNeeded(d.parameters()[i].value_type(), d.parameters()[i].security_parameter()), lg = 0;
    while (lg < 7 && (1 << lg) < bits) ++lg;
    int t = lv.dom[i] - 7 + lg; if (t < next) t = next;
    r.push_back(t); next = t + 1;
  }
  return r;
}
extern "C" void key_valid(int cfg) {
  with_cfg(cfg, [](auto lv) {
    auto dp = lv.create(); auto& d = *dp;
    const auto tl = tree_levels(lv, d);
    const DpfKey good = lv.skeleton(d, symx_choice(2, "party"));
    CHECK_PROP(good.correction_words_size() == tl.back(), "generated keys have one correction word per tree level");
    DpfKey k; bool ok = true;
    if (symx_choice(2, "seed")) km_block(k.mutable_seed()); else ok = false;
    k.set_party(sym32("party32"));
    const int ncw = static_cast<int>(symx_choice(tl.back() + 3, "ncw"));
    if (ncw != tl.back()) ok = false;
    std::vector<int> nv(ncw, 0);
    for (int i = 0; i < ncw; ++i) {
      auto* c = k.add_correction_words();
      bool carries = false; int lvl = -1;
      for (size_t j = 0; j + 1 < tl.size(); ++j) if (tl[j] == i) { carries = true; lvl = static_cast<int>(j); }
      nv[i] = carries ? static_cast<int>(symx_choice(3, "corrections")) : 0;
      if (symx_choice(2, "cw_full")) { km_block(c->mutable_seed()); c->set_control_left(km_bit()); }
      for (int j = 0; j < nv[i]; ++j) km_value(c->add_value_correction(), lv.types()[lvl]);
      if (carries && nv[i] == 0) ok = false;
    }
    const int nl = static_cast<int>(symx_choice(3, "last"));
    for (int j = 0; j < nl; ++j) km_value(k.add_last_level_value_correction(), lv.types().back());
    if (nl == 0) ok = false;
    auto c = d.CreateEvaluationContext(k);
    CHECK_PROP(c.ok() == ok, "a key is accepted exactly when its structure matches the parameters");
    if (c.ok()) {
      symx_reach("accepted");
      CHECK_PROP(c->parameters_size() == d.parameters().size() && c->previous_hierarchy_level() == -1 && c->partial_evaluations_size() == 0 && c->key().correction_words_size() == ncw, "fresh context describes the key");
    } else { symx_reach("refused"); CHECK_PROP(c.status().code() == absl::StatusCode::kInvalidArgument, "malformed keys give InvalidArgument"); }
    std::vector<absl::uint128> x = {symx_choice(2, "x")};
    for (int l = 0; l < lv.kNum; ++l) lv.at(l, [&](auto* t) {
      using T = std::remove_pointer_t<decltype(t)>;
      const int per = dpf_internal::ElementsPerBlock<T>();
      auto r = d.template EvaluateAt<T>(k, l, std::vector<absl::uint128>{l == 0 && lv.dom[0] == 0 ? absl::uint128{0} : x[0]});
      if (!ok) { CHECK_PROP(!r.ok(), "EvaluateAt refuses a malformed key"); return; }
      // The number of value corrections at this level must be that of the packing.
      const int have = l + 1 == lv.kNum ? nl : nv[tl[l]];
      CHECK_PROP(r.ok() == (have == per), "EvaluateAt succeeds exactly with the right number of value corrections");
    });
  });
}
// ---- contexts ----
static const double kDelta[] = {0, 0.00009, -0.00009, 0.0002, -0.0002, 1};
// Changes one thing somewhere in a value type (symbolic where it is a number); returns whether the type is still the same.
static bool change_type(ValueType* t) {
  if (symx_choice(2, "replace")) {
    switch (symx_choice(5, "kind")) {
      case 0: t->Clear(); return false;
      case 1: { const bool was = t->type_case() == ValueType::kInteger; const int32_t o = was ? t->integer().bitsize() : 0, b = sym32("bits"); t->mutable_integer()->set_bitsize(b); return was && b == o; }
      case 2: { const bool was = t->type_case() == ValueType::kXorWrapper; const int32_t o = was ? t->xor_wrapper().bitsize() : 0, b = sym32("bits"); t->mutable_xor_wrapper()->set_bitsize(b); return was && b == o; }
      case 3: { const ValueType o = *t; t->Clear(); *t->mutable_tuple()->add_elements() = o; return false; }
      default: t->Clear(); t->mutable_tuple(); return false;
    }
  }
  if (t->type_case() == ValueType::kTuple) {
    const int n = t->tuple().elements_size();
    const int k = static_cast<int>(symx_choice(n + 2, "element"));
    if (k == n) { t->mutable_tuple()->mutable_elements()->RemoveLast(); return false; }
    if (k == n + 1) { t->mutable_tuple()->add_elements()->mutable_integer()->set_bitsize(32); return false; }
    return change_type(t->mutable_tuple()->mutable_elements(k));
  }
  if (t->type_case() == ValueType::kIntModN) {
    auto* m = t->mutable_int_mod_n(); const uint64_t n = m->modulus().value_uint64();
    switch (symx_choice(3, "modulus")) {
      case 0: { const int32_t o = m->base_integer().bitsize(), b = sym32("base"); m->mutable_base_integer()->set_bitsize(b); return b == o; }
      case 1: { const uint64_t x = symx_bits(64, "n"); m->mutable_modulus()->set_value_uint64(x); return x == n; }
      default: { const uint64_t h = symx_bits(64, "nh"), l = symx_bits(64, "nl"); m->mutable_modulus()->mutable_value_uint128()->set_high(h); m->mutable_modulus()->mutable_value_uint128()->set_low(l); return h == 0 && l == n; }
    }
  }
  return true;
}
template <class T> static void types_equal_for() {
  const ValueType a = ToValueType<T>(); ValueType b = a; const bool same = symx_choice(2, "changed") ? change_type(&b) : true;
  for (int side = 0; side < 2; ++side) {
    auto r = side ? dpf_internal::ValueTypesAreEqual(b, a) : dpf_internal::ValueTypesAreEqual(a, b);
    if (r.ok()) CHECK_PROP(*r == same, "types are equal exactly when they describe the same type"); else CHECK_PROP(!same && r.status().code() == absl::StatusCode::kInvalidArgument, "only unset types give an error");
    symx_reach(r.ok() ? (*r ? "same" : "different") : "error");
  }
}
extern "C" void types_equal(int k) {
  switch (k) {
    case 0: return types_equal_for<uint64_t>();
    case 1: return types_equal_for<XorWrapper<absl::uint128>>();
    case 2: return types_equal_for<M32>();
    case 3: return types_equal_for<Tuple<uint8_t, uint16_t, uint32_t>>();
    case 4: return types_equal_for<Tuple<M32, Tuple<XorWrapper<uint8_t>, M32>, uint64_t>>();
    default: return types_equal_for<Tuple<Tuple<uint8_t, uint8_t>, Tuple<uint8_t, uint8_t>>>();
  }
}
extern "C" void ctx_valid(int cfg) {
  with_cfg(cfg, [](auto lv) {
    auto dp = lv.create(); auto& d = *dp;
    const DpfKey key = lv.skeleton(d, 1);
    auto c0 = d.CreateEvaluationContext(key); CHECK_PROP(c0.ok(), "context"); if (!c0.ok()) return;
    EvaluationContext c = *c0; bool ok = true; const int n = lv.kNum;
    switch (symx_choice(10, "change")) {
      case 0: break;
      case 1: c.mutable_parameters()->RemoveLast(); ok = false; break;
      case 2: *c.add_parameters() = c.parameters(0); ok = false; break;
      case 3: { int i = symx_choice(n, "at"); int32_t v = sym32("log_domain"); c.mutable_parameters(i)->set_log_domain_size(v); ok = v == lv.dom[i]; break; }
      case 4: { int i = symx_choice(n, "at"); auto k = symx_choice(7, "security"); c.mutable_parameters(i)->set_security_parameter(k == 6 ? 0 : 40.0 + lv.dom[i] + kDelta[k]); ok = k < 3 || k == 6; break; }
      case 5: { int i = symx_choice(n, "at"); ValueType t = c.parameters(i).value_type();
        switch (symx_choice(4, "type")) {
          case 0: c.mutable_parameters(i)->mutable_value_type()->Clear(); ok = false; break;
          case 1: { int32_t b = sym32("bits"); c.mutable_parameters(i)->mutable_value_type()->mutable_xor_wrapper()->set_bitsize(b); ok = t.type_case() == ValueType::kXorWrapper && b == t.xor_wrapper().bitsize(); break; }
          case 2: { int32_t b = sym32("bits"); c.mutable_parameters(i)->mutable_value_type()->mutable_integer()->set_bitsize(b); ok = t.type_case() == ValueType::kInteger && b == t.integer().bitsize(); break; }
          case 3: c.mutable_parameters(i)->mutable_value_type()->Clear(); c.mutable_parameters(i)->mutable_value_type()->mutable_tuple(); ok = false; break;
        } break; }
      case 6: c.clear_key(); ok = false; break;
      case 7: c.mutable_key()->clear_last_level_value_correction(); ok = false; break;
      case 8: c.mutable_key()->add_correction_words(); ok = false; break;
      case 9: ok = change_type(c.mutable_parameters(static_cast<int>(symx_choice(n, "at")))->mutable_value_type()); break;
    }
    const int32_t prev = sym32("previous"); c.set_previous_hierarchy_level(prev);
    if (prev >= n - 1) ok = false;
    if (symx_choice(2, "partial")) {
      const int32_t pl = sym32("partial_level"); c.set_partial_evaluations_level(pl);
      km_block(c.add_partial_evaluations()->mutable_seed());
      if (pl > prev) ok = false;
    }
    auto v = PV::Create(d.parameters()); CHECK_PROP(v.ok(), "validator"); if (!v.ok()) return;
    const absl::Status st = (*v)->ValidateEvaluationContext(c);
    CHECK_PROP(st.ok() == ok, "a context is accepted exactly when it matches the parameters");
    if (st.ok()) symx_reach("accepted"); else { symx_reach("refused"); CHECK_PROP(st.code() == absl::StatusCode::kInvalidArgument, "invalid contexts give InvalidArgument"); }
    if (!ok) lv.at(n - 1, [&](auto* t) {
      using T = std::remove_pointer_t<decltype(t)>;
      EvaluationContext c2 = c;
      CHECK_PROP(!d.template EvaluateUntil<T>(n - 1, {}, c2).ok(), "EvaluateUntil refuses an invalid context");
    });
  });
}
// ---- key generation refuses invalid inputs, accepted ones give valid keys ----
static bool any_int(Value::Integer* v, int bits, absl::uint128* out) {   // returns whether it fits `bits`
  switch (symx_choice(3, "int_kind")) {
    case 0: *out = 0; return bits == 128 ? false : false;
    case 1: { uint64_t x = symx_bits(64, "v64"); v->set_value_uint64(x); *out = x; return bits >= 64 || (x >> bits) == 0; }
    default: { uint64_t h = symx_bits(64, "vh"), l = symx_bits(64, "vl"); v->mutable_value_uint128()->set_high(h); v->mutable_value_uint128()->set_low(l); *out = u128(h, l);
      return bits == 128 || (h == 0 && (bits == 64 || (l >> bits) == 0)); }
  }
}
static bool any_value(Value* v, const ValueType& t, int depth) {
  absl::uint128 n; bool ok = false;
  const auto kind = symx_choice(depth ? 5 : 4, "value_kind");
  const int bits = t.type_case() == ValueType::kInteger ? t.integer().bitsize() : t.type_case() == ValueType::kXorWrapper ? t.xor_wrapper().bitsize() : t.type_case() == ValueType::kIntModN ? t.int_mod_n().base_integer().bitsize() : 128;
  switch (kind) {
    case 0: return false;
    case 1: ok = any_int(v->mutable_integer(), bits, &n); return ok && t.type_case() == ValueType::kInteger;
    case 2: ok = any_int(v->mutable_xor_wrapper(), bits, &n); return ok && t.type_case() == ValueType::kXorWrapper;
    case 3: ok = any_int(v->mutable_int_mod_n(), bits, &n); return ok && t.type_case() == ValueType::kIntModN && n < t.int_mod_n().modulus().value_uint64();
    default: {
      const int m = static_cast<int>(symx_choice(4, "size")); v->mutable_tuple();
      ok = t.type_case() == ValueType::kTuple && t.tuple().elements_size() == m;
      for (int i = 0; i < m; ++i) {
        ValueType et = t.type_case() == ValueType::kTuple && i < t.tuple().elements_size() ? t.tuple().elements(i) : ToValueType<uint8_t>();
        if (!any_value(v->mutable_tuple()->add_elements(), et, depth - 1)) ok = false;
      }
      return ok; }
  }
}
extern "C" void gen_valid(int cfg, int mode) {
  with_cfg(cfg, [mode](auto lv) {
    auto dp = lv.create(); auto& d = *dp; const int n = lv.kNum;
    symx_rand_fixed = 1;
    const int dl = lv.dom.back();
    absl::uint128 alpha = mode == 1 ? 1 : choice_bits(dl, "alpha"); bool ok = true;
    std::vector<Value> b;
    int count = n;
    if (mode == 0) { const auto w = symx_choice(4, "count"); count = w == 0 ? n : w == 1 ? 0 : w == 2 ? n - 1 : n + 1; if (count != n) ok = false; }
    if (mode == 0) { uint64_t hi = symx_bits(64, "hi"), lo = symx_bits(64, "lo"); if (symx_choice(2, "far")) { alpha = u128(hi, lo); symx_assume((alpha >> dl) != 0); ok = false; } }
    const int which = mode == 1 ? static_cast<int>(symx_choice(n, "which")) : -1;
    for (int i = 0; i < count; ++i) {
      Value v; const ValueType t = lv.types()[i < n ? i : 0];
      if (i == which) { if (!any_value(&v, t, 1)) ok = false; } else km_value(&v, t);
      b.push_back(v);
    }
    auto k = d.GenerateKeysIncremental(alpha, b);
    CHECK_PROP(k.ok() == ok, "key generation accepts exactly valid arguments");
    if (!k.ok()) { symx_reach("refused"); CHECK_PROP(k.status().code() == absl::StatusCode::kInvalidArgument, "invalid arguments give InvalidArgument"); return; }
    symx_reach("generated");
    const auto tl = tree_levels(lv, d);
    for (int p = 0; p < 2; ++p) {
      const DpfKey& key = p ? k->second : k->first;
      CHECK_PROP(key.party() == p && key.has_seed(), "party and seed are set");
      CHECK_PROP(key.correction_words_size() == tl.back(), "one correction word per tree level");
      for (int i = 0; i < key.correction_words_size(); ++i) {
        int want = 0;
        for (int l = 0; l + 1 < n; ++l) if (tl[l] == i) lv.at(l, [&](auto* t) { want = dpf_internal::ElementsPerBlock<std::remove_pointer_t<decltype(t)>>(); });
        CHECK_PROP(key.correction_words(i).value_correction_size() == want && key.correction_words(i).has_seed(), "value corrections at output levels only");
      }
      int want = 0; lv.at(n - 1, [&](auto* t) { want = dpf_internal::ElementsPerBlock<std::remove_pointer_t<decltype(t)>>(); });
      CHECK_PROP(key.last_level_value_correction_size() == want, "last level value correction present");
      CHECK_PROP(d.CreateEvaluationContext(key).ok(), "generated keys pass validation");
    }
  });
}

// ---- C10: nothing crashes ----
// Every read, write and abort is checked by the executor; these harnesses only supply the inputs.
static void junk_value(Value* v, int depth) {
  v->Clear();
  switch (symx_choice(depth ? 9 : 8, "junk")) {
    case 0: break;
    case 1: v->mutable_integer(); break;
    case 2: v->mutable_integer()->set_value_uint64(symx_bits(64, "j")); break;
    case 3: v->mutable_integer()->mutable_value_uint128()->set_high(symx_bits(64, "j")); v->mutable_integer()->mutable_value_uint128()->set_low(symx_bits(64, "k")); break;
    case 4: v->mutable_int_mod_n()->set_value_uint64(symx_bits(64, "j")); break;
    case 5: v->mutable_int_mod_n()->mutable_value_uint128()->set_high(symx_bits(64, "j")); break;
    case 6: v->mutable_xor_wrapper()->set_value_uint64(symx_bits(64, "j")); break;
    case 7: v->mutable_xor_wrapper()->mutable_value_uint128()->set_high(symx_bits(64, "j")); v->mutable_xor_wrapper()->mutable_value_uint128()->set_low(symx_bits(64, "k")); break;
    default: { const int n = static_cast<int>(symx_choice(4, "size")); v->mutable_tuple(); for (int i = 0; i < n; ++i) { if (i == 0) junk_value(v->mutable_tuple()->add_elements(), depth - 1); else v->mutable_tuple()->add_elements()->mutable_integer()->set_value_uint64(symx_bits(64, "j")); } break; }
  }
}
static void resize_values(::google::protobuf::RepeatedPtrField<Value>* f, int n) { while (f->size() > n) f->RemoveLast(); while (f->size() < n) { if (f->size()) { Value v = f->Get(0); *f->Add() = v; } else f->Add()->mutable_integer()->set_value_uint64(7); } }
static void spoil_key(DpfKey* k) {
  switch (symx_choice(11, "spoil")) {
    case 0: break;
    case 1: k->clear_seed(); break;
    case 2: k->set_party(sym32("party32")); break;
    case 3: k->clear_correction_words(); break;
    case 4: if (k->correction_words_size()) k->mutable_correction_words()->RemoveLast(); break;
    case 5: { CorrectionWord w = k->correction_words_size() ? k->correction_words(0) : CorrectionWord(); const auto n = 1 + symx_choice(3, "extra"); for (uint64_t i = 0; i < n; ++i) *k->add_correction_words() = w; break; }
    case 6: resize_values(k->mutable_last_level_value_correction(), static_cast<int>(symx_choice(6, "count"))); break;
    case 7: if (k->last_level_value_correction_size()) junk_value(k->mutable_last_level_value_correction(symx_choice(k->last_level_value_correction_size() > 1 ? 2 : 1, "at")), 1); break;
    case 8: if (k->correction_words_size()) { auto* w = k->mutable_correction_words(symx_choice(k->correction_words_size(), "cw")); resize_values(w->mutable_value_correction(), static_cast<int>(symx_choice(4, "count"))); } break;
    case 9: if (k->correction_words_size()) { auto* w = k->mutable_correction_words(symx_choice(k->correction_words_size(), "cw")); if (w->value_correction_size()) junk_value(w->mutable_value_correction(0), 1); } break;
    case 10: if (k->correction_words_size()) { auto* w = k->mutable_correction_words(symx_choice(k->correction_words_size(), "cw")); w->clear_seed(); } break;
  }
}
static std::vector<absl::uint128> any_points(int n, const char* name, int kinds = 4) {
  std::vector<absl::uint128> v(n);
  for (auto& x : v) {
    switch (kinds == 1 ? 0 : symx_choice(kinds, name)) {
      case 0: x = 0; break;
      case 1: x = 5; break;
      case 2: x = absl::Uint128Max(); break;
      default: symx_make(&x, 16, "point"); symx_assume(x >= 1024);   // far outside every domain used here
    }
  }
  return v;
}
static void outcome(bool ok) { if (ok) symx_reach("result"); else symx_reach("error"); }
extern "C" void mal_key(int cfg, int spoils, int how) {
  with_cfg(cfg, [spoils, how](auto lv) {
    auto dp = lv.create(); auto& d = *dp;
    DpfKey k = lv.key(d, symx_choice(2, "party"));
    for (int i = 0; i < spoils; ++i) spoil_key(&k);
    if (how == 3) {   // several keys at once, by value and by pointer
      const DpfKey good = lv.key(d, 0);
      std::vector<const DpfKey*> kp = {&good, &k};
      kp.resize(2 * symx_choice(2, "nkeys"));
      lv.at(lv.kNum - 1, [&](auto* t) {
        using T = std::remove_pointer_t<decltype(t)>;
        auto x = any_points(spoils > 1 ? 2 : symx_choice(3, "npoints"), "where", spoils > 1 ? 1 : 3);
        const int shift = spoils > 1 ? 1 : symx_choice(3, "shift") * 64;
        auto st = d.template EvaluateAndApply<T>(kp, x, [](absl::Span<const T>) { return true; }, shift); outcome(st.ok()); });
      return;
    }
    const int l = static_cast<int>(symx_choice(lv.kNum + 2, "level")) - 1;   // one below and one above the valid range
    lv.at(l < 0 ? 0 : l >= lv.kNum ? lv.kNum - 1 : l, [&](auto* t) {
      using T = std::remove_pointer_t<decltype(t)>;
      if (how == 0) { auto r = d.template EvaluateAt<T>(k, l, any_points(spoils > 1 ? 1 : symx_choice(3, "npoints"), "where", spoils > 1 ? 1 : 4)); outcome(r.ok()); return; }
      auto c = d.CreateEvaluationContext(k); outcome(c.ok()); if (!c.ok()) return;
      if (how == 1) { auto r = d.template EvaluateUntil<T>(l, {}, *c); outcome(r.ok()); return; }
      auto r = d.template EvaluateAt<T>(l, any_points(spoils > 1 ? 1 : symx_choice(3, "npoints"), "where", spoils > 1 ? 1 : 4), *c); outcome(r.ok());
    });
  });
}
extern "C" void mal_ctx(int cfg, int how, int nparts) {
  with_cfg(cfg, [how, nparts](auto lv) {
    auto dp = lv.create(); auto& d = *dp;
    EvaluationContext c;
    const auto drop = how == 2 ? 0 : symx_choice(4, "params");
    for (int i = 0; i < lv.kNum; ++i) if (!(drop == 1 && i == 0)) *c.add_parameters() = d.parameters()[i];
    if (drop == 2) *c.add_parameters() = d.parameters()[0];
    if (drop == 3) c.mutable_parameters(0)->clear_value_type();
    if (symx_choice(2, "has_key") != 0) *c.mutable_key() = lv.key(d, 1);
    c.set_previous_hierarchy_level(sym32("previous"));
    c.set_partial_evaluations_level(sym32("partial_level"));
    const int np = static_cast<int>(symx_choice(nparts + 1, "nparts"));
    for (int i = 0; i < np; ++i) {
      auto* e = c.add_partial_evaluations();
      const auto w = how == 2 ? 3 : symx_choice(4, "part");
      if (w != 0) e->mutable_prefix()->set_low(w == 1 ? 0 : w == 2 ? 1 : symx_bits(64, "prefix"));
      if (w == 3) e->mutable_prefix()->set_high(symx_bits(64, "prefix_high"));
      if (w != 2) km_block(e->mutable_seed());
      e->set_control_bit(how != 2 && symx_choice(2, "control"));
    }
    const int l = static_cast<int>(symx_choice(how == 2 ? lv.kNum : lv.kNum + 2, "level")) - (how == 2 ? 0 : 1);
    lv.at(l < 0 ? 0 : l >= lv.kNum ? lv.kNum - 1 : l, [&](auto* t) {
      using T = std::remove_pointer_t<decltype(t)>;
      const int n = static_cast<int>(symx_choice(3, "npoints"));
      auto x = any_points(n, "where");
      if (how == 0) { auto r = d.template EvaluateUntil<T>(l, x, c); outcome(r.ok()); }
      else if (how == 1) { auto r = d.template EvaluateAt<T>(l, x, c); outcome(r.ok()); }
      else { auto r = d.template EvaluateNext<T>(x, c); outcome(r.ok()); }
    });
  });
}

// Evaluations whose output could not be stored are refused, and leave the context usable.
template <class T> static void too_large_for(int first) {
  const int a = first ? static_cast<int>(symx_choice(3, "first")) * 2 : -1;   // first level 0, 2 or 4
  static const int kGap[] = {63, 64, 65, 66, 70, 96, 124, 127, 128, 62, 61, 60};
  const int gap = kGap[symx_choice(first ? 12 : 9, "gap")], last = a < 0 ? gap : a + gap;
  if (last > 128) return;
  std::vector<DpfParameters> ps(first ? 2 : 1);
  for (size_t i = 0; i < ps.size(); ++i) { ps[i].set_log_domain_size(i + 1 < ps.size() ? a : last); *ps[i].mutable_value_type() = ToValueType<T>(); }
  auto dp = DistributedPointFunction::CreateIncremental(ps); CHECK_PROP(dp.ok(), "parameters accepted"); if (!dp.ok()) return;
  symx_rand_fixed = 1;
  auto k = (*dp)->GenerateKeysIncremental(0, std::vector<Value>(ps.size(), *(*dp)->ToValue(T{1}))); CHECK_PROP(k.ok(), "keys"); if (!k.ok()) return;
  auto c = (*dp)->CreateEvaluationContext(symx_choice(2, "party") ? k->second : k->first); CHECK_PROP(c.ok(), "context"); if (!c.ok()) return;
  std::vector<absl::uint128> pre;
  if (first) {
    auto r = (*dp)->template EvaluateUntil<T>(0, {}, *c); CHECK_PROP(r.ok() && r->size() == size_t{1} << a, "first level"); if (!r.ok()) return;
    const size_t n = gap >= 63 ? 1 + symx_choice(2, "prefixes") * 7 : size_t{2} << (62 - gap);   // the fewest that are too many
    for (size_t i = 0; i < n; ++i) pre.push_back(i & ((1 << a) - 1));
  }
  const int l = first ? 1 : 0;
  auto r = symx_choice(2, "next") ? (*dp)->template EvaluateNext<T>(pre, *c) : (*dp)->template EvaluateUntil<T>(l, pre, *c);
  CHECK_PROP(r.status().code() == absl::StatusCode::kInvalidArgument, "an output of 2^63 values or more is refused");
  CHECK_PROP(c->previous_hierarchy_level() == l - 1, "a refused call leaves the context where it was");
  absl::uint128 x = 1;
  auto at = (*dp)->template EvaluateAt<T>(l, absl::MakeConstSpan(&x, 1), *c);
  auto want = (*dp)->template EvaluateAt<T>(c->key(), l, absl::MakeConstSpan(&x, 1));
  CHECK_PROP(at.ok() && want.ok() && at->size() == 1 && (*at)[0] == (*want)[0], "the context stays usable");
  symx_reach("error");
}
extern "C" void too_large(int type, int first) {
  switch (type) { case 0: too_large_for<uint8_t>(first); break; case 1: too_large_for<uint64_t>(first); break; default: too_large_for<absl::uint128>(first); }
}
