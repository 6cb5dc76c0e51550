// Arbitrary well-formed keys: the structure comes from the real key generation,
// every seed, control bit and value correction is replaced by unconstrained
// material (an uninterpreted function of a running index).
#pragma once
#include "values.h"
static uint64_t g_km = 0;
static inline void km_bytes(void* p, size_t n) { uint64_t i = g_km++; symx_uf(p, n, &i, 8, n == 16 ? "km16" : n == 8 ? "km8" : "km1"); }
static inline uint64_t km64() { uint64_t v; km_bytes(&v, 8); return v; }
static inline bool km_bit() { uint8_t v; km_bytes(&v, 1); return v & 1; }
static inline absl::uint128 km128() { absl::uint128 v; km_bytes(&v, 16); return v; }
static inline void km_int(dpf::Value::Integer* v, int bits) {
  if (bits == 128) { absl::uint128 x = km128(); v->mutable_value_uint128()->set_high(absl::Uint128High64(x)); v->mutable_value_uint128()->set_low(absl::Uint128Low64(x)); }
  else { uint64_t x = km64(); v->set_value_uint64(bits >= 64 ? x : x & ((uint64_t{1} << bits) - 1)); }
}
static inline void km_value(dpf::Value* v, const dpf::ValueType& t) {
  switch (t.type_case()) {
    case dpf::ValueType::kInteger: km_int(v->mutable_integer(), t.integer().bitsize()); break;
    case dpf::ValueType::kXorWrapper: km_int(v->mutable_xor_wrapper(), t.xor_wrapper().bitsize()); break;
    case dpf::ValueType::kIntModN: {
      if (t.int_mod_n().base_integer().bitsize() > 64) symx_fatal("128-bit moduli not supported here");
      km_int(v->mutable_int_mod_n(), t.int_mod_n().base_integer().bitsize());
      symx_assume(v->int_mod_n().value_uint64() < t.int_mod_n().modulus().value_uint64()); break; }
    case dpf::ValueType::kTuple:
      for (int i = 0; i < t.tuple().elements_size(); ++i) { if (v->tuple().elements_size() <= i) v->mutable_tuple()->add_elements(); km_value(v->mutable_tuple()->mutable_elements(i), t.tuple().elements(i)); }
      break;
    default: symx_fatal("value type");
  }
}
static inline void km_block(dpf::Block* b) { absl::uint128 x = km128(); b->set_high(absl::Uint128High64(x)); b->set_low(absl::Uint128Low64(x)); }
// types: the value type of each hierarchy level, in the order in which value corrections occur.
static inline void km_key(dpf::DpfKey* k, const std::vector<dpf::ValueType>& types) {
  km_block(k->mutable_seed());
  size_t lvl = 0;
  for (int i = 0; i < k->correction_words_size(); ++i) {
    auto* c = k->mutable_correction_words(i);
    km_block(c->mutable_seed()); c->set_control_left(km_bit()); c->set_control_right(km_bit());
    if (c->value_correction_size() > 0) { for (int j = 0; j < c->value_correction_size(); ++j) km_value(c->mutable_value_correction(j), types.at(lvl)); ++lvl; }
  }
  for (int j = 0; j < k->last_level_value_correction_size(); ++j) km_value(k->mutable_last_level_value_correction(j), types.back());
}
// Hierarchy levels: types T... with log domain sizes dom.
template <class... T> struct Levels {
  static constexpr int kNum = sizeof...(T);
  std::vector<int> dom;
  std::vector<dpf::ValueType> types() const { return {dpf::ToValueType<T>()...}; }
  std::unique_ptr<dpf::DistributedPointFunction> create(double sec = 0) const {
    std::vector<dpf::DpfParameters> ps(kNum); auto t = types();
    for (int i = 0; i < kNum; ++i) { ps[i].set_log_domain_size(dom[i]); *ps[i].mutable_value_type() = t[i]; if (sec != 0) ps[i].set_security_parameter(sec); }
    auto d = dpf::DistributedPointFunction::CreateIncremental(ps);
    CHECK_PROP(d.ok(), "CreateIncremental accepts valid parameters");
    if (!d.ok()) symx_stop();
    bool ok = true;
    (void)std::initializer_list<int>{(ok = ok && (*d)->template RegisterValueType<T>().ok(), 0)...};
    CHECK_PROP(ok, "RegisterValueType succeeds");
    return *std::move(d);
  }
  // Structure of a key (values are fixed placeholders).
  static dpf::DpfKey skeleton(dpf::DistributedPointFunction& d, int party) {
    int save = symx_rand_fixed; symx_rand_fixed = 1;
    std::vector<dpf::Value> b = {*d.ToValue(V<T>::zero())...};
    auto k = d.GenerateKeysIncremental(0, b);
    symx_rand_fixed = save;
    CHECK_PROP(k.ok(), "GenerateKeysIncremental succeeds");
    if (!k.ok()) symx_stop();
    return party ? k->second : k->first;
  }
  dpf::DpfKey key(dpf::DistributedPointFunction& d, int party) const { auto k = skeleton(d, party); km_key(&k, types()); return k; }
  // Calls f(type tag) for level l.
  template <class F> static void at(int l, F f) { int i = 0; (void)std::initializer_list<int>{(i++ == l ? (f(static_cast<T*>(nullptr)), 0) : 0)...}; }
};
