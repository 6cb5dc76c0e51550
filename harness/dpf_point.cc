// Two-party correctness of a plain (single-level) DPF.
#include "values.h"
using namespace distributed_point_functions;

// mode 0: alpha and x range over the whole domain.
// mode 3: as mode 1 with a fixed key seed (deep trees).
// mode 1 (large domains): alpha is one of four fixed patterns with a free low
// byte position, x agrees with alpha except that bit k (enumerated) is flipped
// and everything below k follows one of two patterns.
static absl::uint128 pattern(int p, int n) {
  absl::uint128 full = n >= 128 ? absl::Uint128Max() : (absl::uint128{1} << n) - 1;
  absl::uint128 v;
  switch (p) {
    case 0: v = 0; break;
    case 1: v = full; break;
    case 2: v = u128(0xA5A5A5A55A5A5A5Aull, 0xC3A5F00F12345678ull); break;
    default: v = u128(0x0123456789ABCDEFull, 0x8000000000000001ull); break;
  }
  return v & full;
}
template <class T> static void point(int n, int mode) {
  DpfParameters p; p.set_log_domain_size(n); *p.mutable_value_type() = ToValueType<T>();
  auto d = DistributedPointFunction::Create(p);
  CHECK_PROP(d.ok(), "Create accepts valid parameters");
  if (!d.ok()) return;
  if (mode >= 3) { symx_rand_fixed = 1; mode -= 2; }
  absl::uint128 alpha, x;
  if (mode == 0) { alpha = choice_bits(n, "alpha"); x = choice_bits(n, "x"); }
  else {
    alpha = pattern(static_cast<int>(symx_choice(mode == 2 ? 2 : 4, "pattern")) + (mode == 2 ? 2 : 0), n);
    uint64_t k = symx_choice(n + 1, "k");
    if (mode == 2 && k % 9 != 4 && k != uint64_t(n)) symx_stop();
    x = alpha;
    if (k < uint64_t(n)) {
      x ^= absl::uint128{1} << k;
      if (symx_choice(2, "below")) x ^= ((absl::uint128{1} << k) - 1) & u128(0x9999999999999999ull, 0x6666666666666666ull);
    }
  }
  T beta = V<T>::make("beta");
  if (!std::is_convertible<T, absl::uint128>::value) CHECK_PROP((*d)->template RegisterValueType<T>().ok(), "RegisterValueType succeeds");
  auto keys = (*d)->GenerateKeys(alpha, beta);
  CHECK_PROP(keys.ok(), "GenerateKeys succeeds");
  if (!keys.ok()) return;
  auto r0 = (*d)->template EvaluateAt<T>(keys->first, 0, absl::MakeConstSpan(&x, 1));
  auto r1 = (*d)->template EvaluateAt<T>(keys->second, 0, absl::MakeConstSpan(&x, 1));
  CHECK_PROP(r0.ok() && r1.ok(), "EvaluateAt succeeds");
  if (!r0.ok() || !r1.ok()) return;
  CHECK_PROP(r0->size() == 1 && r1->size() == 1, "one output per point");
  T s = V<T>::add((*r0)[0], (*r1)[0]);
  V<T>::obs(s, "sum");
  if (alpha == x) { symx_reach("at"); CHECK_PROP(V<T>::eq(s, beta), "shares sum to beta at alpha"); }
  else { symx_reach("off"); CHECK_PROP(V<T>::eq(s, V<T>::zero()), "shares sum to zero away from alpha"); }
}
extern "C" void dpf_point_u8(int n, int mode) { point<uint8_t>(n, mode); }
extern "C" void dpf_point_u16(int n, int mode) { point<uint16_t>(n, mode); }
extern "C" void dpf_point_u32(int n, int mode) { point<uint32_t>(n, mode); }
extern "C" void dpf_point_u64(int n, int mode) { point<uint64_t>(n, mode); }
extern "C" void dpf_point_u128(int n, int mode) { point<absl::uint128>(n, mode); }
extern "C" void dpf_point_xor(int n, int mode) { point<XorWrapper<absl::uint128>>(n, mode); }
extern "C" void dpf_point_xor8(int n, int mode) { point<XorWrapper<uint8_t>>(n, mode); }
extern "C" void dpf_point_mod(int n, int mode) { point<IntModN<uint32_t, 4294967291u>>(n, mode); }
extern "C" void dpf_point_mod64(int n, int mode) { point<IntModN<uint64_t, 18446744073709551557ull>>(n, mode); }
extern "C" void dpf_point_mod128(int n, int mode) { point<IntModN<absl::uint128, ((unsigned __int128)1 << 80) - 65>>(n, mode); }
extern "C" void dpf_point_tup(int n, int mode) { point<Tuple<uint32_t, XorWrapper<uint64_t>>>(n, mode); }
extern "C" void dpf_point_tup3(int n, int mode) { point<Tuple<absl::uint128, Tuple<uint8_t, XorWrapper<uint16_t>>, uint64_t>>(n, mode); }
extern "C" void dpf_point_tupmod(int n, int mode) { point<Tuple<IntModN<uint32_t, 4294967291u>, IntModN<uint32_t, 4294967291u>>>(n, mode); }
// Values of several AES blocks.
template <size_t...> using U64 = uint64_t;
template <size_t... I> static Tuple<U64<I>...> wide_tuple(std::index_sequence<I...>);
extern "C" void dpf_point_tup8(int n, int mode) { point<decltype(wide_tuple(std::make_index_sequence<8>()))>(n, mode); }
extern "C" void dpf_point_tup17(int n, int mode) { point<decltype(wide_tuple(std::make_index_sequence<17>()))>(n, mode); }
extern "C" void dpf_point_tupq(int n, int mode) { point<Tuple<absl::uint128, XorWrapper<absl::uint128>, absl::uint128, uint8_t>>(n, mode); }
extern "C" void dpf_point_mod5(int n, int mode) { using M = IntModN<uint32_t, 4294967291u>; point<Tuple<M, M, M, M, M>>(n, mode); }
