// C06: group laws. C07: values and their messages. C08: bytes to values.
#include "values.h"
#include "dpf/internal/proto_validator.h"
#include "dpf/internal/value_type_helpers.h"
using absl::uint128;
namespace di = dpf::dpf_internal;
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
template <class I, unsigned __int128 N> using MOD = dpf::IntModN<I, N>;
template <class... T> using TUP = dpf::Tuple<T...>;
template <class T> using XW = dpf::XorWrapper<T>;
constexpr unsigned __int128 P128 = ~static_cast<unsigned __int128>(0) - 158;   // 2^128 - 159
constexpr unsigned __int128 M80 = (static_cast<unsigned __int128>(1) << 80) - 65;
#define TYPE_LIST(X) \
  X(0, u8) X(1, u16) X(2, u32) X(3, u64) X(4, uint128) \
  X(5, XW<u8>) X(6, XW<u16>) X(7, XW<u32>) X(8, XW<u64>) X(9, XW<uint128>) \
  X(10, MOD<u8 COMMA 251>) X(11, MOD<u16 COMMA 65521>) X(12, MOD<u32 COMMA 4294967291u>) X(13, MOD<u32 COMMA 7>) X(14, MOD<u64 COMMA 18446744073709551557ull>) \
  X(15, MOD<u64 COMMA 1000000>) X(16, MOD<u32 COMMA 1>) X(17, MOD<u64 COMMA 1ull << 63>) X(18, MOD<uint128 COMMA M80>) \
  X(20, TUP<u8>) X(21, TUP<u32 COMMA u32>) X(22, TUP<u8 COMMA u16 COMMA u32 COMMA u64>) X(23, TUP<uint128 COMMA u8>) X(24, TUP<u32 COMMA XW<u32>>) \
  X(25, TUP<MOD<u32 COMMA 4294967291u> COMMA MOD<u32 COMMA 4294967291u>>) X(26, TUP<u32 COMMA MOD<u64 COMMA 1000000>>) X(27, TUP<MOD<u32 COMMA 7> COMMA uint128>) \
  X(28, TUP<TUP<u8 COMMA u8> COMMA u16>) X(29, TUP<XW<uint128> COMMA u64 COMMA MOD<u8 COMMA 251>>) X(30, TUP<MOD<u32 COMMA 7> COMMA TUP<uint128 COMMA uint128>>) \
  X(31, TUP<u8 COMMA u8 COMMA MOD<u32 COMMA 7> COMMA MOD<u32 COMMA 7> COMMA u64>) X(32, TUP<TUP<MOD<u64 COMMA 1000000>> COMMA u16 COMMA MOD<u64 COMMA 1000000>>) X(33, TUP<u16 COMMA u16 COMMA u16>) \
  X(34, TUP<u64 COMMA u64 COMMA u64>) X(35, TUP<MOD<u64 COMMA 1000000> COMMA MOD<u64 COMMA 1000000> COMMA MOD<u64 COMMA 1000000>>) X(36, TUP<u8 COMMA uint128 COMMA u8>) \
  X(37, TUP<MOD<u64 COMMA 1000000> COMMA u64 COMMA u16 COMMA u32 COMMA u16>) X(38, TUP<TUP<MOD<u64 COMMA 1000000>> COMMA u64 COMMA u16 COMMA u32 COMMA u16>) X(39, TUP<MOD<u64 COMMA 1000000> COMMA u8>) X(40, TUP<MOD<u8 COMMA 251> COMMA TUP<TUP<uint128 COMMA MOD<u16 COMMA 65521>> COMMA XW<u64>>>)
#define COMMA ,
#define DISPATCH(F, ...) switch (type) {
#define TYPE_CASE(n, ...) case n: { using T = __VA_ARGS__; body(static_cast<T*>(nullptr)); break; }
#define ON_TYPE(type) switch (type) { TYPE_LIST(TYPE_CASE) default: symx_fatal("type"); }

template <class T> struct Neg { static T ref(const T& a) { return static_cast<T>(0 - a); } };
template <class T> static bool canonical(const T&) { return true; }
template <class I, class M, M N> static bool canonical(const di::IntModNImpl<I, M, N>& a) { return a.value() < static_cast<I>(N); }
template <class... E> static bool canonical(const TUP<E...>& a);
template <class T, size_t... I> static bool canon_i(const T& a, std::index_sequence<I...>) { return all_of(canonical(std::get<I>(a.value()))..., true); }
template <class... E> static bool canonical(const TUP<E...>& a) { return canon_i(a, std::index_sequence_for<E...>()); }
extern "C" void group_laws(int type) {
  auto body = [](auto* tp) {
    using T = std::remove_pointer_t<decltype(tp)>;
    T a = V<T>::make("a"), b = V<T>::make("b"), c = V<T>::make("c"), z{};
    T ab = static_cast<T>(a + b), ba = static_cast<T>(b + a);
    CHECK_PROP(V<T>::eq(ab, V<T>::add(a, b)), "addition is not the group operation");
    CHECK_PROP(V<T>::eq(ab, ba), "addition is not commutative");
    CHECK_PROP(V<T>::eq(static_cast<T>(ab + c), static_cast<T>(a + static_cast<T>(b + c))), "addition is not associative");
    CHECK_PROP(V<T>::eq(z, V<T>::zero()), "the default value is not zero");
    CHECK_PROP(V<T>::eq(static_cast<T>(a + z), a) , "zero is not neutral on the right");
    CHECK_PROP(V<T>::eq(static_cast<T>(z + a), a), "zero is not neutral on the left");
    T na = static_cast<T>(-a);
    CHECK_PROP(V<T>::eq(static_cast<T>(a + na), z), "negation is not inverse");
    CHECK_PROP(V<T>::eq(static_cast<T>(ab - b), a), "subtraction does not undo addition");
    CHECK_PROP(V<T>::eq(static_cast<T>(a - b), static_cast<T>(a + static_cast<T>(-b))), "subtraction differs from adding the negation");
    CHECK_PROP(V<T>::eq(static_cast<T>(a - a), z), "a - a is not zero");
    T d = a; d += b; CHECK_PROP(V<T>::eq(d, ab), "+= differs from +");
    T e = a; e -= b; CHECK_PROP(V<T>::eq(e, static_cast<T>(a - b)), "-= differs from -");
    T f = a; f += f; CHECK_PROP(V<T>::eq(f, static_cast<T>(a + a)), "self addition");
    T g = a; g -= g; CHECK_PROP(V<T>::eq(g, z), "self subtraction");
    CHECK_PROP(canonical(ab) , "a sum is not canonical");
    CHECK_PROP(canonical(na), "a negation is not canonical");
    CHECK_PROP(canonical(static_cast<T>(a - b)), "a difference is not canonical");
    CHECK_PROP(static_cast<int>(a == b) == static_cast<int>(V<T>::eq(a, b)), "== does not compare values");
    CHECK_PROP(static_cast<int>(a != b) == 1 - static_cast<int>(V<T>::eq(a, b)), "!= does not compare values");
    symx_reach("laws");
    V<T>::obs(ab, "sum");
  };
  ON_TYPE(type)
}
// Construction and assignment reduce modulo N.
template <class T, class I> static void reduce_one(uint128 n) {
  I x; symx_make(&x, sizeof x, "x");
  T a(x), b; b = x;
  I want = static_cast<I>(uint128{x} % n);
  CHECK_PROP(a.value() == want, "constructor does not reduce");
  CHECK_PROP(b.value() == want, "assignment does not reduce");
  CHECK_PROP(uint128{T::modulus()} == n, "modulus()");
  symx_reach("reduced");
}
extern "C" void mod_reduce(int which) {
  switch (which) {
    case 0: reduce_one<MOD<u8, 251>, u8>(251); break;
    case 1: reduce_one<MOD<u16, 65521>, u16>(65521); break;
    case 2: reduce_one<MOD<u32, 4294967291u>, u32>(4294967291u); break;
    case 3: reduce_one<MOD<u32, 7>, u32>(7); break;
    case 4: reduce_one<MOD<u64, 18446744073709551557ull>, u64>(18446744073709551557ull); break;
    default: reduce_one<MOD<u64, 1ull << 63>, u64>(uint128{1} << 63);
  }
}
// ---------------------------------------------------------------- C07
static dpf::Value::Integer integer_of(const char* nm, uint128* val, bool* set) {
  dpf::Value::Integer r; int form = symx_choice(3, nm);
  *set = form != 0;
  if (form == 1) { u64 x; symx_make(&x, 8, "small"); r.set_value_uint64(x); *val = x; }
  if (form == 2) { u64 h, l; symx_make(&h, 8, "hi"); symx_make(&l, 8, "lo"); r.mutable_value_uint128()->set_high(h); r.mutable_value_uint128()->set_low(l); *val = u128(h, l); }
  return r;
}
extern "C" void value_roundtrip(int type) {
  auto body = [](auto* tp) {
    using T = std::remove_pointer_t<decltype(tp)>;
    using H = di::ValueTypeHelper<T>;
    T a = V<T>::make("a");
    dpf::Value v = H::ToValue(a);
    auto r = H::FromValue(v);
    CHECK_PROP(r.ok(), "an encoded value is refused");
    if (r.ok()) CHECK_PROP(V<T>::eq(*r, a), "decoding an encoded value changes it");
    CHECK_PROP(V<T>::eq(a, a), "");
    dpf::ValueType vt = H::ToValueType();
    auto pub = dpf::ToValue(a);
    auto pr = dpf::FromValue<T>(pub);
    CHECK_PROP(pr.ok() && V<T>::eq(*pr, a), "public conversion functions");
    auto same = di::ValueTypesAreEqual(vt, dpf::ToValueType<T>());
    CHECK_PROP(same.ok() && *same, "a type differs from itself");
    CHECK_PROP(di::ProtoValidator::ValidateValueType(vt).ok(), "a supported type is refused");
    symx_reach("roundtrip");
    V<T>::obs(a, "value");
  };
  ON_TYPE(type)
}
// Decoding an arbitrary integer message into T accepts exactly the numbers that fit.
template <class T> struct Lim { static bool fits(uint128 v) { return sizeof(T) == 16 || v < (uint128{1} << (8 * sizeof(T) % 128)); } static uint128 num(const T& t) { return t; } static constexpr int kind = 0; };
template <class I> struct Lim<XW<I>> { static bool fits(uint128 v) { return Lim<I>::fits(v); } static uint128 num(const XW<I>& t) { return t.value(); } static constexpr int kind = 2; };
template <class I, class M, M N> struct Lim<di::IntModNImpl<I, M, N>> { static bool fits(uint128 v) { return v < uint128{N}; } static uint128 num(const di::IntModNImpl<I, M, N>& t) { return t.value(); } static constexpr int kind = 1; };
template <class... E> struct Lim<TUP<E...>> { static constexpr int kind = 3; static bool fits(uint128) { return false; } static uint128 num(const TUP<E...>&) { return 0; } };
extern "C" void value_decode(int type) {
  auto body = [](auto* tp) {
    using T = std::remove_pointer_t<decltype(tp)>;
    using H = di::ValueTypeHelper<T>;
    int kind = symx_choice(5, "kind");   // 0 integer, 1 int_mod_n, 2 xor, 3 tuple, 4 nothing
    dpf::Value v; uint128 x = 0; bool set = false;
    if (kind < 3) { auto i = integer_of("form", &x, &set); *(kind == 0 ? v.mutable_integer() : kind == 1 ? v.mutable_int_mod_n() : v.mutable_xor_wrapper()) = i; }
    if (kind == 3) { v.mutable_tuple(); if (symx_choice(2, "element")) v.mutable_tuple()->add_elements()->mutable_integer()->set_value_uint64(1); }
    if (kind == 3 && Lim<T>::kind == 3) { symx_stop(); return; }
    auto r = H::FromValue(v);
    bool fits = static_cast<int>(kind == Lim<T>::kind) & static_cast<int>(set) & static_cast<int>(Lim<T>::fits(x));
    CHECK_PROP(static_cast<int>(r.ok()) == static_cast<int>(fits), "a value message is accepted although it does not fit, or refused although it does");
    if (r.ok()) { CHECK_PROP(Lim<T>::num(*r) == x, "decoding truncates the number"); symx_reach("accepted"); }
    else { CHECK_PROP(r.status().code() == absl::StatusCode::kInvalidArgument, "wrong error code"); symx_reach("refused"); }
    // The runtime check used by key generation agrees.
    auto st = di::ProtoValidator::ValidateValue(v, H::ToValueType());
    if (fits) CHECK_PROP(st.ok(), "validation refuses a fitting value");
    if (Lim<T>::kind != kind) CHECK_PROP(!st.ok(), "validation accepts a value of another type");
    if (st.ok() && set) CHECK_PROP(fits, "validation accepts a number that does not fit");
  };
  ON_TYPE(type)
}
// Tuples: the number of elements and each element are checked.
extern "C" void tuple_decode() {
  using T = TUP<u8, XW<u16>, MOD<u32, 7>>;
  int n = symx_choice(5, "count"), swap = symx_choice(2, "swap");
  dpf::Value v; v.mutable_tuple();
  u64 x[4]; bool fit = n == 3 && !swap;
  const char* nm[4] = {"x0", "x1", "x2", "x3"};
  const u64 lim[3] = {256, 65536, 7};
  for (int i = 0; i < n; i++) {
    auto* e = v.mutable_tuple()->add_elements();
    symx_make(&x[i], 8, nm[i]);
    int k = swap && i < 2 ? 1 - i : i;
    (k == 0 ? e->mutable_integer() : k == 1 ? e->mutable_xor_wrapper() : e->mutable_int_mod_n())->set_value_uint64(x[i]);
    if (i < 3) fit = static_cast<int>(fit) & static_cast<int>(x[i] < lim[i]);
  }
  auto r = di::ValueTypeHelper<T>::FromValue(v);
  CHECK_PROP(static_cast<int>(r.ok()) == static_cast<int>(fit), "tuple message accepted or refused wrongly");
  auto st = di::ProtoValidator::ValidateValue(v, di::ValueTypeHelper<T>::ToValueType());
  CHECK_PROP(static_cast<int>(st.ok()) == static_cast<int>(fit), "tuple validation accepts or refuses wrongly");
  if (r.ok()) {
    CHECK_PROP(std::get<0>(r->value()) == x[0] && std::get<1>(r->value()).value() == x[1] && std::get<2>(r->value()).value() == x[2], "tuple elements changed or reordered");
    symx_reach("accepted");
  } else symx_reach("refused");
}
// ValuesToArray: the packed corrections of one block.
extern "C" void values_array() {
  int n = symx_choice(6, "count");
  google::protobuf::RepeatedPtrField<dpf::Value> vs; u32 x[6]; const char* nm[] = {"x0", "x1", "x2", "x3", "x4", "x5"};
  for (int i = 0; i < n; i++) { symx_make(&x[i], 4, nm[i]); vs.Add()->mutable_integer()->set_value_uint64(x[i]); }
  auto r = di::ValuesToArray<u32>(vs);
  CHECK_PROP(r.ok() == (n == 4), "wrong number of packed values accepted or right number refused");
  if (r.ok()) { for (int i = 0; i < 4; i++) CHECK_PROP((*r)[i] == x[i], "packed values reordered"); symx_reach("accepted"); } else symx_reach("refused");
}
// ---------------------------------------------------------------- C08
// Reference conversion, written from the documentation: values that are made of
// plain integers take consecutive little-endian bytes; otherwise a 128-bit block
// is consumed by each element in turn and refilled from the following bytes.
struct Src { const uint8_t* p; size_t n, pos; uint128 block; };
static uint128 le(const uint8_t* p, int n) { uint128 r = 0; for (int i = n - 1; i >= 0; i--) r = (r << 8) | p[i]; return r; }
static uint128 take(Src& s, int n) { if (s.pos + n > s.n) { symx_fail("reserved bytes do not suffice"); symx_stop(); } uint128 r = le(s.p + s.pos, n); s.pos += n; return r; }
template <class T> struct Ref {
  static T direct(const uint8_t*& p) { T r = static_cast<T>(le(p, sizeof(T))); p += sizeof(T); return r; }
  static T sample(Src& s, bool update) { T r = static_cast<T>(s.block); if (update) { uint128 low = sizeof(T) == 16 ? ~uint128{0} : (uint128{1} << (8 * sizeof(T) % 128)) - 1; s.block = (s.block & ~low) | take(s, sizeof(T)); } return r; }
};
template <class I> struct Ref<XW<I>> {
  static XW<I> direct(const uint8_t*& p) { return XW<I>(Ref<I>::direct(p)); }
  static XW<I> sample(Src& s, bool u) { return XW<I>(Ref<I>::sample(s, u)); }
};
template <class I, class M, M N> struct Ref<di::IntModNImpl<I, M, N>> {
  using T = di::IntModNImpl<I, M, N>;
  static T direct(const uint8_t*& p) { symx_fatal("not direct"); return T(); }
  static T sample(Src& s, bool u) {
    unsigned __int128 b = static_cast<unsigned __int128>(s.block);
    T r(static_cast<I>(static_cast<uint128>(b % N)));
    if (u) { uint128 q = b / N; s.block = sizeof(I) == 16 ? uint128{0} : q << (8 * sizeof(I) % 128); s.block |= take(s, sizeof(I)); }
    return r;
  }
};
template <class... E> struct Ref<TUP<E...>> {
  using T = TUP<E...>;
  template <size_t... I> static T d(const uint8_t*& p, std::index_sequence<I...>) { T t; (void)std::initializer_list<int>{(std::get<I>(t.value()) = Ref<E>::direct(p), 0)...}; return t; }
  static T direct(const uint8_t*& p) { return d(p, std::index_sequence_for<E...>()); }
  template <size_t... I> static T sm(Src& s, bool u, std::index_sequence<I...>) { T t; (void)std::initializer_list<int>{(std::get<I>(t.value()) = Ref<E>::sample(s, u || I + 1 < sizeof...(E)), 0)...}; return t; }
  static T sample(Src& s, bool u) { return sm(s, u, std::index_sequence_for<E...>()); }
};
template <class T> static T ref_from(const uint8_t* p, size_t n, std::true_type) { return Ref<T>::direct(p); }
template <class T> static T ref_from(const uint8_t* p, size_t n, std::false_type) { Src s{p, n, 16, le(p, 16)}; return Ref<T>::sample(s, false); }
// exact: 1 the bytes reserved by BitsNeeded and nothing more; 0 whole blocks as the DPF does.
extern "C" void bytes_to_values(int type, int exact) {
  auto body = [&](auto* tp) {
    using T = std::remove_pointer_t<decltype(tp)>;
    using H = di::ValueTypeHelper<T>;
    auto bits = di::BitsNeeded(H::ToValueType(), 40);
    CHECK_PROP(bits.ok() && *bits > 0, "no byte count for a supported type");
    if (!bits.ok()) return;
    constexpr bool direct = di::can_be_converted_directly_v<T>;
    constexpr int per = di::ElementsPerBlock<T>();
    size_t n = (*bits + 7) / 8;
    if (!exact || per > 1) n = (n + 15) / 16 * 16;
    std::vector<uint8_t> buf(n);
    for (size_t i = 0; i < n; i += 16) { char nm[3] = {'k', static_cast<char>('a' + i / 16), 0}; uint8_t t[16]; symx_make(t, 16, nm); memcpy(&buf[i], t, std::min<size_t>(16, n - i)); }
    absl::string_view sv(reinterpret_cast<char*>(buf.data()), n);
    auto got = di::ConvertBytesToArrayOf<T>(sv);
    if (direct) CHECK_PROP(per == std::max(1, 128 / *bits), "elements per block do not match the bits of the type");
    for (int i = 0; i < per; i++) {
      T want = ref_from<T>(buf.data() + i * (direct ? *bits / 8 : 0), n, std::integral_constant<bool, direct>());
      CHECK_PROP(V<T>::eq(got[i], want), "converted value differs from the definition");
      CHECK_PROP(canonical(got[i]), "converted value is not canonical");
    }
    auto again = di::ConvertBytesToArrayOf<T>(sv);
    CHECK_PROP(V<T>::eq(again[per - 1], got[per - 1]), "conversion is not deterministic");
    symx_reach("converted");
    V<T>::obs(got[per - 1], "value");
  };
  ON_TYPE(type)
}
template <class T> static void sample_one(int n, int slack, uint128 modulus, int base) {
  auto need = T::GetNumBytesRequired(n, 20);
  CHECK_PROP(need.ok() && *need == 16 + (n - 1) * base, "bytes required");
  if (!need.ok()) return;
  int len = *need + slack;
  std::vector<uint8_t> buf(std::max(len, 0));
  for (int i = 0; i < len; i += 16) { char nm[3] = {'k', static_cast<char>('a' + i / 16), 0}; uint8_t t[16]; symx_make(t, 16, nm); memcpy(&buf[i], t, std::min(16, len - i)); }
  std::vector<T> out(n);
  absl::Status st = T::SampleFromBytes(absl::string_view(reinterpret_cast<char*>(buf.data()), len), 20, absl::MakeSpan(out));
  if (slack < 0) { CHECK_PROP(st.code() == absl::StatusCode::kInvalidArgument, "too few bytes accepted"); symx_reach("refused"); return; }
  CHECK_PROP(st.ok(), "sampling refused");
  unsigned __int128 r = static_cast<unsigned __int128>(le(buf.data(), 16)), N = static_cast<unsigned __int128>(modulus);
  size_t pos = 16;
  for (int i = 0; i < n; i++) {
    uint128 want = r % N;
    CHECK_PROP(out[i].value() == static_cast<typename T::Base>(want), "sample differs from the definition");   // want < N

    if (i + 1 < n) { r = (base == 16 ? r / N : (r / N) << (8 * base % 128)) | static_cast<unsigned __int128>(le(buf.data() + pos, base)); pos += base; }
  }
  symx_reach("sampled");
}
extern "C" void sample_mod(int which, int n, int slack) {
  switch (which) {
    case 0: sample_one<MOD<u32, 4294967291u>>(n, slack, 4294967291u, 4); break;
    case 1: sample_one<MOD<u64, 1000000>>(n, slack, 1000000, 8); break;
    case 2: sample_one<MOD<u8, 251>>(n, slack, 251, 1); break;
    default: sample_one<MOD<u64, 18446744073709551557ull>>(n, slack, 18446744073709551557ull, 8);
  }
}
// Types and security parameters are compared and refused as documented.
extern "C" void type_equality() {
  struct M { static dpf::ValueType get(int k) { switch (k) {
    case 0: return di::ValueTypeHelper<u32>::ToValueType(); case 1: return di::ValueTypeHelper<u64>::ToValueType(); case 2: return di::ValueTypeHelper<XW<u32>>::ToValueType();
    case 3: return di::ValueTypeHelper<MOD<u32, 7>>::ToValueType(); case 4: return di::ValueTypeHelper<MOD<u32, 5>>::ToValueType(); case 5: return di::ValueTypeHelper<MOD<u64, 7>>::ToValueType();
    case 6: return di::ValueTypeHelper<TUP<u32, u64>>::ToValueType(); case 7: return di::ValueTypeHelper<TUP<u64, u32>>::ToValueType(); case 8: return di::ValueTypeHelper<TUP<u32>>::ToValueType();
    case 9: return di::ValueTypeHelper<TUP<u32, TUP<u64>>>::ToValueType(); case 10: return di::ValueTypeHelper<XW<u64>>::ToValueType(); case 11: return di::ValueTypeHelper<TUP<u32, MOD<u32, 7>>>::ToValueType();
    case 12: return di::ValueTypeHelper<TUP<u32, MOD<u32, 5>>>::ToValueType(); default: return dpf::ValueType(); } } };
  int a = symx_choice(14, "a"), b = symx_choice(14, "b");
  auto r = di::ValueTypesAreEqual(M::get(a), M::get(b));
  if (a == 13 || b == 13) { CHECK_PROP(!r.ok(), "an unset type is comparable"); symx_reach("unset"); return; }
  CHECK_PROP(r.ok() && *r == (a == b), "type comparison is wrong");
  symx_reach("compared");
}

// n * modulus * (n + 1) * parts <= 2^e, exactly.
static bool fits(uint128 modulus, uint64_t m, int e) {
  if (e < 0) return false;
  uint128 q = 0; uint64_t rem = 1;   // q = floor(2^i / m)
  for (int i = 0;; ++i) {
    if (rem >= m) { rem -= m; q |= 1; }
    if (i == e) return modulus <= q;
    if (q >> 127 != 0) return true;   // 2^128 and more from here on
    q <<= 1; rem <<= 1;
  }
}
// The statistical security of sampling: what cannot be reached is refused, the rest reserves the documented bytes.
extern "C" void security_levels(int form) {
  static const int ns[] = {1, 2, 3, 4, 7, 8, 64, 0, -1, 1000};
  static const int widths[] = {2, 3, 8, 31, 32, 33, 63, 64, 80, 127, 128, 1};
  const int n = ns[symx_choice(form == 0 ? 10 : 6, "n")], w = widths[symx_choice(form == 0 ? 12 : 11, "width")];
  const auto low = symx_choice(3, "modulus");   // largest, smallest, in the middle
  const uint128 top = uint128{1} << (w - 1), N = low == 0 ? top - 1 + top - (w > 8 ? 4 : 0) : low == 1 ? top : top + top / 3;
  int base = w <= 8 ? 8 : w <= 16 ? 16 : w <= 32 ? 32 : w <= 64 ? 64 : 128;
  int parts = 1, extra = 0;
  if (form == 0) { static const int bs[] = {0, 8, 16, 32, 64, 128, -1, 129, 256}; const auto b = symx_choice(9, "base"); if (b) base = bs[b]; }
  else { extra = static_cast<int>(symx_choice(4, "others")); if (form == 2) parts = extra + 1; }
  const uint64_t m = n > 0 ? uint64_t(n) * (n + 1) * parts : 1;
  int s0 = 131; while (s0 >= 0 && !fits(N, m, 131 - s0)) --s0;
  static const int off[] = {0, 1, -1}; const auto which = symx_choice(5, "security");
  const int sec = which == 3 ? 0 : which == 4 ? 128 : s0 + off[which];
  if (sec < 0) symx_stop();
  const bool ok = n > 0 && base > 0 && base <= 128 && (base == 128 || N <= (uint128{1} << base)) && sec <= s0;
  const int bytes = 16 + (n - 1) * (base / 8);
  symx_reach(ok ? "accepted" : "refused");
  if (form == 0) {
    auto r = di::IntModNBase::GetNumBytesRequired(n, base, N, sec);
    CHECK_PROP(r.ok() == ok, "sampling is accepted exactly when the security is reached");
    if (r.ok()) CHECK_PROP(*r == bytes, "bytes required"); else CHECK_PROP(r.status().code() == absl::StatusCode::kInvalidArgument, "error code");
    return;
  }
  dpf::ValueType t; auto* in = form == 2 ? t.mutable_tuple()->add_elements() : &t;
  for (int i = 0; i < n; ++i) {
    auto* e = in->mutable_tuple()->add_elements()->mutable_int_mod_n(); e->mutable_base_integer()->set_bitsize(base);
    e->mutable_modulus()->mutable_value_uint128()->set_high(absl::Uint128High64(N)); e->mutable_modulus()->mutable_value_uint128()->set_low(absl::Uint128Low64(N));
  }
  for (int i = 0; i < extra; ++i) t.mutable_tuple()->add_elements()->mutable_integer()->set_bitsize(32);
  auto r = di::BitsNeeded(t, sec);
  CHECK_PROP(r.ok() == ok, "a type is accepted exactly when the security is reached");
  if (r.ok()) CHECK_PROP(*r >= 8 * bytes + 32 * extra, "bits needed"); else CHECK_PROP(r.status().code() == absl::StatusCode::kInvalidArgument, "error code");
}
