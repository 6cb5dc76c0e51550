// C15: PIR inner product. C16: dense database.
#include "common.h"
#include <cstdlib>
#include "pir/dense_dpf_pir_database.h"
#include "pir/internal/inner_product_hwy.h"
namespace dpf = distributed_point_functions;
using Block = dpf::XorWrapper<absl::uint128>;
using Sel = std::vector<Block>;
static std::string sym_string(size_t n, const char* name) { std::string s(n, '\0'); if (n) symx_make(&s[0], n, name); return s; }
// Selection bits: the first n as given, everything after them arbitrary.
static Sel selection(const std::vector<bool>& bits, size_t blocks) {
  Sel s;
  for (size_t b = 0; b < blocks; ++b) {
    absl::uint128 v = 0; size_t used = 0;
    for (; used < 128 && b * 128 + used < bits.size(); ++used) if (bits[b * 128 + used]) v |= absl::uint128{1} << used;
    if (used < 128) { absl::uint128 r; symx_make(&r, 16, "unused_bits"); v |= used ? r << used : r; }
    s.push_back(Block(v));
  }
  return s;
}
static std::string expect(const std::vector<absl::string_view>& v, const std::vector<bool>& bits, size_t len) {
  std::string r(len, '\0');
  for (size_t i = 0; i < v.size(); ++i) if (bits[i]) for (size_t j = 0; j < v[i].size(); ++j) r[j] ^= v[i][j];
  return r;
}
// A record of n bytes whose address is 64k + off, at the very end of its allocation.
static absl::string_view record(size_t n, size_t off, const char* name) {
  if (!n) return absl::string_view();
  void* v = nullptr;
#ifdef SYMX_NATIVE
  if (posix_memalign(&v, 64, off + n)) abort();
#else
  v = aligned_alloc(64, off + n);
#endif
  char* q = static_cast<char*>(v) + off;
  symx_make(q, n, name); return absl::string_view(q, n);
}
static std::vector<bool> pattern(int p, size_t n, int q) {
  std::vector<bool> b(n);
  for (size_t i = 0; i < n; ++i) switch (p) {
    case 0: b[i] = false; break; case 1: b[i] = true; break; case 2: b[i] = (i + q) % 2; break;
    case 3: b[i] = i == n - 1; break; case 4: b[i] = i == 0 || i == 127 || i == 128 || i == 63 || i == 64; break;
    default: b[i] = (i * 7 + q * 3 + i / 5) % 3 == 0; break;
  }
  return b;
}
using F = absl::StatusOr<std::vector<std::string>> (*)(absl::Span<const absl::string_view>, absl::Span<const Sel>, int64_t);
static void check_product(F f, const std::vector<absl::string_view>& v, const std::vector<std::vector<bool>>& bits, size_t blocks, size_t max) {
  std::vector<Sel> sel; for (auto& b : bits) sel.push_back(selection(b, blocks));
  auto r = f(v, sel, static_cast<int64_t>(max)); CHECK_PROP(r.ok(), "the inner product is computed"); if (!r.ok()) return;
  CHECK_PROP(r->size() == bits.size(), "one result per query");
  for (size_t q = 0; q < bits.size(); ++q) {
    const std::string want = expect(v, bits[q], max);
    CHECK_PROP((*r)[q].size() == max, "results have the size of the longest record");
    CHECK_PROP(symx_eq((*r)[q].data(), want.data(), max), "the result is the xor of the selected records");
  }
  symx_reach("product"); symx_observe((*r)[0].data(), max < 16 ? max : 16, "result");
}
// All selections of n records of one size and alignment for nq queries; impl 0: dispatching, 1: portable.
extern "C" void product_all(int impl, int n, int nq, int size, int off) {
  std::vector<absl::string_view> v; size_t max = 0;
  for (int i = 0; i < n; ++i) { v.push_back(record(static_cast<size_t>(size + i), static_cast<size_t>(off), "record")); max = std::max(max, v.back().size()); }
  std::vector<std::vector<bool>> bits;
  for (int q = 0; q < nq; ++q) { const uint64_t b = choice_bits(n, "bits"); std::vector<bool> x; for (int i = 0; i < n; ++i) x.push_back(b >> i & 1); bits.push_back(x); }
  check_product(impl ? dpf::pir_internal::InnerProductNoHwy : dpf::pir_internal::InnerProduct, v, bits, 1, max ? max : 1);
}
// One record (and a neighbour) of every length up to maxlen at every alignment of the list.
extern "C" void product_sizes(int impl, int from, int to) {
  static const size_t kOff[] = {0, 1, 8, 16, 32, 48, 63};
  const size_t len = static_cast<size_t>(from) + symx_choice(static_cast<uint64_t>(to - from), "len"), off = kOff[symx_choice(7, "offset")], extra = symx_choice(2, "padding") * 5;
  std::vector<absl::string_view> v = {record(len, off, "record"), record(len / 2, (off + 16) % 64, "record"), record(len, 0, "record")};
  check_product(impl ? dpf::pir_internal::InnerProductNoHwy : dpf::pir_internal::InnerProduct, v, {{true, true, false}, {true, false, true}, {false, false, false}}, 1, len + extra ? len + extra : 1);
}
// Many records, selection patterns, more blocks than needed.
extern "C" void product_many(int impl, int n, int size, int nq) {
  std::vector<absl::string_view> v; size_t max = 1;
  for (int i = 0; i < n; ++i) { const size_t len = static_cast<size_t>(i % 3 == 1 && size ? i % size : size); v.push_back(record(len, static_cast<size_t>(i % 4) * 16 % 64, "record")); max = std::max(max, len); }
  const int p = static_cast<int>(symx_choice(6, "pattern")), extra = static_cast<int>(symx_choice(2, "extra_blocks"));
  std::vector<std::vector<bool>> bits; for (int q = 0; q < nq; ++q) bits.push_back(pattern((p + q) % 6, static_cast<size_t>(n), q));
  check_product(impl ? dpf::pir_internal::InnerProductNoHwy : dpf::pir_internal::InnerProduct, v, bits, static_cast<size_t>((n + 127) / 128 + extra), max);
}
extern "C" void product_refuse(int n) {
  std::vector<absl::string_view> v; for (int i = 0; i < n; ++i) v.push_back(record(3, 0, "record"));
  const size_t need = (static_cast<size_t>(n) + 127) / 128;
  const size_t a = symx_choice(need + 3, "blocks_a"), b = symx_choice(need + 3, "blocks_b"); const int64_t maxs[] = {3, 2, 0, -1, 4, INT64_MIN}; const int64_t max = maxs[symx_choice(6, "max_size")]; const int queries = static_cast<int>(symx_choice(3, "queries"));
  std::vector<Sel> sel; if (queries > 0) sel.push_back(Sel(a)); if (queries > 1) sel.push_back(Sel(b));
  auto r = dpf::pir_internal::InnerProduct(v, sel, max);
  const bool ok = queries == 0 || (a >= need && (queries == 1 || a == b) && max >= 3);
  if (queries == 0 || (n == 0 && max > 0)) { if (queries == 0) CHECK_PROP(r.ok() && r->empty(), "no queries, no results"); symx_reach("none"); return; }
  CHECK_PROP(r.ok() == ok, "accepted exactly when every selection has the same sufficient length and no record is longer than the maximum");
  if (r.ok()) symx_reach("accepted"); else { CHECK_PROP(r.status().code() == absl::StatusCode::kInvalidArgument, "InvalidArgument"); symx_reach("refused"); }
}
// ---- C16 ----
static void check_db(dpf::DenseDpfPirDatabase::Interface& db, const std::vector<std::string>& recs, int nq) {
  CHECK_PROP(db.size() == recs.size() && db.num_selection_bits() == recs.size(), "the database reports the number of records");
  auto& dense = static_cast<dpf::DenseDpfPirDatabase&>(db); size_t max = 0;
  for (auto& r : recs) max = std::max(max, r.size());
  CHECK_PROP(dense.max_value_size_in_bytes() == max, "maximum record size");
  CHECK_PROP(dense.content().size() == recs.size(), "content"); if (dense.content().size() != recs.size()) return;
  for (size_t i = 0; i < recs.size(); ++i) {
    CHECK_PROP(dense.content()[i].size() == recs[i].size(), "record size kept");
    if (!recs[i].empty() && dense.content()[i].size() == recs[i].size()) CHECK_PROP(symx_eq(dense.content()[i].data(), recs[i].data(), recs[i].size()), "record kept in insertion order");
  }
  const size_t blocks = (recs.size() + 127) / 128; const int p = static_cast<int>(symx_choice(6, "pattern")); const size_t extra = p == 2 ? 1 : 0;
  std::vector<absl::string_view> v(recs.begin(), recs.end()); std::vector<Sel> sel; std::vector<std::vector<bool>> bits;
  for (int q = 0; q < nq; ++q) { bits.push_back(pattern((p + q) % 6, recs.size(), q)); sel.push_back(selection(bits.back(), blocks + extra)); }
  auto r = db.InnerProductWith(sel);
  if (max == 0) { CHECK_PROP(!r.ok() && r.status().code() == absl::StatusCode::kInvalidArgument, "a database of empty records is refused"); symx_reach("all_empty"); return; }
  CHECK_PROP(r.ok(), "inner product"); if (!r.ok()) return;
  CHECK_PROP(r->size() == static_cast<size_t>(nq), "one result per query");
  for (int q = 0; q < nq; ++q) { const std::string want = expect(v, bits[q], max); CHECK_PROP((*r)[q].size() == max, "result size"); CHECK_PROP(symx_eq((*r)[q].data(), want.data(), max), "xor of the selected records in insertion order"); }
  if (blocks) {
    std::vector<Sel> shorter = {Sel(blocks - 1)}; CHECK_PROP(!db.InnerProductWith(shorter).ok(), "a selection shorter than the database is refused");
    auto uneven = sel; uneven.push_back(Sel(blocks + extra + 1)); CHECK_PROP(!db.InnerProductWith(uneven).ok(), "selections of different lengths are refused");
  }
  auto none = db.InnerProductWith({}); CHECK_PROP(none.ok() && none->empty(), "no queries");
  symx_reach("product");
}
static const size_t kSizes[] = {5, 0, 16, 17, 1, 32, 33, 64};
// n inserts with arbitrary contents, `sizes` possible record sizes; a clone is taken after any number of them.
extern "C" void dense_build(int n, int sizes, int nq) {
  dpf::DenseDpfPirDatabase::Builder b; std::vector<std::string> recs, crecs; std::unique_ptr<dpf::DenseDpfPirDatabase::Interface::Builder> clone;
  const int when = static_cast<int>(symx_choice(n + 2, "clone_after")), which = static_cast<int>(symx_choice(2, "which"));
  for (int i = 0; i <= n; ++i) {
    if (i == when) { clone = b.Clone(); crecs = recs; }
    if (i < n) { recs.push_back(sym_string(kSizes[symx_choice(sizes, "size")], "record")); b.Insert(recs.back()); }
  }
  if (which && clone) {   // use the clone, extended by one record, after the original was built
    auto db = b.Build(); CHECK_PROP(db.ok(), "built"); crecs.push_back(sym_string(9, "record")); clone->Insert(crecs.back());
    auto db2 = clone->Build(); CHECK_PROP(db2.ok(), "the clone is built"); if (db2.ok()) check_db(**db2, crecs, nq); return;
  }
  if (clone) { clone->Insert("unrelated"); auto db2 = clone->Build(); CHECK_PROP(db2.ok() && (*db2)->size() == crecs.size() + 1, "clone size"); }
  auto db = b.Build(); CHECK_PROP(db.ok(), "built"); if (!db.ok()) return;
  auto again = b.Build(); CHECK_PROP(again.status().code() == absl::StatusCode::kFailedPrecondition, "a second Build is refused");
  if (auto copy = b.Clone()) CHECK_PROP(copy->Build().status().code() == absl::StatusCode::kFailedPrecondition, "a clone of a built builder is built");
  check_db(**db, recs, nq);
  if (when == n + 1) {   // after Clear the builder starts afresh
    b.Clear(); std::vector<std::string> r2 = {sym_string(20, "record"), sym_string(3, "record")}; b.Insert(r2[0]).Insert(r2[1]);
    auto d3 = b.Build(); CHECK_PROP(d3.ok(), "rebuilt after Clear"); if (d3.ok()) { symx_reach("cleared"); check_db(**d3, r2, 1); }
  }
}
// Clear in the middle of the inserts.
extern "C" void dense_clear(int n) {
  dpf::DenseDpfPirDatabase::Builder b; std::vector<std::string> recs;
  for (int i = 0; i < n; ++i) {
    if (symx_choice(2, "clear")) { b.Clear(); recs.clear(); }
    recs.push_back(sym_string(kSizes[symx_choice(3, "size")], "record")); b.Insert(recs.back());
  }
  auto db = b.Build(); CHECK_PROP(db.ok(), "built"); if (db.ok()) check_db(**db, recs, 1);
}
extern "C" void dense_many(int n, int nq) {
  dpf::DenseDpfPirDatabase::Builder b; std::vector<std::string> recs; const int shape = static_cast<int>(symx_choice(3, "shape"));
  for (int i = 0; i < n; ++i) { recs.push_back(sym_string(shape == 0 ? 3 : shape == 1 ? static_cast<size_t>(i % 19) : 16, "record")); b.Insert(recs.back()); }
  auto db = b.Build(); CHECK_PROP(db.ok(), "built"); if (db.ok()) check_db(**db, recs, nq);
}
