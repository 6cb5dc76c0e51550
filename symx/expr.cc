#include "expr.h"
#include "../rt/uf_default.h"
#include <llvm/ADT/Hashing.h>
#include <llvm/ADT/SmallString.h>
#include <algorithm>
#include <unordered_set>
#include <cassert>
#include <deque>

namespace symx {
std::vector<SymInfo> g_syms;
std::vector<UfInfo> g_ufs;
size_t g_nexprs = 0;
const std::set<E>* g_pcset = nullptr;
const std::map<E, std::vector<std::pair<unsigned, E>>>* g_ext = nullptr;
bool g_condSums = true;
static int known(E c) {   // 1 true, 0 false, -1 unknown
  if (!g_pcset || g_pcset->empty() || !c->bl) return -1;
  if (g_pcset->count(c)) return 1;
  if (g_pcset->count(mkNot(c))) return 0;
  return -1;
}

static size_t hcomb(size_t a, size_t b) { return a * 0x9E3779B97F4A7C15ull + (b ^ (b >> 29)) + 0x1234567; }
static size_t hashAP(const APInt& a) { return (size_t)llvm::hash_value(a); }

static bool sameExpr(const Expr& a, const Expr& b) {
  if (a.k != b.k || a.w != b.w || a.name != b.name || a.ops != b.ops) return false;
  if (a.k == K_CONST || a.k == K_LIN || a.k == K_SUM) {
    if (a.c.getBitWidth() != b.c.getBitWidth() || a.c != b.c) return false;
  }
  if (a.lin.size() != b.lin.size() || a.sum.size() != b.sum.size()) return false;
  for (size_t i = 0; i < a.lin.size(); i++)
    if (a.lin[i].leaf != b.lin[i].leaf || a.lin[i].shift != b.lin[i].shift || a.lin[i].mask != b.lin[i].mask) return false;
  for (size_t i = 0; i < a.sum.size(); i++)
    if (a.sum[i].first != b.sum[i].first || a.sum[i].second != b.sum[i].second) return false;
  return true;
}
struct HashE { size_t operator()(E e) const { return e->hash; } };
struct EqE { bool operator()(E a, E b) const { return sameExpr(*a, *b); } };
static std::unordered_set<E, HashE, EqE> g_table;
static std::deque<Expr> g_arena;
static std::shared_ptr<const std::vector<int>> g_emptySupp = std::make_shared<std::vector<int>>();

static E intern(Expr& x) {
  size_t h = hcomb(x.k, x.w);
  h = hcomb(h, (size_t)x.name);
  for (E o : x.ops) h = hcomb(h, o->id);
  if (x.k == K_CONST || x.k == K_LIN || x.k == K_SUM) h = hcomb(h, hashAP(x.c));
  for (auto& t : x.lin) h = hcomb(hcomb(hcomb(h, t.leaf->id), (size_t)t.shift), hashAP(t.mask));
  for (auto& t : x.sum) h = hcomb(hcomb(h, t.first->id), hashAP(t.second));
  x.hash = h;
  auto it = g_table.find(&x);
  if (it != g_table.end()) return *it;
  x.id = (uint32_t)g_arena.size();
  // support
  std::vector<E> kids = x.ops;
  for (auto& t : x.lin) kids.push_back(t.leaf);
  for (auto& t : x.sum) kids.push_back(t.first);
  if (kids.empty()) {
    if (x.k == K_SYM) x.supp = std::make_shared<std::vector<int>>(1, 2 * x.name);
    else x.supp = g_emptySupp;
  } else {
    std::shared_ptr<const std::vector<int>> s = kids[0]->supp;
    for (size_t i = 1; i < kids.size(); i++) {
      auto& o = kids[i]->supp;
      if (o == s || o->empty()) continue;
      if (std::includes(s->begin(), s->end(), o->begin(), o->end())) continue;
      auto m = std::make_shared<std::vector<int>>();
      std::set_union(s->begin(), s->end(), o->begin(), o->end(), std::back_inserter(*m));
      s = m;
    }
    if (x.k == K_UF) {
      int u = 2 * x.name + 1;
      if (!std::binary_search(s->begin(), s->end(), u)) {
        auto m = std::make_shared<std::vector<int>>(*s);
        m->insert(std::lower_bound(m->begin(), m->end(), u), u);
        s = m;
      }
    }
    x.supp = s;
  }
  x.uf = x.k == K_UF;
  for (E k : kids) x.uf = x.uf || k->uf;
  if (x.w == 1 && x.uf) {
    if (x.k == K_LIN) { for (auto& t : x.lin) if ((t.leaf->w > 1 && t.leaf->uf) || t.leaf->bl) x.bl = true; }
    else if (x.k == K_AND) x.bl = x.ops[0]->bl && x.ops[1]->bl;
    else if (x.k == K_UF || x.k == K_OPAQUE || x.k == K_ITE) x.bl = true;
  }
  g_arena.push_back(std::move(x));
  E e = &g_arena.back();
  g_table.insert(e);
  g_nexprs = g_arena.size();
  return e;
}

E mkConst(const APInt& v) { Expr x; x.k = K_CONST; x.w = v.getBitWidth(); x.c = v; return intern(x); }
E mkConst(unsigned w, uint64_t v) { return mkConst(APInt(w, v)); }
E mkTrue() { static E e = mkConst(1, 1); return e; }
E mkFalse() { static E e = mkConst(1, 0); return e; }
APInt ufDefault(const std::string& name, const APInt& in, unsigned outw) {
  std::vector<uint8_t> b((in.getBitWidth() + 7) / 8), o((outw + 7) / 8);
  APInt x = in.zextOrTrunc((unsigned)b.size() * 8);
  for (size_t i = 0; i < b.size(); i++) b[i] = (uint8_t)x.extractBitsAsZExtValue(8, (unsigned)i * 8);
  uf_default(name.c_str(), b.data(), b.size(), o.data(), o.size());
  APInt r(outw, 0);
  for (size_t i = 0; i < o.size(); i++) r.insertBits(APInt(8, o[i]), (unsigned)i * 8);
  return r;
}
E mkSym(const std::string& name, unsigned w) {
  // Names are unique within a path; paths may share a symbol.
  static std::map<std::pair<std::string, unsigned>, E> ids;
  auto& slot = ids[{name, w}];
  if (slot) return slot;
  g_syms.push_back({name, w});
  Expr x; x.k = K_SYM; x.w = w; x.name = (int)g_syms.size() - 1; return slot = intern(x);
}
static void registerAbbrev(E in);
E mkUF(const std::string& name, E in, unsigned outw) {
  if (in->k == K_CONST && name.compare(0, 4, "aes_") == 0) return mkConst(ufDefault(name, in->c, outw));
  static std::map<std::tuple<std::string, unsigned, unsigned>, int> ids;
  auto key = std::make_tuple(name, in->w, outw);
  auto it = ids.find(key);
  int id;
  if (it == ids.end()) { id = (int)g_ufs.size(); ids[key] = id; g_ufs.push_back({name, in->w, outw}); }
  else id = it->second;
  if (name == "aes_round_sub") registerAbbrev(in);
  Expr x; x.k = K_UF; x.w = outw; x.name = id; x.ops = {in}; return intern(x);
}
static E mkNode(K k, unsigned w, std::initializer_list<E> ops) {
  Expr x; x.k = k; x.w = w; x.ops = ops; return intern(x);
}

// ---- LIN ----
struct LinB {
  unsigned w; APInt c; std::vector<Term> t;
  explicit LinB(unsigned w_) : w(w_), c(w_, 0) {}
};
static LinB toLin(E e) {
  LinB l(e->w);
  if (e->k == K_CONST) l.c = e->c;
  else if (e->k == K_LIN) { l.c = e->c; l.t = e->lin; }
  else l.t.push_back({e, 0, APInt::getAllOnes(e->w)});
  return l;
}
static bool termLess(const Term& a, const Term& b) {
  if (a.leaf != b.leaf) return a.leaf->id < b.leaf->id;
  return a.shift < b.shift;
}
static const unsigned MASKW = 4096;
static E modIte(E c, E a, E b);
static bool isMaskLeaf(E e) { return e->k == K_ITE && e->w == MASKW; }
static E fromSum(unsigned w, APInt c, std::vector<std::pair<E, APInt>>& in);
static APInt usedBits(const Term& t) {   // bits of the leaf that the term reads
  unsigned W = std::max<unsigned>(t.leaf->w, t.mask.getBitWidth()) + (unsigned)std::abs(t.shift);
  APInt m = t.mask.zext(W);
  m = t.shift >= 0 ? m.lshr(t.shift) : m.shl(-t.shift);
  return m.trunc(t.leaf->w);
}
static E mkAndC(E a, const APInt& m);
// the 128-bit sum with the same low 64 bits that only reads low halves
static std::unordered_map<E, E> g_lowCanon;
static E lowCanon(E y) {
  auto it = g_lowCanon.find(y);
  if (it != g_lowCanon.end()) return it->second;
  g_lowCanon[y] = y;
  auto pcs = g_pcset; auto ex = g_ext; g_pcset = nullptr; g_ext = nullptr;   // memoised: nothing path dependent
  struct R { decltype(pcs) p; decltype(ex) e; ~R() { g_pcset = p; g_ext = e; } } restore{pcs, ex};
  APInt lo = APInt::getLowBitsSet(128, 64);
  std::vector<std::pair<E, APInt>> v;
  APInt c = y->c;
  for (auto& p : y->sum) {
    E e = mkAndC(p.first, lo);
    if (e->k == K_LIN && e->c.isZero() && e->lin.size() == 1 && e->lin[0].shift == 0 && e->lin[0].mask == lo && e->lin[0].leaf->k == K_SUM && e->lin[0].leaf->w == 128) {
      E x = lowCanon(e->lin[0].leaf);
      if (x->k == K_SUM) { c += x->c * p.second; for (auto& q : x->sum) v.push_back({q.first, (q.second * p.second).trunc(64).sext(128)}); continue; }
      e = mkAndC(x, lo);
    }
    v.push_back({e, p.second.trunc(64).sext(128)});
  }
  for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) if (v[i].first == v[j].first) { v[j].second = (v[j].second + v[i].second).trunc(64).sext(128); v[i].second = APInt(128, 0); break; }
  E x = fromSum(128, c.trunc(64).sext(128), v);
  g_lowCanon[y] = x; g_lowCanon[x] = x;
  return x;
}
static E fromLin(LinB& l) {
  for (size_t i = 0; i < l.t.size(); i++) {
    if (!isMaskLeaf(l.t[i].leaf)) continue;
    l.t[i].shift = 0;                       // every bit of a mask leaf is the same
    bool merged = false;
    for (size_t j = 0; j < i && !merged; j++) {   // XOR of masks = mask of the XOR
      if (!isMaskLeaf(l.t[j].leaf) || !l.t[j].mask.intersects(l.t[i].mask)) continue;
      APInt o = l.t[j].mask & l.t[i].mask;
      E m = mkMask(mkXor(l.t[j].leaf->ops[0], l.t[i].leaf->ops[0]), l.w);
      l.t[j].mask &= ~o; l.t[i].mask &= ~o;
      LinB ml = toLin(m);
      l.c ^= ml.c & o;
      for (auto& q : ml.t) l.t.push_back({q.leaf, q.shift, q.mask & o});
      merged = true;
    }
    if (merged) {
      for (size_t j = 0; j < l.t.size();) if (l.t[j].mask.isZero()) l.t.erase(l.t.begin() + j); else j++;
      i = (size_t)-1; continue;             // start over
    }
    if (!l.t[i].mask.isPowerOf2()) continue;
    // a single bit of a mask is the condition itself
    unsigned k = l.t[i].mask.logBase2();
    LinB c = toLin(l.t[i].leaf->ops[0]);
    l.t.erase(l.t.begin() + i); i--;
    if (c.c.isOne()) l.c.flipBit(k);
    for (auto& q : c.t) l.t.push_back({q.leaf, q.shift + (int)k, APInt::getOneBitSet(l.w, k)});
  }
  std::sort(l.t.begin(), l.t.end(), termLess);
  std::vector<Term> r;
  for (auto& t : l.t) {
    if (!r.empty() && r.back().leaf == t.leaf && r.back().shift == t.shift) r.back().mask ^= t.mask;
    else r.push_back(std::move(t));
    if (r.back().mask.isZero()) r.pop_back();
  }
  for (size_t i = 0; i < r.size(); i++) {   // halves of 128-bit sums
    E y = r[i].leaf;
    if (y->k != K_SUM || y->w != 128) continue;
    APInt u = usedBits(r[i]);
    if (!u.intersects(APInt::getHighBitsSet(128, 64))) {
      E x = lowCanon(y);
      if (x == y) continue;
      LinB m(l.w); m.c = l.c;
      for (size_t j = 0; j < r.size(); j++) if (j != i) m.t.push_back(r[j]);
      LinB q = toLin(x);
      auto mv = [&](APInt v) { v = v.zext(std::max(l.w, 128u) + 128); v = r[i].shift >= 0 ? v.shl(r[i].shift) : v.lshr(-r[i].shift); return v.trunc(l.w); };
      m.c ^= mv(q.c) & r[i].mask;
      for (auto& t : q.t) { APInt k = mv(t.mask) & r[i].mask; if (!k.isZero()) m.t.push_back({t.leaf, t.shift + r[i].shift, k}); }
      return fromLin(m);
    }
    if (u.intersects(APInt::getLowBitsSet(128, 64))) continue;
    for (size_t j = 0; j < r.size(); j++)
      if (j != i && r[j].shift == r[i].shift && r[j].leaf->w == 128 && r[j].leaf->k == K_SUM && r[j].leaf == lowCanon(y) && !usedBits(r[j]).intersects(APInt::getHighBitsSet(128, 64))) {
        LinB m(l.w); m.c = l.c;
        for (size_t k = 0; k < r.size(); k++) if (k != i && k != j) m.t.push_back(r[k]);
        m.t.push_back({y, r[i].shift, r[i].mask | r[j].mask});
        return fromLin(m);
      }
  }
  if (r.empty()) return mkConst(l.c);
  if (r.size() == 1 && l.c.isZero() && r[0].shift == 0 && r[0].leaf->w == l.w && r[0].mask.isAllOnes()) return r[0].leaf;
  if (g_ext && r.size() == 1 && l.c.isZero() && r[0].shift == 0) {
    // zero-extension of the low part of a value whose high part is known to be zero
    auto it = g_ext->find(r[0].leaf);
    if (it != g_ext->end()) for (auto& x : it->second)
      if (x.second->w == l.w && r[0].mask == APInt::getLowBitsSet(l.w, x.first)) return x.second;
  }
  Expr x; x.k = K_LIN; x.w = l.w; x.c = l.c; x.lin = std::move(r);
  return intern(x);
}
// Reduces the zero-form of a goal equality modulo known equalities (GF(2)
// elimination at word level). Returns the reduced zero-form.
static bool zeroForm(E eq, LinB& l) {
  if (eq->k != K_EQ) return false;
  l = toLin(mkXor(eq->ops[0], eq->ops[1]));
  return true;
}
static E trunc64d(E a) {   // low 64 bits, distributed over sums
  if (a->w <= 64) return a;
  E s = nullptr;
  if (a->k == K_SUM) s = a;
  else if (a->k == K_LIN && a->lin.size() == 1 && a->c.isZero() && a->lin[0].shift == 0 && a->lin[0].leaf->w == a->w && a->lin[0].leaf->k == K_SUM && a->lin[0].mask.trunc(64).isAllOnes()) s = a->lin[0].leaf;
  if (!s) return mkTrunc(a, 64);
  std::vector<std::pair<E, APInt>> v;
  for (auto& p : s->sum) v.push_back({trunc64d(p.first), p.second.trunc(64)});
  return fromSum(64, s->c.trunc(64), v);
}
// 128-bit sum equalities modulo values whose high half is known to be zero
bool impliedSumEq(E goal, const std::map<E, std::vector<std::pair<unsigned, E>>>& ext, const std::vector<E>& pc) {
  if (goal->k == K_EQ && goal->ops[0]->w == 64) {   // halves of 128-bit values: enough that the values are equal
    LinB g(64); if (!zeroForm(goal, g) || !g.c.isZero() || g.t.empty() || g.t.size() > 2) return false;
    for (auto& t : g.t) if (t.leaf->w != 128 || t.shift != g.t[0].shift || (t.shift != 0 && t.shift != -64) || !t.mask.isAllOnes()) return false;
    E q = mkEq(g.t[0].leaf, g.t.size() == 2 ? g.t[1].leaf : mkConst(128, 0));
    return q->isConst() ? q->c.isOne() : impliedSumEq(q, ext, pc);
  }
  if (goal->k != K_EQ || goal->ops[0]->w != 128) return false;
  std::vector<E> zs;   // 128-bit terms that are zero on this path
  for (E p : pc) if (p->k == K_EQ && p->ops[0]->w == 64) zs.push_back(mkShlC(mkZExt(mkSub(p->ops[0], p->ops[1]), 128), 64));
  E cur = mkSub(goal->ops[0], goal->ops[1]);
  std::vector<std::pair<E, E>> xs;
  for (auto& p : ext) for (auto& q : p.second) if (q.second->w == 128 && q.first == 64) xs.push_back({trunc64d(q.second), q.second});
  for (int rounds = 0; rounds < 32; rounds++) {
    if (cur->isConst()) return cur->c.isZero();
    std::vector<std::pair<E, APInt>> v; APInt c(128, 0);
    if (cur->k == K_SUM) { v = cur->sum; c = cur->c; } else v.push_back({cur, APInt(128, 1)});
    bool ch = false;
    for (auto& p : v) {
      E t = p.first;
      if (t->k != K_LIN || t->lin.size() != 1 || !t->c.isZero() || t->lin[0].shift != 0 || t->lin[0].mask != APInt::getLowBitsSet(128, 64)) continue;
      E lo = trunc64d(t);
      for (auto& x : xs) if (x.first == lo && x.second != t) { p.first = x.second; ch = true; break; }
    }
    if (ch) { cur = fromSum(128, c, v); continue; }
    size_t best = v.size(); E be = nullptr;
    for (E z : zs) for (int k = 0; k < 2; k++) {
      E n = k ? mkSub(cur, z) : mkAdd(cur, z);
      size_t m = n->isConst() ? 0 : n->k == K_SUM ? n->sum.size() : 1;
      if (m < best) { best = m; be = n; }
    }
    if (!be) return false;
    cur = be;
  }
  return false;
}
bool impliedEq(E goal, const std::vector<E>& pc) {
  LinB g(goal->w); if (!zeroForm(goal, g)) return false;
  E cur = fromLin(g);
  std::vector<LinB> ps;
  for (E p : pc) { LinB l(p->w); if (p->k == K_EQ && zeroForm(p, l) && !l.t.empty()) ps.push_back(std::move(l)); }
  for (int rounds = 0; rounds < 64; rounds++) {
    if (cur->isConst()) return cur->c.isZero();
    LinB gl = toLin(cur); size_t best = gl.t.size(); E bestE = nullptr;
    for (auto& p : ps) {
      std::set<int> tried;
      for (auto& gt : gl.t) for (auto& pt : p.t) {
        if (gt.leaf != pt.leaf) continue;
        int sh = gt.shift - pt.shift;
        if (!tried.insert(sh).second) continue;
        // shift p by sh into the window of the goal; only whole-form use is sound when no bit falls out, but dropping
        // bits of a known-zero form keeps it zero, so truncation is fine as well
        LinB q = gl;
        unsigned W = std::max(gl.w, p.w) + std::abs(sh);
        auto mv = [&](APInt m) { m = m.zext(W); m = sh >= 0 ? m.shl(sh) : m.lshr(-sh); return m.trunc(gl.w); };
        q.c = mv(p.c) ^ gl.c;
        q.t = gl.t;
        for (auto& t : p.t) { APInt m = mv(t.mask); if (!m.isZero()) q.t.push_back({t.leaf, t.shift + sh, m}); }
        E e = fromLin(q);
        size_t n = e->isConst() ? 0 : toLin(e).t.size();
        if (n < best) { best = n; bestE = e; }
      }
    }
    if (!bestE) return false;
    cur = bestE;
  }
  return false;
}
// Values that were fed to a block cipher are abbreviated when they are XORed
// again later (feed-forward): the abbreviation is an identity, it only keeps
// the linear forms from growing with every level of a PRG tree.
static std::unordered_map<E, E> g_abbrev;
static E stripC(E e) {
  if (e->k != K_LIN || e->c.isZero()) return e;
  LinB l(e->w); l.t = e->lin;
  return fromLin(l);
}
E abbrev(E e) {
  if (e->w != 128 || g_abbrev.empty() || e->k != K_LIN || e->lin.size() < 2) return e;
  auto it = g_abbrev.find(stripC(e));
  if (it == g_abbrev.end()) return e;
  if (e->c.isZero()) return it->second;
  LinB l = toLin(it->second); l.c ^= e->c;
  return fromLin(l);
}
static void registerAbbrev(E in) {
  if (in->k != K_LIN || in->w != 128 || in->lin.size() < 2) return;
  E s = stripC(in);
  if (g_abbrev.count(s)) return;
  E op = mkOpaque(s);
  g_abbrev[s] = op;
}
// Long sums of pseudorandom bits that act as conditions are abbreviated as well
// (up to their constant, so that complementary bits stay complementary).
static std::unordered_map<E, E> g_abbrevBit;
size_t g_bitLimit = 1000000;
E abbrevBit(E c) {
  if (c->w != 1 || !c->bl || c->k != K_LIN || c->lin.size() <= g_bitLimit) return c;
  E s = stripC(c);
  auto it = g_abbrevBit.find(s);
  if (it == g_abbrevBit.end()) it = g_abbrevBit.emplace(s, mkOpaque(s)).first;
  if (c->c.isZero()) return it->second;
  return mkNot(it->second);
}
E mkXor(E a, E b) {
  if (a->isConst() && b->isConst()) return mkConst(a->c ^ b->c);
  if (a->isConst() && a->c.isZero()) return b;
  if (b->isConst() && b->c.isZero()) return a;
  if (!a->isConst() && !b->isConst()) { a = abbrev(a); b = abbrev(b); }
  LinB l = toLin(a), m = toLin(b);
  l.c ^= m.c;
  for (auto& t : m.t) l.t.push_back(std::move(t));
  return fromLin(l);
}
E mkNot(E a) { return mkXor(a, mkConst(APInt::getAllOnes(a->w))); }
static E mkAndC(E a, const APInt& m) {
  if (m.isZero()) return mkConst(a->w, 0);
  if (m.isAllOnes()) return a;
  LinB l = toLin(a);
  l.c &= m;
  for (auto& t : l.t) t.mask &= m;
  return fromLin(l);
}
APInt possibleBits(E e) {  // bits which may be one
  if (e->k == K_OPAQUE) return possibleBits(e->ops[0]);
  if (e->k == K_CONST) return e->c;
  if (e->k == K_LIN) {
    APInt m = e->c;
    for (auto& t : e->lin) {
      APInt tm = t.mask;
      m |= tm;
    }
    return m;
  }
  if (e->k == K_ITE) return possibleBits(e->ops[1]) | possibleBits(e->ops[2]);
  if (e->k == K_UREM && e->ops[1]->isConst()) {
    unsigned b = e->ops[1]->c.getActiveBits();
    return APInt::getLowBitsSet(e->w, std::min<unsigned>(b, e->w));
  }
  if (e->k == K_UDIV && e->ops[1]->isConst()) {
    APInt mx = possibleBits(e->ops[0]);
    return APInt::getLowBitsSet(e->w, mx.getActiveBits());
  }
  if (e->k == K_LSHR || e->k == K_AND) {
    if (e->k == K_AND) return possibleBits(e->ops[0]) & possibleBits(e->ops[1]);
    return APInt::getLowBitsSet(e->w, possibleBits(e->ops[0]).getActiveBits());
  }
  if (e->k == K_OR) return possibleBits(e->ops[0]) | possibleBits(e->ops[1]);
  return APInt::getAllOnes(e->w);
}
static APInt maxVal(E e, int depth) {
  if (e->k == K_CONST) return e->c;
  if (depth > 0 && e->k == K_ITE) {
    APInt a = maxVal(e->ops[1], depth - 1), b = maxVal(e->ops[2], depth - 1);
    return a.ugt(b) ? a : b;
  }
  if (e->k == K_UREM && e->ops[1]->isConst() && !e->ops[1]->c.isZero()) {
    APInt a = e->ops[1]->c - 1, b = depth > 0 ? maxVal(e->ops[0], depth - 1) : APInt::getAllOnes(e->w);
    return a.ult(b) ? a : b;
  }
  if (e->k == K_UDIV && e->ops[1]->isConst() && !e->ops[1]->c.isZero() && depth > 0)
    return maxVal(e->ops[0], depth - 1).udiv(e->ops[1]->c);
  if (e->k == K_SUM && depth > 0) {
    APInt acc = e->c; bool ov = false;
    for (auto& p : e->sum) {
      bool o; APInt m = maxVal(p.first, depth - 1).umul_ov(p.second, o); ov |= o;
      acc = acc.uadd_ov(m, o); ov |= o;
    }
    if (!ov) return acc;
  }
  if (e->k == K_LIN && e->lin.size() == 1 && e->c.isZero() && depth > 0) {
    auto& t = e->lin[0];
    // zero-extension of a leaf
    if (t.shift == 0 && t.leaf->w < e->w && t.mask == APInt::getLowBitsSet(e->w, t.leaf->w))
      return maxVal(t.leaf, depth - 1).zext(e->w);
    if (t.shift == 0) {
      APInt m = maxVal(t.leaf, depth - 1).zextOrTrunc(e->w);
      if (t.leaf->w <= e->w || maxVal(t.leaf, depth - 1).getActiveBits() <= e->w)
        if (m.ult(t.mask)) return m;
      return t.mask;
    }
  }
  return possibleBits(e);
}
APInt knownMax(E a) { return maxVal(a, 4); }

E mkShlC(E a, unsigned s) {
  if (s == 0) return a;
  if (s >= a->w) return mkConst(a->w, 0);
  if (a->k == K_SUM) {
    return mkMul(a, mkConst(APInt::getOneBitSet(a->w, s)));
  }
  LinB l = toLin(a);
  l.c = l.c.shl(s);
  for (auto& t : l.t) { t.shift += (int)s; t.mask = t.mask.shl(s); }
  return fromLin(l);
}
E mkLShrC(E a, unsigned s) {
  if (s == 0) return a;
  if (s >= a->w) return mkConst(a->w, 0);
  LinB l = toLin(a);
  l.c = l.c.lshr(s);
  for (auto& t : l.t) { t.shift -= (int)s; t.mask = t.mask.lshr(s); }
  return fromLin(l);
}
E mkZExt(E a, unsigned w) {
  assert(w >= a->w);
  if (w == a->w) return a;
  LinB l = toLin(a);
  l.w = w; l.c = l.c.zext(w);
  for (auto& t : l.t) t.mask = t.mask.zext(w);
  return fromLin(l);
}
static E linTrunc(E a, unsigned w) {
  LinB l = toLin(a);
  l.w = w; l.c = l.c.trunc(w);
  for (auto& t : l.t) t.mask = t.mask.trunc(w);
  return fromLin(l);
}
static E fromSum(unsigned w, APInt c, std::vector<std::pair<E, APInt>>& v);
E mkTrunc(E a, unsigned w) {
  assert(w <= a->w);
  if (w == a->w) return a;
  if (a->isConst()) return mkConst(a->c.trunc(w));
  if (w <= 32 || a->w <= 64) {
    E s = nullptr;
    APInt msk = APInt::getAllOnes(w);
    if (a->k == K_SUM) s = a;
    else if (a->k == K_LIN && a->lin.size() == 1 && a->c.isZero() && a->lin[0].shift == 0 &&
             a->lin[0].leaf->k == K_SUM && a->lin[0].leaf->w >= w) {
      APInt m = a->lin[0].mask.trunc(w);
      if (m.isMask()) { s = a->lin[0].leaf; msk = m; }
    }
    if (s) {
      std::vector<std::pair<E, APInt>> v;
      for (auto& p : s->sum) v.push_back({mkTrunc(p.first, w), p.second.trunc(w)});
      E r = fromSum(w, s->c.trunc(w), v);
      return mkAndC(r, msk);
    }
    if (a->k == K_ITE && a->w <= 64) return mkIte(a->ops[0], mkTrunc(a->ops[1], w), mkTrunc(a->ops[2], w));
  }
  return linTrunc(a, w);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0) return mkTrunc(a, w);
  return mkTrunc(mkLShrC(a, lo), w);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (hi->isConst() && lo->isConst()) return mkConst(hi->c.zext(w).shl(lo->w) | lo->c.zext(w));
  LinB l = toLin(lo), h = toLin(hi);
  l.w = w; l.c = l.c.zext(w) | h.c.zext(w).shl(lo->w);
  for (auto& t : l.t) t.mask = t.mask.zext(w);
  for (auto& t : h.t) { t.shift += (int)lo->w; t.mask = t.mask.zext(w).shl(lo->w); l.t.push_back(std::move(t)); }
  return fromLin(l);
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (a->isConst()) return mkConst(a->c.sext(w));
  if (a->w == 1) return mkMask(a, w);
  if (!possibleBits(a)[a->w - 1]) return mkZExt(a, w);
  E top = mkExtract(a, a->w - 1, 1);
  E z = mkZExt(a, w);
  APInt hm = APInt::getHighBitsSet(w, w - a->w);
  return mkXor(z, mkAndC(mkMask(top, w), hm));
}

// c ? all-ones : 0
E mkMask(E c, unsigned w) {
  c = abbrevBit(c);
  if (c->isConst()) return mkConst(c->c.isOne() ? APInt::getAllOnes(w) : APInt(w, 0));
  if (w == 1) return c;
  if (int k = known(c); k >= 0) return mkConst(k ? APInt::getAllOnes(w) : APInt(w, 0));
  if (w > MASKW) return mkNode(K_ITE, w, {c, mkConst(APInt::getAllOnes(w)), mkConst(w, 0)});
  bool neg = c->k == K_LIN && c->c.isOne();
  if (neg) c = mkNot(c);
  LinB l(w);
  if (neg) l.c = APInt::getAllOnes(w);
  l.t.push_back({mkNode(K_ITE, MASKW, {c, mkConst(APInt::getAllOnes(MASKW)), mkConst(MASKW, 0)}), 0, APInt::getAllOnes(w)});
  return fromLin(l);
}
// the condition c when e == mkMask(c, w), else null
static E maskCond(E e) {
  if (e->k == K_ITE && e->ops[1]->isConst() && e->ops[2]->isConst() && e->ops[1]->c.isAllOnes() && e->ops[2]->c.isZero()) return e->ops[0];
  if (e->k != K_LIN || e->lin.size() != 1 || !isMaskLeaf(e->lin[0].leaf) || !e->lin[0].mask.isAllOnes()) return nullptr;
  if (e->c.isZero()) return e->lin[0].leaf->ops[0];
  if (e->c.isAllOnes()) return mkNot(e->lin[0].leaf->ops[0]);
  return nullptr;
}
static bool isZeroE(E e) { return e->isConst() && e->c.isZero(); }
static E gateTerms(E c, E x);
static E sumGate(E c, E x);
static bool isNegatedBit(E c) { return c->k == K_LIN && c->w == 1 && c->c.isOne(); }
E mkGate(E c, E x) {
  c = abbrevBit(c);
  if (c->isConst()) return c->c.isOne() ? x : mkConst(x->w, 0);
  if (x->isConst()) {
    if (x->c.isZero()) return x;
    return mkAndC(mkMask(c, x->w), x->c);
  }
  if (int k = known(c); k >= 0) return k ? x : mkConst(x->w, 0);
  if (x->w == 1) return mkAnd(c, x);
  if (g_condSums && x->k == K_SUM && c->bl) {
    if (isNegatedBit(c)) { if (E g = sumGate(mkNot(c), x)) return mkSub(x, g); }
    else if (E g = sumGate(c, x)) return g;
  }
  return gateTerms(c, x);
}
static E gateTerms(E c, E x) {
  if (c->k == K_LIN && c->c.isOne()) return mkXor(x, mkGate(mkNot(c), x));
  LinB in = toLin(x), out(x->w);
  E rest = nullptr;
  auto addx = [&](E e) { rest = rest ? mkXor(rest, e) : e; };
  for (auto& t : in.t) {
    E leaf = t.leaf;
    E cond = c;
    if (isMaskLeaf(leaf)) { addx(mkAndC(mkMask(mkAnd(c, leaf->ops[0]), x->w), t.mask)); continue; }
    E g = nullptr;
    if (leaf->w == 1) g = mkAnd(c, leaf);
    else if (leaf->k == K_ITE && isZeroE(leaf->ops[2])) {
      cond = mkAnd(c, leaf->ops[0]);
      g = (cond->isConst() || (cond->k == K_LIN && cond->c.isOne())) ? mkGate(cond, leaf->ops[1]) : mkNode(K_ITE, leaf->w, {cond, leaf->ops[1], leaf->ops[2]});
    } else g = mkNode(K_ITE, leaf->w, {c, leaf, mkConst(leaf->w, 0)});
    if (g->k == K_CONST || g->k == K_LIN) {
      // place g through the term's shift and mask
      LinB gl = toLin(g);
      unsigned W = std::max<unsigned>(x->w, gl.w) + (unsigned)std::abs(t.shift);
      E wide = mkZExt(g, W);
      wide = t.shift >= 0 ? mkShlC(wide, (unsigned)t.shift) : mkLShrC(wide, (unsigned)-t.shift);
      addx(mkAndC(mkTrunc(wide, x->w), t.mask));
    } else out.t.push_back({g, t.shift, t.mask});
  }
  E r = fromLin(out);
  if (!in.c.isZero()) addx(mkAndC(mkMask(c, x->w), in.c));
  return rest ? mkXor(r, rest) : r;
}
E mkOpaque(E e) {
  if (e->k == K_LIN && e->lin.size() > 1) return mkNode(K_OPAQUE, e->w, {e});
  return e;
}
static E gateTerms(E c, E x);
E mkAnd(E a, E b) {
  if (a == b) return a;
  if (a->w == 1 && a->bl && b->bl) { a = abbrevBit(a); b = abbrevBit(b); if (a == b) return a; }
  if (a->isConst() && b->isConst()) return mkConst(a->c & b->c);
  if (a->isConst()) return mkAndC(b, a->c);
  if (b->isConst()) return mkAndC(a, b->c);
  if (a->w > 1) {
    if (E c = maskCond(a)) return mkGate(c, b);
    if (E c = maskCond(b)) return mkGate(c, a);
  }
  E x = mkXor(a, b);
  if (x->isConst() && x->c.isAllOnes()) return mkConst(a->w, 0);
  APInt pa = possibleBits(a), pb = possibleBits(b);
  if (!pa.intersects(pb)) return mkConst(a->w, 0);
  if (a->w == 1) {
    // absorb: (p & q) & p
    auto has = [](E c, E p) { return c->k == K_AND && (c->ops[0] == p || c->ops[1] == p); };
    if (has(a, b)) return a;
    if (has(b, a)) return b;
    if (int k = known(a); k >= 0) return k ? b : mkFalse();
    if (int k = known(b); k >= 0) return k ? a : mkFalse();
    if (a->bl && b->bl) {   // GF(2) products keep no constants
      if (a->k == K_LIN && a->c.isOne()) return mkXor(b, mkAnd(mkNot(a), b));
      if (b->k == K_LIN && b->c.isOne()) return mkXor(a, mkAnd(a, mkNot(b)));
      // distribute the older bit (the condition) over the newer one
      E c = a->id < b->id ? a : b, x = a->id < b->id ? b : a;
      auto atom = [](E e) { return e->k != K_LIN || (e->lin.size() == 1 && !(e->lin[0].leaf->k == K_ITE)); };
      if (atom(c) != atom(x)) { if (atom(c)) std::swap(c, x); }   // a sum is the condition of an atom
      if (x->k == K_LIN) return gateTerms(c, x);
    }
  }
  if (a->id > b->id) std::swap(a, b);
  return mkNode(K_AND, a->w, {a, b});
}
E mkOr(E a, E b) {
  if (a == b) return a;
  if (a->isConst() && b->isConst()) return mkConst(a->c | b->c);
  if (a->isConst()) std::swap(a, b);
  if (b->isConst()) {
    if (b->c.isZero()) return a;
    return mkXor(mkAndC(a, ~b->c), b);
  }
  if (a->w == 1) return mkNot(mkAnd(mkNot(a), mkNot(b)));
  APInt pa = possibleBits(a), pb = possibleBits(b);
  if (!pa.intersects(pb)) return mkXor(a, b);
  E x = mkXor(a, b);
  if (x->isConst() && x->c.isAllOnes()) return x;
  // ite(c,x,0) | ite(c,0,y)  -> ite(c,x,y)
  auto isZero = [](E e) { return e->isConst() && e->c.isZero(); };
  if (a->k == K_ITE && b->k == K_ITE && a->ops[0] == b->ops[0]) {
    if (isZero(a->ops[1]) && isZero(b->ops[2])) return mkIte(a->ops[0], b->ops[1], a->ops[2]);
    if (isZero(a->ops[2]) && isZero(b->ops[1])) return mkIte(a->ops[0], a->ops[1], b->ops[2]);
  }
  if (a->id > b->id) std::swap(a, b);
  return mkNode(K_OR, a->w, {a, b});
}

// ---- SUM ----
static E fromSum(unsigned w, APInt c, std::vector<std::pair<E, APInt>>& in) {
  // flatten
  std::vector<std::pair<E, APInt>> v;
  for (auto& p : in) {
    if (p.second.isZero()) continue;
    if (p.first->isConst()) { c += p.first->c * p.second; continue; }
    if (p.first->k == K_SUM) {
      c += p.first->c * p.second;
      for (auto& q : p.first->sum) v.push_back({q.first, q.second * p.second});
    } else v.push_back(p);
  }
  std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first->id < b.first->id; });
  std::vector<std::pair<E, APInt>> r;
  for (auto& p : v) {
    if (!r.empty() && r.back().first == p.first) r.back().second += p.second;
    else r.push_back(p);
    if (r.back().second.isZero()) r.pop_back();
  }
  if (r.empty()) return mkConst(c);
  if (w == 64 && r.size() + !c.isZero() > 1) {   // high half of a 128-bit sum
    size_t best = r.size();
    for (size_t i = 0; i < r.size(); i++) {
      E e = r[i].first;
      if (!r[i].second.isOne() || e->k != K_LIN || e->lin.size() != 1 || !e->c.isZero()) continue;
      const Term& t = e->lin[0];
      if (t.leaf->k != K_SUM || t.leaf->w != 128 || t.shift != -64 || !t.mask.isAllOnes()) continue;
      if (best == r.size() || r[best].first->lin[0].leaf->id < t.leaf->id) best = i;
    }
    if (best < r.size()) {
      std::vector<std::pair<E, APInt>> q;
      q.push_back({r[best].first->lin[0].leaf, APInt(128, 1)});
      for (size_t i = 0; i < r.size(); i++) if (i != best) q.push_back({mkShlC(mkZExt(r[i].first, 128), 64), r[i].second.sext(128)});
      return mkExtract(fromSum(128, c.zext(128).shl(64), q), 64, 64);
    }
  }
  if (w == 128 && r.size() > 1) {
    // 128-bit arithmetic done in two halves: expand (S << 64) for sums S, and
    // merge x's low and high half when they occur with the same coefficient
    bool ch = false;
    for (size_t i = 0; i < r.size(); i++) {
      E e = r[i].first;
      if (e->k != K_LIN || e->lin.size() != 1 || !e->c.isZero()) continue;
      const Term& t = e->lin[0];
      if (t.leaf->k != K_SUM || t.shift <= 0 || (unsigned)t.shift + t.leaf->w != w || t.mask != APInt::getHighBitsSet(w, t.leaf->w)) continue;
      APInt co = r[i].second; E leaf = t.leaf; unsigned sh = (unsigned)t.shift;
      r.erase(r.begin() + i); i--; ch = true;
      c += leaf->c.zext(w).shl(sh) * co;
      for (auto& q : leaf->sum) r.push_back({mkShlC(mkZExt(q.first, w), sh), q.second.zext(w) * co});
    }
    for (auto& p : r) {   // a coefficient only matters modulo 2^(w - trailing zeros of its term)
      unsigned tz = p.first->k == K_LIN ? possibleBits(p.first).countr_zero() : 0;
      if (tz && tz < w) { APInt co = p.second.trunc(w - tz).sext(w); if (co != p.second) { p.second = co; ch = true; } }
    }
    for (size_t i = 0; i < r.size(); i++) {
      E a = r[i].first;
      if (a->k != K_LIN) continue;
      APInt pa = possibleBits(a);
      if (pa.intersects(APInt::getHighBitsSet(w, 64))) continue;   // a: low half
      for (size_t j = 0; j < r.size(); j++) {
        E b = r[j].first;
        if (i == j || b->k != K_LIN || r[i].second != r[j].second || possibleBits(b).intersects(APInt::getLowBitsSet(w, 64))) continue;
        E m = mkXor(a, b);
        if (m->k == K_LIN && m->lin.size() >= a->lin.size() + b->lin.size()) continue;
        r[i].first = m; r.erase(r.begin() + j); ch = true; i = (size_t)-1; break;
      }
    }
    if (ch) return fromSum(w, c, r);
  }
  if (r.size() == 1 && c.isZero() && r[0].second.isOne()) return r[0].first;
  if (w == 1) {
    E e = mkConst(c);
    for (auto& p : r) if (p.second[0]) e = mkXor(e, p.first);
    return e;
  }
  for (size_t i = 0; i < r.size() && r.size() > 1; i++) {   // X - N * (X / N) == X % N
    E e = r[i].first, d = e;
    if (e->k == K_LIN && e->lin.size() == 1 && e->c.isZero() && e->lin[0].shift == 0 && e->lin[0].mask.isAllOnes() && e->lin[0].leaf->w >= w) d = e->lin[0].leaf;
    if (d->k != K_UDIV || d->w < w || !d->ops[1]->isConst()) continue;
    E x = mkTrunc(d->ops[0], w); APInt mn = -d->ops[1]->c.trunc(w);
    for (size_t j = 0; j < r.size(); j++) {
      if (j == i || r[j].first != x || r[j].second * mn != r[i].second) continue;
      r[i].first = mkTrunc(mkURem(d->ops[0], d->ops[1]), w); r[i].second = r[j].second; r.erase(r.begin() + j);
      return fromSum(w, c, r);
    }
  }
  for (size_t i = 0; i < r.size(); i++) {   // x + (cond ? m : m - N) with the shape of a modular addition
    E e = r[i].first;
    if (e->k != K_ITE || e->ops[0]->k != K_ULT || !r[i].second.isOne() || e->w != w || e->ops[0]->ops[0]->w != w) continue;
    if (!mkSub(e->ops[1], e->ops[2])->isConst()) continue;
    std::vector<std::pair<E, APInt>> q = r; q.erase(q.begin() + i);
    E rest = fromSum(w, c, q);
    if (E m = modIte(e->ops[0], mkAdd(rest, e->ops[1]), mkAdd(rest, e->ops[2]))) return m;
  }
  // disjoint const add -> xor (aligned pointers etc.)
  if (r.size() == 1 && r[0].second.isOne() && !c.isZero() && !possibleBits(r[0].first).intersects(c))
    return mkXor(r[0].first, mkConst(c));
  // a - b == a ^ b when every bit that b may have is a's own bit
  if (r.size() == 2 && c.isZero()) {
    for (int i = 0; i < 2; i++) {
      if (!r[i].second.isOne() || !r[1 - i].second.isAllOnes()) continue;
      APInt pb = possibleBits(r[1 - i].first);
      if (!pb.isAllOnes() && mkAndC(r[i].first, pb) == r[1 - i].first) return mkXor(r[i].first, r[1 - i].first);
    }
  }
  if (r.size() == 2 && c.isZero() && r[0].second.isOne() && r[1].second.isOne() &&
      !possibleBits(r[0].first).intersects(possibleBits(r[1].first)))
    return mkXor(r[0].first, r[1].first);
  // 0 - bit == mask(bit);  bit - 1 == mask(!bit)
  if (r.size() == 1 && possibleBits(r[0].first).isOne()) {
    if (c.isZero() && r[0].second.isAllOnes()) return mkMask(mkTrunc(r[0].first, 1), w);
    if (c.isAllOnes() && r[0].second.isOne()) return mkMask(mkNot(mkTrunc(r[0].first, 1)), w);
  }
  // -x - 1  == ~x
  if (r.size() == 1 && c.isAllOnes() && r[0].second.isAllOnes()) return mkNot(r[0].first);
  Expr x; x.k = K_SUM; x.w = w; x.c = c; x.sum = std::move(r);
  return intern(x);
}
E mkAdd(E a, E b) {
  if (a->isConst() && b->isConst()) return mkConst(a->c + b->c);
  std::vector<std::pair<E, APInt>> v = {{a, APInt(a->w, 1)}, {b, APInt(a->w, 1)}};
  return fromSum(a->w, APInt(a->w, 0), v);
}
E mkSub(E a, E b) {
  if (a == b) return mkConst(a->w, 0);
  if (a->isConst() && b->isConst()) return mkConst(a->c - b->c);
  if (a->isConst() && a->c.isAllOnes()) return mkNot(b);
  std::vector<std::pair<E, APInt>> v = {{a, APInt(a->w, 1)}, {b, APInt::getAllOnes(a->w)}};
  return fromSum(a->w, APInt(a->w, 0), v);
}
E mkMul(E a, E b) {
  if (a->isConst() && b->isConst()) return mkConst(a->c * b->c);
  if (a->isConst()) std::swap(a, b);
  if (b->isConst()) {
    if (b->c.isPowerOf2() && a->k != K_SUM) return mkShlC(a, b->c.logBase2());
    std::vector<std::pair<E, APInt>> v = {{a, b->c}};
    return fromSum(a->w, APInt(a->w, 0), v);
  }
  if (a->w == 1) return mkAnd(a, b);
  if (a->k == K_ITE && a->ops[1]->isConst() && a->ops[2]->isConst()) return mkIte(a->ops[0], mkMul(a->ops[1], b), mkMul(a->ops[2], b));
  if (b->k == K_ITE && b->ops[1]->isConst() && b->ops[2]->isConst()) return mkIte(b->ops[0], mkMul(b->ops[1], a), mkMul(b->ops[2], a));
  if (possibleBits(a).isOne()) return mkGate(mkTrunc(a, 1), b);
  if (possibleBits(b).isOne()) return mkGate(mkTrunc(b, 1), a);
  if (a->id > b->id) std::swap(a, b);
  return mkNode(K_MUL, a->w, {a, b});
}
E mkUDiv(E a, E b) {
  if (a->isConst() && b->isConst() && !b->c.isZero()) return mkConst(a->c.udiv(b->c));
  if (b->isConst() && b->c.isPowerOf2()) return mkLShrC(a, b->c.logBase2());
  if (b->isConst() && knownMax(a).ult(b->c)) return mkConst(a->w, 0);
  return mkNode(K_UDIV, a->w, {a, b});
}
E mkURem(E a, E b) {
  if (a->isConst() && b->isConst() && !b->c.isZero()) return mkConst(a->c.urem(b->c));
  if (b->isConst() && b->c.isPowerOf2()) return mkAndC(a, b->c - 1);
  if (b->isConst() && knownMax(a).ult(b->c)) return a;
  // zext narrowing: urem(zext x, c) with c fitting
  return mkNode(K_UREM, a->w, {a, b});
}
E mkSDiv(E a, E b) {
  if (a->isConst() && b->isConst() && !b->c.isZero()) return mkConst(a->c.sdiv(b->c));
  if (!possibleBits(a)[a->w - 1] && !possibleBits(b)[a->w - 1]) return mkUDiv(a, b);
  return mkNode(K_SDIV, a->w, {a, b});
}
E mkSRem(E a, E b) {
  if (a->isConst() && b->isConst() && !b->c.isZero()) return mkConst(a->c.srem(b->c));
  if (!possibleBits(a)[a->w - 1] && !possibleBits(b)[a->w - 1]) return mkURem(a, b);
  return mkNode(K_SREM, a->w, {a, b});
}
// SMT-LIB semantics (>= width gives 0 / sign fill); the executor havocs poison.
E mkShl(E a, E b) {
  if (b->isConst()) return mkShlC(a, (unsigned)b->c.getLimitedValue(a->w));
  if (a->isConst() && a->c.isZero()) return a;
  return mkNode(K_SHL, a->w, {a, b});
}
E mkLShr(E a, E b) {
  if (b->isConst()) return mkLShrC(a, (unsigned)b->c.getLimitedValue(a->w));
  if (a->isConst() && a->c.isZero()) return a;
  return mkNode(K_LSHR, a->w, {a, b});
}
E mkAShr(E a, E b) {
  if (a->isConst() && b->isConst()) return mkConst(a->c.ashr((unsigned)b->c.getLimitedValue(a->w)));
  if (!possibleBits(a)[a->w - 1]) return mkLShr(a, b);
  if (b->isConst()) {
    unsigned s = (unsigned)b->c.getLimitedValue(a->w - 1);
    if (s == 0) return a;
    return mkSExt(mkExtract(a, s, a->w - s), a->w);
  }
  return mkNode(K_ASHR, a->w, {a, b});
}
static bool isNegated(E c) {  // 1-bit LIN with constant 1
  return c->k == K_LIN && c->w == 1 && c->c.isOne();
}
static bool bitLeaf(E e) {
  return e->w == 1 || e->k == K_SYM || e->k == K_UF || e->k == K_OPAQUE || isMaskLeaf(e) || (e->k == K_ITE && isZeroE(e->ops[2]) && e->ops[1]->k != K_SUM);
}
bool linLike(E e) {
  if (e->isConst() || bitLeaf(e)) return true;
  if (e->k != K_LIN || e->lin.size() > 48) return false;
  for (auto& t : e->lin) if (!bitLeaf(t.leaf)) return false;
  return true;
}
// ---- modular sums: (sum ci*xi + c) mod N kept as trunc_w(urem(SUM_W, N)) with a
// width W in which the sum cannot wrap, all ci, c in [0,N)
static bool boundedBy(E a, const APInt& N) {   // a < N on this path
  if (knownMax(a).ult(N)) return true;
  return g_pcset && g_pcset->count(mkUlt(a, mkConst(N)));
}
static void modAdd(E x, APInt co, const APInt& N, unsigned W, APInt& c, std::vector<std::pair<E, APInt>>& v) {
  unsigned w = x->w; APInt NW = N.zext(W);
  if (x->isConst()) { c = (c + x->c.zext(W) * co).urem(NW); return; }
  if (x->k == K_LIN && x->lin.size() == 1 && x->c.isZero() && x->lin[0].shift == 0 && x->lin[0].mask.isAllOnes()) {
    E u = x->lin[0].leaf;
    if (u->k == K_UREM && u->w == W && u->ops[1]->isConst() && u->ops[1]->c == NW && u->ops[0]->k == K_SUM) {
      c = (c + u->ops[0]->c * co).urem(NW);
      for (auto& q : u->ops[0]->sum) v.push_back({mkTrunc(q.first, w), (q.second * co).urem(NW)});
      return;
    }
  }
  v.push_back({x, co});
}
static E modFinish(unsigned w, const APInt& N, unsigned W, APInt c, std::vector<std::pair<E, APInt>> v) {
  APInt NW = N.zext(W);
  std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first->id < b.first->id; });
  std::vector<std::pair<E, APInt>> r;
  for (auto& p : v) {
    if (!r.empty() && r.back().first == p.first) r.back().second = (r.back().second + p.second).urem(NW);
    else r.push_back(p);
    if (r.back().second.isZero()) r.pop_back();
  }
  if (r.empty()) return mkConst(c.trunc(w));
  if (r.size() == 1 && c.isZero() && r[0].second.isOne() && boundedBy(r[0].first, N)) return r[0].first;
  std::vector<std::pair<E, APInt>> z;
  for (auto& p : r) z.push_back({mkZExt(p.first, W), p.second});
  E s = fromSum(W, c, z);
  if (s->k != K_SUM) {   // keep the shape
    Expr x; x.k = K_SUM; x.w = W; x.c = APInt(W, 0); x.sum = {{s, APInt(W, 1)}};
    s = intern(x);
  }
  return mkTrunc(mkNode(K_UREM, W, {s, mkConst(NW)}), w);
}
static E mkModSum(unsigned w, const APInt& N, std::vector<std::pair<E, int>> in) {   // in: +-1 coefficients
  unsigned W = 2 * w + 32; APInt NW = N.zext(W), c(W, 0);
  std::vector<std::pair<E, APInt>> v;
  for (auto& p : in) modAdd(p.first, p.second > 0 ? APInt(W, 1) : NW - 1, N, W, c, v);
  return modFinish(w, N, W, c, v);
}
// ---- sums under a pseudorandom condition: ite(c,a,b) = b + sum_i ci * (c ? xi : 0)
static E sumGate(E c, E x) {   // c ? x : 0, distributed over the sum; c without constant
  if (x->isConst()) { std::vector<std::pair<E, APInt>> v{{mkZExt(c, x->w), x->c}}; return fromSum(x->w, APInt(x->w, 0), v); }
  if (x->k == K_SUM) {
    std::vector<std::pair<E, APInt>> v;
    for (auto& p : x->sum) { if (!linLike(p.first)) return nullptr; v.push_back({mkGate(c, p.first), p.second}); }
    if (!x->c.isZero()) v.push_back({mkZExt(c, x->w), x->c});
    return fromSum(x->w, APInt(x->w, 0), v);
  }
  return linLike(x) ? mkGate(c, x) : nullptr;
}
static bool modForm(E x, APInt& N) {
  if (x->k != K_LIN || x->lin.size() != 1 || !x->c.isZero() || x->lin[0].shift != 0 || !x->lin[0].mask.isAllOnes()) return false;
  E u = x->lin[0].leaf;
  if (u->k != K_UREM || u->w != 2 * x->w + 32 || !u->ops[1]->isConst() || u->ops[0]->k != K_SUM) return false;
  N = u->ops[1]->c.trunc(x->w);
  for (auto& p : u->ops[0]->sum) if (!linLike(mkTrunc(p.first, x->w))) return false;
  return true;
}
static bool halfOfSum(E e) { return e->w == 64 && e->k == K_LIN && e->lin.size() == 1 && e->c.isZero() && e->lin[0].leaf->k == K_SUM && e->lin[0].leaf->w == 128 && e->lin[0].mask.isAllOnes() && (e->lin[0].shift == 0 || e->lin[0].shift == -64); }
static E liftHalf(E e, int sh) {   // a 128-bit value whose low (sh 0) or high (sh -64) half is e
  if (halfOfSum(e)) return e->lin[0].shift == sh ? e->lin[0].leaf : nullptr;
  LinB in = toLin(e), out(128);
  out.c = sh ? in.c.zext(128).shl(64) : in.c.zext(128);
  for (auto& t : in.t) {
    if (t.leaf->w == 128 && t.shift == sh && t.leaf->k != K_SUM) {
      out.t.push_back({t.leaf, 0, sh ? (t.mask.isAllOnes() ? APInt::getAllOnes(128) : t.mask.zext(128).shl(64)) : t.mask.zext(128)});
    } else if (t.leaf->k != K_SUM && !isMaskLeaf(t.leaf)) out.t.push_back({t.leaf, t.shift + (sh ? 64 : 0), sh ? t.mask.zext(128).shl(64) : t.mask.zext(128)});
    else return nullptr;
  }
  return fromLin(out);
}
static E iteSum(E c, E a, E b) {
  unsigned w = a->w;
  if (!g_condSums) return nullptr;
  if (isNegatedBit(c)) { c = mkNot(c); std::swap(a, b); }
  APInt N, N2;
  bool ma = modForm(a, N), mb = modForm(b, N2);
  if (ma || mb) {
    if (ma && mb && N != N2) return nullptr;
    if (!ma) N = N2;
    if ((!ma && (!linLike(a) || !boundedBy(a, N))) || (!mb && (!linLike(b) || !boundedBy(b, N)))) return nullptr;
    unsigned W = 2 * w + 32; APInt NW = N.zext(W), k(W, 0);
    std::vector<std::pair<E, APInt>> d, v;
    modAdd(a, APInt(W, 1), N, W, k, d); modAdd(b, NW - 1, N, W, k, d);
    // combine before gating
    std::map<E, APInt> m; for (auto& p : d) { auto it = m.emplace(p.first, APInt(W, 0)).first; it->second = (it->second + p.second).urem(NW); }
    APInt k0(W, 0);
    modAdd(b, APInt(W, 1), N, W, k0, v);
    for (auto& p : m) if (!p.second.isZero()) v.push_back({mkGate(c, p.first), p.second});
    if (!k.isZero()) v.push_back({mkZExt(c, w), k});
    APInt cc = k0; std::vector<std::pair<E, APInt>> f;
    for (auto& p : v) { if (p.first->isConst()) cc = (cc + p.first->c.zext(W) * p.second).urem(NW); else f.push_back(p); }
    return modFinish(w, N, W, cc, f);
  }
  if (w == 64 && (halfOfSum(a) || halfOfSum(b))) {
    for (int sh : {-64, 0}) {
      E A = liftHalf(a, sh), Bv = A ? liftHalf(b, sh) : nullptr;
      if (!A || !Bv || (A->k != K_SUM && Bv->k != K_SUM)) continue;
      E g = sumGate(c, mkSub(A, Bv));
      if (!g) return nullptr;
      return mkExtract(mkAdd(Bv, g), (unsigned)-sh, 64);
    }
    return nullptr;
  }
  if (a->k != K_SUM && b->k != K_SUM) return nullptr;
  E g = sumGate(c, mkSub(a, b));
  return g ? mkAdd(b, g) : nullptr;
}
bool mergeable(E e) {
  if (linLike(e)) return true;
  if (!g_condSums) return false;
  APInt N;
  E s = e->k == K_SUM ? e : halfOfSum(e) ? e->lin[0].leaf : nullptr;
  if (s) { if (s->sum.size() > 16) return false; for (auto& p : s->sum) if (!linLike(p.first)) return false; return true; }
  return modForm(e, N);
}
static E modIte(E c, E a, E b) {   // ite shapes of modular addition, subtraction and negation
  unsigned w = a->w;
  if (w != 8 && w != 16 && w != 32 && w != 64 && w != 128) return nullptr;
  if (c->k == K_EQ && c->ops[1]->isConst() && c->ops[1]->c.isZero() && isZeroE(a) && c->ops[0]->w == w) {
    E k = mkAdd(b, c->ops[0]);
    if (k->isConst() && k->c.ugt(1) && boundedBy(c->ops[0], k->c)) return mkModSum(w, k->c, {{c->ops[0], -1}});
    return nullptr;
  }
  if (c->k != K_ULT) return nullptr;
  E p = c->ops[0], q = c->ops[1];
  if (p->w != w) return nullptr;
  E d = mkSub(a, b);
  if (!d->isConst() || d->c.ult(2)) return nullptr;
  APInt K = d->c;
  auto leK = [&](E e) -> E {   // e <= K: a value < K congruent to e, else null
    if (boundedBy(e, K)) return e;
    if (e->k == K_ITE && e->ops[0]->k == K_EQ && e->ops[0]->ops[0] == e->ops[2] && isZeroE(e->ops[0]->ops[1]) && e->ops[1]->isConst() && e->ops[1]->c == K && boundedBy(e->ops[2], K)) return e->ops[2];
    return nullptr;
  };
  if (b == mkSub(p, q) && boundedBy(p, K)) if (E z = leK(q)) return mkModSum(w, K, {{p, 1}, {z, -1}});
  E y = mkSub(mkConst(K), q);
  if (a == mkAdd(p, y) && boundedBy(p, K)) if (E z = leK(y)) return mkModSum(w, K, {{p, 1}, {z, 1}});
  return nullptr;
}
E mkIte(E c, E a, E b) {
  if (c->isConst()) return c->c.isOne() ? a : b;
  if (a == b) return a;
  if (int k = known(c); k >= 0) return k ? a : b;
  if (isNegated(c)) { c = mkNot(c); std::swap(a, b); }
  if (a->k == K_ITE && a->ops[0] == c) a = a->ops[1];
  if (b->k == K_ITE && b->ops[0] == c) b = b->ops[2];
  if (a == b) return a;
  if (a->w == 1) {
    if (a == c) a = mkTrue();
    if (b == c) b = mkFalse();
    if (a->isConst() && b->isConst()) return a->c.isOne() ? (b->c.isOne() ? mkTrue() : c) : mkNot(c);
    if (a->isConst()) return a->c.isOne() ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isConst()) return b->c.isOne() ? mkOr(mkNot(c), a) : mkAnd(c, a);
    E x = mkXor(a, b);
    if (x->isConst()) return mkXor(c, b);  // a = !b :  ite(c,!b,b) = c^b
    if (c->bl && (a->bl || b->bl)) return mkXor(b, mkAnd(c, x));
  } else if (a->isConst() && b->isConst()) {
    // ite(c, m, 0) with single bit m : shifted bit
    if (b->c.isZero() && a->c.isPowerOf2()) return mkShlC(mkZExt(c, a->w), a->c.logBase2());
    if (a->c.isZero() && b->c.isPowerOf2()) return mkShlC(mkZExt(mkNot(c), a->w), b->c.logBase2());
    APInt d = a->c ^ b->c;
    if (d.isPowerOf2()) {
      E bit = mkShlC(mkZExt(c, a->w), d.logBase2());
      return a->c.intersects(d) ? mkXor(bit, b) : mkXor(mkXor(bit, mkConst(d)), a);
    }
  }
  if (a->w == 1) return mkNode(K_ITE, a->w, {c, a, b});
  if (E m = modIte(c, a, b)) return m;
  if (isZeroE(b)) return mkGate(c, a);
  if (isZeroE(a)) return mkGate(mkNot(c), b);
  if ((a->uf || b->uf) && linLike(a) && linLike(b)) return mkXor(b, mkGate(c, mkXor(a, b)));
  if (c->bl && (a->uf || b->uf)) if (E r = iteSum(c, a, b)) return r;
  return mkNode(K_ITE, a->w, {c, a, b});
}
E mkEq(E a, E b) {
  if (a == b) return mkTrue();
  if (a->isConst() && b->isConst()) return a->c == b->c ? mkTrue() : mkFalse();
  if (a->w == 1) return mkNot(mkXor(a, b));
  if (a->isConst()) std::swap(a, b);
  if (a->k == K_SUM || b->k == K_SUM) {
    E d = mkSub(a, b);
    if (d->isConst()) return d->c.isZero() ? mkTrue() : mkFalse();
    if (d->k == K_SUM) {
      // normal form: sum of leaves == -const ; canonical sign: first coeff "positive"
      std::vector<std::pair<E, APInt>> v = d->sum;
      APInt c = d->c;
      if (v.size() == 2 && (v[0].second + v[1].second).isZero() && (v[0].second.isOne() || v[1].second.isOne()) && c.isZero())
        return mkEq(v[0].first, v[1].first);
      if (v[0].second.isNegative()) { for (auto& p : v) p.second.negate(); c.negate(); }
      if (v.size() == 1 && v[0].second.isOne()) return mkEq(v[0].first, mkConst(-c));
      E l = fromSum(d->w, APInt(d->w, 0), v);
      E r = mkConst(-c);
      if (l->k == K_SUM) return mkNode(K_EQ, 1, {l, r});
      a = l; b = r;
    } else return mkEq(d, mkConst(d->w, 0));
  }
  if (b->isConst()) {
    if (a->k == K_ITE) {
      E x = a->ops[1], y = a->ops[2];
      if (x->isConst() || y->isConst()) {
        return mkIte(a->ops[0], mkEq(x, b), mkEq(y, b));
      }
    }
    if (knownMax(a).ult(b->c)) return mkFalse();
  }
  E x = mkXor(a, b);
  if (x->isConst()) return x->c.isZero() ? mkTrue() : mkFalse();
  if (x->k == K_LIN) {
    // constant bits outside the possible term bits => differ
    APInt tm(x->w, 0);
    for (auto& t : x->lin) tm |= t.mask;
    if (x->c.intersects(~tm)) return mkFalse();
    if (tm.isPowerOf2()) return mkNot(mkExtract(x, tm.logBase2(), 1));
    // strip to active window
    unsigned lo = tm.countr_zero(), hi = x->w - tm.countl_zero();
    if (lo > 0 || hi < x->w) {
      E y = linTrunc(mkLShrC(x, lo), hi - lo);
      if (y->k == K_LIN && y->lin.size() == 1 && y->lin[0].mask.isAllOnes() && y->lin[0].shift == 0 && y->lin[0].leaf->w == y->w)
        return mkEq(y->lin[0].leaf, mkConst(y->c));
      return mkEq(y, mkConst(y->w, 0));
    }
    if (x->lin.size() == 1 && x->lin[0].shift == 0 && x->lin[0].mask.isAllOnes() && x->lin[0].leaf->w == x->w)
      { a = x->lin[0].leaf; b = mkConst(x->c); }
    else if (x->lin.size() == 2 && x->c.isZero() && x->lin[0].shift == 0 && x->lin[1].shift == 0 && x->lin[0].mask.isAllOnes() && x->lin[1].mask.isAllOnes()
             && x->lin[0].leaf->w == x->w && x->lin[1].leaf->w == x->w)
      { a = x->lin[0].leaf; b = x->lin[1].leaf; }
    else { a = x; b = mkConst(x->w, 0); }
  } else { a = x; b = mkConst(x->w, 0); }
  if (!b->isConst() && a->id > b->id) std::swap(a, b);
  return mkNode(K_EQ, 1, {a, b});
}
E mkUlt(E a, E b) {
  if (a == b) return mkFalse();
  if (a->isConst() && b->isConst()) return a->c.ult(b->c) ? mkTrue() : mkFalse();
  if (b->isConst()) {
    if (b->c.isZero()) return mkFalse();
    if (b->c.isOne()) return mkEq(a, mkConst(a->w, 0));
    if (knownMax(a).ult(b->c)) return mkTrue();
    if (b->c.isPowerOf2()) {
      unsigned l = b->c.logBase2();
      return mkEq(mkLShrC(a, l), mkConst(a->w, 0));
    }
  }
  if (a->isConst()) {
    if (a->c.isAllOnes()) return mkFalse();
    if (a->c.isZero()) return mkNot(mkEq(b, a));
    if (!a->c.ult(knownMax(b))) return mkFalse();
    APInt a1 = a->c + 1;
    if (a1.isPowerOf2()) return mkNot(mkEq(mkLShrC(b, a1.logBase2()), mkConst(a->w, 0)));
  }
  if (a->w == 1) return mkAnd(mkNot(a), b);
  if (a->k == K_ITE && a->ops[1]->isConst() && a->ops[2]->isConst()) return mkIte(a->ops[0], mkUlt(a->ops[1], b), mkUlt(a->ops[2], b));
  if (b->k == K_ITE && b->ops[1]->isConst() && b->ops[2]->isConst()) return mkIte(b->ops[0], mkUlt(a, b->ops[1]), mkUlt(a, b->ops[2]));
  return mkNode(K_ULT, 1, {a, b});
}
E mkSlt(E a, E b) {
  if (a == b) return mkFalse();
  if (a->isConst() && b->isConst()) return a->c.slt(b->c) ? mkTrue() : mkFalse();
  bool an = possibleBits(a)[a->w - 1], bn = possibleBits(b)[a->w - 1];
  if (a->isConst() && !a->c.isNegative()) an = false;
  if (!an && !bn) return mkUlt(a, b);
  if (!an && b->isConst()) return mkFalse();   // b const negative, a nonneg
  if (!bn && a->isConst()) return mkTrue();
  if (b->isConst() && b->c.isZero()) return mkExtract(a, a->w - 1, 1);
  if (a->isConst() && a->c.isAllOnes()) return mkNot(mkExtract(b, b->w - 1, 1));
  if (a->w == 1) return mkAnd(a, mkNot(b));
  if (a->k == K_ITE && a->ops[1]->isConst() && a->ops[2]->isConst()) return mkIte(a->ops[0], mkSlt(a->ops[1], b), mkSlt(a->ops[2], b));
  if (b->k == K_ITE && b->ops[1]->isConst() && b->ops[2]->isConst()) return mkIte(b->ops[0], mkSlt(a, b->ops[1]), mkSlt(a, b->ops[2]));
  return mkNode(K_SLT, 1, {a, b});
}

static const char* kn[] = {"const","sym","uf","lin","sum","mul","udiv","urem","sdiv","srem","and","or","shl","lshr","ashr","ite","eq","ult","slt","opaque"};
static std::string apStr(const APInt& a) { llvm::SmallString<64> s; a.toString(s, 16, false, true); return std::string(s.str()); }
std::string toStr(E e, int d) {
  if (e->k == K_CONST) return apStr(e->c) + ":" + std::to_string(e->w);
  if (e->k == K_SYM) return g_syms[e->name].name;
  if (d <= 0) return "#" + std::to_string(e->id);
  std::string s = "(";
  s += kn[e->k];
  s += std::to_string(e->w);
  if (e->k == K_UF) s += " " + g_ufs[e->name].name;
  if (e->k == K_LIN || e->k == K_SUM) s += " " + apStr(e->c);
  for (E o : e->ops) s += " " + toStr(o, d - 1);
  for (auto& t : e->lin) s += " [" + toStr(t.leaf, d - 1) + "<<" + std::to_string(t.shift) + "&" + apStr(t.mask) + "]";
  for (auto& t : e->sum) s += " [" + apStr(t.second) + "*" + toStr(t.first, d - 1) + "]";
  return s + ")";
}
std::string dagStr(E root) {
  std::string s; std::unordered_set<E> seen; std::vector<E> order;
  std::vector<std::pair<E, int>> st = {{root, 0}};
  auto kids = [](E e) { std::vector<E> k = e->ops; for (auto& t : e->lin) k.push_back(t.leaf); for (auto& t : e->sum) k.push_back(t.first); return k; };
  while (!st.empty()) {
    auto [e, d] = st.back(); st.pop_back();
    if (!seen.insert(e).second) continue;
    order.push_back(e);
    for (E k : kids(e)) st.push_back({k, d + 1});
  }
  auto nm = [](E e) -> std::string { return e->k == K_CONST ? (e->w > 1000 ? "C" : apStr(e->c)) : e->k == K_SYM ? g_syms[e->name].name : "#" + std::to_string(e->id); };
  auto mk = [](const APInt& m) -> std::string {
    if (m.isZero()) return "0"; unsigned lo = m.countr_zero(), hi = m.getBitWidth() - m.countl_zero();
    if (APInt::getBitsSet(m.getBitWidth(), lo, hi) == m) return "[" + std::to_string(hi - 1) + ":" + std::to_string(lo) + "]";
    return apStr(m);
  };
  std::sort(order.begin(), order.end(), [](E a, E b) { return a->id > b->id; });
  for (E e : order) {
    if (e->k == K_CONST || e->k == K_SYM) continue;
    s += "#" + std::to_string(e->id) + " = " + kn[e->k] + std::to_string(e->w);
    if (e->k == K_UF) s += ":" + g_ufs[e->name].name;
    if ((e->k == K_LIN || e->k == K_SUM) && !e->c.isZero()) s += " " + apStr(e->c);
    for (E o : e->ops) s += " " + nm(o);
    for (auto& t : e->lin) s += " " + nm(t.leaf) + (t.shift ? "<<" + std::to_string(t.shift) : "") + mk(t.mask);
    for (auto& t : e->sum) s += " " + (t.second.isOne() ? std::string("+") : t.second.isAllOnes() ? std::string("-") : apStr(t.second) + "*") + nm(t.first);
    s += "\n";
  }
  return s;
}
}  // namespace symx
