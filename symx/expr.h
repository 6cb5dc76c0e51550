// symx expression DAG: hash-consed bit-vector terms with a GF(2)-linear normal
// form (XOR of shifted/masked leaves) and a sum-of-products-by-constant normal
// form for modular addition.
#pragma once
#include <llvm/ADT/APInt.h>
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <memory>
#include <map>
#include <set>

namespace symx {
using llvm::APInt;

enum K : uint8_t {
  K_CONST, K_SYM, K_UF, K_LIN, K_SUM, K_MUL, K_UDIV, K_UREM, K_SDIV, K_SREM,
  K_AND, K_OR, K_SHL, K_LSHR, K_ASHR, K_ITE, K_EQ, K_ULT, K_SLT,
  K_OPAQUE   // identity barrier for the normal forms (same value as its operand)
};

struct Expr;
using E = const Expr*;

struct Term { E leaf; int shift; APInt mask; };  // ((leaf << shift) & mask)

struct Expr {
  K k;
  uint32_t w;
  uint32_t id;
  APInt c;                                   // CONST value; LIN/SUM constant
  std::vector<E> ops;
  std::vector<Term> lin;                     // LIN
  std::vector<std::pair<E, APInt>> sum;      // SUM
  int name = -1;                             // SYM id / UF function id
  size_t hash = 0;
  bool uf = false;                           // a UF occurs below
  bool bl = false;                           // 1-bit, built from bits of UF values
  std::shared_ptr<const std::vector<int>> supp;  // sorted: sym ids (2*id), uf ids (2*id+1)
  bool isConst() const { return k == K_CONST; }
  Expr() : c(1, 0) {}
};

struct SymInfo { std::string name; unsigned w; };
struct UfInfo { std::string name; unsigned inw, outw; };

extern std::vector<SymInfo> g_syms;
extern std::vector<UfInfo> g_ufs;
extern size_t g_nexprs;

E mkConst(const APInt& v);
E mkConst(unsigned w, uint64_t v);
E mkSym(const std::string& name, unsigned w);
E mkUF(const std::string& name, E in, unsigned outw);
E mkXor(E a, E b);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkNot(E a);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkMul(E a, E b);
E mkUDiv(E a, E b);
E mkURem(E a, E b);
APInt possibleBits(E e);
E mkSDiv(E a, E b);
E mkSRem(E a, E b);
E mkShl(E a, E b);
E mkLShr(E a, E b);
E mkAShr(E a, E b);
E mkShlC(E a, unsigned s);
E mkLShrC(E a, unsigned s);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkTrunc(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkIte(E c, E a, E b);
E mkGate(E c, E x);      // c ? x : 0, distributed over XOR
E mkMask(E c, unsigned w);
E mkOpaque(E e);
bool linLike(E e);
bool mergeable(E e);
extern bool g_condSums;   // conditional sums in normal form
// low part (leaf, number of low bits) -> value whose remaining high bits are known to be zero
extern const std::map<E, std::vector<std::pair<unsigned, E>>>* g_ext;
bool impliedSumEq(E goal, const std::map<E, std::vector<std::pair<unsigned, E>>>& ext, const std::vector<E>& pc);
bool impliedEq(E goal, const std::vector<E>& pc);   // goal follows from pc by XOR-elimination
extern const std::set<E>* g_pcset;   // conditions known to hold on the current path
E abbrevBit(E c);
extern size_t g_bitLimit;
E abbrev(E e);           // abbreviation of a 128-bit value, or e itself
E mkEq(E a, E b);
E mkUlt(E a, E b);
E mkSlt(E a, E b);
inline E mkNe(E a, E b) { return mkNot(mkEq(a, b)); }
inline E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
inline E mkSle(E a, E b) { return mkNot(mkSlt(b, a)); }
E mkTrue(); E mkFalse();
// upper bound on the unsigned value
APInt knownMax(E a);
// evaluate under a full assignment of syms; UFs via callback table
struct Assignment {
  std::unordered_map<int, APInt> syms;
  std::map<std::pair<int, std::string>, APInt> uf;  // (fn,input dec) -> out
};
APInt ufDefault(const std::string& name, const APInt& in, unsigned outw);
std::string toStr(E e, int depth = 6);
std::string dagStr(E e);
}  // namespace symx
