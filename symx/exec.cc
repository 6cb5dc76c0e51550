#include "exec.h"
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <cmath>
#include <cstring>
#include <iostream>
using namespace llvm;
namespace symx {
struct KillPath { std::string why; };
struct Restart {};   // state was forked; re-run the current instruction in the forks
struct Unsupported { std::string m; };

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static inline uint64_t msk(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

void Exec::unsupported(const std::string& m) { throw Unsupported{m}; }

Exec::Exec(Module& m, Solver& s, Options o) : M(m), DL(m.getDataLayout()), S(s), opt(o) {
  uint64_t fa = 0x10000;
  for (auto& F : M) { gaddr[&F] = fa; fnAt[fa] = &F; fa += 16; }
  for (auto& G : M.globals()) {
    uint64_t sz = G.getValueType()->isSized() ? DL.getTypeAllocSize(G.getValueType()).getFixedValue() : 64;
    if (G.isDeclaration()) {
      if (G.hasExternalWeakLinkage()) { gaddr[&G] = 0; continue; }
      sz = std::max<uint64_t>(sz, 256);
    }
    Obj* ob = alloc(init, sz, 2, G.getName().str(), 64, true);
    gaddr[&G] = ob->base;
  }
  for (auto& A : M.aliases()) {
    // resolve after globals
    auto* b = A.getAliaseeObject();
    gaddr[&A] = gaddr[b];
    if (auto* f = dyn_cast<Function>(b)) fnAt[gaddr[&A]] = f;
  }
  for (auto& G : M.globals()) {
    if (G.hasInitializer()) {
      initGlobal(init, gaddr[&G], G.getInitializer());
      if (G.isConstant()) find(init, gaddr[&G])->ro = true;
    }
  }
}

// ------------------------------------------------------------ memory
Obj* Exec::alloc(State& s, uint64_t size, uint8_t kind, const std::string& name, uint64_t align, bool zero) {
  if (align < 64) align = 64;
  uint64_t& n = kind == 1 ? s.nextStack : s.nextHeap;
  uint64_t base = (n + align - 1) / align * align;
  n = base + size + 64;
  auto o = std::make_shared<Obj>();
  o->base = base; o->size = size; o->kind = kind; o->name = name;
  o->bytes.assign(size, 0);
  o->tags.assign(size, zero ? 0 : 2);
  s.mem[base] = o;
  return o.get();
}
Obj* Exec::find(State& s, uint64_t addr) {
  auto it = s.mem.upper_bound(addr);
  if (it == s.mem.begin()) return nullptr;
  --it;
  Obj* o = it->second.get();
  if (addr > o->base + o->size) return nullptr;
  return o;
}
Obj* Exec::writable(State& s, Obj* o) {
  auto& p = s.mem[o->base];
  if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
  return p.get();
}
void Exec::checkRange(State& s, uint64_t addr, uint64_t n, bool write) {
  if (n == 0) return;
  Obj* o = find(s, addr);
  if (!o || addr + n > o->base + o->size || addr + n < addr) {
    std::string d = o ? (o->name + " size " + std::to_string(o->size) + " offset " + std::to_string((int64_t)(addr - o->base))) : "no object at " + std::to_string(addr);
    fail(s, mkTrue(), "memory", std::string(write ? "invalid write of " : "invalid read of ") + std::to_string(n) + " bytes: " + d);
    throw KillPath{"memory error"};
  }
  if (write && o->ro) { fail(s, mkTrue(), "memory", "write to read-only " + o->name); throw KillPath{"memory error"}; }
}
Val Exec::fresh(unsigned w, const char* nm) {
  int k = cur ? cur->nameCount[nm]++ : 0;
  return Val(mkSym(std::string(nm) + std::to_string(k), w));
}
Val Exec::loadBits(State& s, uint64_t addr, unsigned bits) {
  unsigned n = (bits + 7) / 8;
  checkRange(s, addr, n, false);
  Obj* o = find(s, addr);
  uint64_t off = addr - o->base;
  bool conc = true;
  const uint8_t* tg = &o->tags[off];
  for (unsigned i = 0; i < n; i++) if (tg[i]) { conc = false; break; }
  if (conc) {
    if (n <= 8) {
      uint64_t v = 0;
      memcpy(&v, &o->bytes[off], n);
      return Val(bits, v & msk(bits));
    }
    std::vector<uint64_t> w((n + 7) / 8, 0);
    memcpy(w.data(), &o->bytes[off], n);
    return Val(mkConst(APInt(n * 8, w).zextOrTrunc(bits)));
  }
  // uninitialised -> fresh symbols written back
  bool un = false;
  for (unsigned i = 0; i < n; i++) if (tg[i] == 2) un = true;
  if (un) {
    o = writable(s, o);
    if (o->cells.empty()) o->cells.resize(o->size);
    for (unsigned i = 0; i < n; i++) if (o->tags[off + i] == 2) {
      unsigned j = i;
      while (j < n && o->tags[off + j] == 2) j++;
      E u = fresh(8 * (j - i), "uninit").toE();
      for (unsigned q = i; q < j; q++) { o->tags[off + q] = 1; o->cells[off + q] = {u, q - i}; }
      i = j - 1;
    }
  }
  // gather runs
  E acc = nullptr;
  unsigned i = 0;
  std::vector<E> parts;
  while (i < n) {
    unsigned j = i;
    E part;
    if (o->tags[off + i] == 0) {
      while (j < n && o->tags[off + j] == 0) j++;
      std::vector<uint64_t> w((j - i + 7) / 8, 0);
      memcpy(w.data(), &o->bytes[off + i], j - i);
      part = mkConst(APInt(8 * (j - i), w));
    } else {
      Cell c = o->cells[off + i];
      while (j < n && o->tags[off + j] == 1 && o->cells[off + j].e == c.e && o->cells[off + j].byte == c.byte + (j - i)) j++;
      unsigned hi = std::min<unsigned>((c.byte + (j - i)) * 8, c.e->w);
      part = mkExtract(c.e, c.byte * 8, hi - c.byte * 8);
      if (part->w < 8 * (j - i)) part = mkZExt(part, 8 * (j - i));
    }
    acc = acc ? mkConcat(part, acc) : part;
    i = j;
  }
  return Val(mkTrunc(acc, bits));
}
void Exec::storeBits(State& s, uint64_t addr, const Val& v0) {
  Val v = v0;
  unsigned n = (v.w + 7) / 8;
  checkRange(s, addr, n, true);
  Obj* o = writable(s, find(s, addr));
  uint64_t off = addr - o->base;
  if (v.w % 8) { v = v.conc() ? Val(n * 8, v.c) : Val(mkZExt(v.e, n * 8)); if (n * 8 > 64 && v.conc()) v = Val(mkConst(APInt(n * 8, v.c))); }
  if (v.conc()) {
    memcpy(&o->bytes[off], &v.c, n);
    memset(&o->tags[off], 0, n);
    return;
  }
  if (v.e->k == K_CONST) {
    const uint64_t* w = v.e->c.getRawData();
    memcpy(&o->bytes[off], w, n);
    memset(&o->tags[off], 0, n);
    return;
  }
  if (o->cells.empty()) o->cells.resize(o->size);
  for (unsigned i = 0; i < n; i++) { o->tags[off + i] = 1; o->cells[off + i] = {v.e, i}; }
}
void Exec::copyBytes(State& s, uint64_t dst, uint64_t src, uint64_t n) {
  if (!n) return;
  checkRange(s, src, n, false);
  checkRange(s, dst, n, true);
  Obj* so = find(s, src);
  ObjP keep = s.mem[so->base];
  std::vector<uint8_t> b(so->bytes.begin() + (src - so->base), so->bytes.begin() + (src - so->base) + n);
  std::vector<uint8_t> t(so->tags.begin() + (src - so->base), so->tags.begin() + (src - so->base) + n);
  std::vector<Cell> c;
  bool sym = false;
  for (auto x : t) if (x == 1) sym = true;
  if (sym) c.assign(so->cells.begin() + (src - so->base), so->cells.begin() + (src - so->base) + n);
  keep.reset();
  Obj* d = writable(s, find(s, dst));
  uint64_t off = dst - d->base;
  memcpy(&d->bytes[off], b.data(), n);
  memcpy(&d->tags[off], t.data(), n);
  if (sym) {
    if (d->cells.empty()) d->cells.resize(d->size);
    for (uint64_t i = 0; i < n; i++) if (t[i] == 1) d->cells[off + i] = c[i];
  }
}
RV Exec::loadTy(State& s, uint64_t addr, Type* T) {
  if (T->isIntegerTy() || T->isPointerTy() || T->isFloatingPointTy()) return RV(loadBits(s, addr, tw(T)));
  RV r; r.agg = std::make_shared<std::vector<RV>>();
  if (auto* VT = dyn_cast<FixedVectorType>(T)) {
    unsigned ew = tw(VT->getElementType());
    if (ew % 8) return unflatten(loadBits(s, addr, tw(T)), T);
    for (unsigned i = 0; i < VT->getNumElements(); i++) r.agg->push_back(RV(loadBits(s, addr + i * ew / 8, ew)));
    return r;
  }
  if (auto* ST = dyn_cast<StructType>(T)) {
    auto* L = DL.getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); i++) r.agg->push_back(loadTy(s, addr + L->getElementOffset(i), ST->getElementType(i)));
    return r;
  }
  if (auto* AT = dyn_cast<ArrayType>(T)) {
    uint64_t es = DL.getTypeAllocSize(AT->getElementType());
    for (unsigned i = 0; i < AT->getNumElements(); i++) r.agg->push_back(loadTy(s, addr + i * es, AT->getElementType()));
    return r;
  }
  unsupported("load type");
}
void Exec::storeTy(State& s, uint64_t addr, Type* T, const RV& v) {
  if (T->isIntegerTy() || T->isPointerTy() || T->isFloatingPointTy()) { storeBits(s, addr, v.v); return; }
  if (auto* VT = dyn_cast<FixedVectorType>(T)) {
    unsigned ew = tw(VT->getElementType());
    if (ew % 8) { storeBits(s, addr, flatten(v, T)); return; }
    for (unsigned i = 0; i < VT->getNumElements(); i++) storeBits(s, addr + i * ew / 8, (*v.agg)[i].v);
    return;
  }
  if (auto* ST = dyn_cast<StructType>(T)) {
    auto* L = DL.getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); i++) storeTy(s, addr + L->getElementOffset(i), ST->getElementType(i), (*v.agg)[i]);
    return;
  }
  if (auto* AT = dyn_cast<ArrayType>(T)) {
    uint64_t es = DL.getTypeAllocSize(AT->getElementType());
    for (unsigned i = 0; i < AT->getNumElements(); i++) storeTy(s, addr + i * es, AT->getElementType(), (*v.agg)[i]);
    return;
  }
  unsupported("store type");
}
void Exec::initGlobal(State& s, uint64_t addr, const Constant* C) {
  Type* T = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;  // zeroed
  if (auto* CDS = dyn_cast<ConstantDataSequential>(C)) {
    StringRef d = CDS->getRawDataValues();
    Obj* o = find(s, addr);
    memcpy(&o->bytes[addr - o->base], d.data(), d.size());
    return;
  }
  if (auto* CS = dyn_cast<ConstantStruct>(C)) {
    auto* L = DL.getStructLayout(CS->getType());
    for (unsigned i = 0; i < CS->getNumOperands(); i++) initGlobal(s, addr + L->getElementOffset(i), CS->getOperand(i));
    return;
  }
  if (isa<ConstantArray>(C) || isa<ConstantVector>(C)) {
    Type* ET = C->getOperand(0)->getType();
    uint64_t es = DL.getTypeAllocSize(ET);
    for (unsigned i = 0; i < C->getNumOperands(); i++) initGlobal(s, addr + i * es, cast<Constant>(C->getOperand(i)));
    return;
  }
  storeTy(s, addr, T, constVal(C));
}
RV Exec::undefVal(Type* T, bool fr) {
  if (T->isIntegerTy() || T->isPointerTy() || T->isFloatingPointTy()) {
    unsigned w = tw(T);
    if (fr) return RV(fresh(w, "undef"));
    return w <= 64 ? RV(Val(w, 0)) : RV(Val(mkConst(w, 0)));
  }
  RV r; r.agg = std::make_shared<std::vector<RV>>();
  if (auto* VT = dyn_cast<FixedVectorType>(T)) for (unsigned i = 0; i < VT->getNumElements(); i++) r.agg->push_back(undefVal(VT->getElementType(), false));
  else if (auto* ST = dyn_cast<StructType>(T)) for (auto* e : ST->elements()) r.agg->push_back(undefVal(e, false));
  else if (auto* AT = dyn_cast<ArrayType>(T)) for (unsigned i = 0; i < AT->getNumElements(); i++) r.agg->push_back(undefVal(AT->getElementType(), false));
  return r;
}
RV Exec::constVal(const Constant* C) {
  Type* T = C->getType();
  if (auto* CI = dyn_cast<ConstantInt>(C)) {
    if (CI->getBitWidth() <= 64) return RV(Val(CI->getBitWidth(), CI->getZExtValue()));
    return RV(Val(mkConst(CI->getValue())));
  }
  if (auto* CF = dyn_cast<ConstantFP>(C)) { APInt a = CF->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() <= 64) return RV(Val(a.getBitWidth(), a.getZExtValue())); return RV(Val(mkConst(a))); }
  if (isa<ConstantPointerNull>(C)) return RV(Val(64, 0));
  if (isa<UndefValue>(C)) return undefVal(T, false);
  if (auto* G = dyn_cast<GlobalValue>(C)) {
    auto it = gaddr.find(G);
    if (it == gaddr.end()) unsupported("global " + G->getName().str());
    if (auto* F = dyn_cast<Function>(G)) if (F->hasExternalWeakLinkage() && F->isDeclaration()) return RV(Val(64, 0));
    return RV(Val(64, it->second));
  }
  if (auto* CE = dyn_cast<ConstantExpr>(C)) {
    switch (CE->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        auto* GEP = cast<GEPOperator>(CE);
        if (!GEP->accumulateConstantOffset(DL, off)) unsupported("constexpr gep");
        return RV(Val(64, constVal(CE->getOperand(0)).v.c + off.getZExtValue()));
      }
      case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
      case Instruction::AddrSpaceCast:
        return castop(CE->getOpcode(), constVal(CE->getOperand(0)), CE->getOperand(0)->getType(), T);
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr:
        return binop(CE->getOpcode(), constVal(CE->getOperand(0)), constVal(CE->getOperand(1)));
      case Instruction::ICmp:
        return RV(icmp(CE->getPredicate(), constVal(CE->getOperand(0)).v, constVal(CE->getOperand(1)).v));
      default: unsupported(std::string("constexpr ") + CE->getOpcodeName());
    }
  }
  RV r; r.agg = std::make_shared<std::vector<RV>>();
  unsigned n = 0;
  if (auto* VT = dyn_cast<FixedVectorType>(T)) n = VT->getNumElements();
  else if (auto* ST = dyn_cast<StructType>(T)) n = ST->getNumElements();
  else if (auto* AT = dyn_cast<ArrayType>(T)) n = AT->getNumElements();
  else unsupported("constant kind");
  for (unsigned i = 0; i < n; i++) r.agg->push_back(constVal(C->getAggregateElement(i)));
  return r;
}

// ------------------------------------------------------------ scalars
Val Exec::sbin(unsigned op, const Val& a, const Val& b) {
  unsigned w = a.w;
  if (a.conc() && b.conc()) {
    uint64_t m = msk(w), x = a.c, y = b.c;
    switch (op) {
      case Instruction::Add: return Val(w, (x + y) & m);
      case Instruction::Sub: return Val(w, (x - y) & m);
      case Instruction::Mul: return Val(w, (x * y) & m);
      case Instruction::And: return Val(w, x & y);
      case Instruction::Or: return Val(w, x | y);
      case Instruction::Xor: return Val(w, x ^ y);
      case Instruction::Shl: if (y >= w) return fresh(w, "poison"); return Val(w, (x << y) & m);
      case Instruction::LShr: if (y >= w) return fresh(w, "poison"); return Val(w, x >> y);
      case Instruction::AShr: if (y >= w) return fresh(w, "poison"); return Val(w, (uint64_t)(sx(x, w) >> y) & m);
      case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
        if (y == 0) { fail(*cur, mkTrue(), "arith", "division by zero"); throw KillPath{"div0"}; }
        if (op == Instruction::UDiv) return Val(w, x / y);
        if (op == Instruction::URem) return Val(w, x % y);
        { int64_t sa = sx(x, w), sb = sx(y, w);
          if (sb == -1) return op == Instruction::SDiv ? Val(w, (0 - x) & m) : Val(w, 0);
          return op == Instruction::SDiv ? Val(w, (uint64_t)(sa / sb) & m) : Val(w, (uint64_t)(sa % sb) & m); }
    }
    if (op >= Instruction::FAdd && op <= Instruction::FRem) {}
  }
  switch (op) {
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      if (!a.conc() || !b.conc()) { unsupported("symbolic floating point"); }
      if (w == 64) {
        double x, y, r; memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8);
        r = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : op == Instruction::FDiv ? x / y : fmod(x, y);
        uint64_t o; memcpy(&o, &r, 8); return Val(64, o);
      }
      if (w == 32) {
        float x, y, r; uint32_t xa = (uint32_t)a.c, ya = (uint32_t)b.c; memcpy(&x, &xa, 4); memcpy(&y, &ya, 4);
        r = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : op == Instruction::FDiv ? x / y : fmodf(x, y);
        uint32_t o; memcpy(&o, &r, 4); return Val(32, o);
      }
      unsupported("fp width");
    }
  }
  E x = a.toE(), y = b.toE();
  switch (op) {
    case Instruction::Add: return Val(mkAdd(x, y));
    case Instruction::Sub: return Val(mkSub(x, y));
    case Instruction::Mul: return Val(mkMul(x, y));
    case Instruction::And: return Val(mkAnd(x, y));
    case Instruction::Or: return Val(mkOr(x, y));
    case Instruction::Xor: return Val(mkXor(x, y));
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      if (y->isConst() && y->c.uge(w)) return fresh(w, "poison");
      Val r(op == Instruction::Shl ? mkShl(x, y) : op == Instruction::LShr ? mkLShr(x, y) : mkAShr(x, y));
      if (!y->isConst() && knownMax(y).uge(w)) {
        E ok = mkUlt(y, mkConst(y->w, w));
        if (!mustTrue(*cur, ok) && S.check(cur->pc, mkNot(ok)) != Res::Unsat)
          return Val(mkIte(ok, r.toE(), fresh(w, "poison").toE()));
      }
      return r;
    }
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
      E z = mkEq(y, mkConst(w, 0));
      if (!z->isConst() || z->c.isOne()) {
        if (S.check(cur->pc, z) != Res::Unsat) {
          fail(*cur, z, "arith", "division by zero");
          if (S.check(cur->pc, mkNot(z)) == Res::Unsat) throw KillPath{"div0"};
          addPC(*cur, mkNot(z));
        }
      }
      if ((op == Instruction::URem || op == Instruction::UDiv) && !x->isConst()) {
        E lt = mkUlt(x, y);
        if (mustTrue(*cur, lt) || (!lt->isConst() && !lt->uf && S.check(cur->pc, mkNot(lt), opt.solverTimeout) == Res::Unsat)) return op == Instruction::URem ? Val(x) : Val(mkConst(w, 0));
      }
      return Val(op == Instruction::UDiv ? mkUDiv(x, y) : op == Instruction::URem ? mkURem(x, y) : op == Instruction::SDiv ? mkSDiv(x, y) : mkSRem(x, y));
    }
  }
  unsupported("binop");
}
RV Exec::binop(unsigned op, const RV& a, const RV& b) {
  if (!a.agg) return RV(sbin(op, a.v, b.v));
  RV r; r.agg = std::make_shared<std::vector<RV>>(a.agg->size());
  size_t n = a.agg->size(); unsigned ew = n ? (*a.agg)[0].v.w : 0;
  if (op == Instruction::Xor && ew && ew < 128 && 128 % ew == 0 && (n * ew) % 128 == 0) {
    // XOR whole 128-bit lanes when one of them has an abbreviation
    size_t per = 128 / ew;
    for (size_t g = 0; g < n; g += per) {
      bool sym = false;
      for (size_t i = g; i < g + per; i++) if (!(*a.agg)[i].v.conc() && !(*b.agg)[i].v.conc()) sym = true;
      if (sym) {
        E x = nullptr, y = nullptr;
        for (size_t i = g; i < g + per; i++) { E u = (*a.agg)[i].v.toE(), v = (*b.agg)[i].v.toE(); x = x ? mkConcat(u, x) : u; y = y ? mkConcat(v, y) : v; }
        if (abbrev(x) != x || abbrev(y) != y) {
          E z = mkXor(x, y);
          for (size_t i = 0; i < per; i++) (*r.agg)[g + i] = RV(Val(mkExtract(z, (unsigned)(i * ew), ew)));
          continue;
        }
      }
      for (size_t i = g; i < g + per; i++) (*r.agg)[i] = RV(sbin(op, (*a.agg)[i].v, (*b.agg)[i].v));
    }
    return r;
  }
  for (size_t i = 0; i < a.agg->size(); i++) (*r.agg)[i] = RV(sbin(op, (*a.agg)[i].v, (*b.agg)[i].v));
  return r;
}
Val Exec::icmp(unsigned p, const Val& a, const Val& b) {
  unsigned w = a.w;
  if (a.conc() && b.conc()) {
    uint64_t x = a.c, y = b.c; int64_t sa = sx(x, w), sb = sx(y, w);
    bool r = false;
    switch (p) {
      case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
      case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_SLT: r = sa < sb; break; case CmpInst::ICMP_SLE: r = sa <= sb; break;
      case CmpInst::ICMP_SGT: r = sa > sb; break; case CmpInst::ICMP_SGE: r = sa >= sb; break;
    }
    return Val(1, r);
  }
  E x = a.toE(), y = b.toE();
  switch (p) {
    case CmpInst::ICMP_EQ: return Val(mkEq(x, y)); case CmpInst::ICMP_NE: return Val(mkNe(x, y));
    case CmpInst::ICMP_ULT: return Val(mkUlt(x, y)); case CmpInst::ICMP_ULE: return Val(mkUle(x, y));
    case CmpInst::ICMP_UGT: return Val(mkUlt(y, x)); case CmpInst::ICMP_UGE: return Val(mkUle(y, x));
    case CmpInst::ICMP_SLT: return Val(mkSlt(x, y)); case CmpInst::ICMP_SLE: return Val(mkSle(x, y));
    case CmpInst::ICMP_SGT: return Val(mkSlt(y, x)); case CmpInst::ICMP_SGE: return Val(mkSle(y, x));
  }
  unsupported("icmp");
}
Val Exec::select(const Val& c, const Val& a, const Val& b) {
  if (c.conc()) return c.c ? a : b;
  if (mustTrue(*cur, c.e)) return a;
  if (mustTrue(*cur, mkNot(c.e))) return b;
  return Val(mkIte(c.e, a.toE(), b.toE()));
}
RV Exec::selectRV(const Val& c, const RV& a, const RV& b) {
  if (c.conc()) return c.c ? a : b;
  if (!a.agg) return RV(select(c, a.v, b.v));
  RV r; r.agg = std::make_shared<std::vector<RV>>(a.agg->size());
  for (size_t i = 0; i < a.agg->size(); i++) (*r.agg)[i] = selectRV(c, (*a.agg)[i], (*b.agg)[i]);
  return r;
}
Val Exec::flatten(const RV& v, Type* T) {
  if (!v.agg) return v.v;
  E acc = nullptr;
  for (auto& x : *v.agg) { E e = x.v.toE(); acc = acc ? mkConcat(e, acc) : e; }
  return Val(acc);
}
RV Exec::unflatten(const Val& v, Type* T) {
  auto* VT = dyn_cast<FixedVectorType>(T);
  if (!VT) return RV(v);
  unsigned ew = tw(VT->getElementType());
  RV r; r.agg = std::make_shared<std::vector<RV>>();
  E e = v.toE();
  for (unsigned i = 0; i < VT->getNumElements(); i++) r.agg->push_back(RV(Val(mkExtract(e, i * ew, ew))));
  return r;
}
static Val scast(Exec*, unsigned op, const Val& a, unsigned w) {
  if (a.conc() && w <= 64) {
    switch (op) {
      case Instruction::ZExt: return Val(w, a.c);
      case Instruction::SExt: return Val(w, (uint64_t)sx(a.c, a.w) & msk(w));
      case Instruction::Trunc: return Val(w, a.c & msk(w));
      case Instruction::PtrToInt: case Instruction::IntToPtr: return Val(w, a.c & msk(w));
    }
  }
  E e = a.toE();
  switch (op) {
    case Instruction::ZExt: return Val(mkZExt(e, w));
    case Instruction::SExt: return Val(mkSExt(e, w));
    case Instruction::Trunc: return Val(mkTrunc(e, w));
    case Instruction::PtrToInt: case Instruction::IntToPtr:
      return w >= e->w ? Val(mkZExt(e, w)) : Val(mkTrunc(e, w));
  }
  throw Unsupported{"cast"};
}
RV Exec::castop(unsigned op, const RV& a, Type* from, Type* to) {
  if (op == Instruction::BitCast || op == Instruction::AddrSpaceCast) {
    if (!a.agg && !to->isVectorTy()) return a;
    if (a.agg && to->isVectorTy() && cast<FixedVectorType>(to)->getNumElements() == a.agg->size()) return a;
    return unflatten(flatten(a, from), to);
  }
  if (op == Instruction::SIToFP || op == Instruction::UIToFP) {
    if (a.agg) unsupported("vector fp cast");
    uint64_t v = a.v.conc() ? a.v.c : concretize(*cur, a.v);
    double d = op == Instruction::SIToFP ? (double)sx(v, a.v.w) : (double)v;
    if (to->isDoubleTy()) { uint64_t o; memcpy(&o, &d, 8); return RV(Val(64, o)); }
    if (to->isFloatTy()) { float f = op == Instruction::SIToFP ? (float)sx(v, a.v.w) : (float)v; uint32_t o; memcpy(&o, &f, 4); return RV(Val(32, o)); }
    unsupported("fp type");
  }
  if (op == Instruction::FPToSI || op == Instruction::FPToUI) {
    if (a.agg || !a.v.conc()) unsupported("symbolic fp cast");
    double d; if (a.v.w == 64) memcpy(&d, &a.v.c, 8); else { float f; uint32_t x = (uint32_t)a.v.c; memcpy(&f, &x, 4); d = f; }
    unsigned w = tw(to);
    double lim = std::ldexp(1.0, (int)w - (op == Instruction::FPToSI ? 1 : 0));
    if (!(d < lim) || !(d > (op == Instruction::FPToSI ? -lim - 1 : -1.0))) return RV(fresh(w, "fppoison"));
    uint64_t o = op == Instruction::FPToSI ? (uint64_t)(int64_t)d : (uint64_t)d;
    return RV(Val(w, o & msk(w)));
  }
  if (op == Instruction::FPExt || op == Instruction::FPTrunc) {
    if (a.agg || !a.v.conc()) unsupported("symbolic fp cast");
    if (op == Instruction::FPExt && a.v.w == 32 && tw(to) == 64) { float f; uint32_t x = (uint32_t)a.v.c; memcpy(&f, &x, 4); double d = f; uint64_t o; memcpy(&o, &d, 8); return RV(Val(64, o)); }
    if (op == Instruction::FPTrunc && a.v.w == 64 && tw(to) == 32) { double d; memcpy(&d, &a.v.c, 8); float f = (float)d; uint32_t o; memcpy(&o, &f, 4); return RV(Val(32, o)); }
    unsupported("fp cast");
  }
  unsigned w = tw(to->getScalarType());
  if (!a.agg) return RV(scast(this, op, a.v, w));
  RV r; r.agg = std::make_shared<std::vector<RV>>(a.agg->size());
  for (size_t i = 0; i < a.agg->size(); i++) (*r.agg)[i] = RV(scast(this, op, (*a.agg)[i].v, w));
  return r;
}

// ------------------------------------------------------------ paths
void Exec::addPC(State& s, E c) {
  c = abbrevBit(c);
  if (c->isConst()) return;
  if (c->k == K_AND && c->w == 1) { addPC(s, c->ops[0]); addPC(s, c->ops[1]); return; }
  if (!s.pcset.insert(c).second) return;
  s.pc.push_back(c);
  if (c->k == K_EQ && c->ops[1]->isConst()) s.known.emplace(c->ops[0], c->ops[1]->c);
  if (c->k == K_EQ && c->ops[1]->isConst() && c->ops[1]->c.isZero()) {
    E l = c->ops[0];
    if (l->k == K_LIN && l->lin.size() == 1 && l->c.isZero() && l->lin[0].shift < 0 && l->lin[0].mask.isAllOnes() && (unsigned)-l->lin[0].shift + l->w == l->lin[0].leaf->w) {
      E X = l->lin[0].leaf; unsigned lo = (unsigned)-l->lin[0].shift;
      s.ext[X].push_back({lo, X});
      E t = mkTrunc(X, lo);
      if (t->k != K_LIN && !t->isConst()) s.ext[t].push_back({lo, X});
      if (t->k == K_LIN && t->lin.size() == 1 && t->lin[0].shift == 0 && t->c.isZero() && t->lin[0].leaf != X) s.ext[t->lin[0].leaf].push_back({lo, X});
    }
  }
}
bool Exec::mustTrue(State& s, E c) {
  if (c->isConst()) return c->c.isOne();
  if (s.pcset.count(c)) return true;
  if (c->k == K_AND) return mustTrue(s, c->ops[0]) && mustTrue(s, c->ops[1]);
  if (c->k == K_EQ && c->uf) return impliedEq(c, s.pc) || impliedSumEq(c, s.ext, s.pc);
  return false;
}
// a linear 1-bit condition that contains a bit of a pseudorandom value
static bool prBit(E c) {
  if (c->bl) return true;
  if (c->k == K_LIN && c->w == 1) for (auto& t : c->lin) if (t.leaf->k == K_UF) return true;
  return false;
}
int Exec::branch(State& s, E c) {
  c = abbrevBit(c);
  if (c->isConst()) return c->c.isOne();
  if (mustTrue(s, c)) return 1;
  if (mustTrue(s, mkNot(c))) return 0;
  if (prBit(c)) return 2;   // a pseudorandom bit: explore both sides; feasibility is decided with the assertions
  // Conditions on pseudorandom values: an undecided side is explored as well
  // (every assertion on it is still decided together with its path condition).
  if (c->uf) {
    E e = c->k == K_EQ ? c : mkNot(c)->k == K_EQ ? mkNot(c) : nullptr;
    if (e && e->ops[0]->w >= 16) {
      for (E o : e->ops) {
        if (o->k == K_UF) return 2;
        for (auto& t : o->lin) if (t.leaf->k == K_UF || t.leaf->k == K_OPAQUE) return 2;
        for (auto& p : o->sum) if (p.second[0] && p.first->uf) return 2;
        for (auto& t : o->lin) for (auto& p : t.leaf->sum) if (p.second[0] && p.first->uf) return 2;
      }
    }
  }
  unsigned to = c->uf ? std::min(opt.solverTimeout, 1500u) : opt.solverTimeout;
  if (c->uf) { Model gm; if (guess(s, c, gm, 24) && guess(s, mkNot(c), gm, 24)) return 2; }
  Res t = S.check(s.pc, c, to);
  if (t == Res::Unsat) return 0;
  Res f = S.check(s.pc, mkNot(c), to);
  if (f == Res::Unsat) return 1;
  return 2;
}
std::string Exec::loc(State& s) {
  for (auto it = s.stack.rbegin(); it != s.stack.rend(); ++it) {
    auto& f = *it;
    auto& b = f.f->blocks[f.bb];
    int p = std::min<int>(f.pc, (int)b.insts.size() - 1);
    const Instruction* I = b.insts[p].I;
    if (const DebugLoc& d = I->getDebugLoc()) {
      std::string fn = d->getFilename().str();
      return fn + ":" + std::to_string(d.getLine());
    }
  }
  return "?";
}
std::vector<std::string> Exec::backtrace(State& s) {
  std::vector<std::string> r;
  for (auto it = s.stack.rbegin(); it != s.stack.rend(); ++it) {
    auto& f = *it;
    auto& b = f.f->blocks[f.bb];
    int p = f.pc;
    if (it != s.stack.rbegin()) p--;
    p = std::max(0, std::min<int>(p, (int)b.insts.size() - 1));
    const Instruction* I = b.insts[p].I;
    std::string l = "?";
    if (const DebugLoc& d = I->getDebugLoc()) l = d->getFilename().str() + ":" + std::to_string(d.getLine());
    r.push_back(f.f->pretty.substr(0, 160) + " at " + l);
    if (r.size() > 14) break;
  }
  return r;
}
static uint64_t splitmix(uint64_t& x) { x += 0x9E3779B97F4A7C15ull; uint64_t z = x; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
bool Exec::hasUf(State& s, E q) {
  if (q->uf) return true;
  for (E p : s.pc) if (p->uf) return true;
  return false;
}
// Search for a model of pc and q under the default interpretation of the
// uninterpreted functions: the solver settles the constraints without them,
// the remaining inputs are drawn pseudo-randomly.
bool Exec::guess(State& s, E q, Model& out, int tries) {
  if (!hasUf(s, q)) return false;
  std::vector<E> plain, rest;
  for (E p : s.pc) (p->uf ? rest : plain).push_back(p);
  (q->uf ? rest : plain).push_back(q);
  Model m0;
  if (!plain.empty() && S.checkModel(plain, nullptr, m0, opt.solverTimeout) != Res::Sat) return false;
  m0.uf.clear();
  std::set<int> fixed;
  for (auto& p : m0.syms) fixed.insert(p.first);
  std::set<int> vary;
  for (E p : rest) for (int id : *p->supp) if (!(id & 1) && !fixed.count(id >> 1)) vary.insert(id >> 1);
  for (int id : s.inputs) if (!fixed.count(id)) vary.insert(id);
  uint64_t x = opt.seed * 0x9E3779B9 + 12345;
  for (int t = 0; t < tries; t++) {
    Model m = m0;
    for (int id : vary) {
      unsigned bw = g_syms[id].w; std::vector<uint64_t> d((bw + 63) / 64);
      for (auto& v : d) v = splitmix(x);
      m.syms[id] = APInt(bw, d);
    }
    bool ok = true;
    for (E p : rest) if (!S.eval(p, m).isOne()) { ok = false; break; }
    if (ok) { out = std::move(m); return true; }
  }
  return false;
}
void Exec::fail(State& s, E cond, const std::string& kind, const std::string& msg) {
  noSpec();
  Finding f; f.kind = kind; f.msg = msg; f.loc = loc(s); f.trace = backtrace(s);
  // Prefer a counterexample in which every uninterpreted function keeps its
  // default (real) interpretation: it replays unchanged on native code.
  bool g = guess(s, cond, f.model, 300);
  Res r = g ? Res::Sat : S.checkModel(s.pc, cond, f.model, opt.solverTimeout);
  if (r == Res::Unsat) return;
  if (r == Res::Sat && !g && hasUf(s, cond)) { Model m2; if (guess(s, cond, m2, 4000)) f.model = std::move(m2); }
  if (r == Res::Unknown && guess(s, cond, f.model, 4000)) r = Res::Sat;
  if (r == Res::Unknown) { inconclusive.push_back("solver unknown at " + f.loc + ": " + msg); return; }
  f.hasModel = true; f.inputs = s.inputs;
  findings.push_back(f);
}
void Exec::fork(State& s, const std::vector<E>& alts) {
  // s is replaced by alts.size() states; the caller then throws Restart
  if (alts.size() > 1) noSpec();
  forks += alts.size() - 1;
  forkSites[loc(s)] += alts.size() - 1;
  for (size_t i = 1; i < alts.size(); i++) {
    State* n = new State(s);
    n->id = nextState++;
    addPC(*n, alts[i]);
    if (alts[i]->k == K_EQ || true) {}
    work.push_back(n);
  }
  addPC(s, alts[0]);
}
uint64_t Exec::concretize(State& s, const Val& v) {
  if (v.conc()) return v.c;
  if (v.e->k == K_CONST) return v.e->c.getLimitedValue();
  auto it = s.known.find(v.e);
  if (it != s.known.end()) return it->second.getLimitedValue();
  std::vector<E> alts; std::vector<APInt> vals;
  {   // a pseudorandom bit: both values, as for a branch
    E lo = mkTrunc(v.e, 1);
    if (prBit(lo) && mkZExt(lo, v.e->w) == v.e) {
      int b = branch(s, lo);
      if (b != 2) return (uint64_t)b;
      noSpec(); forks++; forkSites[loc(s) + " (values)"]++;
      State* n = new State(s); n->id = nextState++;
      addPC(*n, mkNot(lo)); n->known.emplace(v.e, APInt(v.e->w, 0)); work.push_back(n);
      addPC(s, lo); s.known.emplace(v.e, APInt(v.e->w, 1));
      return 1;
    }
  }
  std::vector<E> pc = s.pc;
  for (;;) {
    Model m;
    Res r = S.checkModel(pc, nullptr, m, opt.solverTimeout);
    if (r == Res::Unknown) throw Unsupported{"solver unknown while enumerating values"};
    if (r == Res::Unsat) break;
    APInt x = Solver::eval(v.e, m);
    // the model may not mention every symbol; confirm
    E eq = mkEq(v.e, mkConst(x));
    if (S.check(pc, eq, opt.solverTimeout) == Res::Unsat) throw Unsupported{"model evaluation mismatch"};
    alts.push_back(eq); vals.push_back(x);
    pc.push_back(mkNot(eq));
    if (alts.size() > opt.maxEnum) throw Unsupported{"too many values to enumerate for " + toStr(v.e, 3)};
  }
  if (alts.empty()) throw KillPath{"infeasible"};
  if (alts.size() > 1) noSpec();
  // register known values in each fork explicitly (mkEq may normalise)
  forks += alts.size() - 1;
  forkSites[loc(s) + " (values)"] += alts.size() - 1;
  for (size_t i = 1; i < alts.size(); i++) {
    State* n = new State(s); n->id = nextState++;
    addPC(*n, alts[i]); n->known.emplace(v.e, vals[i]);
    work.push_back(n);
  }
  addPC(s, alts[0]); s.known.emplace(v.e, vals[0]);
  return vals[0].getLimitedValue();
}
std::vector<uint64_t> Exec::enumAddrs(State& s, E a, uint64_t n, bool write) {
  auto it = s.known.find(a);
  if (it != s.known.end()) return {it->second.getZExtValue()};
  std::vector<uint64_t> out;
  std::vector<E> pc = s.pc;
  for (;;) {
    Model m;
    Res r = S.checkModel(pc, nullptr, m, opt.solverTimeout);
    if (r == Res::Unknown) throw Unsupported{"solver unknown while enumerating addresses"};
    if (r == Res::Unsat) break;
    APInt x = Solver::eval(a, m);
    E eq = mkEq(a, mkConst(x));
    uint64_t v = x.getZExtValue();
    Obj* o = find(s, v);
    if (!o || v + n > o->base + o->size || (write && o->ro)) {
      fail(s, eq, "memory", std::string(write ? "invalid write" : "invalid read") + " through symbolic pointer");
      // drop all out-of-object addresses: constrain to what was valid so far or other valid ones
      if (findings.size() >= (size_t)opt.maxFindings) throw KillPath{"memory error"};
      addPC(s, mkNot(eq));
    } else out.push_back(v);
    pc.push_back(mkNot(eq));
    if (out.size() > opt.maxEnum) throw Unsupported{"too many addresses to enumerate"};
  }
  if (out.empty()) throw KillPath{"no valid address"};
  return out;
}
std::string Exec::cstr(State& s, uint64_t addr) {
  std::string r;
  for (int i = 0; i < 4096; i++) {
    Val b = loadBits(s, addr + i, 8);
    if (!b.conc()) return r + "<sym>";
    if (!b.c) break;
    r += (char)b.c;
  }
  return r;
}

// ------------------------------------------------------------ function lowering
CFunc* Exec::getFunc(const Function* F) {
  auto& p = funcs[F];
  if (p) return p.get();
  p = std::make_unique<CFunc>();
  CFunc* f = p.get();
  f->F = F;
  f->pretty = llvm::demangle(F->getName().str());
  if (auto* sp = F->getSubprogram()) {
    f->srcFile = sp->getFilename().str(); f->line = sp->getLine();
    if (!f->srcFile.empty() && f->srcFile[0] != '/') f->srcFile = sp->getDirectory().str() + "/" + f->srcFile;
  }
  std::map<const Value*, int> ids;
  for (auto& a : F->args()) ids[&a] = f->nregs++;
  for (auto& B : *F) {
    f->bbIdx[&B] = (int)f->bbs.size(); f->bbs.push_back(&B);
    for (auto& I : B) if (!I.getType()->isVoidTy()) ids[&I] = f->nregs++;
  }
  std::map<const Value*, int> cids;
  auto opnd = [&](const Value* v) -> int {
    auto it = ids.find(v);
    if (it != ids.end()) return it->second;
    auto* C = dyn_cast<Constant>(v);
    if (!C) { return 0; }
    auto jt = cids.find(v);
    if (jt != cids.end()) return jt->second;
    RV r = (isa<UndefValue>(C) && !C->getType()->isAggregateType() && !C->getType()->isVectorTy()) ? undefVal(C->getType(), true) : constVal(C);
    f->consts.push_back(r);
    int id = -(int)f->consts.size();
    cids[v] = id;
    return id;
  };
  for (auto* B : f->bbs) {
    f->blocks.emplace_back();
    CBlock& cb = f->blocks.back();
    for (auto& I : *B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      CInst ci; ci.I = &I; ci.op = I.getOpcode();
      if (auto* LI = dyn_cast<LoadInst>(&I)) { if (LI->getAlign().value() >= 16) ci.al = (unsigned)LI->getAlign().value(); }
      if (auto* SI = dyn_cast<StoreInst>(&I)) { if (SI->getAlign().value() >= 16) ci.al = (unsigned)SI->getAlign().value(); }
      if (!I.getType()->isVoidTy()) {
        ci.dst = ids[&I];
        if (I.getType()->isIntegerTy() || I.getType()->isPointerTy() || I.getType()->isFloatingPointTy()) ci.w = tw(I.getType());
      }
      if (auto* P = dyn_cast<PHINode>(&I)) {
        cb.nphi++;
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { ci.a.push_back(opnd(P->getIncomingValue(i))); ci.idx.push_back({f->bbIdx[P->getIncomingBlock(i)], 0}); }
      } else if (auto* Br = dyn_cast<BranchInst>(&I)) {
        if (Br->isConditional()) { ci.a.push_back(opnd(Br->getCondition())); ci.t1 = f->bbIdx[Br->getSuccessor(1)]; }
        ci.t0 = f->bbIdx[Br->getSuccessor(0)];
      } else if (auto* SI = dyn_cast<SwitchInst>(&I)) {
        ci.a.push_back(opnd(SI->getCondition()));
        ci.t0 = f->bbIdx[SI->getDefaultDest()];
        for (auto& c : SI->cases()) ci.idx.push_back({f->bbIdx[c.getCaseSuccessor()], (int64_t)c.getCaseValue()->getZExtValue()});
      } else if (auto* CB = dyn_cast<CallBase>(&I)) {
        ci.callee = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
        if (!ci.callee) if (auto* GA = dyn_cast<GlobalAlias>(CB->getCalledOperand())) ci.callee = dyn_cast<Function>(GA->getAliaseeObject());
        for (auto& a : CB->args()) {
          if (isa<MetadataAsValue>(a.get())) { ci.a.push_back(opnd(ConstantInt::getFalse(M.getContext()))); continue; }
          ci.a.push_back(opnd(a.get()));
        }
        if (!ci.callee && !CB->isInlineAsm()) ci.a.push_back(opnd(CB->getCalledOperand()));
        if (auto* Inv = dyn_cast<InvokeInst>(&I)) ci.t0 = f->bbIdx[Inv->getNormalDest()];
      } else if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
        ci.a.push_back(opnd(G->getPointerOperand()));
        for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
          const Value* ix = gi.getOperand();
          if (auto* ST = gi.getStructTypeOrNull()) { ci.off += DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          int64_t es = (int64_t)DL.getTypeAllocSize(gi.getIndexedType()).getFixedValue();
          if (auto* c = dyn_cast<ConstantInt>(ix)) ci.off += c->getSExtValue() * es;
          else ci.idx.push_back({opnd(ix), es});
        }
      } else {
        for (auto& o : I.operands()) ci.a.push_back(opnd(o.get()));
      }
      cb.insts.push_back(std::move(ci));
    }
  }
  return f;
}
void Exec::gotoBB(int t) {
  Frame& f = cur->stack.back();
  f.prev = f.bb; f.bb = t; f.pc = 0;
  CBlock& b = f.f->blocks[t];
  if (b.nphi) {
    if (b.nphi == 1) {
      CInst& ci = b.insts[0];
      for (size_t k = 0; k < ci.idx.size(); k++) if (ci.idx[k].first == f.prev) { RV v = reg(ci.a[k]); f.regs[ci.dst] = v; break; }
    } else {
      std::vector<RV> tmp(b.nphi);
      for (int i = 0; i < b.nphi; i++) {
        CInst& ci = b.insts[i];
        for (size_t k = 0; k < ci.idx.size(); k++) if (ci.idx[k].first == f.prev) { tmp[i] = reg(ci.a[k]); break; }
      }
      for (int i = 0; i < b.nphi; i++) f.regs[b.insts[i].dst] = tmp[i];
    }
    f.pc = b.nphi;
  }
}
// Branch on a pseudorandom bit around one or two straight-line blocks: execute
// both sides and merge with selects instead of forking.
bool Exec::tryMerge(CInst& ci, E c) {
  Frame& f = cur->stack.back();
  if (mustTrue(*cur, c) || mustTrue(*cur, mkNot(c))) return false;
  const BasicBlock* me = f.f->bbs[f.bb];
  auto side = [&](int t) -> int {   // join block if t is a mergeable side block, else -1
    const BasicBlock* B = f.f->bbs[t];
    if (B->getSinglePredecessor() != me) return -1;
    CBlock& cb = f.f->blocks[t];
    if (cb.nphi || cb.insts.size() > 60) return -1;
    CInst& last = cb.insts.back();
    if (last.op != Instruction::Br || last.t1 >= 0) return -1;
    return last.t0;
  };
  int j0 = side(ci.t0), j1 = side(ci.t1), J;
  bool s0 = false, s1 = false;
  if (j0 >= 0 && j0 == ci.t1) { J = j0; s0 = true; }
  else if (j1 >= 0 && j1 == ci.t0) { J = j1; s1 = true; }
  else if (j0 >= 0 && j0 == j1) { J = j0; s0 = s1 = true; }
  else return false;
  struct St { uint64_t a; Type* T; RV v; };
  auto inRange = [&](uint64_t a, uint64_t n, bool w) { Obj* o = find(*cur, a); return o && a + n <= o->base + o->size && a + n >= a && !(w && o->ro); };
  auto exec = [&](int t, std::vector<St>& st) -> bool {
    for (auto& i : f.f->blocks[t].insts) {
      switch (i.op) {
        case Instruction::Br: return true;
        case Instruction::Add: case Instruction::Sub: case Instruction::And: case Instruction::Or: case Instruction::Xor:
          f.regs[i.dst] = binop(i.op, reg(i.a[0]), reg(i.a[1])); break;
        case Instruction::Shl: case Instruction::LShr: {
          const RV& b = reg(i.a[1]);
          if (b.agg || !b.v.isConst() || b.v.ap().uge(b.v.w)) return false;
          f.regs[i.dst] = binop(i.op, reg(i.a[0]), reg(i.a[1])); break;
        }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::BitCast:
          f.regs[i.dst] = castop(i.op, reg(i.a[0]), i.I->getOperand(0)->getType(), i.I->getType()); break;
        case Instruction::GetElementPtr: {
          const RV& b = reg(i.a[0]);
          if (b.agg || !b.v.conc()) return false;
          uint64_t x = b.v.c + i.off;
          for (auto& p : i.idx) { const Val& v = reg(p.first).v; if (!v.conc()) return false; x += (uint64_t)(sx(v.c, v.w) * p.second); }
          f.regs[i.dst] = RV(Val(64, x)); break;
        }
        case Instruction::Load: {
          const Val& a = reg(i.a[0]).v; Type* T = i.I->getType();
          uint64_t n = DL.getTypeStoreSize(T).getFixedValue();
          if (!a.conc() || !inRange(a.c, n, false)) return false;
          const RV* fwd = nullptr;
          for (auto& s : st) {
            uint64_t m = DL.getTypeStoreSize(s.T).getFixedValue();
            if (s.a + m <= a.c || a.c + n <= s.a) continue;
            if (s.a == a.c && s.T == T) fwd = &s.v; else return false;
          }
          if (fwd) { RV v = *fwd; f.regs[i.dst] = v; } else f.regs[i.dst] = loadTy(*cur, a.c, T);
          break;
        }
        case Instruction::Store: {
          const Val& a = reg(i.a[1]).v; Type* T = i.I->getOperand(0)->getType();
          uint64_t n = DL.getTypeStoreSize(T).getFixedValue();
          if (!a.conc() || !inRange(a.c, n, true)) return false;
          for (auto& s : st) {
            uint64_t m = DL.getTypeStoreSize(s.T).getFixedValue();
            if (s.a + m <= a.c || a.c + n <= s.a) continue;
            if (!(s.a == a.c && s.T == T)) return false;
          }
          bool rep = false;
          for (auto& s : st) if (s.a == a.c) { s.v = reg(i.a[0]); rep = true; }
          if (!rep) st.push_back({a.c, T, reg(i.a[0])});
          break;
        }
        default: return false;
      }
    }
    return false;
  };
  std::vector<St> w0, w1;
  if (s0 && !exec(ci.t0, w0)) return false;
  if (s1 && !exec(ci.t1, w1)) return false;
  std::function<bool(const RV&)> ok = [&](const RV& v) -> bool {
    if (v.agg) { for (auto& x : *v.agg) if (!ok(x)) return false; return true; }
    return v.v.conc() || mergeable(v.v.e);
  };
  struct W { uint64_t a; Type* T; RV x, y; };
  std::vector<W> ws;
  for (auto& s : w0) {
    RV other; bool hit = false;
    uint64_t n = DL.getTypeStoreSize(s.T).getFixedValue();
    for (auto& q : w1) {
      uint64_t m = DL.getTypeStoreSize(q.T).getFixedValue();
      if (s.a + n <= q.a || q.a + m <= s.a) continue;
      if (s.a == q.a && s.T == q.T) { other = q.v; hit = true; } else return false;
    }
    ws.push_back({s.a, s.T, s.v, hit ? other : loadTy(*cur, s.a, s.T)});
  }
  for (auto& q : w1) {
    bool hit = false;
    for (auto& s : w0) if (s.a == q.a) hit = true;
    if (!hit) ws.push_back({q.a, q.T, loadTy(*cur, q.a, q.T), q.v});
  }
  for (auto& w : ws) if (!ok(w.x) || !ok(w.y)) return false;
  CBlock& jb = f.f->blocks[J];
  int p0 = s0 ? ci.t0 : f.bb, p1 = s1 ? ci.t1 : f.bb;
  std::vector<RV> ph(jb.nphi);
  for (int i = 0; i < jb.nphi; i++) {
    CInst& q = jb.insts[i]; RV x, y;
    for (size_t k = 0; k < q.idx.size(); k++) { if (q.idx[k].first == p0) x = reg(q.a[k]); if (q.idx[k].first == p1) y = reg(q.a[k]); }
    if (q.I->getType()->isPointerTy() && !(x.v.conc() && y.v.conc() && x.v.c == y.v.c)) return false;
    if (!ok(x) || !ok(y)) return false;
    ph[i] = selectRV(Val(c), x, y);
  }
  for (auto& w : ws) storeTy(*cur, w.a, w.T, selectRV(Val(c), w.x, w.y));
  for (int i = 0; i < jb.nphi; i++) f.regs[jb.insts[i].dst] = ph[i];
  f.prev = p0; f.bb = J; f.pc = jb.nphi;
  merges++;
  return true;
}
// Branch on a pseudorandom bit around an arbitrary region: run both sides on
// copies of the state up to the immediate post-dominator and merge the copies.
// Gives up (and the caller forks) when a side forks, fails, performs a harness
// call, allocates differently or leaves values that have no select form.
bool Exec::tryMergeGen(CInst& ci, E c) {
  MergeStat& ms = mergeStat[ci.I];
  if (ms.bad >= 6 && ms.ok == 0) return false;
  if (spec >= 3) return false;
  if (mustTrue(*cur, c) || mustTrue(*cur, mkNot(c))) return false;
  CFunc* f = cur->stack.back().f; int me = cur->stack.back().bb;
  if (!f->domDone) {
    Function* F = const_cast<Function*>(f->F);
    f->dt = std::make_unique<DominatorTree>(*F);
    // Immediate post-dominators over the blocks that can return (blocks that
    // only lead to aborts do not count as exits).
    int N = (int)f->bbs.size(), X = N;
    std::vector<std::vector<int>> succ(N), pred(N + 1);
    for (int i = 0; i < N; i++) {
      auto* T = f->bbs[i]->getTerminator();
      if (isa<ReturnInst>(T)) { succ[i].push_back(X); pred[X].push_back(i); }
      for (unsigned k = 0; k < T->getNumSuccessors(); k++) { int t = f->bbIdx[T->getSuccessor(k)]; succ[i].push_back(t); pred[t].push_back(i); }
    }
    std::vector<int> po, num(N + 1, -1); std::vector<char> seen(N + 1, 0);
    std::function<void(int)> dfs = [&](int v) { seen[v] = 1; for (int p : pred[v]) if (!seen[p]) dfs(p); num[v] = (int)po.size(); po.push_back(v); };
    dfs(X);
    std::vector<int> id(N + 1, -1); id[X] = X;
    for (bool ch = true; ch;) {
      ch = false;
      for (int q = (int)po.size() - 1; q >= 0; q--) {
        int v = po[q]; if (v == X) continue;
        int d = -1;
        for (int t : succ[v]) {
          if (num[t] < 0 || id[t] < 0) continue;
          if (d < 0) { d = t; continue; }
          int x = d, y = t;
          while (x != y) { while (num[x] < num[y]) x = id[x]; while (num[y] < num[x]) y = id[y]; }
          d = x;
        }
        if (d >= 0 && id[v] != d) { id[v] = d; ch = true; }
      }
    }
    for (int i = 0; i < N; i++) f->ipdom.push_back(num[i] < 0 || id[i] == X ? -1 : id[i]);
    f->regBlk.assign(f->nregs, -1);
    for (size_t i = 0; i < f->blocks.size(); i++) for (auto& x : f->blocks[i].insts) if (x.dst >= 0) f->regBlk[x.dst] = (int)i;
    f->domDone = true;
  }
  int J = f->ipdom[me];
  if (J < 0) return false;
  State* base = cur; size_t depth = base->stack.size();
  auto side = [&](E cond, int t) -> std::unique_ptr<State> {
    auto st = std::make_unique<State>(*base);
    addPC(*st, cond);
    cur = st.get(); g_pcset = &cur->pcset; g_ext = &cur->ext;
    bool ok = true; uint64_t budget = 4000;
    spec++;
    try {
      gotoBB(t);
      while (!(cur->stack.size() == depth && cur->stack.back().bb == J)) {
        if (cur->stack.size() < depth || !budget--) { ok = false; break; }
        step();
      }
    } catch (NoMerge&) { ok = false; } catch (PathEnd&) { ok = false; } catch (KillPath&) { ok = false; } catch (Unsupported&) { ok = false; }
    spec--;
    cur = base; g_pcset = &cur->pcset; g_ext = &cur->ext;
    if (!ok) return nullptr;
    return st;
  };
  auto a = side(c, ci.t0);
  std::unique_ptr<State> b;
  if (a) b = side(mkNot(c), ci.t1);
  if (!a || !b || !mergeStates(*base, *a, *b, c, f, J)) { ms.bad++; if (getenv("SYMX_MERGE")) std::cerr << "merge failed at " << loc(*cur) << (a ? " a" : "") << (b ? " b" : "") << " J=" << J << " " << mergeWhy << "\n"; return false; }
  ms.ok++; merges++;
  return true;
}
bool Exec::mergeStates(State& m, State& a, State& b, E c, CFunc* f, int J) {
  if (a.stack.size() != b.stack.size() || a.nextHeap != b.nextHeap || a.nextStack != b.nextStack || a.inputs != b.inputs || a.tags != b.tags || a.obs.size() != b.obs.size() || a.obs.size() != m.obs.size()) return mergeWhy=1, false;
  Frame &fa = a.stack.back(), &fb = b.stack.back();
  if (fa.f != f || fb.f != f || fa.allocas != fb.allocas || fa.pc != fb.pc) return mergeWhy=2, false;
  std::function<bool(const RV&)> ok = [&](const RV& v) -> bool {
    if (v.agg) { for (auto& x : *v.agg) if (!ok(x)) return mergeWhy=3, false; return true; }
    return v.v.conc() || mergeable(v.v.e);
  };
  std::function<bool(const RV&, const RV&)> same = [&](const RV& x, const RV& y) -> bool {
    if (!x.agg != !y.agg) return mergeWhy=4, false;
    if (x.agg) { if (x.agg == y.agg) return true; if (x.agg->size() != y.agg->size()) return mergeWhy=5, false; for (size_t i = 0; i < x.agg->size(); i++) if (!same((*x.agg)[i], (*y.agg)[i])) return mergeWhy=6, false; return true; }
    return x.v.e == y.v.e && x.v.w == y.v.w && (x.v.e || x.v.c == y.v.c);
  };
  auto isPtr = [&](uint64_t v) { return v >= 0x1000 && find(a, v); };
  // registers
  std::vector<std::pair<int, RV>> regs;
  for (size_t r = 0; r < fa.regs.size(); r++) {
    if (same(fa.regs[r], fb.regs[r])) continue;
    int blk = f->regBlk[r];
    if (blk < 0) return mergeWhy=7, false;
    if (blk != J && !f->dt->dominates(f->bbs[blk], f->bbs[J])) continue;   // dead at the join
    const RV &x = fa.regs[r], &y = fb.regs[r];
    if (!x.agg != !y.agg || !ok(x) || !ok(y)) return mergeWhy=8, false;
    if (!x.agg) { if (x.v.w != y.v.w) return mergeWhy=9, false; if ((x.v.conc() && x.v.w == 64 && isPtr(x.v.c)) || (y.v.conc() && y.v.w == 64 && isPtr(y.v.c))) return mergeWhy=10, false; }
    regs.push_back({(int)r, selectRV(Val(c), x, y)});
  }
  // memory
  if (a.mem.size() != b.mem.size()) return mergeWhy=11, false;
  struct W { uint64_t addr; Val v; };
  std::vector<W> ws; std::vector<std::pair<uint64_t, uint64_t>> undef;
  auto ia = a.mem.begin(); auto ib = b.mem.begin();
  for (; ia != a.mem.end(); ++ia, ++ib) {
    if (ia->first != ib->first) return mergeWhy=12, false;
    if (ia->second == ib->second) continue;
    Obj &x = *ia->second, &y = *ib->second;
    if (x.size != y.size || x.kind != y.kind || x.ro != y.ro) return mergeWhy=13, false;
    auto eqb = [&](uint64_t i) {
      if (x.tags[i] != y.tags[i]) return mergeWhy=14, false;
      if (x.tags[i] == 0) return x.bytes[i] == y.bytes[i];
      if (x.tags[i] == 1) return x.cells[i].e == y.cells[i].e && x.cells[i].byte == y.cells[i].byte;
      return true;
    };
    for (uint64_t i = 0; i < x.size; i++) {
      if (eqb(i)) continue;
      if (x.tags[i] == 2 || y.tags[i] == 2) { undef.push_back({x.base + i, 1}); continue; }
      uint64_t st = i, n = 0;
      auto run = [&](Obj& o, uint64_t& s0, uint64_t& len) -> bool {
        if (o.tags[i] != 1) return mergeWhy=15, false;
        E e = o.cells[i].e; uint64_t by = o.cells[i].byte; if (by > i) return mergeWhy=16, false;
        s0 = i - by; len = e->w / 8;
        if (e->w % 8 || s0 + len > o.size) return mergeWhy=17, false;
        for (uint64_t q = 0; q < len; q++) if (o.tags[s0 + q] != 1 || o.cells[s0 + q].e != e || o.cells[s0 + q].byte != q) return mergeWhy=18, false;
        return true;
      };
      uint64_t sx_ = 0, nx = 0, sy = 0, ny = 0; bool rx = run(x, sx_, nx), ry = run(y, sy, ny);
      if (x.tags[i] == 1 && !rx) return mergeWhy=19, false;
      if (y.tags[i] == 1 && !ry) return mergeWhy=20, false;
      if (rx && ry) { if (sx_ == sy && nx == ny) { st = sx_; n = nx; } else { st = std::min(sx_, sy); n = std::max(sx_ + nx, sy + ny) - st; if (n > 16) return mergeWhy=21, false; } }
      else if (rx) { st = sx_; n = nx; }
      else if (ry) { st = sy; n = ny; }
      else {
        for (uint64_t wdt : {8, 4, 2, 1}) {
          uint64_t s0 = (x.base + i) / wdt * wdt - x.base; bool all = s0 + wdt <= x.size;
          for (uint64_t q = 0; all && q < wdt; q++) if (x.tags[s0 + q] || y.tags[s0 + q]) all = false;
          if (all) { st = s0; n = wdt; break; }
        }
        if (!n) return mergeWhy=22, false;
      }
      auto get = [&](State& s, Obj& o) -> Val { for (uint64_t q = 0; q < n; q++) if (o.tags[st + q] == 2) return Val(); return loadBits(s, o.base + st, (unsigned)n * 8); };
      Val u = get(a, x), v = get(b, y);
      if (!u.w || !v.w || !ok(RV(u)) || !ok(RV(v))) { if (getenv("SYMX_MERGE")) std::cerr << "merge23 " << (u.e ? toStr(u.e, 3) : "c") << " / " << (v.e ? toStr(v.e, 3) : "c") << "\n"; return mergeWhy=23, false; }
      if (n == 8 && ((u.conc() && isPtr(u.c)) || (v.conc() && isPtr(v.c)))) return mergeWhy=24, false;
      ws.push_back({x.base + st, selectRV(Val(c), RV(u), RV(v)).v});
      if (st + n - 1 > i) i = st + n - 1;
    }
  }
  // commit: continue from side a with the differences merged
  m.mem = a.mem; m.nextHeap = a.nextHeap; m.nextStack = a.nextStack; m.nameCount = a.nameCount;
  m.stack.back() = fa;
  for (auto& r : regs) m.stack.back().regs[r.first] = r.second;
  for (auto& w : ws) storeBits(m, w.addr, w.v);
  for (auto& u : undef) { Obj* o = writable(m, find(m, u.first)); o->tags[u.first - o->base] = 2; }
  return true;
}
void Exec::enter(const Function* F, std::vector<RV>&& args, int dst) {
  CFunc* cf = getFunc(F);
  cf->calls++;
  if (cur->stack.size() > 2000) { fail(*cur, mkTrue(), "stack", "stack overflow"); throw KillPath{"stack"}; }
  cur->stack.emplace_back();
  Frame& f = cur->stack.back();
  f.f = cf; f.retDst = dst;
  f.regs.resize(cf->nregs);
  for (size_t i = 0; i < F->arg_size() && i < args.size(); i++) f.regs[i] = std::move(args[i]);
  f.bb = 0; f.pc = 0;
}

// ------------------------------------------------------------ interpreter
void Exec::step() {
  Frame& f = cur->stack.back();
  CInst& ci = f.f->blocks[f.bb].insts[f.pc];
  instrs++; cur->instrs++;
  switch (ci.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      RV r = binop(ci.op, reg(ci.a[0]), reg(ci.a[1]));
      f.regs[ci.dst] = std::move(r); f.pc++; return;
    }
    case Instruction::FNeg: {
      const RV& a = reg(ci.a[0]);
      if (a.agg || !a.v.conc()) unsupported("fneg");
      f.regs[ci.dst] = RV(Val(a.v.w, a.v.c ^ (1ull << (a.v.w - 1)))); f.pc++; return;
    }
    case Instruction::ICmp: {
      unsigned p = cast<ICmpInst>(ci.I)->getPredicate();
      const RV &a = reg(ci.a[0]), &b = reg(ci.a[1]);
      if (!a.agg) { Val r = icmp(p, a.v, b.v); f.regs[ci.dst] = RV(r); f.pc++; return; }
      RV r; r.agg = std::make_shared<std::vector<RV>>(a.agg->size());
      for (size_t i = 0; i < a.agg->size(); i++) (*r.agg)[i] = RV(icmp(p, (*a.agg)[i].v, (*b.agg)[i].v));
      f.regs[ci.dst] = r; f.pc++; return;
    }
    case Instruction::FCmp: {
      const RV &a = reg(ci.a[0]), &b = reg(ci.a[1]);
      if (a.agg || !a.v.conc() || !b.v.conc()) unsupported("symbolic fcmp");
      double x, y;
      if (a.v.w == 64) { memcpy(&x, &a.v.c, 8); memcpy(&y, &b.v.c, 8); }
      else { float p, q; uint32_t u = (uint32_t)a.v.c, v = (uint32_t)b.v.c; memcpy(&p, &u, 4); memcpy(&q, &v, 4); x = p; y = q; }
      bool un = std::isnan(x) || std::isnan(y), r = false;
      switch (cast<FCmpInst>(ci.I)->getPredicate()) {
        case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_TRUE: r = true; break;
        case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break;
        case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break;
        case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
        case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break;
        case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break;
        case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break;
        default: unsupported("fcmp");
      }
      f.regs[ci.dst] = RV(Val(1, r)); f.pc++; return;
    }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::AddrSpaceCast: {
      RV r = castop(ci.op, reg(ci.a[0]), ci.I->getOperand(0)->getType(), ci.I->getType());
      f.regs[ci.dst] = std::move(r); f.pc++; return;
    }
    case Instruction::Freeze: { RV r = reg(ci.a[0]); f.regs[ci.dst] = r; f.pc++; return; }
    case Instruction::Select: {
      const RV& c = reg(ci.a[0]);
      RV r;
      if (!c.agg && !c.v.conc() && c.v.e->bl) {
        // arithmetic alternatives under a pseudorandom bit: fork rather than build a select
        std::function<bool(const RV&)> ok = [&](const RV& v) -> bool {
          if (v.agg) { for (auto& x : *v.agg) if (!ok(x)) return false; return true; }
          return v.v.conc() || mergeable(v.v.e);
        };
        if (!ok(reg(ci.a[1])) || !ok(reg(ci.a[2]))) {
          E ce = c.v.e;
          int b = branch(*cur, ce);
          if (b == 2) {
            forks++; forkSites[loc(*cur)]++;
            State* n = new State(*cur); n->id = nextState++;
            addPC(*n, mkNot(ce));
            work.push_back(n);
            addPC(*cur, ce);
            b = 1;
          }
          r = b ? reg(ci.a[1]) : reg(ci.a[2]);
          f.regs[ci.dst] = std::move(r); f.pc++; return;
        }
      }
      if (c.agg) {
        r.agg = std::make_shared<std::vector<RV>>(c.agg->size());
        const RV &a = reg(ci.a[1]), &b = reg(ci.a[2]);
        for (size_t i = 0; i < c.agg->size(); i++) (*r.agg)[i] = selectRV((*c.agg)[i].v, (*a.agg)[i], (*b.agg)[i]);
      } else r = selectRV(c.v, reg(ci.a[1]), reg(ci.a[2]));
      f.regs[ci.dst] = std::move(r); f.pc++; return;
    }
    case Instruction::Alloca: {
      auto* A = cast<AllocaInst>(ci.I);
      uint64_t n = DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue();
      uint64_t cnt = concretize(*cur, reg(ci.a[0]).v);
      Obj* o = alloc(*cur, n * cnt, 1, A->getName().str() + "@" + f.f->F->getName().substr(0, 40).str(), A->getAlign().value());
      f.allocas.push_back(o->base);
      f.regs[ci.dst] = RV(Val(64, o->base)); f.pc++; return;
    }
    case Instruction::GetElementPtr: {
      const RV& b = reg(ci.a[0]);
      if (b.agg) unsupported("vector gep");
      if (b.v.conc()) {
        uint64_t x = b.v.c + ci.off; bool ok = true;
        for (auto& p : ci.idx) {
          const Val& v = reg(p.first).v;
          if (!v.conc()) { ok = false; break; }
          x += (uint64_t)(sx(v.c, v.w) * p.second);
        }
        if (ok) { f.regs[ci.dst] = RV(Val(64, x)); f.pc++; return; }
      }
      E x = mkAdd(b.v.toE(), mkConst(64, (uint64_t)ci.off));
      for (auto& p : ci.idx) {
        const Val& v = reg(p.first).v;
        E iv = v.w < 64 ? mkSExt(v.toE(), 64) : v.toE();
        x = mkAdd(x, mkMul(iv, mkConst(64, (uint64_t)p.second)));
      }
      f.regs[ci.dst] = RV(Val(x)); f.pc++; return;
    }
    case Instruction::Load: {
      const Val& a = reg(ci.a[0]).v;
      Type* T = ci.I->getType();
      if (a.conc() && ci.al && a.c % ci.al) { fail(*cur, mkTrue(), "memory", "misaligned read: the access relies on " + std::to_string(ci.al) + "-byte alignment"); throw KillPath{"misaligned"}; }
      if (a.conc()) { RV r = loadTy(*cur, a.c, T); f.regs[ci.dst] = std::move(r); f.pc++; return; }
      uint64_t n = DL.getTypeStoreSize(T).getFixedValue();
      E ae = a.e;
      auto addrs = enumAddrs(*cur, ae, n, false);
      RV r = loadTy(*cur, addrs.back(), T);
      for (size_t i = addrs.size() - 1; i-- > 0;)
        r = selectRV(Val(mkEq(ae, mkConst(64, addrs[i]))), loadTy(*cur, addrs[i], T), r);
      f.regs[ci.dst] = std::move(r); f.pc++; return;
    }
    case Instruction::Store: {
      const RV& v = reg(ci.a[0]);
      const Val& a = reg(ci.a[1]).v;
      Type* T = ci.I->getOperand(0)->getType();
      if (a.conc() && ci.al && a.c % ci.al) { fail(*cur, mkTrue(), "memory", "misaligned write: the access relies on " + std::to_string(ci.al) + "-byte alignment"); throw KillPath{"misaligned"}; }
      if (a.conc()) { storeTy(*cur, a.c, T, v); f.pc++; return; }
      uint64_t n = DL.getTypeStoreSize(T).getFixedValue();
      auto addrs = enumAddrs(*cur, a.e, n, true);
      if (addrs.size() == 1) { storeTy(*cur, addrs[0], T, v); f.pc++; return; }
      for (uint64_t ad : addrs) {
        RV old = loadTy(*cur, ad, T);
        storeTy(*cur, ad, T, selectRV(Val(mkEq(a.e, mkConst(64, ad))), v, old));
      }
      f.pc++; return;
    }
    case Instruction::Fence: f.pc++; return;
    case Instruction::AtomicRMW: {
      auto* R = cast<AtomicRMWInst>(ci.I);
      uint64_t a = concretize(*cur, reg(ci.a[0]).v);
      RV old = loadTy(*cur, a, R->getType());
      const RV& v = reg(ci.a[1]);
      RV nv;
      switch (R->getOperation()) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = binop(Instruction::Add, old, v); break;
        case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, old, v); break;
        case AtomicRMWInst::And: nv = binop(Instruction::And, old, v); break;
        case AtomicRMWInst::Or: nv = binop(Instruction::Or, old, v); break;
        case AtomicRMWInst::Xor: nv = binop(Instruction::Xor, old, v); break;
        default: unsupported("atomicrmw");
      }
      storeTy(*cur, a, R->getType(), nv);
      f.regs[ci.dst] = old; f.pc++; return;
    }
    case Instruction::AtomicCmpXchg: {
      uint64_t a = concretize(*cur, reg(ci.a[0]).v);
      Type* T = ci.I->getOperand(1)->getType();
      RV old = loadTy(*cur, a, T);
      Val eq = icmp(CmpInst::ICMP_EQ, old.v, reg(ci.a[1]).v);
      storeTy(*cur, a, T, selectRV(eq, reg(ci.a[2]), old));
      RV r; r.agg = std::make_shared<std::vector<RV>>();
      r.agg->push_back(old); r.agg->push_back(RV(eq));
      f.regs[ci.dst] = r; f.pc++; return;
    }
    case Instruction::ExtractValue: {
      RV v = reg(ci.a[0]);
      for (unsigned i : cast<ExtractValueInst>(ci.I)->getIndices()) { RV n = (*v.agg)[i]; v = n; }
      f.regs[ci.dst] = v; f.pc++; return;
    }
    case Instruction::InsertValue: {
      std::function<RV(const RV&, ArrayRef<unsigned>, const RV&)> ins = [&](const RV& a, ArrayRef<unsigned> ix, const RV& v) -> RV {
        if (ix.empty()) return v;
        RV r; r.agg = std::make_shared<std::vector<RV>>(*a.agg);
        (*r.agg)[ix[0]] = ins((*a.agg)[ix[0]], ix.slice(1), v);
        return r;
      };
      RV r = ins(reg(ci.a[0]), cast<InsertValueInst>(ci.I)->getIndices(), reg(ci.a[1]));
      f.regs[ci.dst] = r; f.pc++; return;
    }
    case Instruction::ExtractElement: {
      uint64_t i = concretize(*cur, reg(ci.a[1]).v);
      RV r = (*reg(ci.a[0]).agg).at(i);
      f.regs[ci.dst] = r; f.pc++; return;
    }
    case Instruction::InsertElement: {
      uint64_t i = concretize(*cur, reg(ci.a[2]).v);
      RV r; r.agg = std::make_shared<std::vector<RV>>(*reg(ci.a[0]).agg);
      (*r.agg).at(i) = reg(ci.a[1]);
      f.regs[ci.dst] = r; f.pc++; return;
    }
    case Instruction::ShuffleVector: {
      auto* SV = cast<ShuffleVectorInst>(ci.I);
      const RV &a = reg(ci.a[0]), &b = reg(ci.a[1]);
      RV r; r.agg = std::make_shared<std::vector<RV>>();
      int n = (int)a.agg->size();
      unsigned ew = tw(cast<VectorType>(SV->getType())->getElementType());
      for (int m : SV->getShuffleMask()) {
        if (m < 0) r.agg->push_back(ew <= 64 ? RV(Val(ew, 0)) : RV(Val(mkConst(ew, 0))));
        else r.agg->push_back(m < n ? (*a.agg)[m] : (*b.agg)[m - n]);
      }
      f.regs[ci.dst] = r; f.pc++; return;
    }
    case Instruction::Br: {
      if (ci.t1 < 0) { gotoBB(ci.t0); return; }
      const Val& c = reg(ci.a[0]).v;
      if (c.conc()) { gotoBB(c.c ? ci.t0 : ci.t1); return; }
      E ce = c.e;
      if (ce->bl && (tryMerge(ci, ce) || tryMergeGen(ci, ce))) return;
      int b = branch(*cur, ce);
      if (b == 1) { gotoBB(ci.t0); return; }
      if (b == 0) { gotoBB(ci.t1); return; }
      noSpec();
      if (getenv("SYMX_MERGE")) std::cerr << "fork " << loc(*cur) << " bl=" << ce->bl << " " << toStr(ce, 4).substr(0, 300) << "\n";
      forks++; forkSites[loc(*cur)]++;
      State* n = new State(*cur); n->id = nextState++;
      addPC(*n, mkNot(ce));
      State* me = cur;
      cur = n; gotoBB(ci.t1); cur = me;
      work.push_back(n);
      addPC(*cur, ce);
      gotoBB(ci.t0);
      return;
    }
    case Instruction::Switch: {
      const Val c = reg(ci.a[0]).v;
      if (c.conc()) {
        int t = ci.t0;
        for (auto& p : ci.idx) if ((uint64_t)p.second == c.c) { t = p.first; break; }
        gotoBB(t); return;
      }
      // fork over feasible targets
      std::map<int, E> conds;
      E none = mkTrue();
      for (auto& p : ci.idx) {
        E q = mkEq(c.e, mkConst(c.w, (uint64_t)p.second));
        auto it = conds.find(p.first);
        if (it == conds.end()) conds[p.first] = q; else it->second = mkOr(it->second, q);
        none = mkAnd(none, mkNot(q));
      }
      auto it = conds.find(ci.t0);
      if (it == conds.end()) conds[ci.t0] = none; else it->second = mkOr(it->second, none);
      std::vector<std::pair<int, E>> feas;
      for (auto& p : conds) if (p.second->isConst() ? p.second->c.isOne() : S.check(cur->pc, p.second, opt.solverTimeout) != Res::Unsat) feas.push_back(p);
      if (feas.empty()) throw KillPath{"infeasible switch"};
      if (feas.size() > 1) noSpec();
      State* me = cur;
      for (size_t i = 1; i < feas.size(); i++) {
        forks++; forkSites[loc(*me)]++;
        State* n = new State(*me); n->id = nextState++;
        addPC(*n, feas[i].second);
        cur = n; gotoBB(feas[i].first); cur = me;
        work.push_back(n);
      }
      addPC(*cur, feas[0].second);
      gotoBB(feas[0].first);
      return;
    }
    case Instruction::Unreachable:
      fail(*cur, mkTrue(), "unreachable", "reached unreachable code");
      throw KillPath{"unreachable"};
    case Instruction::Ret: {
      RV r; bool has = !ci.a.empty();
      if (has) r = reg(ci.a[0]);
      for (uint64_t a : f.allocas) cur->mem.erase(a);
      int d = f.retDst;
      cur->stack.pop_back();
      if (cur->stack.empty()) throw PathEnd{};
      Frame& g = cur->stack.back();
      if (d >= 0 && has) g.regs[d] = std::move(r);
      return;
    }
    case Instruction::Call: case Instruction::Invoke: doCall(ci); return;
  }
  unsupported(std::string("instruction ") + ci.I->getOpcodeName());
}

void Exec::doCall(CInst& ci) {
  auto* CB = cast<CallBase>(ci.I);
  if (CB->isInlineAsm()) {
    auto* IA = cast<InlineAsm>(CB->getCalledOperand());
    if (IA->getAsmString().empty()) {
      Frame& f = cur->stack.back();
      if (ci.dst >= 0) { if (ci.a.size() >= 1) f.regs[ci.dst] = RV(reg(ci.a[0])); else unsupported("inline asm result"); }
      f.pc++; return;
    }
    unsupported("inline asm " + IA->getAsmString());
  }
  const Function* F = ci.callee;
  std::vector<RV> args;
  size_t na = ci.a.size() - (F ? 0 : 1);
  for (size_t i = 0; i < na; i++) args.push_back(reg(ci.a[i]));
  if (!F) {
    const Val& t = reg(ci.a[na]).v;
    uint64_t ta = concretize(*cur, t);
    auto it = fnAt.find(ta);
    if (it == fnAt.end()) { fail(*cur, mkTrue(), "memory", "call through invalid function pointer"); throw KillPath{"badcall"}; }
    F = it->second;
  }
  RV out;
  int bbBefore = cur->stack.back().bb;
  (void)bbBefore;
  if (F->isIntrinsic()) {
    if (intrinsic(F, ci, args, out)) {
      Frame& f = cur->stack.back();
      if (ci.dst >= 0) f.regs[ci.dst] = std::move(out);
      f.pc++; return;
    }
    unsupported("intrinsic " + F->getName().str());
  }
  if (builtin(F, ci, args, out)) {
    Frame& f = cur->stack.back();
    if (ci.dst >= 0) f.regs[ci.dst] = std::move(out);
    if (ci.t0 >= 0) gotoBB(ci.t0); else f.pc++;
    return;
  }
  if (F->isDeclaration()) unsupported("external function " + F->getName().str());
  // byval args: copy
  for (unsigned i = 0; i < CB->arg_size(); i++) if (CB->isByValArgument(i)) {
    Type* T = CB->getParamByValType(i);
    uint64_t n = DL.getTypeAllocSize(T).getFixedValue();
    Obj* o = alloc(*cur, n, 1, "byval", 64);
    copyBytes(*cur, o->base, args[i].v.c, n);
    args[i] = RV(Val(64, o->base));
  }
  Frame& f = cur->stack.back();
  if (ci.t0 >= 0) gotoBB(ci.t0); else f.pc++;
  enter(F, std::move(args), ci.dst);
}


bool Exec::builtin(const Function* F, CInst& ci, std::vector<RV>& a, RV& out) {
  StringRef n = F->getName();
  State& s = *cur;
  auto C = [&](int i) { return concretize(s, a[i].v); };
  if (n.starts_with("symx_")) {
    if (spec && n != "symx_eq" && n != "symx_uf" && n != "symx_is_const") throw NoMerge{};
    if (n == "symx_make") {
      uint64_t p = C(0), sz = C(1); std::string nm = cstr(s, C(2));
      int k = s.nameCount[nm]++;
      if (k) nm += "#" + std::to_string(k);
      checkRange(s, p, sz, true);
      for (uint64_t o = 0; o < sz;) {
        uint64_t ch = sz <= 32 ? sz : std::min<uint64_t>(16, sz - o);
        E e = mkSym(nm + (sz > 32 ? "[" + std::to_string(o) + "]" : ""), (unsigned)ch * 8);
        s.inputs.push_back(e->name);
        storeBits(s, p + o, Val(e));
        o += ch;
      }
      return true;
    }
    if (n == "symx_bits") {
      unsigned w = (unsigned)C(0); std::string nm = cstr(s, C(1));
      int k = s.nameCount[nm]++;
      if (k) nm += "#" + std::to_string(k);
      E e = mkSym(nm, w); s.inputs.push_back(e->name);
      out = RV(Val(mkZExt(e, 64))); return true;
    }
    if (n == "symx_choice") {
      uint64_t cnt = C(0); std::string nm = cstr(s, C(1));
      int k = s.nameCount[nm]++;
      if (k) nm += "#" + std::to_string(k);
      E e = mkSym(nm, 64); s.inputs.push_back(e->name);
      // fork: each state gets a constant result, continue after the call
      State* me = cur;
      for (uint64_t i = 1; i < cnt; i++) {
        State* ns = new State(*me); ns->id = nextState++; forks++; forkSites["choice " + nm]++;
        addPC(*ns, mkEq(e, mkConst(64, i)));
        Frame& f = ns->stack.back(); f.regs[ci.dst] = RV(Val(64, i)); f.pc++;
        work.push_back(ns);
      }
      addPC(s, mkEq(e, mkConst(64, 0)));
      out = RV(Val(64, 0)); return true;
    }
    if (n == "symx_assume") {
      E c = mkNe(a[0].v.toE(), mkConst(a[0].v.w, 0));
      if (c->isConst()) { if (c->c.isZero()) throw KillPath{"assume"}; return true; }
      if (S.check(s.pc, c, opt.solverTimeout) == Res::Unsat) throw KillPath{"assume"};
      addPC(s, c); return true;
    }
    if (n == "symx_assert_") {
      E c = mkNe(a[0].v.toE(), mkConst(a[0].v.w, 0));
      std::string m = cstr(s, C(1));
      asserts++; assertSites.insert(loc(s) + " " + m);
      if (c->isConst() && c->c.isOne()) { assertTrivial++; return true; }
      if (mustTrue(s, c)) { assertTrivial++; return true; }
      assertQueries++;
      S.dumpNext = true;
      Model gm;
      bool guessed = !c->isConst() && c->uf && guess(s, mkNot(c), gm, 40);
      Res r = c->isConst() || guessed ? Res::Sat : S.check(s.pc, mkNot(c), opt.solverTimeout);
      if (r == Res::Unknown && guess(s, mkNot(c), gm, 4000)) r = Res::Sat;
      S.dumpNext = false;
      if (r == Res::Unsat) return true;
      if (r == Res::Unknown && opt.verbose) { std::cerr << "unknown: " << "\n" << dagStr(c).substr(0, 60000) << "\npc:"; for (E p : s.pc) std::cerr << "\n  " << toStr(p, 3).substr(0, 800); std::cerr << "\n"; }
      if (r == Res::Unknown) { inconclusive.push_back("solver unknown on assertion " + m + " at " + loc(s)); return true; }
      fail(s, c->isConst() ? mkTrue() : mkNot(c), "assert", m);
      if (c->isConst() || S.check(s.pc, c, opt.solverTimeout) == Res::Unsat) throw KillPath{"assert"};
      addPC(s, c);
      return true;
    }
    if (n == "symx_fail") { asserts++; fail(s, mkTrue(), "assert", cstr(s, C(0))); throw KillPath{"fail"}; }
    if (n == "symx_stop") throw PathEnd{};
    if (n == "symx_reach") { std::string t = cstr(s, C(0)); s.tags.insert(t); return true; }
    if (n == "symx_observe") {
      uint64_t p = C(0), sz = C(1); std::string nm = cstr(s, C(2));
      Val v = loadBits(s, p, (unsigned)sz * 8);
      s.obs.push_back({nm, v.toE()});
      return true;
    }
    if (n == "symx_uf") {  // out,nout,in,nin,name
      uint64_t o = C(0), no = C(1), in = C(2), ni = C(3); std::string nm = cstr(s, C(4));
      E ie = ni ? loadBits(s, in, (unsigned)ni * 8).toE() : mkConst(8, 0);
      E r = mkUF(nm, ie, (unsigned)no * 8);
      checkRange(s, o, no, true);
      storeBits(s, o, Val(r));
      return true;
    }
    if (n == "symx_concretize") { uint64_t v = C(0); out = RV(Val(a[0].v.w, v & msk(a[0].v.w))); return true; }
    if (n == "symx_symbolic") { out = RV(Val(32, 1)); return true; }
    if (n == "symx_is_const") { out = RV(Val(32, a[0].v.isConst() ? 1 : 0)); return true; }
    if (n == "symx_print") { std::cerr << "[print] " << cstr(s, C(0)) << " = " << toStr(a[1].v.toE(), 8) << "\n"; return true; }
    if (n == "symx_opaque") {  // identity barrier for the normal forms
      uint64_t p = C(0), nn = C(1);
      Obj* o = find(s, p);
      if (!o || o->ro) return true;
      for (uint64_t i = 0; i < nn; i += 16) {
        Val v = loadBits(s, p + i, (unsigned)std::min<uint64_t>(16, nn - i) * 8);
        if (!v.isConst()) storeBits(s, p + i, Val(mkOpaque(v.e)));
      }
      return true;
    }
    if (n == "symx_eq") {  // (p,q,n) -> int : byte-equality without forking
      uint64_t p = C(0), q = C(1), nn = C(2);
      if (nn == 0) { out = RV(Val(32, 1)); return true; }
      E x = loadBits(s, p, (unsigned)nn * 8).toE(), y = loadBits(s, q, (unsigned)nn * 8).toE();
      Val r(mkEq(x, y));
      out = RV(r.conc() ? Val(32, r.c) : Val(mkZExt(r.e, 32))); return true;
    }
    return false;
  }
  static const std::map<std::string, int> tab = {
      {"malloc", 1}, {"_Znwm", 1}, {"_Znam", 1}, {"_ZnwmRKSt9nothrow_t", 1}, {"_ZnamRKSt9nothrow_t", 1}, {"calloc", 2}, {"free", 3}, {"_ZdlPv", 3}, {"_ZdlPvm", 3}, {"_ZdaPv", 3}, {"_ZdaPvm", 3},
      {"_ZdlPvSt11align_val_t", 3}, {"_ZdlPvmSt11align_val_t", 3}, {"_ZdaPvSt11align_val_t", 3}, {"_ZnwmSt11align_val_t", 4}, {"_ZnamSt11align_val_t", 4},
      {"aligned_alloc", 5}, {"memcmp", 6}, {"bcmp", 7}, {"strlen", 8}, {"memcpy", 9}, {"memmove", 9}, {"memset", 10}, {"abort", 11}, {"__cxa_pure_virtual", 11}, {"__assert_fail", 11},
      {"__cxa_atexit", 12}, {"__cxa_guard_acquire", 13}, {"__cxa_guard_release", 14}, {"log2", 15}, {"ceil", 16}, {"floor", 17}, {"memchr", 18}, {"exit", 19}, {"realloc", 20},
      {"puts", 21}, {"printf", 21}, {"fprintf", 21}, {"llround", 22}, {"round", 23}, {"_ZSt9terminatev", 11}, {"OPENSSL_cleanse", 21}, {"pow", 24}, {"ldexp", 25}, {"exp2", 26}};
  auto it = tab.find(n.str());
  auto dbl = [&](int i) { Val v = a[i].v; if (!v.conc()) unsupported("symbolic fp call"); double d; memcpy(&d, &v.c, 8); return d; };
  auto rd = [&](double d) { uint64_t o; memcpy(&o, &d, 8); out = RV(Val(64, o)); return true; };
  if (it == tab.end()) {
    if (n.contains("__throw_") || n.contains("ThrowStd") || n.contains("__glibcxx_assert_fail")) { fail(s, mkTrue(), "exception", "C++ exception thrown: " + llvm::demangle(n.str())); throw KillPath{"throw"}; }
    return false;
  }
  if (!F->isDeclaration() && it->second != 6 && it->second != 7) {}
  switch (it->second) {
    case 1: {
      uint64_t sz = C(0);
      if (sz > (1ull << 28)) { fail(s, mkTrue(), "alloc", "allocation of " + std::to_string(sz) + " bytes"); throw KillPath{"alloc"}; }
      out = RV(Val(64, alloc(s, sz, 0, "heap", 64)->base)); return true;
    }
    case 2: {
      uint64_t sz = C(0) * C(1);
      out = RV(Val(64, alloc(s, sz, 0, "heap", 64, true)->base)); return true;
    }
    case 3: {
      uint64_t p = C(0);
      if (!p) return true;
      auto jt = s.mem.find(p);
      if (jt == s.mem.end() || jt->second->kind != 0) { fail(s, mkTrue(), "memory", "invalid free"); throw KillPath{"free"}; }
      s.mem.erase(jt); return true;
    }
    case 4: out = RV(Val(64, alloc(s, C(0), 0, "heap", std::max<uint64_t>(64, C(1)))->base)); return true;
    case 5: out = RV(Val(64, alloc(s, C(1), 0, "heap", std::max<uint64_t>(64, C(0)))->base)); return true;
    case 6: case 7: {
      uint64_t nn = C(2);
      if (nn == 0) { out = RV(Val(32, 0)); return true; }
      uint64_t p = C(0), q = C(1);
      E x = loadBits(s, p, (unsigned)nn * 8).toE(), y = loadBits(s, q, (unsigned)nn * 8).toE();
      if (it->second == 7) { Val r(mkNe(x, y)); out = RV(r.conc() ? Val(32, r.c) : Val(mkZExt(r.e, 32))); return true; }
      // memcmp: lexicographic; compare as big-endian integers
      E bx = nullptr, by = nullptr;
      for (uint64_t i = 0; i < nn; i++) {
        E u = mkExtract(x, (unsigned)i * 8, 8), v = mkExtract(y, (unsigned)i * 8, 8);
        bx = bx ? mkConcat(bx, u) : u; by = by ? mkConcat(by, v) : v;
      }
      E r = mkIte(mkEq(bx, by), mkConst(32, 0), mkIte(mkUlt(bx, by), mkConst(32, 0xffffffffu), mkConst(32, 1)));
      out = RV(Val(r)); return true;
    }
    case 8: {
      uint64_t p = C(0), k = 0;
      for (;; k++) { Val b = loadBits(s, p + k, 8); if (!b.conc()) unsupported("strlen on symbolic bytes"); if (!b.c) break; }
      out = RV(Val(64, k)); return true;
    }
    case 9: { uint64_t nn = C(2), d = C(0), sr = C(1); copyBytes(s, d, sr, nn); out = a[0]; return true; }
    case 10: { uint64_t nn = C(2), d = C(0); Val b = a[1].v.conc() ? Val(8, a[1].v.c & 0xff) : Val(mkTrunc(a[1].v.e, 8)); checkRange(s, d, nn, true); for (uint64_t i = 0; i < nn; i++) storeBits(s, d + i, b); out = a[0]; return true; }
    case 11: fail(s, mkTrue(), "abort", "abort() / fatal check reached"); throw KillPath{"abort"};
    case 12: out = RV(Val(32, 0)); return true;
    case 13: { Val b = loadBits(s, C(0), 8); out = RV(Val(32, b.c ? 0 : 1)); return true; }
    case 14: storeBits(s, C(0), Val(8, 1)); return true;
    case 15: return rd(std::log2(dbl(0)));
    case 16: return rd(std::ceil(dbl(0)));
    case 17: return rd(std::floor(dbl(0)));
    case 18: {
      uint64_t nn = C(2), p = C(0); Val c = a[1].v;
      E ce = mkTrunc(c.toE(), 8);
      for (uint64_t i = 0; i < nn; i++) {
        E b = loadBits(s, p + i, 8).toE();
        E eq = mkEq(b, ce);
        if (eq->isConst()) { if (eq->c.isOne()) { out = RV(Val(64, p + i)); return true; } continue; }
        unsupported("memchr on symbolic bytes");
      }
      out = RV(Val(64, 0)); return true;
    }
    case 19: throw PathEnd{};
    case 20: {
      uint64_t p = C(0), sz = C(1);
      Obj* o = alloc(s, sz, 0, "heap", 64); uint64_t nb = o->base;
      if (p) { uint64_t old = s.mem[p]->size; copyBytes(s, nb, p, std::min(old, sz)); s.mem.erase(p); }
      out = RV(Val(64, nb)); return true;
    }
    case 21: if (ci.dst >= 0) out = RV(Val(ci.w, 0)); return true;
    case 22: out = RV(Val(64, (uint64_t)std::llround(dbl(0)))); return true;
    case 23: return rd(std::round(dbl(0)));
    case 24: return rd(std::pow(dbl(0), dbl(1)));
    case 25: return rd(std::ldexp(dbl(0), (int)C(1)));
    case 26: return rd(std::exp2(dbl(0)));
  }
  return false;
}

bool Exec::intrinsic(const Function* F, CInst& ci, std::vector<RV>& a, RV& out) {
  State& s = *cur;
  auto id = F->getIntrinsicID();
  auto C = [&](int i) { return concretize(s, a[i].v); };
  auto map1 = [&](auto fn) { if (!a[0].agg) { out = RV(fn(a[0].v)); return true; } RV r; r.agg = std::make_shared<std::vector<RV>>(); for (auto& x : *a[0].agg) r.agg->push_back(RV(fn(x.v))); out = r; return true; };
  auto map2 = [&](auto fn) { if (!a[0].agg) { out = RV(fn(a[0].v, a[1].v)); return true; } RV r; r.agg = std::make_shared<std::vector<RV>>(); for (size_t i = 0; i < a[0].agg->size(); i++) r.agg->push_back(RV(fn((*a[0].agg)[i].v, (*a[1].agg)[i].v))); out = r; return true; };
  switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::prefetch: case Intrinsic::sideeffect: case Intrinsic::var_annotation:
      return true;
    case Intrinsic::load_relative: {
      uint64_t base = concretize(*cur, a[0].v), off = concretize(*cur, a[1].v);
      Val rel = loadBits(*cur, base + off, 32);
      if (!rel.conc()) unsupported("symbolic relative pointer");
      out = RV(Val(64, base + (uint64_t)(int64_t)(int32_t)rel.c)); return true;
    }
    case Intrinsic::stacksave: out = RV(Val(64, 0)); return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy:
      out = a[0]; return true;
    case Intrinsic::invariant_start: out = RV(Val(64, 0)); return true;
    case Intrinsic::invariant_end: return true;
    case Intrinsic::is_constant: out = RV(Val(1, 0)); return true;
    case Intrinsic::objectsize: out = RV(Val(ci.w, msk(ci.w))); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap:
      fail(s, mkTrue(), "abort", "trap"); throw KillPath{"trap"};
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      uint64_t n = C(2); if (!n) return true;
      uint64_t d = C(0), sr = C(1);
      copyBytes(s, d, sr, n); return true;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
      uint64_t n = C(2); if (!n) return true;
      uint64_t d = C(0);
      checkRange(s, d, n, true);
      if (a[1].v.conc()) {
        Obj* o = writable(s, find(s, d));
        memset(&o->bytes[d - o->base], (int)a[1].v.c, n); memset(&o->tags[d - o->base], 0, n);
      } else for (uint64_t i = 0; i < n; i++) storeBits(s, d + i, a[1].v);
      return true;
    }
    case Intrinsic::umin: return map2([&](const Val& x, const Val& y) { return select(icmp(CmpInst::ICMP_ULT, x, y), x, y); });
    case Intrinsic::umax: return map2([&](const Val& x, const Val& y) { return select(icmp(CmpInst::ICMP_UGT, x, y), x, y); });
    case Intrinsic::smin: return map2([&](const Val& x, const Val& y) { return select(icmp(CmpInst::ICMP_SLT, x, y), x, y); });
    case Intrinsic::smax: return map2([&](const Val& x, const Val& y) { return select(icmp(CmpInst::ICMP_SGT, x, y), x, y); });
    case Intrinsic::abs: return map1([&](const Val& x) { Val z = x.w <= 64 ? Val(x.w, 0) : Val(mkConst(x.w, 0)); return select(icmp(CmpInst::ICMP_SLT, x, z), sbin(Instruction::Sub, z, x), x); });
    case Intrinsic::usub_sat: return map2([&](const Val& x, const Val& y) { Val z = x.w <= 64 ? Val(x.w, 0) : Val(mkConst(x.w, 0)); return select(icmp(CmpInst::ICMP_ULT, x, y), z, sbin(Instruction::Sub, x, y)); });
    case Intrinsic::uadd_sat: return map2([&](const Val& x, const Val& y) { Val m(mkConst(APInt::getAllOnes(x.w))); Val sm = sbin(Instruction::Add, x, y); return select(icmp(CmpInst::ICMP_ULT, sm, x), m, sm); });
    case Intrinsic::bswap: return map1([&](const Val& x) {
      if (x.conc()) return Val(x.w, APInt(x.w, x.c).byteSwap().getZExtValue());
      E r = nullptr; for (unsigned i = 0; i < x.w / 8; i++) { E b = mkExtract(x.e, i * 8, 8); r = r ? mkConcat(r, b) : b; } return Val(r); });
    case Intrinsic::bitreverse: return map1([&](const Val& x) {
      E xe = x.toE(); E r = nullptr; for (unsigned i = 0; i < x.w; i++) { E b = mkExtract(xe, i, 1); r = r ? mkConcat(r, b) : b; } return Val(r); });
    case Intrinsic::ctpop: return map1([&](const Val& x) {
      if (x.isConst()) return Val(x.w, x.ap().popcount());
      E r = mkConst(x.w, 0); for (unsigned i = 0; i < x.w; i++) r = mkAdd(r, mkZExt(mkExtract(x.e, i, 1), x.w)); return Val(r); });
    case Intrinsic::ctlz: case Intrinsic::cttz: {
      auto fn = [&](const Val& x) {
        if (x.isConst()) { APInt v = x.ap(); unsigned r = id == Intrinsic::ctlz ? v.countl_zero() : v.countr_zero(); return x.w <= 64 ? Val(x.w, r) : Val(mkConst(x.w, r)); }
        E r = mkConst(x.w, x.w);
        if (id == Intrinsic::ctlz) for (unsigned i = 0; i < x.w; i++) r = mkIte(mkExtract(x.e, i, 1), mkConst(x.w, x.w - 1 - i), r);
        else for (unsigned i = x.w; i-- > 0;) r = mkIte(mkExtract(x.e, i, 1), mkConst(x.w, i), r);
        return Val(r);
      };
      return map1(fn);
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      auto one = [&](const Val& x, const Val& y, const Val& sh) -> Val {
        if (!sh.isConst()) {
          E w2 = mkConcat(x.toE(), y.toE());
          E amt = mkURem(sh.toE(), mkConst(sh.w, sh.w));
          E am2 = mkZExt(amt, w2->w);
          if (id == Intrinsic::fshl) return Val(mkExtract(mkShl(w2, am2), x.w, x.w));
          return Val(mkExtract(mkLShr(w2, am2), 0, x.w));
        }
        unsigned k = (unsigned)(sh.ap().getLimitedValue() % x.w);
        E w2 = mkConcat(x.toE(), y.toE());
        if (id == Intrinsic::fshl) return Val(mkExtract(mkShlC(w2, k), x.w, x.w));
        return Val(mkExtract(mkLShrC(w2, k), 0, x.w));
      };
      if (!a[0].agg) { out = RV(one(a[0].v, a[1].v, a[2].v)); return true; }
      RV r; r.agg = std::make_shared<std::vector<RV>>();
      for (size_t i = 0; i < a[0].agg->size(); i++) r.agg->push_back(RV(one((*a[0].agg)[i].v, (*a[1].agg)[i].v, (*a[2].agg)[i].v)));
      out = r; return true;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      Val x = a[0].v, y = a[1].v; unsigned w = x.w;
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      unsigned op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add
                    : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Instruction::Sub : Instruction::Mul;
      Val r = sbin(op, x, y), ov;
      if (op == Instruction::Add && !sg) ov = icmp(CmpInst::ICMP_ULT, r, x);
      else if (op == Instruction::Sub && !sg) ov = icmp(CmpInst::ICMP_ULT, x, y);
      else {
        unsigned ww = op == Instruction::Mul ? 2 * w : w + 1;
        E xe = sg ? mkSExt(x.toE(), ww) : mkZExt(x.toE(), ww), ye = sg ? mkSExt(y.toE(), ww) : mkZExt(y.toE(), ww);
        E re = op == Instruction::Add ? mkAdd(xe, ye) : op == Instruction::Sub ? mkSub(xe, ye) : mkMul(xe, ye);
        E nar = sg ? mkSExt(r.toE(), ww) : mkZExt(r.toE(), ww);
        ov = Val(mkNe(re, nar));
      }
      RV o; o.agg = std::make_shared<std::vector<RV>>(); o.agg->push_back(RV(r)); o.agg->push_back(RV(ov)); out = o; return true;
    }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: {
      unsigned op = id == Intrinsic::vector_reduce_add ? Instruction::Add : id == Intrinsic::vector_reduce_xor ? Instruction::Xor : id == Intrinsic::vector_reduce_or ? Instruction::Or : Instruction::And;
      Val r = (*a[0].agg)[0].v;
      for (size_t i = 1; i < a[0].agg->size(); i++) r = sbin(op, r, (*a[0].agg)[i].v);
      out = RV(r); return true;
    }
    case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::log2: case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::rint: case Intrinsic::round: case Intrinsic::nearbyint: case Intrinsic::trunc: case Intrinsic::exp2: {
      if (a[0].agg || !a[0].v.conc() || a[0].v.w != 64) unsupported("fp intrinsic");
      double d; memcpy(&d, &a[0].v.c, 8);
      d = id == Intrinsic::ceil ? std::ceil(d) : id == Intrinsic::floor ? std::floor(d) : id == Intrinsic::log2 ? std::log2(d) : id == Intrinsic::fabs ? std::fabs(d) : id == Intrinsic::sqrt ? std::sqrt(d)
          : id == Intrinsic::round ? std::round(d) : id == Intrinsic::trunc ? std::trunc(d) : id == Intrinsic::exp2 ? std::exp2(d) : std::rint(d);
      uint64_t o; memcpy(&o, &d, 8); out = RV(Val(64, o)); return true;
    }
    case Intrinsic::maxnum: case Intrinsic::minnum: {
      if (a[0].agg || !a[0].v.conc() || a[0].v.w != 64) unsupported("fp intrinsic");
      double x, y; memcpy(&x, &a[0].v.c, 8); memcpy(&y, &a[1].v.c, 8);
      double d = id == Intrinsic::maxnum ? std::fmax(x, y) : std::fmin(x, y);
      uint64_t o; memcpy(&o, &d, 8); out = RV(Val(64, o)); return true;
    }
    default: break;
  }
  StringRef n = F->getName();
  // ---- x86 vector intrinsics used by the Highway code paths
  auto bytesOf = [&](const RV& v) { return flatten(v, nullptr).toE(); };
  if (n == "llvm.x86.aesni.aesenc" || n == "llvm.x86.aesni.aesenclast" || n == "llvm.x86.aesni.aesenc.256" || n == "llvm.x86.aesni.aesenclast.256" || n == "llvm.x86.aesni.aesenc.512" || n == "llvm.x86.aesni.aesenclast.512") {
    E x = bytesOf(a[0]), k = bytesOf(a[1]);
    bool last = n.contains("aesenclast");
    E r = nullptr;
    for (unsigned i = 0; i < x->w; i += 128) {
      E b = mkUF(last ? "aes_last_sub" : "aes_round_sub", mkExtract(x, i, 128), 128);
      b = mkXor(b, mkExtract(k, i, 128));
      r = r ? mkConcat(b, r) : b;
    }
    out = unflatten(Val(r), F->getReturnType()); return true;
  }
  if (n.contains("pshuf.b")) {
    E x = bytesOf(a[0]), k = bytesOf(a[1]); E r = nullptr;
    for (unsigned l = 0; l < x->w; l += 128) for (unsigned i = 0; i < 16; i++) {
      E c = mkExtract(k, l + i * 8, 8); E b;
      if (c->isConst()) { uint64_t v = c->c.getZExtValue(); b = (v & 0x80) ? mkConst(8, 0) : mkExtract(x, l + (v & 15) * 8, 8); }
      else {
        b = mkExtract(x, l, 8);
        for (unsigned j = 1; j < 16; j++) b = mkIte(mkEq(mkExtract(c, 0, 4), mkConst(4, j)), mkExtract(x, l + j * 8, 8), b);
        b = mkIte(mkExtract(c, 7, 1), mkConst(8, 0), b);
      }
      r = r ? mkConcat(b, r) : b;
    }
    out = unflatten(Val(r), F->getReturnType()); return true;
  }
  if (n.contains("pmovmskb") || n.contains("movmsk.pd") || n.contains("movmsk.ps")) {
    E r = nullptr;
    for (auto& v : *a[0].agg) { E b = mkExtract(v.v.toE(), v.v.w - 1, 1); r = r ? mkConcat(b, r) : b; }
    unsigned w = tw(F->getReturnType());
    out = RV(Val(mkZExt(r, w))); return true;
  }
  if (n.contains("blendv")) {
    RV r; r.agg = std::make_shared<std::vector<RV>>();
    for (size_t i = 0; i < a[0].agg->size(); i++) { const Val& m = (*a[2].agg)[i].v; r.agg->push_back(RV(select(Val(mkExtract(m.toE(), m.w - 1, 1)), (*a[1].agg)[i].v, (*a[0].agg)[i].v))); }
    out = r; return true;
  }
  if (n.contains("psrl.q") || n.contains("psll.q") || n.contains("psrl.d") || n.contains("psll.d") || n.contains("psrl.w") || n.contains("psll.w")) {
    // shift by the low 64 bits of the second operand; >= width gives zero
    E cnt = mkTrunc(bytesOf(a[1]), 64);
    bool left = n.contains("psll");
    RV r; r.agg = std::make_shared<std::vector<RV>>();
    for (auto& x : *a[0].agg) {
      unsigned w = x.v.w;
      E sh = mkTrunc(cnt, w);
      E v = left ? mkShl(x.v.toE(), sh) : mkLShr(x.v.toE(), sh);
      v = mkIte(mkUlt(cnt, mkConst(64, w)), v, mkConst(w, 0));
      r.agg->push_back(RV(Val(v)));
    }
    out = r; return true;
  }
  if (n.contains("psrlv") || n.contains("psllv")) {
    bool left = n.contains("psllv");
    RV r; r.agg = std::make_shared<std::vector<RV>>();
    for (size_t i = 0; i < a[0].agg->size(); i++) {
      E x = (*a[0].agg)[i].v.toE(), c = (*a[1].agg)[i].v.toE();
      r.agg->push_back(RV(Val(left ? mkShl(x, c) : mkLShr(x, c))));   // SMT semantics = hardware semantics
    }
    out = r; return true;
  }
  if (n.contains("ptestz")) {
    E x = mkAnd(bytesOf(a[0]), bytesOf(a[1]));
    Val r(mkEq(x, mkConst(x->w, 0)));
    out = RV(Val(mkZExt(r.toE(), 32))); return true;
  }
  return false;
}

void Exec::finishPath(State& s) {
  paths++;
  // a tag counts as reached only on a path whose condition is satisfiable
  bool newTag = false;
  for (auto& t : s.tags) if (!reached.count(t)) newTag = true;
  Model tm;
  if (newTag && (guess(s, mkTrue(), tm, 400) || ((!s.pcHasUf() || ufTagTries++ < 3) && S.check(s.pc, nullptr, s.pcHasUf() ? std::min(opt.solverTimeout, 2500u) : opt.solverTimeout) == Res::Sat))) for (auto& t : s.tags) reached.insert(t);
  bool want = false;
  if ((int)wits.size() < opt.witnesses) {
    want = true;
    // prefer paths with tags / new tag sets
    if (s.tags.empty() && !s.obs.size()) want = false;
    for (auto& w : wits) if (w.tags == s.tags && opt.witnesses > 1 && wits.size() * 2 >= (size_t)opt.witnesses) want = want && (s.id % 3 == 0);
  }
  if (want) {
    Witness w;
    if (guess(s, mkTrue(), w.model, 200) || (!s.pcHasUf() || wits.empty()) && S.checkModel(s.pc, nullptr, w.model, s.pcHasUf() ? std::min(opt.solverTimeout, 2500u) : opt.solverTimeout) == Res::Sat) {
      w.inputs = s.inputs; w.tags = s.tags;
      // fill unconstrained inputs pseudo-randomly
      uint64_t x = opt.seed * 77777 + paths;
      for (int id : s.inputs) if (!w.model.syms.count(id)) {
        unsigned bw = g_syms[id].w; std::vector<uint64_t> d((bw + 63) / 64);
        for (auto& q : d) q = splitmix(x);
        w.model.syms[id] = APInt(bw, d);
      }
      for (auto& o : s.obs) w.obs.push_back({o.first, Solver::eval(o.second, w.model)});
      wits.push_back(std::move(w));
    }
  }
}

void Exec::run(const std::string& entry, const std::vector<uint64_t>& args) {
  t0 = now();
  Function* F = M.getFunction(entry);
  if (!F) { inconclusive.push_back("entry not found: " + entry); return; }
  // static constructors
  std::vector<Function*> ctors;
  if (auto* G = M.getNamedGlobal("llvm.global_ctors"))
    if (G->hasInitializer()) if (auto* CA = dyn_cast<ConstantArray>(G->getInitializer())) {
      std::vector<std::pair<uint64_t, Function*>> v;
      for (auto& o : CA->operands()) {
        auto* st = cast<ConstantStruct>(o.get());
        if (auto* f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f});
      }
      std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (auto& p : v) ctors.push_back(p.second);
    }
  State* st = new State(init);
  auto runState = [&](State* s0, bool main) {
    cur = s0;
    g_pcset = &cur->pcset; g_ext = &cur->ext;
    try {
      while (!cur->stack.empty()) {
        uint64_t cnt = 0;
        try {
          for (;;) {
            step();
            if ((++cnt & 0xfff) == 0) {
              if (now() - t0 > opt.maxTime) { limitHit = true; inconclusive.push_back("time limit"); throw KillPath{"limit"}; }
              if (instrs > opt.maxInstr) { limitHit = true; inconclusive.push_back("instruction limit"); throw KillPath{"limit"}; }
            }
          }
        } catch (PathEnd&) { break; }
      }
      if (main) finishPath(*cur);
    } catch (KillPath& k) {
      aborted++;
      if (opt.verbose) std::cerr << "path killed: " << k.why << " at " << (cur->stack.empty() ? "" : loc(*cur)) << "\n";
    } catch (Unsupported& u) {
      std::string where = cur->stack.empty() ? "" : loc(*cur);
      std::string bt; if (!cur->stack.empty()) for (auto& x : backtrace(*cur)) bt += "\n    " + x;
      inconclusive.push_back("unsupported: " + u.m + " at " + where + bt);
      limitHit = true;
    }
  };
  for (auto* c : ctors) {
    cur = st;
    enter(c, {}, -1);
    runState(st, false);
    st->stack.clear();
    if (!work.empty()) { inconclusive.push_back("fork in static constructor"); return; }
    if (!inconclusive.empty()) return;
  }
  cur = st;
  std::vector<RV> av;
  for (size_t i = 0; i < F->arg_size(); i++) av.push_back(RV(Val(tw(F->getArg(i)->getType()), (i < args.size() ? args[i] : 0) & msk(tw(F->getArg(i)->getType())))));
  enter(F, std::move(av), -1);
  work.push_back(st);
  while (!work.empty()) {
    if (limitHit || (int)findings.size() >= opt.maxFindings) break;
    if (paths + aborted > opt.maxPaths) { inconclusive.push_back("path limit"); break; }
    State* s = work.back(); work.pop_back();
    states++;
    runState(s, true);
    g_pcset = nullptr; g_ext = nullptr;
    delete cur;
    cur = nullptr;
  }
}
}  // namespace symx
