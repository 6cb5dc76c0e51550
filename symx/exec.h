#pragma once
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Dominators.h>
#include <functional>
#include <set>

namespace symx {

struct Val {  // scalar; e==nullptr => concrete c of width w<=64
  E e = nullptr; uint64_t c = 0; uint32_t w = 0;
  Val() {}
  Val(uint32_t w_, uint64_t c_) : c(c_), w(w_) {}
  explicit Val(E x) {
    w = x->w;
    if (x->k == K_CONST && w <= 64) c = x->c.getZExtValue();
    else e = x;
  }
  bool conc() const { return e == nullptr; }
  bool isConst() const { return !e || e->k == K_CONST; }
  E toE() const { return e ? e : mkConst(w, c); }
  APInt ap() const { return e ? e->c : APInt(w, c); }
};
struct RV {
  Val v;
  std::shared_ptr<std::vector<RV>> agg;
  RV() {}
  RV(Val x) : v(x) {}
};

struct Cell { E e; uint32_t byte; };
struct Obj {
  uint64_t base, size;
  bool ro = false; uint8_t kind = 0;  // 0 heap 1 stack 2 global
  std::vector<uint8_t> bytes, tags;   // tag 0 concrete, 1 symbolic, 2 uninit
  std::vector<Cell> cells;
  std::string name;
};
using ObjP = std::shared_ptr<Obj>;

struct CInst {
  const llvm::Instruction* I;
  unsigned op;
  int dst = -1;
  std::vector<int> a;
  unsigned w = 0;             // scalar result width
  bool scalar = true;         // all operands/result scalar ints/ptrs
  int64_t off = 0;            // gep const offset
  std::vector<std::pair<int, int64_t>> idx;  // gep variable idx
  int t0 = -1, t1 = -1;       // branch targets
  const llvm::Function* callee = nullptr;
  int builtin = -1;
  unsigned al = 0;            // alignment (>= 16) an access relies on
};
struct CBlock { std::vector<CInst> insts; std::vector<int> phiEnd; int nphi = 0; };
struct CFunc {
  const llvm::Function* F;
  int nregs = 0;
  std::vector<RV> consts;
  std::vector<CBlock> blocks;
  std::vector<const llvm::BasicBlock*> bbs;
  std::map<const llvm::BasicBlock*, int> bbIdx;
  bool undefConst = false;
  bool domDone = false; std::vector<int> ipdom, regBlk; std::unique_ptr<llvm::DominatorTree> dt;
  std::string srcFile, pretty; unsigned line = 0;
  uint64_t calls = 0;
};
struct Frame {
  CFunc* f; std::vector<RV> regs; int bb = 0, prev = -1, pc = 0; int retDst = -1;
  std::vector<uint64_t> allocas;
};
struct State {
  std::vector<Frame> stack;
  std::map<uint64_t, ObjP> mem;
  uint64_t nextHeap = 0x100000000ull, nextStack = 0x7f0000000000ull;
  std::vector<E> pc;
  std::set<E> pcset;
  std::map<E, APInt> known;
  bool pcHasUf() const { for (E p : pc) if (p->uf) return true; return false; }
  std::map<E, std::vector<std::pair<unsigned, E>>> ext;   // see g_ext
  std::vector<std::pair<std::string, E>> obs;   // observations
  std::vector<int> inputs;                      // sym ids in order of creation
  std::set<std::string> tags;
  uint64_t instrs = 0;
  uint64_t id = 0;
  std::map<std::string, int> nameCount;
};
struct Finding {
  std::string kind, msg, loc;
  std::vector<std::string> trace;
  Model model; std::vector<int> inputs;
  bool hasModel = false;
};
struct Options {
  uint64_t maxPaths = 200000, maxInstr = 4000000000ull; double maxTime = 800; unsigned solverTimeout = 30000;
  int witnesses = 2; int maxFindings = 1; uint64_t seed = 1; unsigned maxEnum = 600; bool verbose = false;
};
struct PathEnd {};
struct NoMerge {};
struct Witness { Model model; std::vector<int> inputs; std::vector<std::pair<std::string, APInt>> obs; std::set<std::string> tags; };

class Exec {
 public:
  Exec(llvm::Module& M, Solver& S, Options o);
  void run(const std::string& entry, const std::vector<uint64_t>& args);
  std::vector<Finding> findings;
  std::vector<std::string> inconclusive;
  std::vector<Witness> wits;
  uint64_t paths = 0, instrs = 0, forks = 0, merges = 0, asserts = 0, assertQueries = 0, assertTrivial = 0, aborted = 0, states = 0;
  std::set<std::string> assertSites, reached;
  std::map<std::string, uint64_t> forkSites;
  std::map<const llvm::Function*, std::unique_ptr<CFunc>> funcs;
  bool limitHit = false;

 private:
  llvm::Module& M; const llvm::DataLayout& DL; Solver& S; Options opt;
  std::map<const llvm::GlobalValue*, uint64_t> gaddr;
  std::map<uint64_t, const llvm::Function*> fnAt;
  std::vector<State*> work;
  State* cur = nullptr;
  State init;
  CFunc* getFunc(const llvm::Function* F);
  uint64_t nextState = 1;
  double t0;

  // memory
  Obj* alloc(State& s, uint64_t size, uint8_t kind, const std::string& name, uint64_t align = 64, bool zero = false);
  Obj* find(State& s, uint64_t addr);
  Obj* writable(State& s, Obj* o);
  Val loadBits(State& s, uint64_t addr, unsigned bits);
  void storeBits(State& s, uint64_t addr, const Val& v);
  RV loadTy(State& s, uint64_t addr, llvm::Type* T);
  void storeTy(State& s, uint64_t addr, llvm::Type* T, const RV& v);
  void checkRange(State& s, uint64_t addr, uint64_t n, bool write);
  void initGlobal(State& s, uint64_t addr, const llvm::Constant* C);
  std::vector<uint64_t> enumAddrs(State& s, E a, uint64_t n, bool write);
  std::vector<E> readBytes(State& s, uint64_t addr, uint64_t n);
  void copyBytes(State& s, uint64_t dst, uint64_t src, uint64_t n);
  RV constVal(const llvm::Constant* C);
  RV undefVal(llvm::Type* T, bool fresh);

  // control
  void addPC(State& s, E c);
  bool mustTrue(State& s, E c);   // quick syntactic
  int branch(State& s, E c);      // 1 true only, 0 false only, 2 both
  uint64_t concretize(State& s, const Val& v);  // may fork (throws Restart)
  void fork(State& s, const std::vector<E>& alts);
  bool guess(State& s, E q, Model& out, int tries);
  bool hasUf(State& s, E q);
  void fail(State& s, E cond, const std::string& kind, const std::string& msg);
  std::string loc(State& s);
  std::vector<std::string> backtrace(State& s);

  RV& reg(int i) { auto& f = cur->stack.back(); return i >= 0 ? f.regs[i] : f.f->consts[-1 - i]; }
  void step();
  void doCall(CInst& ci);
  void enter(const llvm::Function* F, std::vector<RV>&& args, int dst);
  bool builtin(const llvm::Function* F, CInst& ci, std::vector<RV>& args, RV& out);
  bool intrinsic(const llvm::Function* F, CInst& ci, std::vector<RV>& args, RV& out);
  void gotoBB(int target);
  bool tryMerge(CInst& ci, E c);
  bool tryMergeGen(CInst& ci, E c);
  bool mergeStates(State& m, State& a, State& b, E c, CFunc* f, int J);
  int mergeWhy = 0; int spec = 0; uint64_t specBudget = 0;
  void noSpec() { if (spec) throw NoMerge{}; }
  struct MergeStat { int ok = 0, bad = 0; };
  std::map<const llvm::Instruction*, MergeStat> mergeStat;
  RV binop(unsigned op, const RV& a, const RV& b);
  Val sbin(unsigned op, const Val& a, const Val& b);
  Val icmp(unsigned pred, const Val& a, const Val& b);
  RV castop(unsigned op, const RV& a, llvm::Type* from, llvm::Type* to);
  Val select(const Val& c, const Val& a, const Val& b);
  RV selectRV(const Val& c, const RV& a, const RV& b);
  Val flatten(const RV& v, llvm::Type* T);
  RV unflatten(const Val& v, llvm::Type* T);
  std::string cstr(State& s, uint64_t addr);
  Val fresh(unsigned w, const char* nm);
  unsigned tw(llvm::Type* T) { return (unsigned)DL.getTypeSizeInBits(T).getFixedValue(); }
  void finishPath(State& s);
  int ufTagTries = 0;
  [[noreturn]] void unsupported(const std::string& m);
};
}  // namespace symx
