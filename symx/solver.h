#pragma once
#include "expr.h"
#include <z3++.h>
#include <optional>
namespace symx {
enum class Res { Sat, Unsat, Unknown };
struct Model {
  std::unordered_map<int, APInt> syms;                       // sym id -> value
  std::map<int, std::vector<std::pair<APInt, APInt>>> uf;    // uf id -> (in,out)
};
struct SolverStats {
  uint64_t queries = 0, cacheHits = 0, incr = 0, fresh = 0, sat = 0, unsat = 0, unknown = 0, quick = 0;
  double time = 0, maxq = 0;
};
class Solver {
 public:
  Solver();
  // pc: path constraints, q: extra constraint (may be null)
  Res check(const std::vector<E>& pc, E q, unsigned timeoutMs = 20000);
  // full (unsliced) check that also produces a model covering all syms
  Res checkModel(const std::vector<E>& pc, E q, Model& m, unsigned timeoutMs = 60000);
  SolverStats st;
  std::string dumpDir;   // if set, obligations are dumped as SMT-LIB2
  bool dumpNext = false;
  int dumped = 0;
  // evaluates e under m (m must define all syms; UFs through m.uf, default 0)
  static APInt eval(E e, const Model& m);
 private:
  z3::context ctx;
  std::unique_ptr<z3::solver> inc;
  std::vector<E> stack;       // constraints currently asserted, one scope each
  std::unordered_map<uint32_t, z3::expr> bvCache, boolCache, conCache;
  std::vector<z3::func_decl> ufDecl;
  std::vector<std::unique_ptr<z3::expr>> symAst;
  std::map<std::vector<uint32_t>, Res> cache;
  z3::expr bv(E e);
  z3::expr bl(E e);
  z3::expr con(E c);   // c with the axioms of the wide remainders in it
  bool wideRem(E e);
  z3::expr remVar(E e);
  z3::expr num(const APInt& a);
  z3::expr linBv(E e);
  std::vector<E> slice(const std::vector<E>& pc, E q);
  Res runFresh(const std::vector<E>& cs, unsigned timeoutMs, Model* m);
  void extractModel(z3::model& zm, const std::vector<E>& cs, Model& m);
};
}  // namespace symx
