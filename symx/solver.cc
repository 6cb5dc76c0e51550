#include "solver.h"
#include <llvm/ADT/SmallString.h>
#include <algorithm>
#include <chrono>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>
#include <thread>
#include <mutex>
#include <condition_variable>
namespace symx {
// z3's own timeout is not honoured in every phase; interrupt from outside.
struct Watchdog {
  z3::context& c; std::mutex m; std::condition_variable cv; bool stop = false; double deadline = 0; std::thread t;
  explicit Watchdog(z3::context& cc) : c(cc), t([this] {
    std::unique_lock<std::mutex> l(m);
    while (!stop) {
      cv.wait_for(l, std::chrono::milliseconds(200));
      double n = std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
      if (deadline > 0 && n > deadline) { c.interrupt(); }
    }
  }) {}
  void arm(double s) { std::lock_guard<std::mutex> l(m); deadline = s <= 0 ? 0 : std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count() + s; }
  ~Watchdog() { { std::lock_guard<std::mutex> l(m); stop = true; } cv.notify_all(); t.join(); }
};
static Watchdog* g_wd = nullptr;
struct Armed { explicit Armed(double s) { g_wd->arm(s); } ~Armed() { g_wd->arm(0); } };
static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
Solver::Solver() { g_wd = new Watchdog(ctx); inc = std::make_unique<z3::solver>(ctx); }

static std::string dec(const APInt& a) { llvm::SmallString<64> s; a.toString(s, 10, false); return std::string(s.str()); }
z3::expr Solver::num(const APInt& a) { return ctx.bv_val(dec(a).c_str(), a.getBitWidth()); }

z3::expr Solver::linBv(E e) {
  unsigned w = e->w;
  std::optional<z3::expr> acc;
  auto add = [&](z3::expr x) { acc = acc ? (*acc ^ x) : x; };
  if (!e->c.isZero()) add(num(e->c));
  for (auto& t : e->lin) {
    // split the mask into contiguous runs when few; otherwise and with mask
    unsigned lo = t.mask.countr_zero(), hi = w - t.mask.countl_zero();  // [lo,hi)
    APInt win = APInt::getBitsSet(w, lo, hi);
    int slo = (int)lo - t.shift, shi = (int)hi - t.shift;  // source window
    if (t.leaf->k == K_ITE && t.leaf->w == 4096) {
      z3::expr m = z3::ite(bl(t.leaf->ops[0]), num(t.mask), num(APInt(w, 0)));
      add(m); continue;
    }
    // clamp: source bits outside the leaf are zero
    z3::expr src = bv(t.leaf);
    int L = (int)t.leaf->w;
    int cslo = std::max(0, slo), cshi = std::min(L, shi);
    if (cslo >= cshi) continue;
    z3::expr x = (cslo == 0 && cshi == L) ? src : src.extract(cshi - 1, cslo);
    unsigned dlo = cslo + t.shift, dhi = cshi + t.shift;
    if (dhi < w) x = z3::concat(ctx.bv_val(0, w - dhi), x);
    if (dlo > 0) x = z3::concat(x, ctx.bv_val(0, dlo));
    if (win != t.mask) x = x & num(t.mask);
    add(x);
  }
  if (!acc) return num(APInt(w, 0));
  return *acc;
}

z3::expr Solver::bv(E e) {
  auto it = bvCache.find(e->id);
  if (it != bvCache.end()) return it->second;
  auto B = [&](int i) { return bv(e->ops[i]); };
  std::optional<z3::expr> r;
  switch (e->k) {
    case K_CONST: r = num(e->c); break;
    case K_SYM: r = ctx.bv_const(("s" + std::to_string(e->name)).c_str(), e->w); break;
    case K_UF: {
      auto& u = g_ufs[e->name];
      z3::sort d = ctx.bv_sort(u.inw), rg = ctx.bv_sort(u.outw);
      r = ctx.function(("uf" + std::to_string(e->name)).c_str(), d, rg)(B(0)); break;
    }
    case K_LIN: r = linBv(e); break;
    case K_SUM: {
      std::optional<z3::expr> acc;
      if (!e->c.isZero()) acc = num(e->c);
      for (auto& p : e->sum) {
        z3::expr x = bv(p.first);
        if (p.second.isAllOnes()) { acc = acc ? (*acc - x) : -x; continue; }
        if (!p.second.isOne()) x = num(p.second) * x;
        acc = acc ? (*acc + x) : x;
      }
      r = *acc; break;
    }
    case K_MUL: r = B(0) * B(1); break;
    case K_UDIV: r = z3::udiv(B(0), B(1)); break;
    case K_UREM: r = wideRem(e) ? remVar(e) : z3::urem(B(0), B(1)); break;
    case K_SDIV: r = B(0) / B(1); break;
    case K_SREM: r = z3::srem(B(0), B(1)); break;
    case K_AND: r = B(0) & B(1); break;
    case K_OR: r = B(0) | B(1); break;
    case K_SHL: r = z3::shl(B(0), B(1)); break;
    case K_LSHR: r = z3::lshr(B(0), B(1)); break;
    case K_ASHR: r = z3::ashr(B(0), B(1)); break;
    case K_ITE: r = z3::ite(bl(e->ops[0]), B(1), B(2)); break;
    case K_OPAQUE: r = B(0); break;
    case K_EQ: case K_ULT: case K_SLT:
      r = z3::ite(bl(e), ctx.bv_val(1, 1), ctx.bv_val(0, 1)); break;
  }
  bvCache.emplace(e->id, *r);
  return *r;
}
// A remainder of wide operands as a fresh variable r with a quotient q: the defining
// axiom a = q*b + r, r < b (without overflow, which makes it exact) is asserted next
// to every constraint in which the remainder occurs.
bool Solver::wideRem(E e) {
  E a = e->ops[0], b = e->ops[1];
  return e->w >= 96 && !a->isConst() && a->k != K_SUM && !(b->isConst() && (b->c.isZero() || b->c.isPowerOf2()));
}
z3::expr Solver::remVar(E e) { return ctx.bv_const(("rem" + std::to_string(e->id)).c_str(), e->w); }
z3::expr Solver::con(E c) {
  auto it = conCache.find(c->id);
  if (it != conCache.end()) return it->second;
  z3::expr r = bl(c);
  std::unordered_set<E> seen; std::vector<E> work{c};
  while (!work.empty()) {
    E e = work.back(); work.pop_back();
    if (!seen.insert(e).second) continue;
    for (E o : e->ops) work.push_back(o);
    for (auto& t : e->lin) work.push_back(t.leaf);
    for (auto& t : e->sum) work.push_back(t.first);
    if (e->k != K_UREM || !wideRem(e)) continue;
    E bE = e->ops[1]; unsigned w = e->w;
    z3::expr a = bv(e->ops[0]), b = bv(bE), rm = remVar(e), q = ctx.bv_const(("quo" + std::to_string(e->id)).c_str(), w);
    if (bE->isConst()) r = r && z3::ult(rm, b) && z3::ule(q, num(APInt::getAllOnes(w).udiv(bE->c))) && a == q * b + rm;
    else {
      unsigned n = std::max(1u, possibleBits(bE).getActiveBits());   // b fits n bits
      z3::expr ax = z3::ult(rm, b) && z3::zext(a, n) == z3::zext(q, n) * z3::zext(b, n) + z3::zext(rm, n);
      r = r && z3::ite(b == ctx.bv_val(0, w), rm == a, ax);
    }
  }
  conCache.emplace(c->id, r);
  return r;
}
z3::expr Solver::bl(E e) {
  auto it = boolCache.find(e->id);
  if (it != boolCache.end()) return it->second;
  std::optional<z3::expr> r;
  switch (e->k) {
    case K_CONST: r = ctx.bool_val(e->c.isOne()); break;
    case K_EQ: r = bv(e->ops[0]) == bv(e->ops[1]); break;
    case K_ULT: r = z3::ult(bv(e->ops[0]), bv(e->ops[1])); break;
    case K_SLT: r = z3::slt(bv(e->ops[0]), bv(e->ops[1])); break;
    case K_AND: r = bl(e->ops[0]) && bl(e->ops[1]); break;
    case K_OPAQUE: r = bl(e->ops[0]); break;
    case K_OR: r = bl(e->ops[0]) || bl(e->ops[1]); break;
    case K_ITE: r = z3::ite(bl(e->ops[0]), bl(e->ops[1]), bl(e->ops[2])); break;
    case K_LIN: {
      std::optional<z3::expr> acc;
      for (auto& t : e->lin) {
        z3::expr x = t.leaf->w == 1 ? bl(t.leaf)
                                    : (bv(t.leaf).extract(-t.shift, -t.shift) == ctx.bv_val(1, 1));
        acc = acc ? (*acc != x) : x;
      }
      r = e->c.isOne() ? !*acc : *acc; break;
    }
    default: r = bv(e) == ctx.bv_val(1, 1);
  }
  boolCache.emplace(e->id, *r);
  return *r;
}

std::vector<E> Solver::slice(const std::vector<E>& pc, E q) {
  // transitive closure over shared support
  std::vector<E> out;
  if (!q) return pc;
  std::set<int> S(q->supp->begin(), q->supp->end());
  std::vector<char> in(pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) {
      if (in[i]) continue;
      bool hit = false;
      for (int s : *pc[i]->supp) if (S.count(s)) { hit = true; break; }
      if (hit) { in[i] = 1; ch = true; S.insert(pc[i]->supp->begin(), pc[i]->supp->end()); }
    }
  }
  for (size_t i = 0; i < pc.size(); i++) if (in[i]) out.push_back(pc[i]);
  return out;
}

void Solver::extractModel(z3::model& zm, const std::vector<E>& cs, Model& m) {
  auto toAP = [&](z3::expr v, unsigned w) {
    std::string s;
    if (v.is_numeral(s)) return APInt(w, s, 10);
    return APInt(w, 0);
  };
  // collect all syms and UF apps in cs
  std::unordered_set<E> seen;
  std::vector<E> work(cs.begin(), cs.end());
  std::vector<E> ufs;
  while (!work.empty()) {
    E e = work.back(); work.pop_back();
    if (!seen.insert(e).second) continue;
    if (e->k == K_SYM) m.syms[e->name] = toAP(zm.eval(bv(e), true), e->w);
    if (e->k == K_UF) ufs.push_back(e);
    for (E o : e->ops) work.push_back(o);
    for (auto& t : e->lin) work.push_back(t.leaf);
    for (auto& t : e->sum) work.push_back(t.first);
  }
  for (E u : ufs) {
    APInt in = toAP(zm.eval(bv(u->ops[0]), true), u->ops[0]->w);
    APInt out = toAP(zm.eval(bv(u), true), u->w);
    auto& v = m.uf[u->name];
    bool have = false;
    for (auto& p : v) if (p.first == in) have = true;
    if (!have) v.push_back({in, out});
  }
}

Res Solver::runFresh(const std::vector<E>& cs, unsigned timeoutMs, Model* m) {
  st.fresh++;
  bool uf = false;
  for (E c : cs) for (int s : *c->supp) if (s & 1) uf = true;
  Res r = Res::Unknown;
  try {
    z3::solver s = uf ? z3::solver(ctx, "QF_UFBV") : (z3::tactic(ctx, "qfbv").mk_solver());
    z3::params p(ctx);
    p.set("timeout", timeoutMs);
    s.set(p);
    for (E c : cs) s.add(con(c));
    if (!dumpDir.empty() && dumpNext) {
      std::ofstream f(dumpDir + "/q" + std::to_string(dumped++) + ".smt2");
      f << s.to_smt2();
    }
    Armed armed(timeoutMs / 1000.0 * 1.2 + 0.5);
    auto z = s.check();
    r = z == z3::sat ? Res::Sat : z == z3::unsat ? Res::Unsat : Res::Unknown;
    if (r == Res::Sat && m) { z3::model zm = s.get_model(); extractModel(zm, cs, *m); }
  } catch (z3::exception& ex) {
    std::cerr << "z3 exception: " << ex.msg() << "\n";
  }
  return r;
}

Res Solver::check(const std::vector<E>& pc, E q, unsigned timeoutMs) {
  if (q && q->isConst()) { if (q->c.isZero()) return Res::Unsat; q = nullptr; if (pc.empty()) return Res::Sat; }
  double t0 = now();
  std::vector<E> cs = slice(pc, q);
  if (q) cs.push_back(q);
  std::vector<uint32_t> key;
  for (E c : cs) key.push_back(c->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = cache.find(key);
  if (it != cache.end()) { st.cacheHits++; return it->second; }
  st.queries++;
  Res r = Res::Unknown;
  bool wantDump = !dumpDir.empty() && dumpNext;
  if (!wantDump) {
    try {
      // incremental: align stack with the prefix of cs
      size_t n = cs.size() - (q ? 1 : 0);
      size_t common = 0;
      while (common < stack.size() && common < n && stack[common] == cs[common]) common++;
      if (stack.size() > common) { inc->pop((unsigned)(stack.size() - common)); stack.resize(common); }
      while (stack.size() < n) { inc->push(); inc->add(con(cs[stack.size()])); stack.push_back(cs[stack.size()]); }
      z3::params p(ctx);
      p.set("timeout", std::min(timeoutMs, 4000u));
      inc->set(p);
      st.incr++;
      Armed armed(std::min(timeoutMs, 4000u) / 1000.0 * 1.2 + 0.5);
      if (q) {
        inc->push(); inc->add(con(q));
        auto z = inc->check();
        r = z == z3::sat ? Res::Sat : z == z3::unsat ? Res::Unsat : Res::Unknown;
        inc->pop();
      } else {
        auto z = inc->check();
        r = z == z3::sat ? Res::Sat : z == z3::unsat ? Res::Unsat : Res::Unknown;
      }
    } catch (z3::exception& ex) {
      std::cerr << "z3 exception: " << ex.msg() << "\n";
      inc = std::make_unique<z3::solver>(ctx); stack.clear();
    }
  }
  if (r == Res::Unknown) r = runFresh(cs, timeoutMs, nullptr);
  double dt = now() - t0;
  if (dt > 0.2 && getenv("SYMX_SLOW")) std::cerr << "slow " << dt << " " << cs.size() << " " << (q ? toStr(q, getenv("SYMX_DEEP") ? atoi(getenv("SYMX_DEEP")) : 4).substr(0, getenv("SYMX_DEEP") ? 400000 : 300) : std::string("-")) << "\n";
  st.time += dt; st.maxq = std::max(st.maxq, dt);
  if (r == Res::Sat) st.sat++; else if (r == Res::Unsat) st.unsat++; else st.unknown++;
  if (r != Res::Unknown) cache.emplace(std::move(key), r);
  return r;
}

Res Solver::checkModel(const std::vector<E>& pc, E q, Model& m, unsigned timeoutMs) {
  std::vector<E> cs = pc;
  if (q) cs.push_back(q);
  double t0 = now();
  st.queries++;
  Res r = runFresh(cs, timeoutMs, &m);
  double dt = now() - t0;
  if (dt > 0.2 && getenv("SYMX_SLOW")) { std::cerr << "slow model " << dt << " " << cs.size() << "\n"; for (E c : cs) std::cerr << "   " << toStr(c, 4).substr(0, 300) << "\n"; }
  st.time += dt; st.maxq = std::max(st.maxq, dt);
  if (r == Res::Sat) st.sat++; else if (r == Res::Unsat) st.unsat++; else st.unknown++;
  return r;
}

static APInt evalRec(E e, const Model& m, std::unordered_map<E, APInt>& memo) {
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  auto R = [&](int i) { return evalRec(e->ops[i], m, memo); };
  APInt r(e->w, 0);
  auto b1 = [](bool b) { return APInt(1, b); };
  switch (e->k) {
    case K_CONST: r = e->c; break;
    case K_SYM: { auto f = m.syms.find(e->name); if (f != m.syms.end()) r = f->second; break; }
    case K_UF: {
      APInt in = R(0);
      auto f = m.uf.find(e->name);
      bool hit = false;
      if (f != m.uf.end()) for (auto& p : f->second) if (p.first == in) { r = p.second; hit = true; break; }
      if (!hit) r = ufDefault(g_ufs[e->name].name, in, e->w);
      break;
    }
    case K_LIN: {
      r = e->c;
      for (auto& t : e->lin) {
        unsigned W = std::max(e->w, t.leaf->w);
        APInt v = evalRec(t.leaf, m, memo).zext(W);
        if (t.shift >= 0) { W += t.shift; v = v.zext(W).shl(t.shift); } else v = v.lshr(-t.shift);
        r ^= v.zextOrTrunc(e->w) & t.mask;
      }
      break;
    }
    case K_SUM: r = e->c; for (auto& p : e->sum) r += evalRec(p.first, m, memo) * p.second; break;
    case K_MUL: r = R(0) * R(1); break;
    case K_UDIV: { APInt b = R(1); r = b.isZero() ? APInt::getAllOnes(e->w) : R(0).udiv(b); break; }
    case K_UREM: { APInt b = R(1); r = b.isZero() ? R(0) : R(0).urem(b); break; }
    case K_SDIV: { APInt b = R(1); r = b.isZero() ? (R(0).isNegative() ? APInt(e->w, 1) : APInt::getAllOnes(e->w)) : R(0).sdiv(b); break; }
    case K_SREM: { APInt b = R(1); r = b.isZero() ? R(0) : R(0).srem(b); break; }
    case K_AND: r = R(0) & R(1); break;
    case K_OR: r = R(0) | R(1); break;
    case K_SHL: r = R(0).shl((unsigned)R(1).getLimitedValue(e->w)); break;
    case K_LSHR: r = R(0).lshr((unsigned)R(1).getLimitedValue(e->w)); break;
    case K_ASHR: r = R(0).ashr((unsigned)R(1).getLimitedValue(e->w)); break;
    case K_ITE: r = R(0).isOne() ? R(1) : R(2); break;
    case K_OPAQUE: r = R(0); break;
    case K_EQ: r = b1(R(0) == R(1)); break;
    case K_ULT: r = b1(R(0).ult(R(1))); break;
    case K_SLT: r = b1(R(0).slt(R(1))); break;
  }
  memo.emplace(e, r);
  return r;
}
APInt Solver::eval(E e, const Model& m) { std::unordered_map<E, APInt> memo; return evalRec(e, m, memo); }
}  // namespace symx
