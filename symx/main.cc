#include "exec.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/SmallString.h>
#include <chrono>
#include <fstream>
#include <iostream>
#include <sys/resource.h>
using namespace symx;
static std::string js(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::string hex(const APInt& a) {
  std::string r; unsigned n = (a.getBitWidth() + 7) / 8; char b[4];
  APInt x = a.zextOrTrunc(n * 8);
  for (unsigned i = 0; i < n; i++) { snprintf(b, 4, "%02x", (unsigned)x.extractBitsAsZExtValue(8, i * 8)); r += b; }
  return r;  // little-endian byte string
}
static void model(std::ostream& o, const Model& m, const std::vector<int>& inputs) {
  o << "\"inputs\":[";
  bool first = true;
  for (int id : inputs) {
    APInt v(g_syms[id].w, 0);
    auto it = m.syms.find(id);
    if (it != m.syms.end()) v = it->second;
    o << (first ? "" : ",") << "{\"name\":" << js(g_syms[id].name) << ",\"w\":" << g_syms[id].w << ",\"hex\":\"" << hex(v) << "\"}";
    first = false;
  }
  o << "],\"uf\":[";
  first = true;
  for (auto& u : m.uf) for (auto& p : u.second) {
    o << (first ? "" : ",") << "{\"fn\":" << js(g_ufs[u.first].name) << ",\"in\":\"" << hex(p.first) << "\",\"out\":\"" << hex(p.second) << "\"}";
    first = false;
  }
  o << "]";
}
int main(int argc, char** argv) {
  std::string mod, entry, outf; std::vector<uint64_t> args; Options opt; std::string dump;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--module") mod = nx(); else if (a == "--entry") entry = nx(); else if (a == "--out") outf = nx();
    else if (a == "--arg") args.push_back((uint64_t)std::stoll(nx(), nullptr, 0));
    else if (a == "--max-time") opt.maxTime = std::stod(nx());
    else if (a == "--max-paths") opt.maxPaths = std::stoull(nx());
    else if (a == "--max-findings") opt.maxFindings = std::stoi(nx());
    else if (a == "--witnesses") opt.witnesses = std::stoi(nx());
    else if (a == "--solver-timeout") opt.solverTimeout = (unsigned)std::stoul(nx());
    else if (a == "--max-enum") opt.maxEnum = (unsigned)std::stoul(nx());
    else if (a == "--no-cond-sums") symx::g_condSums = false;
    else if (a == "--seed") opt.seed = std::stoull(nx());
    else if (a == "--dump") dump = nx();
    else if (a == "-v") opt.verbose = true;
    else { std::cerr << "bad arg " << a << "\n"; return 2; }
  }
  auto t0 = std::chrono::steady_clock::now();
  llvm::LLVMContext ctx; llvm::SMDiagnostic err;
  auto M = llvm::parseIRFile(mod, err, ctx);
  if (!M) { err.print("symx", llvm::errs()); return 2; }
  Solver S; S.dumpDir = dump;
  Exec X(*M, S, opt);
  X.run(entry, args);
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  std::ofstream fo; std::ostream* o = &std::cout;
  if (!outf.empty()) { fo.open(outf); o = &fo; }
  *o << "{\"entry\":" << js(entry) << ",\"args\":[";
  for (size_t i = 0; i < args.size(); i++) *o << (i ? "," : "") << (int64_t)args[i];
  *o << "],\"paths\":" << X.paths << ",\"killed\":" << X.aborted << ",\"states\":" << X.states << ",\"instrs\":" << X.instrs << ",\"forks\":" << X.forks << ",\"merges\":" << X.merges
     << ",\"asserts\":" << X.asserts << ",\"assert_queries\":" << X.assertQueries << ",\"assert_trivial\":" << X.assertTrivial << ",\"assert_sites\":" << X.assertSites.size();
  *o << ",\"solver\":{\"queries\":" << S.st.queries << ",\"cache_hits\":" << S.st.cacheHits << ",\"sat\":" << S.st.sat << ",\"unsat\":" << S.st.unsat << ",\"unknown\":" << S.st.unknown
     << ",\"fresh\":" << S.st.fresh << ",\"time_s\":" << S.st.time << ",\"max_s\":" << S.st.maxq << "},\"exprs\":" << g_nexprs << ",\"wall_s\":" << wall;
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  *o << ",\"maxrss_kb\":" << ru.ru_maxrss;
  *o << ",\"reached\":[";
  bool first = true;
  for (auto& t : X.reached) { *o << (first ? "" : ",") << js(t); first = false; }
  *o << "],\"inconclusive\":[";
  first = true;
  for (auto& t : X.inconclusive) { *o << (first ? "" : ",") << js(t); first = false; }
  *o << "],\"findings\":[";
  first = true;
  for (auto& f : X.findings) {
    *o << (first ? "" : ",") << "{\"kind\":" << js(f.kind) << ",\"msg\":" << js(f.msg) << ",\"loc\":" << js(f.loc) << ",\"trace\":[";
    for (size_t i = 0; i < f.trace.size(); i++) *o << (i ? "," : "") << js(f.trace[i]);
    *o << "],";
    model(*o, f.model, f.inputs);
    *o << "}"; first = false;
  }
  *o << "],\"witnesses\":[";
  first = true;
  for (auto& w : X.wits) {
    *o << (first ? "" : ",") << "{";
    model(*o, w.model, w.inputs);
    *o << ",\"obs\":[";
    for (size_t i = 0; i < w.obs.size(); i++) *o << (i ? "," : "") << "{\"name\":" << js(w.obs[i].first) << ",\"hex\":\"" << hex(w.obs[i].second) << "\"}";
    *o << "],\"tags\":[";
    bool f2 = true;
    for (auto& t : w.tags) { *o << (f2 ? "" : ",") << js(t); f2 = false; }
    *o << "]}"; first = false;
  }
  *o << "],\"fork_sites\":{";
  first = true;
  std::vector<std::pair<uint64_t, std::string>> fs;
  for (auto& p : X.forkSites) fs.push_back({p.second, p.first});
  std::sort(fs.rbegin(), fs.rend());
  for (size_t i = 0; i < fs.size() && i < 15; i++) { *o << (first ? "" : ",") << js(fs[i].second) << ":" << fs[i].first; first = false; }
  *o << "},\"functions\":[";
  first = true;
  for (auto& p : X.funcs) if (p.second && p.second->calls && !p.second->srcFile.empty()) {
    *o << (first ? "" : ",") << "{\"name\":" << js(p.second->pretty) << ",\"file\":" << js(p.second->srcFile) << ",\"line\":" << p.second->line << ",\"calls\":" << p.second->calls << "}";
    first = false;
  }
  *o << "]}\n";
  return X.findings.empty() ? (X.inconclusive.empty() ? 0 : 3) : 1;
}
