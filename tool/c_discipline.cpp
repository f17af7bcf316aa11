#include "pe.h"
#include "il_consts.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/Analysis/ValueTracking.h"
using namespace llvm;
namespace dv {
static std::string where(const Function *F) { return fileOf(F) + "(" + srcName(F) + ")"; }
static const Value *strip(const Value *v) { return v->stripPointerCasts(); }
static std::string cname(const Value *v) { auto *F = dyn_cast<Function>(strip(v)); return F ? srcName(F) : ""; }
// functions of the C library and of the codec libraries that open, read, write, move in, rename or remove files by themselves
static bool osFile(const std::string &n) {
  static const std::set<std::string> s = {"fopen", "fopen64", "freopen", "freopen64", "fdopen", "fmemopen", "tmpfile", "tmpfile64", "fclose", "fcloseall", "fread", "fread_unlocked", "fwrite", "fwrite_unlocked", "fgetc", "getc", "_IO_getc", "fgets", "fputc", "putc", "_IO_putc", "fputs", "ungetc", "fseek", "fseeko", "fseeko64", "ftell", "ftello", "ftello64", "rewind", "fgetpos", "fsetpos", "feof", "ferror", "fflush", "fprintf", "vfprintf", "fscanf", "__isoc99_fscanf", "__isoc23_fscanf", "vfscanf", "setvbuf", "setbuf", "getline", "getdelim",
    "open", "open64", "openat", "creat", "close", "read", "write", "pread", "pwrite", "lseek", "lseek64", "mmap", "mmap64", "remove", "unlink", "rename", "truncate", "ftruncate", "stat", "stat64", "access", "fileno", "sendfile",
    "TIFFOpen", "TIFFFdOpen", "jpeg_stdio_src", "jpeg_stdio_dest", "png_init_io", "gzopen", "gzread", "gzwrite", "cmsOpenIOhandlerFromFile"};
  if (s.count(n)) return true; return n.find("basic_ifstream") != std::string::npos || n.find("basic_ofstream") != std::string::npos || n.find("basic_fstream") != std::string::npos || n.find("basic_filebuf") != std::string::npos; }
// the place a function's address is used at: stored to / passed on, and never called directly outside
struct AddrUse { std::set<std::string> calledBy; std::set<std::string> passedTo; std::set<const GlobalVariable *> storedIn; bool other = false; };
static void addrUses(const Value *v, AddrUse &u, int depth = 5) {
  for (auto *U : v->users()) {
    if (auto *CB = dyn_cast<CallBase>(U)) { if (strip(CB->getCalledOperand()) == strip(v)) u.calledBy.insert(srcName(CB->getFunction())); else u.passedTo.insert(calleeName(CB)); }
    else if (auto *S = dyn_cast<StoreInst>(U)) { if (auto *G = dyn_cast<GlobalVariable>(strip(S->getPointerOperand()))) u.storedIn.insert(G); else u.other = true; }
    else if (auto *G = dyn_cast<GlobalVariable>(U)) u.storedIn.insert(G);
    else if ((isa<ConstantExpr>(U) || isa<SelectInst>(U) || isa<PHINode>(U) || isa<Constant>(U)) && depth) addrUses(U, u, depth - 1);
    else if (isa<ICmpInst>(U)) continue; else u.other = true; } }
// which variable each argument of a setter ends up in
static std::map<unsigned, std::string> setterMap(Ctx &C, Function *F) {
  std::map<unsigned, std::string> m; for (auto &o : peRun(C, F, {}).outs) { C.R.count["outcomes"]++; for (auto &e : o.eff) if (e.second.compare(0, 3, "arg") == 0 && e.second.size() < 6) { unsigned k = atoi(e.second.c_str() + 3); auto it = m.find(k); if (it != m.end() && it->second != e.first) m[k] = "?"; else m[k] = e.first; } }
  return m; }
CHECK(iofuncs) {
  auto &R = C.R;
  struct Side { const char *set, *reset, *sel; std::vector<std::string> what; };
  std::vector<Side> sides = {{"ilSetRead", "ilResetRead", "iSetInputFile", {"Open", "Close", "Eof", "Getc", "Read", "Seek", "Tell"}}, {"ilSetWrite", "ilResetWrite", "iSetOutputFile", {"Open", "Close", "Putc", "Seek", "Tell", "Write"}}};
  std::set<std::string> procVars; std::set<const Function *> defaults;
  for (auto &sd : sides) {
    auto *F = C.P.fn(sd.set), *Z = C.P.fn(sd.reset), *L = C.P.fn(sd.sel); if (!F || !Z) { R.add("missing:" + std::string(sd.set), sd.set, "this documented function does not exist"); continue; }
    auto m = setterMap(C, F); std::map<std::string, unsigned> role; std::set<std::string> keep;
    for (unsigned k = 0; k < sd.what.size(); ++k) { std::string id = std::string(sd.set) + ":" + sd.what[k]; auto it = m.find(k); if (it == m.end() || it->second == "?" || !C.P.gv(it->second)) { R.add("setter:" + id, where(F), "the procedure given as " + sd.what[k] + " is not kept"); continue; } if (role.count(it->second)) R.add("setter:" + id, where(F), "the procedures given as " + sd.what[k] + " and " + sd.what[role[it->second]] + " are kept in the same place"); role[it->second] = k; procVars.insert(it->second); keep.insert("*" + it->second); R.items["procedures"].insert(id); }
    for (auto &o : peRun(C, F, {}).outs) for (auto &r : role) { auto e = o.eff.find(r.first); if (e == o.eff.end()) R.add("setter:" + std::string(sd.set) + ":" + sd.what[r.second], where(F), "on some path the procedure given as " + sd.what[r.second] + " is ignored"); else if (e->second != "arg" + std::to_string(r.second)) { R.count["defaulting_paths"]++; } }
    for (auto &o : peRun(C, Z, {}).outs) for (auto &r : role) { auto e = o.eff.find(r.first); R.count["outcomes"]++; if (e == o.eff.end()) { R.add("reset:" + std::string(sd.reset) + ":" + sd.what[r.second], where(Z), std::string(sd.reset) + " leaves the " + sd.what[r.second] + " procedure that was registered"); continue; } auto n = e->second; if (!n.empty() && (n[0] == '@' || n[0] == '&')) n = n.substr(1); if (auto *D = C.P.M->getFunction(n)) defaults.insert(D), R.items["defaults"].insert(srcName(D)); else R.add("reset:" + std::string(sd.reset) + ":" + sd.what[r.second], where(Z), std::string(sd.reset) + " sets the " + sd.what[r.second] + " procedure to " + e->second); }
    // the operations a file is used with call the registered procedure, on that file
    if (!L) { R.broken(std::string("no function ") + sd.sel); continue; }
    std::map<std::string, std::string> ops; std::string handle; PESpec q; q.keep = keep; for (auto &o : peRun(C, L, q).outs) for (auto &e : o.eff) { if (e.second == "arg0") handle = e.first; auto n = e.second; if (!n.empty() && (n[0] == '@' || n[0] == '&')) n = n.substr(1); if (C.P.M->getFunction(n)) ops[e.first] = n; }
    if (handle.empty()) R.add("handle:" + std::string(sd.sel), where(L), "the file handle is not kept"); std::set<unsigned> used;
    for (auto &op : ops) { auto *O = C.P.M->getFunction(op.second); PESpec s; s.keep = keep; s.place["UseCache"] = 0; R.items["operations"].insert(op.first);
      for (auto &o : peRun(C, O, s).outs) { R.count["outcomes"]++; if (o.calls.size() != 1) { R.add("operation:" + op.second, where(O), "this operation on a file does not call exactly one registered procedure (" + std::to_string(o.calls.size()) + " calls)", o.calls.empty() ? "" : o.calls[0]); continue; }
        std::string c = o.calls[0].substr(1), v = c.substr(0, c.find('(')); used.insert(role[v]); std::string a = c.substr(c.find('(') + 1); a = "," + a.substr(0, a.size() - 1) + ","; if (a.find("," + handle + ",") == std::string::npos) R.add("operation-handle:" + op.second, where(O), "the registered procedure is not given the file in use", o.calls[0]);
        if (sd.what[role[v]] == "Read" || sd.what[role[v]] == "Write") { if (a != ",arg0,arg1,arg2," + handle + ",") R.add("operation-args:" + op.second, where(O), "the registered " + sd.what[role[v]] + " procedure is not given the buffer, size and number asked for", o.calls[0]); } } }
    for (auto &r : role) { std::string w = sd.what[r.second]; if (w != "Open" && w != "Close" && !used.count(r.second)) R.add("unused:" + std::string(sd.set) + ":" + w, where(F), "the registered " + w + " procedure is never called by the file operations"); }
  }
  // who may touch files: only the default procedures (never called directly), and the existence test
  for (auto &F : *C.P.M) { if (F.isDeclaration()) continue; R.count["functions"]++;
    for (auto &I : instructions(F)) for (auto &Op : I.operands()) { auto n = cname(Op.get()); if (n.empty() || !osFile(n)) continue; auto *T = dyn_cast<Function>(strip(Op.get())); if (!T || !T->isDeclaration()) continue; R.count["file_access_sites"]++;
      // the functions this one serves: itself, or through helpers, only default procedures or the existence test
      std::set<const Function *> seen; std::vector<const Function *> st{&F}; const Function *bad = nullptr; bool exists = false;
      while (!st.empty() && !bad) { auto *G = st.back(); st.pop_back(); if (!seen.insert(G).second) continue; if (srcName(G) == "iFileExists") { exists = true; continue; } if (defaults.count(G)) continue; if (C.isApi(G) || C.addrTaken.count(G)) { bad = G; break; } auto it = C.P.callers.find(G); bool any = false; if (it != C.P.callers.end()) for (auto *c : it->second) if (c != G) any = true, st.push_back(c); if (!any) continue; }
      if (bad) R.add("file:" + srcName(&F) + ":" + n, locOf(&I), srcName(&F) + " uses " + n + " itself instead of the registered procedures (reached from " + srcName(bad) + ")");
      else if (exists && n != "fclose" && n != "stat" && n != "access" && n != "open" && n != "close") { bool okMode = false; if (auto *CB = dyn_cast<CallBase>(&I)) if (n.compare(0, 5, "fopen") == 0 && CB->arg_size() > 1) { StringRef s; if (getConstantStringInfo(CB->getArgOperand(1), s) && s.starts_with("r") && !s.contains('+')) okMode = true; } if (!okMode) R.add("exists:" + n, locOf(&I), "the test whether a file exists uses " + n + " other than to open it for reading"); } } }
  for (auto *D : defaults) for (auto *U : D->users()) if (auto *CB = dyn_cast<CallBase>(U)) if (strip(CB->getCalledOperand()) == D && !defaults.count(CB->getFunction())) R.add("default:" + srcName(CB->getFunction()) + ":" + srcName(D), locOf(CB), srcName(CB->getFunction()) + " calls the default procedure " + srcName(D) + " instead of the registered one");
  // nothing but the setters (and the helpers that save and restore them) changes the procedures
  for (auto &v : procVars) { auto *G = C.P.gv(v); for (auto &F : *C.P.M) for (auto &I : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&I)) if (strip(S->getPointerOperand()) == G) { R.count["procedure_writes"]++; auto *V = strip(S->getValueOperand()); bool ok = isa<Argument>(V) || isa<LoadInst>(V); if (auto *f = dyn_cast<Function>(V)) ok = defaults.count(f); if (isa<SelectInst>(V) || isa<PHINode>(V)) ok = true; if (!ok) R.add("procedure:" + srcName(&F) + ":" + v, locOf(&I), srcName(&F) + " replaces the registered procedure " + v); } }
}
// ------------------------------------------------------------------ P05
static bool osAlloc(const std::string &n) { static const std::set<std::string> s = {"malloc", "calloc", "realloc", "reallocarray", "free", "cfree", "strdup", "strndup", "wcsdup", "valloc", "memalign", "aligned_alloc", "posix_memalign", "asprintf", "vasprintf", "__strdup", "_mm_malloc", "_mm_free"}; return s.count(n) || n.compare(0, 4, "_Zna") == 0 || n.compare(0, 4, "_Znw") == 0 || n.compare(0, 4, "_Zda") == 0 || n.compare(0, 4, "_Zdl") == 0; }
// what a freed pointer can be: walks casts, phis, selects
static void roots(const Value *v, std::set<const Value *> &out, std::set<const Value *> &seen, bool &moved) {
  v = strip(v); if (!seen.insert(v).second) return;
  if (auto *P = dyn_cast<PHINode>(v)) { for (auto &x : P->incoming_values()) roots(x, out, seen, moved); return; }
  if (auto *S = dyn_cast<SelectInst>(v)) { roots(S->getTrueValue(), out, seen, moved); roots(S->getFalseValue(), out, seen, moved); return; }
  if (auto *G = dyn_cast<GEPOperator>(v)) { if (!G->hasAllZeroIndices() && G->hasAllConstantIndices() && isa<CallBase>(strip(G->getPointerOperand()))) moved = true; roots(G->getPointerOperand(), out, seen, moved); return; }
  out.insert(v); }
CHECK(allocs) {
  auto &R = C.R; auto *Set = C.P.fn("ilSetMemory"), *Reset = C.P.fn("ilResetMemory"), *Al = C.P.fn("ialloc"), *Fr = C.P.fn("ifree"), *Ca = C.P.fn("icalloc");
  if (!Set || !Al || !Fr || !Ca) { R.broken("allocator entry points not found"); return; }
  auto m = setterMap(C, Set); std::set<const Function *> defaults; std::string va = m.count(0) ? m[0] : "", vf = m.count(1) ? m[1] : "";
  if (!C.P.gv(va)) R.add("setter:alloc", where(Set), "the allocation procedure given to ilSetMemory is not kept"); if (!C.P.gv(vf) || va == vf) R.add("setter:free", where(Set), "the freeing procedure given to ilSetMemory is not kept");
  if (!C.P.gv(va) || !C.P.gv(vf) || va == vf) return; auto initOf = [&](const std::string &v) -> Function * { auto *G = C.P.gv(v); return G->hasInitializer() ? dyn_cast<Function>(G->getInitializer()->stripPointerCasts()) : nullptr; };
  Function *da = initOf(va), *df = initOf(vf); if (!da || !df) { R.add("initial", where(Set), "the library starts without an allocator"); return; } defaults = {da, df}; R.items["defaults"] = {srcName(da), srcName(df)};
  auto nm = [&](std::string n) { if (!n.empty() && (n[0] == '@' || n[0] == '&')) n = n.substr(1); if (auto *X = C.P.M->getFunction(n)) return srcName(X); return n; };
  for (auto &o : peRun(C, Set, {}).outs) { R.count["outcomes"]++; for (int k = 0; k < 2; ++k) { auto &v = k ? vf : va; auto e = o.eff.find(v); std::string g = e == o.eff.end() ? "nothing" : nm(e->second); if (g != "arg" + std::to_string(k) && g != srcName(k ? df : da)) R.add("setter:" + v, where(Set), "ilSetMemory leaves " + v + " set to " + g); } }
  for (int k = 0; k < 2; ++k) { PESpec s; s.args[0] = s.args[1] = 0; for (auto &o : peRun(C, Set, s).outs) { auto &v = k ? vf : va; auto e = o.eff.find(v); R.count["outcomes"]++; if (e == o.eff.end() || nm(e->second) != srcName(k ? df : da)) R.add("null:" + v, where(Set), "ilSetMemory with a NULL procedure does not select the default one"); } }
  if (Reset) for (auto &o : peRun(C, Reset, {}).outs) for (int k = 0; k < 2; ++k) { auto &v = k ? vf : va; auto e = o.eff.find(v); R.count["outcomes"]++; if (e == o.eff.end() || nm(e->second) != srcName(k ? df : da)) R.add("reset:" + v, where(Reset), "ilResetMemory does not select the default procedure"); }
  // the wrappers call the registered procedures and nothing else
  { for (auto &I : instructions(Al)) if (auto *CB = dyn_cast<CallBase>(&I)) { auto n = calleeName(CB); if (n[0] == '*' && n != "*" + va) R.add("wrapper:ialloc", locOf(CB), "ialloc calls " + n); }
    for (auto *F : {Al, Fr}) { bool any = false; std::set<const Function *> seen; std::vector<const Function *> st{F}; while (!st.empty()) { auto *G = st.back(); st.pop_back(); if (!seen.insert(G).second || G->isDeclaration()) continue; for (auto &I : instructions(G)) if (auto *CB = dyn_cast<CallBase>(&I)) { if (calleeName(CB) == "*" + (F == Al ? va : vf)) any = true; if (auto *T = CB->getCalledFunction()) if (T->hasLocalLinkage()) st.push_back(T); } } if (!any) R.add("wrapper:" + srcName(F), where(F), srcName(F) + " does not call the registered procedure"); } }
  for (auto &F : *C.P.M) for (auto &I : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&I)) { auto *G = dyn_cast<GlobalVariable>(strip(S->getPointerOperand())); if (G && (G == C.P.gv(va) || G == C.P.gv(vf)) && srcName(&F) != "ilSetMemory" && srcName(&F) != "ilResetMemory") { bool api = false; std::vector<const Function *> st{&F}; std::set<const Function *> seen; while (!st.empty()) { auto *H = st.back(); st.pop_back(); if (!seen.insert(H).second) continue; if (srcName(H) == "ilSetMemory" || srcName(H) == "ilResetMemory") continue; if (C.isApi(H) || C.addrTaken.count(H)) api = true; auto it = C.P.callers.find(H); if (it != C.P.callers.end()) for (auto *c : it->second) st.push_back(c); } if (api) R.add("procedure:" + srcName(&F), locOf(&I), srcName(&F) + " replaces the registered allocator"); } }
  // who may allocate or free by other means
  auto libHelper = [&](const Function *F) { std::string f = fileOf(F); return f.find("/src-I") == std::string::npos; };
  std::set<std::string> makers; // functions of this library
  for (auto &F : *C.P.M) { if (F.isDeclaration() || libHelper(&F)) continue; R.count["functions"]++;
    for (auto &I : instructions(F)) for (auto &Op : I.operands()) { auto *T = dyn_cast<Function>(strip(Op.get())); if (!T || !T->isDeclaration()) continue; auto n = srcName(T); if (!osAlloc(n) && !osAlloc(T->getName().str())) continue; R.count["direct_sites"]++;
      std::set<const Function *> seen; std::vector<const Function *> st{&F}; const Function *bad = nullptr; while (!st.empty() && !bad) { auto *G = st.back(); st.pop_back(); if (!seen.insert(G).second || defaults.count(G)) continue; if (C.isApi(G) || C.addrTaken.count(G)) { bad = G; break; } auto it = C.P.callers.find(G); if (it != C.P.callers.end()) for (auto *c : it->second) if (c != G) st.push_back(c); }
      if (bad) R.add("direct:" + srcName(&F) + ":" + n, locOf(&I), srcName(&F) + " uses " + n + " instead of the registered allocator"); }
    for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) { auto n = calleeName(CB); if (n != "ifree" && n != "*" + vf) continue; if (!CB->arg_size()) continue; R.count["frees"]++; std::set<const Value *> out, seen; bool moved = false; roots(CB->getArgOperand(0), out, seen, moved);
      for (auto *v : out) { std::string why; if (isa<AllocaInst>(v)) why = "a local variable"; else if (isa<GlobalVariable>(v)) why = "a static object"; else if (isa<Function>(v)) why = "a function"; else if (auto *X = dyn_cast<CallBase>(v)) { auto T = X->getCalledFunction(); if (T && T->isDeclaration() && !T->isIntrinsic()) why = "memory obtained from " + srcName(T); else if (moved && (calleeName(X) == "ialloc" || calleeName(X) == "icalloc" || calleeName(X) == "*" + va)) why = "a pointer into the middle of a block"; }
        if (!why.empty()) R.add("frees:" + srcName(&F) + ":" + why, locOf(CB), srcName(&F) + " frees " + why + " with the registered procedure"); } } }
}
}
