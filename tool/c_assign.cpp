#include "summ.h"
#include "pe.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Operator.h"
using namespace llvm;
namespace dv {
// "Established before use, in this call": an interprocedural must-dataflow.
// gen establishes, kill invalidates, use needs it.  Per function: the uses
// reached from an entry where it is not established, and what holds at exit
// for either entry.
struct Assign {
  Ctx &C; std::function<int(const Instruction *)> ev; // 0 none, 1 gen, 2 kill, 3 use, 4 opaque (do not look into the callee)
  struct S { bool out[2] = {true, true}; std::vector<std::pair<const Instruction *, std::string>> exposed; bool noret = false; };
  std::map<const Function *, S> sum; std::set<const Instruction *> usesSeen, gens; bool changed = false;
  Assign(Ctx &C, std::function<int(const Instruction *)> e) : C(C), ev(e) {}
  // returns state after; bit0: some path stale, bit1: some path established
  int step(const Instruction &I, int st, std::vector<std::pair<const Instruction *, std::string>> *exp, std::set<std::string> *seen) {
    int e = ev(&I); if (e == 1) { gens.insert(&I); return 2; } if (e == 2) return 1; if (e == 3) { usesSeen.insert(&I); if ((st & 1) && exp && seen->insert(locOf(&I)).second) exp->push_back({&I, ""}); return st; } if (e == 4) return st;
    auto *CB = dyn_cast<CallBase>(&I); if (!CB) return st; auto T = targetsOf(C, CB); if (T.empty()) return st; int r = 0;
    for (auto *F : T) { if (F->isDeclaration()) { r |= st; continue; } auto &s = sum[F]; if (s.noret) continue; if (st & 1) { r |= s.out[0] ? 2 : 1; if (exp) for (auto &x : s.exposed) if (seen->insert(locOf(x.first)).second) exp->push_back({x.first, srcName(F) + (x.second.empty() ? "" : " > " + x.second)}); } if (st & 2) r |= s.out[1] ? 2 : 1; }
    return r ? r : st; }
  void analyse(const Function *F) {
    S n; for (int en = 0; en < 2; ++en) { std::map<const BasicBlock *, int> in; in[&F->getEntryBlock()] = en ? 2 : 1; std::vector<const BasicBlock *> w{&F->getEntryBlock()}; int out = 0; std::vector<std::pair<const Instruction *, std::string>> exp; std::set<std::string> seen;
      while (!w.empty()) { auto *B = w.back(); w.pop_back(); int st = in[B]; for (auto &I : *B) st = step(I, st, en ? nullptr : &exp, &seen); if (isa<ReturnInst>(B->getTerminator())) out |= st; for (auto *Sx : successors(B)) { int &x = in[Sx]; if ((x | st) != x) { x |= st; w.push_back(Sx); } } }
      n.out[en] = !(out & 1); n.noret = !out; if (!en) n.exposed = exp; }
    auto &o = sum[F]; if (o.out[0] != n.out[0] || o.out[1] != n.out[1] || o.noret != n.noret || o.exposed.size() != n.exposed.size()) changed = true; o = n; }
  void run() { std::vector<const Function *> fs; for (auto &F : *C.P.M) if (!F.isDeclaration()) fs.push_back(&F), sum[&F]; 
    for (int r = 0; r < 60; ++r) { changed = false; for (auto *F : fs) analyse(F); if (!changed) return; } C.R.count["incomplete"]++; }
};
// path-sensitive confirmation of the exposures of one entry point
struct Confirm : Prop {
  Assign &A; std::string root; std::function<void(const Instruction *, State &)> hit; Confirm(Assign &A, const std::string &r) : A(A), root(r) {}
  void onEntry(State &S) override { S.flag[1] = 0; }
  void event(const Instruction *I, State &S) { int e = A.ev(I); if (e == 1) S.flag[1] = 1, S.note("established at " + exactLine(I)); else if (e == 2) S.flag[1] = 0, S.note("given up at " + exactLine(I)); else if (e == 3 && !S.flag[1]) hit(I, S); }
  void onLoad(const LoadInst *I, Sym, Sym, State &S) override { event(I, S); }
  void onStore(const StoreInst *I, Sym, Sym, State &S) override { event(I, S); }
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override {
    if (A.ev(CB)) { event(CB, S); return false; } auto T = targetsOf(A.C, CB); int r = 0, st = S.flag[1] ? 2 : 1; for (auto *F : T) { if (F->isDeclaration()) { r |= st; continue; } auto it = A.sum.find(F); if (it == A.sum.end() || it->second.noret) continue; r |= it->second.out[st == 2] ? 2 : 1; }
    if (r == 1) S.flag[1] = 0; else if (r == 2) S.flag[1] = 1; else if (r == 3) S.flag[1] = 0; return false; }
  void onRet(const ReturnInst *, State &, Sym) override {}
};
static void confirm(Ctx &C, Assign &A, Function *F, const std::function<void(const Instruction *, const std::string &)> &rep) {
  if (A.sum[F].exposed.empty()) return; Confirm p(A, srcName(F)); p.hit = [&](const Instruction *I, State &S) { rep(I, S.path()); };
  runOn(C, F, p, [&](const Function *G) { auto it = A.sum.find(G); return it != A.sum.end() && !it->second.exposed.empty(); });
}
static const GlobalVariable *globalOf(const Value *p) { return dyn_cast_or_null<GlobalVariable>(p->stripPointerCasts()); }
// v is the bound image: ilGetCurImage(), or a helper or choice that only ever answers it
static bool boundImage(Ctx &C, const Value *v, int depth = 6) {
  v = v->stripPointerCasts(); if (depth < 0) return false;
  if (auto *P = dyn_cast<PHINode>(v)) { for (auto &x : P->incoming_values()) if (!boundImage(C, x, depth - 1)) return false; return true; }
  if (auto *L = dyn_cast<LoadInst>(v)) { auto *g = globalOf(L->getPointerOperand()); return g && g == C.P.gv("iCurImage"); }
  auto *CB = dyn_cast<CallBase>(v); if (!CB) return false; if (calleeName(CB) == "ilGetCurImage") return true; auto T = targetsOf(C, CB); if (T.empty()) return false;
  for (auto *F : T) { if (F->isDeclaration()) return false; bool any = false; for (auto &B : *F) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) { if (!R->getReturnValue() || !boundImage(C, R->getReturnValue(), depth - 1)) return false; any = true; } if (!any) return false; }
  return true;
}
// P38: every ILU/ILUT call works on the image that is bound when it is made
CHECK(curimage) {
  for (auto name : {"iluCurImage", "ilutCurImage"}) {
    auto *G = C.P.gv(name); if (!G) { C.R.broken(std::string("no variable ") + name); continue; } std::set<const Instruction *> fromQuery;
    // the first value given to it must be the bound image: values stored are the result of ilGetCurImage or (after that) something derived in the call
    Assign A(C, [&](const Instruction *I) -> int { if (auto *S = dyn_cast<StoreInst>(I)) { if (globalOf(S->getPointerOperand()) != G) return 0; if (boundImage(C, S->getValueOperand())) return 1;
        if (isa<ConstantPointerNull>(S->getValueOperand())) return 2; return 0; }
      if (auto *L = dyn_cast<LoadInst>(I)) return globalOf(L->getPointerOperand()) == G ? 3 : 0; return 0; });
    A.run();
    for (auto &F : *C.P.M) { if (F.isDeclaration() || !C.isApi(&F)) continue; auto &s = A.sum[&F]; std::string n = srcName(&F);
      if (!s.exposed.empty() || s.out[0]) C.R.items["image_calls"].insert(n);
      confirm(C, A, &F, [&](const Instruction *I, const std::string &path) { C.R.add("stale:" + n + ":" + fnOfInst(I), locOf(I), n + " uses the image of an earlier call (" + name + ") without asking for the one bound now", path); }); }
    C.R.count["uses_checked"] += A.usesSeen.size(); C.R.count["bindings_read"] += A.gens.size();
  }
}
// what selects a source (target) replaces all of the one before: every procedure and all they depend on
static void selectors(Ctx &C, int w) {
  auto &R = C.R; const char *side = w ? "target" : "source"; std::vector<std::string> sel = w ? std::vector<std::string>{"iSetOutputFile", "iSetOutputLump", "iSetOutputFake"} : std::vector<std::string>{"iSetInputFile", "iSetInputLump"};
  auto fnOf = [&](std::string v) -> Function * { if (!v.empty() && (v[0] == '@' || v[0] == '&')) v = v.substr(1); auto *F = C.P.M->getFunction(v); return F && !F->isDeclaration() ? F : C.P.fn(v); };
  std::map<std::string, std::set<PEOut>> outs; std::set<std::string> procs; std::set<const Function *> ops, setters;
  for (auto &n : sel) { auto *F = C.P.fn(n); if (!F) { R.broken("no function " + n); return; } outs[n] = peRun(C, F, {}).outs; std::vector<const Function *> st{F}; while (!st.empty()) { auto *G = st.back(); st.pop_back(); if (!setters.insert(G).second) continue; for (auto &I : instructions(*G)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *H = CB->getCalledFunction()) if (!H->isDeclaration() && fileOf(H) == fileOf(F)) st.push_back(H); }
    for (auto &o : outs[n]) for (auto &e : o.eff) if (auto *T = fnOf(e.second)) if (C.P.gv(e.first)) { procs.insert(e.first); ops.insert(T); } }
  R.count["selected_procedures"] += procs.size();
  // what puts back the one that was selected before counts as a selector too
  std::set<const Function *> restorers; for (auto &F : *C.P.M) if (!F.isDeclaration() && !setters.count(&F)) { std::set<std::string> st; for (auto &I : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&I)) if (auto *G = dyn_cast<GlobalVariable>(S->getPointerOperand()->stripPointerCasts())) if (procs.count(G->getName().str())) st.insert(G->getName().str()); if (st.empty()) continue; restorers.insert(&F); R.count["restorers"]++; for (auto &p : procs) if (!st.count(p)) R.add("keeps:" + srcName(&F) + ":" + p, srcName(&F), srcName(&F) + " replaces the " + side + " but leaves the procedure " + p + " of the one before"); }
  // what only the operations and the selectors write
  std::map<const Function *, std::set<std::string>> uses; std::set<std::string> own, moved;
  for (auto &G : C.P.M->globals()) { if (G.isConstant() || procs.count(G.getName().str())) continue; bool only = true, set = false, op = false; std::set<const Function *> users;
    for (auto *F : ops) for (auto &I : instructions(*F)) for (auto &o : I.operands()) if (o.get()->stripPointerCasts() == &G) users.insert(F); if (users.empty()) continue;
    for (auto &F : *C.P.M) for (auto &I : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&I)) if (S->getPointerOperand()->stripPointerCasts() == &G) { if (setters.count(&F)) set = true; else if (restorers.count(&F)) continue; else if (ops.count(&F)) op = true; else only = false; }
    if (!set && !(only && op)) continue; if (!only) continue; own.insert(G.getName().str()); if (op) moved.insert(G.getName().str()); for (auto *F : users) uses[F].insert(G.getName().str()); }
  for (auto &n : sel) { bool any = false; for (auto &o : outs[n]) { std::map<std::string, Function *> T; for (auto &e : o.eff) if (procs.count(e.first)) T[e.first] = fnOf(e.second); if (o.eff.empty()) continue; any = true; R.count["selections"]++;
      for (auto &p : procs) if (!T.count(p)) R.add("keeps:" + n + ":" + p, o.where.empty() ? n : o.where, n + " selects a " + side + " but leaves the procedure " + p + " of the one before"); else if (!T[p]) R.add("keeps:" + n + ":" + p, n, n + " sets the procedure " + p + " to something that is no operation of the library");
      std::set<std::string> need, common; bool first = true; for (auto &t : T) if (t.second) { auto &u = uses[t.second]; need.insert(u.begin(), u.end()); if (first) common = u; else { std::set<std::string> x; for (auto &y : u) if (common.count(y)) x.insert(y); common = x; } first = false; }
      if (need.size() && common.empty()) R.add("mixed:" + n, n, n + " combines operations of different " + std::string(side) + "s");
      for (auto &g : need) { auto e = o.eff.find(g); if (e == o.eff.end()) R.add("state:" + n + ":" + g, n, n + " selects a " + side + " but leaves " + g + " of the one before"); else if (moved.count(g) && e->second != "0") R.add("position:" + n + ":" + g, n, n + " starts at something else than the beginning (" + g + " = " + e->second + ")"); else R.count["state_checked"]++; } }
    if (!any) R.add("nothing:" + n, n, n + " selects nothing"); } }
// P37: no call reads or writes through the stream or lump of an earlier call
CHECK(iotarget) {
  for (int w = 0; w < 2; ++w) {
    std::set<std::string> gen = w ? std::set<std::string>{"iSetOutputFile", "iSetOutputLump", "iSetOutputFake", "iRestoreOutput"} : std::set<std::string>{"iSetInputFile", "iSetInputLump", "iRestoreReadFuncs"};
    std::set<std::string> use = w ? std::set<std::string>{"*iwrite", "*iputc", "*itellw", "*iseekw"} : std::set<std::string>{"*iread", "*igetc", "*itell", "*iseek", "*ieof"}, kill = w ? std::set<std::string>{"*iclosew", "*iopenw"} : std::set<std::string>{"*icloser", "*iopenr"};
    Assign A(C, [&](const Instruction *I) -> int { auto *CB = dyn_cast<CallBase>(I); if (!CB) return 0; auto n = calleeName(CB); if (gen.count(n)) return 1; if (use.count(n)) return 3; if (kill.count(n)) return 2; return 0; });
    A.run(); auto users = C.reachingCalls(use); std::string what = w ? "written" : "read";
    for (auto &F : *C.P.M) { if (F.isDeclaration() || !C.isApi(&F)) continue; std::string n = srcName(&F); if (users.count(&F)) C.R.items[w ? "writers" : "readers"].insert(n);
      confirm(C, A, &F, [&](const Instruction *I, const std::string &path) { C.R.add(what + ":" + n + ":" + fnOfInst(I), locOf(I), n + " can reach this point without having said which file, stream or buffer is " + what, path); }); }
    C.R.count[w ? "write_sites" : "read_sites"] += A.usesSeen.size(); C.R.count["target_settings"] += A.gens.size();
    selectors(C, w);
  }
}
}
