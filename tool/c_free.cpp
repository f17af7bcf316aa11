#include "summ.h"
#include "llvm/Analysis/ValueTracking.h"
using namespace llvm;
namespace dv {
// P07: released memory is neither used, released again, nor left behind in a lasting place
static bool inDevIL(const Function *F) { std::string f = fileOf(F); return f.find("/src-I") != std::string::npos && f.find("rg_etc1") == std::string::npos; }
static bool primFree(const std::string &n) { return n == "ifree" || n == "*ifree_ptr" || n == "free"; }
// a place in terms of what a caller sees: an argument or global, then fields
struct Path { int arg; const GlobalVariable *g; std::vector<std::pair<int64_t, FieldClass>> steps; std::string from; bool operator<(const Path &o) const { return std::tie(arg, g, steps, from) < std::tie(o.arg, o.g, o.steps, o.from); } };
struct Paths { std::map<Path, int> ids; std::vector<Path> v; int id(const Path &p) { auto r = ids.emplace(p, (int)v.size()); if (r.second) v.push_back(p); return r.first->second; } };
enum { REL = 100, OLD = 1000, DANGLE = 100000 }; // flags of an outcome: released argument, released old value of a place, place left dangling
struct FreeProp : SummProp {
  static std::set<std::string> said; bool top = false; Report &R; Paths &PT; FreeProp(Report &R, Paths &P) : R(R), PT(P) {}
  // a format that is the same in every round of a loop that releases: keep its cases apart
  std::vector<const SwitchInst *> sw; std::map<const Value *, Sym> cond;
  void onEntry(State &S) override { E->K = 16;
    std::map<const BasicBlock *, std::set<const BasicBlock *>> re; auto reach = [&](const BasicBlock *B) -> std::set<const BasicBlock *> & { auto it = re.find(B); if (it != re.end()) return it->second; auto &r = re[B]; std::vector<const BasicBlock *> st{B}; while (!st.empty()) { auto *b = st.back(); st.pop_back(); for (auto *q : successors(b)) if (r.insert(q).second) st.push_back(q); } return r; };
    std::set<const BasicBlock *> fr; for (auto &B : E->F) for (auto &I : B) if (auto *CB = dyn_cast<CallBase>(&I)) if (primFree(calleeName(CB))) fr.insert(&B);
    for (auto &B : E->F) if (auto *SI = dyn_cast<SwitchInst>(B.getTerminator())) { if (SI->getNumCases() > 8) continue; auto &r = reach(&B); if (!r.count(&B)) continue; bool f = false; for (auto *x : fr) if (r.count(x) && reach(x).count(&B)) f = true; if (f) sw.push_back(SI); } }
  void part(State &S) { int i = 5000; for (auto *SI : sw) { int f = i++; const Value *c = SI->getCondition(); auto e = S.env.find(c); if (e != S.env.end() && (nd(e->second).k == K::Load || nd(e->second).k == K::Fresh)) cond[c] = e->second; auto it = cond.find(c); int64_t v; S.flag.erase(f); if (it != cond.end() && E->single(it->second, S, v)) S.flag[f] = (int)v; } }
  std::map<Sym, std::string> site;
  const Node &nd(Sym s) { return E->T[s]; }
  Sym root(Sym s) { return rootOf(E->T, s); }
  // a place that outlives the call: reached from an argument, a global or unknown memory
  bool lasting(Sym b, State &S, Sym ret) { for (int i = 0; i < 60; ++i) { if (S.obj.count(b)) return false; if (ret && b == ret) return true; const Node &n = nd(b);
      switch (n.k) { case K::Glob: return true; case K::Fresh: return n.p && isa<Argument>((const Value *)n.p); case K::Load: case K::Off: case K::Var: b = n.a; break; default: return false; } } return false; }
  // place of the symbol b, reached over values that were there on entry (and, for places, still are)
  bool pathOf(Sym b, Path &p, State *S, int depth = 0) { const Node &n = nd(b);
    if (n.k == K::Fresh && n.p) if (auto *A = dyn_cast<Argument>((const Value *)n.p)) { p = {(int)A->getArgNo(), nullptr, {}, ""}; return true; }
    if (n.k == K::Glob) if (auto *G = dyn_cast<GlobalVariable>((const Value *)n.p)) { p = {-1, G, {}, ""}; return true; }
    if (S) { if (depth > 3) return false; for (auto &m : S->mem) if (m.second.v == b && m.second.w == 64 && m.first.base != b && pathOf(m.first.base, p, S, depth + 1)) { p.steps.push_back({m.first.off, m.second.c}); return true; } return false; }
    if (n.k == K::Load && n.w == 64) { if (!pathOf(n.a, p, S) || p.steps.size() > 1) return false; auto c = cls.find(b); if (c == cls.end()) return false; p.steps.push_back({n.n, c->second}); return true; }
    return false; }
  std::map<Sym, FieldClass> cls;
  void onLoad(const LoadInst *I, Sym p, Sym v, State &S) override { if (nd(v).k == K::Load) cls[v] = classOfAccess(I);
    for (auto *SI : sw) { const Value *c = SI->getCondition(); if (auto *Z = dyn_cast<CastInst>(c)) c = Z->getOperand(0); if (c == I && nd(v).k == K::Load) cond[SI->getCondition()] = v; } }
  Sym follow(const Path &p, const CallBase *CB, State &S, size_t n) { Sym b; if (p.g) b = E->T.get({K::Glob, 0, 64, p.g, 0, 0, 0}); else { if ((unsigned)p.arg >= CB->arg_size()) return 0; b = E->eval(CB->getArgOperand(p.arg), S); }
    for (size_t i = 0; i < n && b; ++i) { int64_t c; if (E->single(b, S, c)) return 0; b = E->load(E->T.off(b, p.steps[i].first), 64, p.steps[i].second, S, CB); if (b && nd(b).k == K::Load) cls[b] = p.steps[i].second; } return b; }
  std::string name(const Path &p, int64_t off) { std::string r = p.g ? p.g->getName().str() : "argument " + std::to_string(p.arg + 1); for (auto &x : p.steps) r = "(" + r + "+" + std::to_string(x.first) + ")"; return r + "+" + std::to_string(off); }
  // a function that only answers a pointer variable of the library
  static GlobalVariable *getter(const Function *F) { if (F->isDeclaration() || !F->getReturnType()->isPointerTy()) return nullptr; GlobalVariable *G = nullptr;
    for (auto &BB : *F) for (auto &I : BB) { if (isa<DbgInfoIntrinsic>(I)) continue; if (auto *L = dyn_cast<LoadInst>(&I)) { auto *g = const_cast<GlobalVariable *>(dyn_cast<GlobalVariable>(L->getPointerOperand())); if (!g || G || !L->getType()->isPointerTy()) return nullptr; G = g; } else if (!isa<ReturnInst>(I) || F->size() != 1) return nullptr; }
    return G; }
  bool elem(Sym s) { for (int i = 0; i < 60; ++i) { const Node &n = nd(s); if (n.k == K::Var) return true; if (n.k != K::Load && n.k != K::Off) return false; s = n.a; } return false; }
  void release(const CallBase *CB, Sym x, State &S, const std::string &how) {
    int64_t v; if (E->single(x, S, v)) return; // NULL or a constant
    Sym r = root(x); if (nd(r).k == K::None) return;
    R.count["releases"]++; if (S.obj.count(r)) { R.add("double:" + srcName(F) + ":" + how, locOf(CB), "memory is released a second time (first at " + site[r] + ")" + (Z->C.opt.count("dbg") ? E->show(r)+" k"+std::to_string((int)nd(r).k) : std::string()), S.path()); return; }
    if (x != r) return;
    { Path p; if (nd(r).k == K::Load && pathOf(r, p, nullptr)) S.aux.insert(OLD + PT.id(p)); }
    if (elem(r)) for (auto it = S.obj.begin(); it != S.obj.end();) if (elem(it->first)) it = drop(it, S); else ++it; // of the elements of arrays the latest
    S.obj[r] = 1; site[r] = exactLine(CB); S.note(how + " releases at " + exactLine(CB)); }
  void use(const Instruction *I, Sym p, State &S) { if (S.obj.empty()) return; Sym r = root(p); if (S.obj.count(r)) R.add("use:" + srcName(F), locOf(I), "memory is used after having been released at " + site[r], S.path()); }
  void onDeref(const Instruction *I, Sym p, State &S, bool) override { R.count["accesses_checked"]++; use(I, p, S); }
  bool under(Sym s, Sym x) { for (int i = 0; i < 60 && s; ++i) { if (s == x) return true; const Node &n = nd(s); if (n.k != K::Load && n.k != K::Off && n.k != K::Var) return false; s = n.a; } return false; }
  // a function with one pointer argument that writes pointers only into what it reaches from there
  bool onlyThroughArg(const Function *F) { static std::map<const Function *, bool> memo; auto it = memo.find(F); if (it != memo.end()) return it->second; unsigned np = 0; for (auto &A : F->args()) if (A.getType()->isPointerTy()) ++np;
    std::function<bool(const Value *, int)> fromArg = [&](const Value *V, int d) -> bool { if (d > 30) return false; V = getUnderlyingObject(V, 20); if (isa<Argument>(V) || isa<AllocaInst>(V)) return true; if (auto *L = dyn_cast<LoadInst>(V)) return fromArg(L->getPointerOperand(), d + 1); if (auto *Ph = dyn_cast<PHINode>(V)) { for (auto &x : Ph->incoming_values()) { if (isa<ConstantPointerNull>(x) || x == Ph) continue; const Value *u = getUnderlyingObject(x, 20); if (u == Ph) continue; if (!isa<Argument>(u) && !(isa<LoadInst>(u) && d < 4 && fromArg(u, d + 8))) return false; } return true; } return false; };
    auto one = [&](const Function *G) { for (auto &B : *G) for (auto &I : B) if (auto *St = dyn_cast<StoreInst>(&I)) if (St->getValueOperand()->getType()->isPointerTy() && !isa<GlobalVariable>(St->getPointerOperand()) && !fromArg(St->getPointerOperand(), 0)) return false; return true; };
    bool ok = np == 1 && !F->isDeclaration() && one(F); auto r = Z->C.P.reach.find(F); if (ok && r != Z->C.P.reach.end()) for (auto *G : r->second) if (!G->isDeclaration() && G != F && srcName(G) != "ilSetError" && !primFree(srcName(G)) && !one(G)) ok = false;
    return memo[F] = ok; }
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override {
    if (n == "ilSetError") { CallOut o; o.S = S; outs.push_back(o); return true; }
    if (primFree(n)) { CallOut o; o.S = S; R.items["release_sites"].insert(locOf(CB)); release(CB, E->eval(CB->getArgOperand(0), S), o.S, n); outs.push_back(o); return true; }
    if (isa<MemIntrinsic>(CB)) { for (unsigned i = 0; i < (isa<MemTransferInst>(CB) ? 2u : 1u); ++i) use(CB, E->eval(CB->getArgOperand(i), S), S); return false; }
    auto T = targetsOf(Z->C, CB); if (T.empty()) { if (n == "*iread" || n == "*iwrite") use(CB, E->eval(CB->getArgOperand(0), S), S); return false; }
    if (auto *G = T.size() == 1 ? getter(T[0]) : nullptr) { CallOut co; co.S = S; co.retSet = true; co.ret = E->load(E->T.get({K::Glob, 0, 64, G, 0, 0, 0}), 64, FieldClass{G, -1}, co.S, CB); if (co.ret && nd(co.ret).k == K::Load) cls[co.ret] = FieldClass{G, -1}; outs.push_back(co); return true; }
    std::set<Outcome> all; for (auto *F2 : T) { auto &o = Z->get(F2, 0); all.insert(o.begin(), o.end()); }
    std::set<int> freed; for (auto &o : all) for (auto &f : o.flag) freed.insert(f.first);
    for (unsigned i = 0; i < CB->arg_size(); ++i) if (CB->getArgOperand(i)->getType()->isPointerTy() && !freed.count(100 + i)) { Sym a = E->eval(CB->getArgOperand(i), S); Sym r = root(a); if (S.obj.count(r)) R.add("use:" + srcName(F) + ":" + n, locOf(CB), "memory released at " + site[r] + " is passed on", S.path()); }
    State B = S; Sym ret = 0; E->defaultCall(CB, B, ret);
    if (auto *G = Z->C.P.gv("iCurImage")) { bool keep = true; for (auto *F2 : T) if (F2->isDeclaration() || !keepsImage(Z->C, F2)) keep = false; if (keep) { Sym g = E->eval(G, B); auto it = S.mem.find({g, 0}); if (it != S.mem.end()) B.mem[{g, 0}] = it->second; } } // the selection is left alone (P12)
    for (auto &o : all) {
      CallOut co; co.S = B; if (!Summarizer::apply(*E, CB, o, co)) continue;
      // what the callee releases it does not put elsewhere: the places that refer to it still do
      for (auto &f : o.flag) if (f.first >= 100 && f.first < 200 && (unsigned)f.first - 100 < CB->arg_size() && T.size() == 1 && onlyThroughArg(T[0])) { Sym x = E->eval(CB->getArgOperand(f.first - 100), S); int64_t c; if (x && x == root(x) && !E->single(x, S, c)) for (auto &m : S.mem) if (m.second.v == x && !under(m.first.base, x) && (!co.S.mem.count(m.first) || (B.mem.count(m.first) && B.mem[m.first].v == co.S.mem[m.first].v))) co.S.mem[m.first] = m.second; }
      for (auto &f : o.flag) if (f.first >= 100 && f.first < 200 && (unsigned)f.first - 100 < CB->arg_size()) release(CB, E->eval(CB->getArgOperand(f.first - 100), S), co.S, n);
      for (auto &f : o.flag) if (f.first >= OLD && f.first < DANGLE) { auto &p = PT.v[f.first - OLD]; Sym x = follow(p, CB, S, p.steps.size()); if (x && x == root(x) && !E->isNull(x, co.S) && nd(x).k != K::Const && !co.S.obj.count(x)) { bool rewr = false; if (follow(p, CB, co.S, p.steps.size()) == x) for (auto *F2 : T) { auto m = Z->C.P.mod.find(F2); if (m != Z->C.P.mod.end() && m->second.count(p.steps.back().second)) rewr = true; } if (rewr) continue; // the same name for the new value
        Path q; if (nd(x).k == K::Load && pathOf(x, q, nullptr)) co.S.aux.insert(OLD + PT.id(q)); co.S.obj[x] = 1; site[x] = exactLine(CB); } }
      for (auto &f : o.flag) if (f.first >= DANGLE) { auto &p = PT.v[f.first - DANGLE]; Sym b = follow(p, CB, co.S, p.steps.size() - 1); if (!b) continue; Sym x = E->T.get({K::Misc, 9, 64, CB, 0, 0, f.first}); E->store(E->T.off(b, p.steps.back().first), x, 64, p.steps.back().second, co.S, CB); co.S.obj[x] = 1; site[x] = p.from + " in " + n; co.S.note(n + " leaves a stale pointer at " + exactLine(CB)); }
      outs.push_back(co);
    }
    if (all.empty()) { bool rec = false; for (auto *F2 : T) if (Z->active.count({F2, 0})) rec = true; if (rec) { CallOut co; co.S = B; outs.push_back(co); } }
    return true;
  }
  void onKill(State &S) override {
    part(S); // forget blocks nothing refers to any more
    for (auto it = S.obj.begin(); it != S.obj.end();) { Sym x = it->first; bool ref = nd(x).k == K::Fresh && nd(x).p && isa<Argument>((const Value *)nd(x).p);
      if (!ref) for (auto &e : S.env) if (root(e.second) == x) { ref = true; break; }
      unsigned held = 0; for (auto &m : S.mem) if (root(m.second.v) == x && !S.obj.count(root(m.first.base))) { ref = true; ++held; }
      if (held > 2) ref = false; // elements of an array under release
      if (ref) ++it; else it = drop(it, S); }
    // links of a chain under release: forget the far ones
    auto depth = [&](Sym x) { int d = 0; while (nd(x).k == K::Load || nd(x).k == K::Off || nd(x).k == K::Var) { if (nd(x).k == K::Load) ++d; x = nd(x).a; } return d; };
    for (auto it = S.obj.begin(); it != S.obj.end();) if (depth(it->first) > 3) it = drop(it, S); else ++it;
    while (S.obj.size() > 4) drop(std::prev(S.obj.end()), S); }
  std::map<Sym, int>::iterator drop(std::map<Sym, int>::iterator it, State &S) { for (auto m = S.mem.begin(); m != S.mem.end();) if (root(m->first.base) == it->first) m = S.mem.erase(m); else ++m; return S.obj.erase(it); }
  void onRet(const ReturnInst *I, State &S, Sym v) override {
    auto o = Summarizer::outcome(*E, S, I, v); o.flag.clear(); for (int f : S.aux) o.flag[f] = 1; R.count["exits_checked"]++;
    for (auto &x : S.obj) { const Node &n = nd(x.first);
      if (n.k == K::Fresh && n.p) if (auto *A = dyn_cast<Argument>((const Value *)n.p)) { o.flag[REL + A->getArgNo()] = 1; }
      if (v && root(v) == x.first) R.add("returns:" + srcName(F), fileOf(F) + "(" + srcName(F) + ")", "returns memory released at " + site[x.first], S.path());
      for (auto &m : S.mem) if (root(m.second.v) == x.first && !E->isNull(m.second.v, S)) {
        Path p; bool has = pathOf(m.first.base, p, &S); if (!has && !lasting(m.first.base, S, v ? root(v) : 0)) continue; if (!top && has) { p.steps.push_back({m.first.off, m.second.c}); p.from = site[x.first]; p.from = p.from.substr(0, p.from.find(" in ")); o.flag[DANGLE + PT.id(p)] = 1; } else { std::string pl = has ? name(p, m.first.off) : E->show(m.first.base) + "+" + std::to_string(m.first.off); if (pl == "iluCurImage+0") continue; // set anew when an operation begins (P38)
        std::string st = site[x.first]; if (said.insert(pl + "|" + st.substr(0, st.find(" in "))).second) R.add("dangling:" + pl, fileOf(F) + "(" + srcName(F) + ")", "after " + srcName(F) + " " + pl + " still refers to memory released at " + site[x.first], S.path()); }} }
    if (srcName(F)[0] == '~') o.flag.clear(); // the object is gone
    // one outcome per class of result: what may have been released
    for (auto it = outs.begin(); it != outs.end(); ++it) if (it->cls == o.cls && it->val == o.val) { Outcome q = *it; q.flag.insert(o.flag.begin(), o.flag.end()); outs.erase(it); outs.insert(q); return; }
    outs.insert(o); }
};
std::set<std::string> FreeProp::said;
struct FreeSumm : Summarizer { Paths PT; SummProp *mk(const Function *F) { auto *p = new FreeProp(C.R, PT); auto it = C.P.callers.find(F); p->top = C.isApi(F) || C.addrTaken.count(F) || it == C.P.callers.end() || it->second.empty(); if (srcName(F)[0] == '~') p->top = false; return p; }
  // functions that first clear a structure they are given (or fail before) and only allocate
  std::map<const Function *, bool> ini; bool inlines(const Function *G) override { auto it = ini.find(G); if (it != ini.end()) return it->second; bool clr = false, other = false; unsigned n = 0;
    for (auto &B : *G) for (auto &I : B) { ++n; if (auto *MS = dyn_cast<MemSetInst>(&I)) { auto *L = dyn_cast<ConstantInt>(MS->getLength()); if (L && L->getZExtValue() >= 32 && isa<Argument>(argOf(MS->getDest()))) clr = true; } else if (auto *CB = dyn_cast<CallBase>(&I)) if (!isa<IntrinsicInst>(CB)) { auto nm = calleeName(CB); if (nm != "ialloc" && nm != "icalloc" && nm != "ilSetError" && nm != "ilGetBpcType") other = true; } }
    return ini[G] = clr && !other && n < 400; }
  static const Value *argOf(const Value *V) { if (auto *L = dyn_cast<LoadInst>(V)) if (auto *A = dyn_cast<AllocaInst>(L->getPointerOperand())) for (auto *U : A->users()) if (auto *S = dyn_cast<StoreInst>(U)) if (isa<Argument>(S->getValueOperand())) return S->getValueOperand(); return V; }
  FreeSumm(Ctx &C) : Summarizer(C) {} SummProp *make(const Function *F, int ctx) override { return mk(F); } };
CHECK(released) {
  FreeSumm Z(C);
  for (auto &F : *C.P.M) if (!F.isDeclaration() && inDevIL(&F)) { auto &o = Z.get(&F, 0); C.R.count["functions"]++; if (C.opt.count("dbg") && C.opt["dbg"] == srcName(&F)) for (auto &x : o) { errs() << "OUT " << srcName(&F) << " cls " << x.cls; for (auto &f : x.flag) errs() << " " << f.first; errs() << "\n"; } }
}
}
