#include "summ.h"
#include "llvm/IR/InstIterator.h"
using namespace llvm;
namespace dv {
// P39: what a function obtains it releases, returns or hands over on every path.
static bool inDevIL(const Function *F) { std::string f = fileOf(F); return f.find("/src-I") != std::string::npos && f.find("rg_etc1") == std::string::npos; }
static bool primFree(const std::string &n) { static const std::set<std::string> s = {"ifree", "*ifree_ptr", "free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "TIFFClose", "cmsCloseProfile", "cmsDeleteTransform", "gzclose", "fclose"}; return s.count(n); }
static bool primAlloc(const std::string &n) { static const std::set<std::string> s = {"*ialloc_ptr", "malloc", "calloc", "realloc", "strdup", "_Znwm", "_Znam", "TIFFOpen", "TIFFClientOpen", "cmsOpenProfileFromFile", "cmsOpenProfileFromMem", "cmsCreate_sRGBProfile", "cmsCreateTransform", "gzopen", "fopen"}; return s.count(n); }
// library routines that keep no pointer they are given
static bool keepsNothing(const std::string &n) {
  static const std::set<std::string> s = {"strlen", "strcpy", "strncpy", "strcmp", "strncmp", "strcat", "strncat", "strcasecmp", "strncasecmp", "sprintf", "snprintf", "vsprintf", "vsnprintf", "sscanf", "printf", "memcmp", "memcpy", "memset", "memmove", "*iread", "*iwrite", "*igetc", "*iputc", "*ieof", "*iseek", "*itell", "*iseekw", "*itellw", "fread", "fwrite", "fseek", "ftell", "fgetc", "fputc", "feof", "atoi", "atof", "strstr", "qsort", "gzread", "gzwrite", "uncompress", "compress", "compress2", "ilSetError", "iread", "strtol", "strtod", "toupper", "tolower", "puts", "fprintf", "stat", "wcslen", "wcscpy", "mbstowcs", "wcstombs", "jpeg_read_scanlines", "jpeg_write_scanlines", "png_read_row", "png_read_image", "png_write_image", "png_write_row", "strtok", "memchr", "strchr", "strrchr"};
  return s.count(n) || StringRef(n).starts_with("TIFF") || n == "cmsDoTransform" || StringRef(n).starts_with("llvm."); }
// the variables that select an image do not own it
static bool selects(const Value *P) { auto *G = dyn_cast<GlobalVariable>(P->stripPointerCasts()); return G && (G->getName().contains("iCurImage") || G->getName().contains("iluCurImage") || G->getName().contains("ilutCurImage")); }
// a buffer these are given stays the caller's; the claim is checked where they are defined
static int lent(const Function *F) { std::string n = srcName(F); return n == "ilConvertBuffer" ? 6 : n == "iSwitchTypes" ? 3 : n == "ilCopyPixels" || n == "ilSetPixels" ? 8 : -1; }
struct Keep { // parameters that may be stored away or released
  Ctx &C; std::map<const Function *, std::set<unsigned>> keep; 
  static void flow(const Value *V, std::set<const Value *> &out) { std::vector<const Value *> w{V}; while (!w.empty()) { auto *v = w.back(); w.pop_back(); if (!out.insert(v).second) continue; for (auto *U : v->users()) {
      if (isa<CastInst>(U) || isa<GetElementPtrInst>(U) || isa<PHINode>(U) || isa<SelectInst>(U)) w.push_back(U);
      else if (auto *S = dyn_cast<StoreInst>(U)) { if (S->getValueOperand() == v) if (auto *A = dyn_cast<AllocaInst>(S->getPointerOperand())) { bool plain = true; for (auto *X : A->users()) plain = plain && (isa<LoadInst>(X) || isa<StoreInst>(X) || isa<DbgInfoIntrinsic>(X)) ; if (plain) for (auto *X : A->users()) if (isa<LoadInst>(X)) w.push_back(X); } } } } }
  bool slot(const Value *P) { auto *A = dyn_cast<AllocaInst>(P); if (!A) return false; for (auto *X : A->users()) if (!(isa<LoadInst>(X) || isa<DbgInfoIntrinsic>(X) || (isa<StoreInst>(X) && cast<StoreInst>(X)->getPointerOperand() == A))) return false; return true; }
  bool step(const Function *F, unsigned i) { std::set<const Value *> fl; flow(F->getArg(i), fl); for (auto *v : fl) for (auto *U : v->users()) {
      if (auto *S = dyn_cast<StoreInst>(U)) { if (S->getValueOperand() == v && !slot(S->getPointerOperand()) && !selects(S->getPointerOperand())) return true; }
      else if (isa<ReturnInst>(U)) return true;
      else if (auto *CB = dyn_cast<CallBase>(U)) { if (isa<IntrinsicInst>(CB)) continue; std::string n = calleeName(CB); if (primFree(n)) return true; if (keepsNothing(n)) continue; auto T = targetsOf(C, CB); if (T.empty()) return true;
        for (auto *H : T) { if (H->isDeclaration()) return true; for (unsigned k = 0; k < CB->arg_size(); ++k) if (CB->getArgOperand(k) == v && (k >= H->arg_size() || keep[H].count(k))) return true; } } }
    return false; }
  Keep(Ctx &C) : C(C) { for (bool ch = true; ch;) { ch = false; for (auto &F : *C.P.M) if (!F.isDeclaration()) for (unsigned i = 0; i < F.arg_size(); ++i) if (F.getArg(i)->getType()->isPointerTy() && (int)i != lent(&F) && !keep[&F].count(i) && step(&F, i)) { keep[&F].insert(i); ch = true; } } }
  bool may(const CallBase *CB, const std::string &n, const std::vector<Function *> &T, unsigned k) { if (isa<IntrinsicInst>(CB) || keepsNothing(n)) return false; if (T.empty()) return true; for (auto *H : T) if (H->isDeclaration() || k >= H->arg_size() || keep[H].count(k)) return true; return false; }
};
struct LeakProp : SummProp {
  Report &R; Keep &KP; static std::set<std::string> said; std::map<Sym, const CallBase *> site; std::map<Sym, std::string> what;
  LeakProp(Report &R, Keep &K) : R(R), KP(K) {}
  std::map<Sym, Sym> into; // a joined pointer -> the one object it points into
  Sym root(Sym s) { for (int i = 0; i < 8; ++i) { s = rootOf(E->T, s); auto it = into.find(s); if (it == into.end() || !it->second) break; s = it->second; } return s; }
  void onJoin(const State &a, const State &b, State &r, const std::map<Sym, std::pair<Sym, Sym>> &made) override { for (auto &m : made) { Sym x = root(m.second.first), y = root(m.second.second); if (x == m.first) x = y; if (y == m.first) y = x; Sym t = x == y && x != m.first ? x : 0; auto it = into.find(m.first); if (it == into.end()) into[m.first] = t; else if (it->second != t) it->second = 0; } }
  Sym mine = 0; // what the caller lends
  void onEntry(State &S) override { int k = lent(F); if (k >= 0 && k < (int)F->arg_size()) { mine = E->eval(F->getArg(k), S); S.obj[mine] = 5; } }
  bool owned(State &S, Sym r) { return S.obj.count(r); }
  bool isLocal(Sym b) { auto &n = E->T[root(b)]; return n.k == K::Fresh && n.p && isa<AllocaInst>((const Value *)n.p); }
  bool keyOffsets() const override { return false; }
  bool relational() const override { return true; }
  void onRename(const State &B, State &S, const std::map<Sym, Sym> &sub) override { for (auto &m : sub) { Sym r = root(m.first), n = E->T.split(m.second).first; if (r == m.first || n == r || !B.obj.count(r)) continue; auto it = into.find(n); if (it == into.end()) into[n] = r; else if (it->second != r) it->second = 0; } }
  // objects an object's memory refers to
  void drop(State &S, Sym r) { if (!S.obj.erase(r)) return; std::vector<Sym> in; for (auto &m : S.mem) if (root(m.first.base) == r) in.push_back(root(m.second.v)); for (auto x : in) drop(S, x); }
  void dropIn(State &S, Sym r) { std::vector<Sym> in; for (auto &m : S.mem) if (root(m.first.base) == r) in.push_back(root(m.second.v)); for (auto x : in) if (x != r) drop(S, x); }
  std::map<Sym, int> holders(State &S) { std::map<Sym, int> h; if (S.obj.empty()) return h; for (auto &m : S.mem) { Sym r = root(m.second.v); if (S.obj.count(r)) h[r]++; } return h; }
  void lost(State &S, const std::map<Sym, int> &before) { auto now = holders(S); for (auto &b : before) if (now[b.first] < b.second) drop(S, b.first); }
  void leak(State &S, Sym r, const std::string &where, const std::string &how) { std::string k = "leak:" + srcName(F) + ":" + calleeName(site[r]) + ":" + how; R.add(k, locOf(site[r]), "what " + calleeName(site[r]) + " gives at " + exactLine(site[r]) + " is " + (how == "exit" ? "neither released nor handed over when the function ends" : "lost when what refers to it is released"), S.path()); }
  // what the returned object's members own
  static std::vector<FieldClass> &classes() { static std::vector<FieldClass> v; return v; }
  static int classId(const FieldClass &c) { auto &v = classes(); for (size_t i = 0; i < v.size(); ++i) if (v[i] == c) return i; v.push_back(c); return v.size() - 1; }
  void members(const CallBase *CB, const Outcome &o, CallOut &co) { for (auto &f : o.flag) if (f.first >= 100) { Sym x = E->T.fresh(CB, 64, 1000 + f.first); co.S.facts.insert_or_assign(x, ConstantRange(APInt(64, 0)).inverse()); E->store(E->T.off(co.ret, f.first - 100), x, 64, classes()[f.second], co.S, CB); site[x] = CB; co.S.obj[x] = 3; } }
  void obtain(const CallBase *CB, CallOut &co) { site[co.ret] = CB; co.S.obj[co.ret] = 1; R.items["sources"].insert(locOf(CB)); }
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override {
    if (isa<DbgInfoIntrinsic>(CB)) return false;
    if (n == "ilSetError") { CallOut o; o.S = S; outs.push_back(o); return true; }
    State B = S; auto h = holders(S);
    if (primFree(n)) { Sym x = E->eval(CB->getArgOperand(0), B); Sym r = root(x); if (r == mine && r) { R.add("frees:" + srcName(F) + ":" + exactLine(CB), locOf(CB), "releases the buffer its caller lends it", B.path()); B.obj.erase(r); } else if (B.obj.count(r)) { std::vector<Sym> in; for (auto &m : B.mem) if (m.first.base == r) in.push_back(root(m.second.v)); B.obj.erase(r);
        for (auto i : in) if (B.obj.count(i)) { bool other = false; for (auto &m : B.mem) if (root(m.second.v) == i && m.first.base != r) other = true; for (auto &e : B.env) if (root(e.second) == i) other = true; if (!other) leak(B, i, locOf(CB), "release"); else B.obj[i] = 1; if (!other) B.obj.erase(i); } }
      else if (elem.count(r)) dropIn(B, elem[r]); CallOut o; o.S = B; o.S.note("releases at " + exactLine(CB)); outs.push_back(o); return true; }
    auto T = targetsOf(Z->C, CB);
    // what the callee may keep
    if (!isa<IntrinsicInst>(CB)) for (unsigned k = 0; k < CB->arg_size(); ++k) { if (!CB->getArgOperand(k)->getType()->isPointerTy()) continue; Sym r = root(E->eval(CB->getArgOperand(k), B));
      if (n == "realloc" && k == 0) { B.obj.erase(r); continue; }
      if (primAlloc(n) || keepsNothing(n)) continue;
      if (B.obj.count(r)) { if (KP.may(CB, n, T, k)) drop(B, r); else { auto *H = T.size() == 1 ? T[0] : nullptr; bool wr = !H; if (H) { auto pm = Z->C.P.paramMod.find(H); wr = pm != Z->C.P.paramMod.end() && pm->second.count(k); } if (wr) dropIn(B, r); } }
      else if (elem.count(r) && KP.may(CB, n, T, k)) dropIn(B, elem[r]); else if (isLocal(r)) dropIn(B, r); }
    if (primAlloc(n) || T.empty()) { Sym r = 0; E->defaultCall(CB, B, r); lost(B, h); if (!primAlloc(n)) { CallOut o; o.S = B; if (r) o.retSet = true, o.ret = r; if (!isa<MemIntrinsic>(CB)) { outs.push_back(o); return true; } outs.push_back(o); return true; }
      CallOut a; a.S = B; a.retSet = true; a.ret = E->T.cst(0, 64); outs.push_back(a); CallOut b; b.S = B; b.retSet = true; b.ret = E->T.fresh(CB, 64); b.S.facts.insert_or_assign(b.ret, ConstantRange(APInt(64, 0)).inverse()); b.S.note(n + " succeeds at " + exactLine(CB)); obtain(CB, b); outs.push_back(b); return true; }
    std::set<Outcome> all; for (auto *F2 : T) { if (F2->isDeclaration() || !inDevIL(F2)) { all.insert(Outcome{2, 0, {}}); continue; } auto &o = Z->get(F2, 0); all.insert(o.begin(), o.end()); }
    Sym ret = 0; E->defaultCall(CB, B, ret); lost(B, h);
    for (auto &o : all) { CallOut co; co.S = B; if (!Summarizer::apply(*E, CB, o, co)) continue; if (o.flag.count(2) && T.size() == 1 && lent(T[0]) >= 0) { co.retSet = true; co.ret = E->eval(CB->getArgOperand(lent(T[0])), co.S); } if (o.flag.count(1) && co.retSet) { obtain(CB, co); members(CB, o, co); co.S.note(n + " succeeds at " + exactLine(CB)); } outs.push_back(co); }
    if (all.empty()) { bool rec = false; for (auto *F2 : T) if (Z->active.count({F2, 0})) rec = true; if (rec) { CallOut co; co.S = B; if (ret) co.retSet = true, co.ret = ret; outs.push_back(co); } }
    return true; }
  FieldClass Org; std::map<Sym, Sym> elem; // read out of an array at an unknown place
  void onLoad(const LoadInst *I, Sym p, Sym v, State &S) override { if (E->T[E->T.split(p).first].k == K::Var && I->getType()->isPointerTy()) elem[root(v)] = root(p);
    if (Org.p && classOfAccess(I) == Org) E->assumeRange(v, ConstantRange(APInt(E->T[v].w, 0x601), APInt(E->T[v].w, 0x603)), S); } // an image's origin is one of two
  void onStore(const StoreInst *I, Sym p, Sym v, State &S) override { Sym r = root(v); if (!S.obj.count(r)) return; if (selects(I->getPointerOperand())) return; Sym b = E->T.split(p).first; auto &n = E->T[b];
    auto *GE = dyn_cast<GetElementPtrInst>(I->getPointerOperand()->stripPointerCasts()); if (n.k == K::Var || (GE && !GE->hasAllConstantIndices())) { drop(S, r); return; } // an element of an array: not told apart from the others
    if (n.k == K::Fresh && n.p && isa<AllocaInst>((const Value *)n.p)) return; // a local variable or structure
    if (r == mine) return; if (S.obj.count(b) && b != r) { S.obj[r] = 3; return; } // inside something owned
    drop(S, r); }
  // a new block is no other pointer's equal
  // a comparison of two variables made again later is remembered, so that the two answers agree
  static bool alike(const Value *a, const Value *b, int d = 6) { if (a == b) return true; if (!d || a->getType() != b->getType()) return false; auto *x = dyn_cast<Instruction>(a), *y = dyn_cast<Instruction>(b); if (!x || !y || x->getOpcode() != y->getOpcode() || x->getNumOperands() != y->getNumOperands()) return false;
    if (!(isa<LoadInst>(x) || isa<GetElementPtrInst>(x) || isa<CastInst>(x) || isa<ICmpInst>(x))) return false; if (auto *c = dyn_cast<ICmpInst>(x)) if (c->isEquality() != cast<ICmpInst>(y)->isEquality() || (!c->isEquality() && c->getPredicate() != cast<ICmpInst>(y)->getPredicate())) return false;
    for (unsigned i = 0; i < x->getNumOperands(); ++i) if (!alike(x->getOperand(i), y->getOperand(i), d - 1)) return false; return true; }
  std::map<const Value *, int> again; bool counted = false;
  void countConds(const Function *B) { counted = true; std::vector<const ICmpInst *> cs; for (auto &BB : *B) if (auto *T = dyn_cast<BranchInst>(BB.getTerminator())) if (T->isConditional()) if (auto *IC = dyn_cast<ICmpInst>(T->getCondition())) if (!isa<Constant>(IC->getOperand(0)) && !isa<Constant>(IC->getOperand(1))) cs.push_back(IC);
    int id = 1000; for (size_t i = 0; i < cs.size() && id < 1005; ++i) if (!again.count(cs[i])) { bool any = false; for (size_t j = i + 1; j < cs.size(); ++j) if (cs[j] != cs[i] && alike(cs[i], cs[j])) again[cs[j]] = id, any = true; if (any) again[cs[i]] = id++; } }
  void onBranch(const BranchInst *I, State &S, bool taken) override { if (!counted) countConds(I->getFunction()); auto ag = again.find(I->getCondition()); if (ag != again.end()) { auto *c = cast<ICmpInst>(I->getCondition()); S.flag[ag->second] = (c->getPredicate() == CmpInst::ICMP_NE) != taken; } auto *IC = dyn_cast<ICmpInst>(I->getCondition()); if (!IC || !IC->isEquality() || !IC->getOperand(0)->getType()->isPointerTy()) return; bool eq = (IC->getPredicate() == CmpInst::ICMP_EQ) == taken; if (!eq) return;
    Sym a = root(E->eval(IC->getOperand(0), S)), b = root(E->eval(IC->getOperand(1), S)); if (a == b) return; for (auto x : {a, b}) { Sym o = x == a ? b : a; if (S.obj.count(x) && E->T[o].k != K::Join) S.obj.clear(), S.flag[99] = 1; } }
  void onRet(const ReturnInst *I, State &S, Sym v) override {
    auto o = Summarizer::outcome(*E, S, I, v); o.flag.clear(); if (S.flag.count(99)) return; R.count["exits_checked"]++;
    if (v && S.obj.count(root(v))) { if (mine && root(v) == mine) o.flag[2] = 1; else { if (v == root(v)) { o.flag[1] = 1; for (auto &m : S.mem) if (m.first.base == v && m.first.off >= 0 && m.first.off < 100000) { Sym x = root(m.second.v); if (x != v && x == m.second.v && S.obj.count(x) && S.obj[x] == 3) o.flag[100 + m.first.off] = classId(m.second.c); } } drop(S, root(v)); } }
    for (auto &x : S.obj) { if (E->isNull(x.first, S) || x.second == 3 || x.second == 5) continue; leak(S, x.first, exactLine(I), "exit"); if (Z->C.opt.count("dbg")) { errs() << "LEAK " << srcName(F) << " " << E->show(x.first) << "\n"; for (auto &m : S.mem) errs() << "  " << E->show(m.first.base) << "+" << m.first.off << " = " << E->show(m.second.v) << "\n"; for (auto &f : S.facts) errs() << "  fact " << E->show(f.first) << "\n"; } }
    outs.insert(o); }
};
std::set<std::string> LeakProp::said;
struct LeakSumm : Summarizer { Keep KP; LeakSumm(Ctx &C) : Summarizer(C), KP(C) {} SummProp *make(const Function *F, int ctx) override { auto *p = new LeakProp(C.R, KP); p->Org = Org; return p; } FieldClass Org; };
CHECK(leaks) { LeakSumm Z(C); if (C.opt.count("keep")) for (auto &k : Z.KP.keep) for (auto i : k.second) errs() << "KEEP " << srcName(k.first) << " " << i << "\n"; auto *Cur = C.P.gv("iCurImage"); bool busy = false;
  C.P.keeps = [&](const Function *F, const FieldClass &c) { if (c.p != Cur || !Cur || busy || F->isDeclaration()) return false; busy = true; bool k = keepsImage(C, F); busy = false; return k; };
  if (auto r = fieldOf(C, "ILimage", "Origin")) Z.Org = r.cls(); else C.R.broken("ILimage.Origin not found"); for (auto &F : *C.P.M) if (!F.isDeclaration() && inDevIL(&F) && (!C.opt.count("only") || C.opt["only"] == srcName(&F))) { auto &os = Z.get(&F, 0); C.R.count["functions"]++; if (C.opt.count("only")) for (auto &o : os) { errs() << srcName(&F) << " outcome " << o.cls << " " << o.val << " flags"; for (auto &f : o.flag) errs() << " " << f.first << "=" << f.second; errs() << "\n"; } } C.P.keeps = nullptr; }
}
