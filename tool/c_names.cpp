#include "summ.h"
#include "llvm/IR/InstIterator.h"
using namespace llvm;
namespace dv {
// P40: the table of named images.  Found from what ilBindImage does: the image
// selected is the entry of a global array, the name kept is its argument, and
// a further global bounds the entries in use.
struct Names { GlobalVariable *Tab = nullptr, *Cur = nullptr, *Name = nullptr, *Last = nullptr; };
static GlobalVariable *slotTable(const Value *P) { // the global array of images that P is an element of
  auto *G = dyn_cast<GetElementPtrInst>(P->stripPointerCasts()); const Value *B = G ? G->getPointerOperand()->stripPointerCasts() : P->stripPointerCasts();
  if (auto *L = dyn_cast<LoadInst>(B)) return const_cast<GlobalVariable *>(dyn_cast<GlobalVariable>(L->getPointerOperand()->stripPointerCasts())); return nullptr; }
struct NamesProp : Prop {
  Ctx &C; const Names &N; const std::set<const Function *> &stores; std::string root; NamesProp(Ctx &C, const Names &N, const std::set<const Function *> &s) : C(C), N(N), stores(s) {}
  enum { CUR0, NAME0, GIVEN, FILLED, LAST, CLOSED, SEL, TAB0, TAKEN, TAKENAT };  // registers; flags 1: the selected image may have been closed, 2: a closed image may still be named, 3: something else closed
  int rawReload() const override { return 2; }
  Sym glob(GlobalVariable *G, unsigned w, State &S) { return E->load(E->eval(G, S), w, FieldClass{G, -1}, S, G); }
  void onEntry(State &S) override { E->K = 24; E->maxSteps = 60000; S.reg[CUR0] = glob(N.Cur, 64, S); S.reg[NAME0] = glob(N.Name, 32, S); S.reg[TAB0] = glob(N.Tab, 64, S); }
  bool isTab(Sym r, const State &S) { auto it = S.mem.find(Loc{tabSym(S), 0}); return it != S.mem.end() && it->second.v == r; }
  Sym tabSym(const State &S) { State &T = const_cast<State &>(S); return E->eval(N.Tab, T); }
  Sym strip(Sym s) { for (;;) { auto &n = E->T[s]; if (n.k == K::Cast && n.op == Instruction::ZExt) s = n.a; else return s; } }
  bool slot(Sym p, State &S, Sym &idx) { // the name whose entry p points to
    auto [b, o] = E->T.split(p); Sym t = glob(N.Tab, 64, S); if (rootOf(E->T, b) != t) return false;
    auto n = E->T[b]; if (b == t) { idx = E->T.cst(o / 8, 32); return o % 8 == 0; }
    if (n.k == K::Var && n.n == 8 && n.a == t && o == 0) { idx = strip(n.b); return E->T[idx].w == 32; }
    idx = 0; return true; }
  bool arg(Sym p) { Sym r = rootOf(E->T, E->T.split(p).first); auto &n = E->T[r]; return n.k == K::Fresh && n.p && isa<Argument>((const Value *)n.p); }
  bool same(Sym a, Sym b, State &S) { return a && b && (a == b || E->known(CmpInst::ICMP_EQ, a, b, S)); }
  void bad(const Instruction *I, const std::string &k, const std::string &w, State &S) { C.R.add(k + ":" + fnOfInst(I), exactLine(I), w, S.path()); }
  void onStore(const StoreInst *I, Sym p, Sym v, State &S) override {
    auto &n = E->T[p];
    if (n.k == K::Glob && n.p == N.Cur) { S.flag.erase(1); S.reg.erase(SEL); S.note("selects at " + exactLine(I));
      for (auto &m : S.mem) { Sym ix; if (m.second.w == 64 && slot(E->T.off(m.first.base, m.first.off), S, ix) && ix && same(m.second.v, v, S)) { S.reg[SEL] = ix; if (same(ix, glob(N.Name, 32, S), S)) break; } } return; }
    if (n.k == K::Glob && n.p == N.Last) { Sym l = glob(N.Last, 32, S); auto &x = E->T[v]; if (!E->known(CmpInst::ICMP_ULE, l, v, S) && !(x.k == K::Bin && x.op == Instruction::Add && E->T[x.b].k == K::Const && E->T[x.b].n < 1 << 20 && (x.a == l || E->known(CmpInst::ICMP_ULE, l, x.a, S)))) { S.flag[4] = 1; S.note("counts fewer at " + exactLine(I)); } if (S.reg.count(LAST) && counted(S.reg[LAST], v, S)) S.reg.erase(LAST); return; }
    if (n.k == K::Glob && n.p == N.Tab) { S.flag.erase(2); S.reg.erase(CLOSED); return; }
    if (n.k == K::Glob) return;
    Sym idx = 0; if (slot(p, S, idx) && I->getValueOperand()->getType()->isPointerTy()) {
      C.R.count["entry_stores_checked"]++; Sym old = E->load(p, 64, FieldClass(), S, I); int64_t ov = 0; (void)ov;
      bool closed = S.reg.count(CLOSED) && same(S.reg[CLOSED], old, S);
      Sym last = glob(N.Last, 32, S); bool fresh = idx && E->known(CmpInst::ICMP_ULE, last, idx, S);
      if (C.opt.count("verbose")) errs() << root << " " << exactLine(I) << " idx=" << E->show(idx) << " old=" << E->show(old) << " null " << E->isNull(old, S) << " closed " << closed << " fresh " << fresh << "\n";
      if (!closed && !fresh && !E->isNull(old, S) && !same(old, v, S)) { if (!idx || !E->isNull(v, S) || S.reg.count(TAKEN)) bad(I, "lost", "the image a name stands for can be replaced by another while it is still there: it is lost, and the name's owner finds another image", S); else { S.reg[TAKEN] = old; S.reg[TAKENAT] = idx; } }
      if (closed) { S.reg.erase(CLOSED); if (S.flag[2] != 2) S.flag.erase(2); }
      if (!E->isNull(v, S) && idx) { S.reg[FILLED] = idx; auto &m = E->T[idx]; bool own = m.k == K::Const || (m.k == K::Fresh && m.p && isa<Argument>((const Value *)m.p)) || idx == last || (m.k == K::Load && E->T[m.a].k == K::Glob); if (own && !closed && !counted(idx, last, S)) S.reg[LAST] = idx; }
      if (S.reg.count(SEL) && !same(v, glob(N.Cur, 64, S), S) && !(idx && E->known(CmpInst::ICMP_NE, idx, S.reg[SEL], S))) S.reg.erase(SEL);
      S.note("entry stored at " + exactLine(I)); settle(S); return; }
    if (I->getValueOperand()->getType()->isIntegerTy(32) && arg(p)) { if (E->T[v].k == K::Const) return; if (S.reg.count(GIVEN)) bad(I, "given", "a name is handed out with no new image made for it", S); S.reg[GIVEN] = v; S.note("name given at " + exactLine(I)); settle(S); }
  }
  bool counted(Sym f, Sym last, State &S) { auto &l = E->T[last], &i = E->T[f]; if (E->known(CmpInst::ICMP_ULT, f, last, S)) return true; if (l.k != K::Bin || l.op != Instruction::Add) return false; // last = f + n
    auto split = [&](const Node &n, Sym s) { int64_t k = 0; if (n.k == K::Bin && n.op == Instruction::Add && E->T[n.b].k == K::Const) { k = E->T[n.b].n; s = n.a; } return std::make_pair(s, k); }; auto a = split(l, last), b = split(i, f); return a.first == b.first && a.second > b.second; }
  void settle(State &S) { if (S.reg.count(GIVEN) && S.reg.count(FILLED) && same(S.reg[GIVEN], S.reg[FILLED], S)) { S.reg.erase(GIVEN); S.reg.erase(FILLED); }
    else if (S.reg.count(GIVEN) && S.reg.count(FILLED)) { C.R.add("given:" + root, root, root + " can hand out a name with no new image made for it", S.path()); S.reg.erase(GIVEN); S.reg.erase(FILLED); } }
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override {
    auto *F = CB->getCalledFunction(); if (!F || F->isIntrinsic()) return false;
    if (n == "ilCloseImage") { Sym a = E->eval(CB->getArgOperand(0), S), hit = 0, idx = 0; bool is = false, out = false;
      for (auto &m : S.mem) if (m.second.v == a && m.second.w == 64) { Sym ix; if (slot(E->T.off(m.first.base, m.first.off), S, ix)) { is = true; idx = ix; } }
      (void)hit; if (!is && S.reg.count(TAKEN) && same(a, S.reg[TAKEN], S)) { is = out = true; idx = S.reg[TAKENAT]; S.reg.erase(TAKEN); S.reg.erase(TAKENAT); } C.R.count["closings_checked"]++; S.note("closes at " + exactLine(CB));
      Sym cur = glob(N.Name, 32, S), ci = glob(N.Cur, 64, S);
      if (!E->isNull(a, S) && !(is && idx && E->known(CmpInst::ICMP_NE, idx, cur, S)) && !E->isNull(ci, S)) S.flag[1] = 1;
      if (is && !out) { if (S.flag[2]) { S.flag[2] = 2; S.reg.erase(CLOSED); } else { S.flag[2] = 1; S.reg[CLOSED] = a; } } }
    if (stores.count(F)) return false; // recursion: not kept
    CallOut k; k.S = S; Sym r = 0; Sym t = glob(N.Tab, 64, k.S); std::map<Loc, MemVal> keep;
    if (!changesTab(F)) for (auto &m : k.S.mem) if (m.second.c.raw() && (rootOf(E->T, m.first.base) == t || arg(m.first.base))) keep.insert(m);
    E->defaultCall(CB, k.S, r); for (auto &m : keep) k.S.mem[m.first] = m.second; k.retSet = r; k.ret = r; outs.push_back(k); return true; }
  bool changesTab(const Function *F) { auto &r = C.P.reach[F]; for (auto *G : stores) if (r.count(G)) return true; return false; }
  void onRet(const ReturnInst *I, State &S, Sym) override {
    C.R.count["exits_checked"]++; Sym c = glob(N.Cur, 64, S), n = glob(N.Name, 32, S), last = glob(N.Last, 32, S);
    bool ok = E->isNull(c, S) || (same(c, S.reg[CUR0], S) && same(n, S.reg[NAME0], S));
    if (!ok && S.reg.count(SEL)) ok = same(S.reg[SEL], n, S);
    if (!ok) bad(I, "select", root + " can return with an image selected that is not the current name's " + (C.opt.count("verbose") ? E->show(c) + ", name " + E->show(n) : ""), S);
    if (S.flag.count(1)) bad(I, "dangling", root + " can return with the selected image closed", S);
    if (S.reg.count(TAKEN) && !E->isNull(S.reg[TAKEN], S)) bad(I, "lost", root + " can return with the image of a name dropped from the table but not closed", S);
    if (S.flag.count(2) && S.flag[2]) bad(I, "closed", root + " can return with a closed image still in the table of names", S);
    Sym t = glob(N.Tab, 64, S); bool none = E->isNull(t, S), had = !E->isNull(S.reg[TAB0], S); int64_t lv;
    if (S.flag.count(4) && !none) bad(I, "uncounted", root + " can leave images out of the count of names in use: their names are given to others", S);
    if (none && had && t != S.reg[TAB0] && !(E->single(last, S, lv) && lv == 0)) bad(I, "table", root + " can lose the table of names while images are still in it", S);
    if (S.reg.count(GIVEN)) bad(I, "given", root + " can hand out a name with no new image made for it", S);
    if (S.reg.count(LAST)) { Sym f = S.reg[LAST];
      if (C.opt.count("verbose")) errs() << root << " last " << E->show(last) << " filled " << E->show(f) << "\n";
      if (!counted(f, last, S)) bad(I, "bound", root + " can make an image for a name that is not counted among those in use", S); }
  }
};
CHECK(names) {
  Names N; N.Cur = C.P.gv("iCurImage"); Function *B = C.P.fn("ilBindImage"); if (!N.Cur || !B) { C.R.broken("no ilBindImage/iCurImage"); return; }
  auto inl = [&](const Function *F) { return !F->isDeclaration() && F->hasInternalLinkage(); };
  { InlineStats st; Function *Fl = flatten(C.P, B, inl, &st); std::set<GlobalVariable *> tabs;
    for (auto &I : instructions(Fl)) if (auto *S = dyn_cast<StoreInst>(&I)) { if (S->getPointerOperand()->stripPointerCasts() == N.Cur) { std::vector<const Value *> w{S->getValueOperand()}; std::set<const Value *> seen; while (!w.empty()) { auto *v = w.back(); w.pop_back(); if (!seen.insert(v).second) continue; if (auto *P = dyn_cast<PHINode>(v)) for (auto &x : P->incoming_values()) w.push_back(x); else if (auto *L = dyn_cast<LoadInst>(v)) if (auto *T = slotTable(L->getPointerOperand())) N.Tab = T; } }
      else if (S->getValueOperand() == Fl->getArg(0)) if (auto *G = dyn_cast<GlobalVariable>(S->getPointerOperand()->stripPointerCasts())) N.Name = G; }
    for (auto &I : instructions(Fl)) if (auto *L = dyn_cast<StoreInst>(&I)) if (auto *G = dyn_cast<GlobalVariable>(L->getPointerOperand()->stripPointerCasts())) if (G != N.Name && G != N.Cur && G != N.Tab && G->getValueType()->isIntegerTy(32)) if (auto *A = dyn_cast<BinaryOperator>(L->getValueOperand())) if (A->getOperand(0) == Fl->getArg(0) || A->getOperand(1) == Fl->getArg(0)) N.Last = G;
    Fl->eraseFromParent(); }
  if (!N.Tab || !N.Name || !N.Last) { C.R.broken("the table of names is not recognised"); return; }
  std::set<const Function *> st;
  for (auto &F : *C.P.M) for (auto &I : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&I)) { auto *p = S->getPointerOperand()->stripPointerCasts(); if (p == N.Name || p == N.Tab || p == N.Last || slotTable(p) == N.Tab) st.insert(&F); }
  for (bool ch = true; ch;) { ch = false; for (auto *F : std::set<const Function *>(st)) if (!C.isApi(F)) for (auto *H : C.P.callers[F]) ch |= st.insert(H).second; } // helpers are read in their callers
  for (auto *F : st) { bool helper = !C.isApi(F) && !C.P.callers[F].empty(); if (helper) { C.R.items["helpers"].insert(srcName(F)); continue; }
    C.R.items["functions"].insert(srcName(F)); if (C.opt.count("only") && C.opt["only"] != srcName(F)) continue; if (C.opt.count("verbose")) errs() << "begin " << srcName(F) << "\n"; NamesProp p(C, N, st); p.root = srcName(F); if (!runOn(C, const_cast<Function *>(F), p, [&](const Function *H) { return H != F && st.count(H); })) C.R.count["budget_exhausted"]++; }
}
}
