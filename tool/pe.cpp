#include "pe.h"
#include "llvm/IR/InstIterator.h"
using namespace llvm;
namespace dv {
namespace {
struct Prp : Prop {
  Ctx &C; const PESpec &sp; Namer N; PEResult R; std::vector<PEOut> tab; bool top;
  std::map<Sym, std::string> made; // allocated blocks -> what was copied into them
  Prp(Ctx &C, const PESpec &s, bool top) : C(C), sp(s), N(C), top(top) { tab.push_back({}); }
  int intern(const PEOut &o) { for (unsigned i = 0; i < tab.size(); ++i) if (!(tab[i] < o) && !(o < tab[i])) return i; tab.push_back(o); return tab.size() - 1; }
  PEOut cur(State &S) { return tab[S.flag[1]]; }
  void set(State &S, const PEOut &o) { S.flag[1] = intern(o); }
  bool local(Sym p) { Sym r = rootOf(E->T, p); auto &n = E->T[r]; return n.k == K::Fresh && n.p && isa<AllocaInst>((const Value *)n.p); }
  void onEntry(State &S) override { N.E = E; for (auto &a : sp.args) if (a.first < E->F.arg_size()) { auto *A = E->F.getArg(a.first); unsigned w = A->getType()->isPointerTy() ? 64 : A->getType()->getIntegerBitWidth(); S.env[A] = E->T.cst(w == 64 ? a.second : (int64_t)((uint64_t)a.second & ((1ull << w) - 1)), w); } S.flag[1] = 0; }
  void onLoad(const LoadInst *I, Sym p, Sym v, State &S) override {
    N.sawLoad(I, p, v);
    if (E->T[v].k == K::Fresh && !local(p)) { std::string nm = N.place(p, classOfAccess(I), S); auto it = N.fixed.find(v); if (it == N.fixed.end()) N.fixed[v] = nm; else if (it->second != nm) it->second = "?"; } // memory the store does not track
    if (sp.place.empty() && sp.nonnull.empty() && sp.atMost.empty()) return; if (E->T[v].k != K::Load) return;
    std::string n = N.leaf(v, S); unsigned w = E->T[v].w; if (!w || w > 64 || w == 63) return;
    auto it = sp.place.find(n); if (it != sp.place.end()) E->assumeRange(v, ConstantRange(APInt(w, it->second)), S);
    auto hi = sp.atMost.find(n); if (hi != sp.atMost.end()) E->assumeRange(v, ConstantRange::getNonEmpty(APInt(w, 0), APInt(w, hi->second + 1)), S);
    if (sp.nonnull.count(n)) E->assumeRange(v, ConstantRange(APInt(w, 0)).inverse(), S); }
  std::string val(Sym v, State &S) { auto it = made.find(v); if (it != made.end() && !it->second.empty()) return it->second; return N.str(v, S); }
  void put(const std::string &pl, const std::string &v, State &S, Sym vs = 0) { auto o = cur(S); if (pl == v) o.eff.erase(pl); else o.eff[pl] = v; set(S, o); if (vs) { auto rg = E->range(vs, S); auto it = R.stored.find(pl); if (it == R.stored.end()) R.stored.insert({pl, rg}); else it->second = it->second.unionWith(rg); }
    if (sp.param >= 0) { for (auto &A : E->F.args()) if ((int)A.getArgNo() == sp.param) R.accepted[pl].push_back({E->range(E->eval(&A, S), S), v}); } }
  void onStore(const StoreInst *I, Sym p, Sym v, State &S) override {
    if (local(p)) return; put(N.place(p, classOfAccess(I), S), val(v, S), S, v); }
  static bool alloc(const std::string &n) { return n == "ialloc" || n == "icalloc" || n == "*ialloc_ptr" || n == "malloc" || n == "calloc"; }
  static void leaves(Type *T, int64_t off, int64_t len, int64_t base, const DataLayout &DL, std::vector<std::pair<int64_t, FieldClass>> &out, std::vector<unsigned> &w, FieldClass c = {}) {
    if (auto *ST = dyn_cast<StructType>(T)) { auto *L = DL.getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); ++i) leaves(ST->getElementType(i), off, len, base + L->getElementOffset(i), DL, out, w, FieldClass{ST, (int)i}); }
    else if (auto *AT = dyn_cast<ArrayType>(T)) { if (AT->getElementType()->isIntegerTy(8)) return; int64_t es = DL.getTypeAllocSize(AT->getElementType()); for (uint64_t i = 0; i < AT->getNumElements() && i < 64; ++i) if (base + (int64_t)i * es < off + len && base + (int64_t)(i + 1) * es > off) leaves(AT->getElementType(), off, len, base + i * es, DL, out, w, c); }
    else if (base >= off && base < off + len) { out.push_back({base - off, c}); w.push_back(DL.getTypeSizeInBits(T)); } }
  // what a pointer into a global points at: the whole object and the offset in it, or an element of unknown index
  static Type *objType(const Node &n) { auto *G = dyn_cast_or_null<GlobalVariable>((const Value *)n.p); return G ? G->getValueType() : nullptr; }
  void objAt(Sym d, Type *&T, int64_t &o) { auto [b, off] = E->T.split(d); o = off; if (E->T[b].k == K::Glob) return; if (auto *A = dyn_cast<ArrayType>(T)) T = A->getElementType(); }
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override {
    if (n == "ilSetError") { auto o = cur(S); int64_t c = 1; E->single(E->eval(CB->getArgOperand(0), S), S, c); if (!o.err) o.err = c ? c : 0; CallOut k; k.S = S; set(k.S, o); outs.push_back(k); return true; }
    if (alloc(n)) { Sym r = E->T.fresh(CB, 64); CallOut k; k.S = S; k.retSet = true; k.ret = r; made[r]; k.S.facts.insert_or_assign(r, ConstantRange(APInt(64, 0)).inverse()); outs.push_back(k);
      if (sp.failAlloc) { CallOut b; b.S = S; b.retSet = true; b.ret = E->T.cst(0, 64); outs.push_back(b); } return true; }
    if (n == "ifree" || n == "*ifree_ptr" || n == "free") { CallOut k; k.S = S; auto o = cur(S); o.calls.push_back("free(" + val(E->eval(CB->getArgOperand(0), S), S) + ")"); std::sort(o.calls.begin(), o.calls.end()); set(k.S, o); outs.push_back(k); return true; }
    auto *F2 = CB->getCalledFunction();
    if (n == "strlen" || n == "ilCharStrLen") { CallOut k; k.S = S; k.retSet = true; unsigned w = CB->getType()->getIntegerBitWidth(); Sym a = E->eval(CB->getArgOperand(0), S); k.ret = E->T.get({K::Misc, 7, (uint16_t)w, nullptr, a, 0, 7}); N.fixed[k.ret] = "len(" + val(a, S) + ")"; outs.push_back(k); return true; }
    auto copy = [&](Sym d, Sym s) { auto it = made.find(E->T.split(d).first); if (it != made.end()) it->second = "copy(" + N.str(s, S) + ")"; };
    if (auto *MT = dyn_cast<MemTransferInst>(CB)) {
      Sym d = E->eval(MT->getDest(), S), s = E->eval(MT->getSource(), S); copy(d, s); int64_t L; if (!E->single(E->eval(MT->getLength(), S), S, L)) { Sym r = rootOf(E->T, d); if (E->T[r].k == K::Glob) put(N.base(d, S) + ".*", "?", S); return false; }
      Sym r = rootOf(E->T, d), rs = rootOf(E->T, s); if (E->T[r].k != K::Glob) return false; Type *T = objType(E->T[r]); if (!T) return false; int64_t to = 0; objAt(d, T, to);
      std::vector<std::pair<int64_t, FieldClass>> lv; std::vector<unsigned> ws; leaves(T, to, L, 0, C.P.M->getDataLayout(), lv, ws); auto o = cur(S); std::vector<std::pair<std::string, std::string>> pv;
      for (unsigned i = 0; i < lv.size(); ++i) { Sym v = E->load(E->T.off(s, lv[i].first), ws[i], lv[i].second, S, CB); if (E->T[v].k == K::Load && !N.cls.count(v)) N.cls[v] = lv[i].second; pv.push_back({N.place(E->T.off(d, lv[i].first), lv[i].second, S), val(v, S)}); }
      for (auto &x : pv) put(x.first, x.second, S); (void)rs; return false; }
    if (auto *MS = dyn_cast<MemSetInst>(CB)) { Sym d = E->eval(MS->getDest(), S); Sym r = rootOf(E->T, d); int64_t L, v; if (E->T[r].k != K::Glob) return false; Type *T = objType(E->T[r]); if (!T || !E->single(E->eval(MS->getLength(), S), S, L) || !E->single(E->eval(MS->getValue(), S), S, v)) { put(N.base(d, S) + ".*", "?", S); return false; }
      int64_t to = 0; objAt(d, T, to); std::vector<std::pair<int64_t, FieldClass>> lv; std::vector<unsigned> ws; leaves(T, to, L, 0, C.P.M->getDataLayout(), lv, ws); for (unsigned i = 0; i < lv.size(); ++i) put(N.place(E->T.off(d, lv[i].first), lv[i].second, S), v ? "?" : "0", S); return false; }
    if (n == "strcpy" || n == "strncpy" || n == "memcpy") copy(E->eval(CB->getArgOperand(0), S), E->eval(CB->getArgOperand(1), S));
    if (n == "strdup") { Sym r = E->T.fresh(CB, 64); CallOut k; k.S = S; k.retSet = true; k.ret = r; made[r] = "strdup(" + val(E->eval(CB->getArgOperand(0), S), S) + ")"; k.S.facts.insert_or_assign(r, ConstantRange(APInt(64, 0)).inverse()); outs.push_back(k); return true; }
    if (F2 && !F2->isDeclaration() && F2->getReturnType()->isPointerTy() && CB->arg_size() && CB->getArgOperand(0)->getType()->isPointerTy()) { std::string k = copies(C, F2); if (!k.empty()) {
      Sym r = E->T.fresh(CB, 64); CallOut o; o.S = S; o.retSet = true; o.ret = r; made[r] = k + "(" + val(E->eval(CB->getArgOperand(0), S), S); if (k == "clip" && CB->arg_size() > 1) made[r] += "," + N.str(E->eval(CB->getArgOperand(1), S), S); made[r] += ")"; outs.push_back(o); return true; } }
    if (sp.keep.count(n) || (F2 && F2->isDeclaration() && !F2->isIntrinsic())) { CallOut k; k.S = S; Sym r = 0; std::string d = n + "("; for (unsigned i = 0; i < CB->arg_size(); ++i) d += (i ? "," : "") + val(E->eval(CB->getArgOperand(i), S), S); d += ")"; E->defaultCall(CB, k.S, r); auto o = cur(S); if (sp.keep.count(n)) o.calls.push_back(d); set(k.S, o); if (r) { k.retSet = true; k.ret = r; N.fixed[r] = d; } outs.push_back(k); return true; }
    return false;
  }
  void onRet(const ReturnInst *I, State &S, Sym v) override { PEOut o = cur(S); o.ret = I->getReturnValue() ? val(v, S) : "void"; o.where = locOf(I); R.outs.insert(o); }
};
}
PEResult peRun(Ctx &C, Function *F, const PESpec &s) {
  Prp p(C, s, true);
  auto was = C.prepare; C.prepare = unrollTables;
  bool ok = runOn(C, F, p, [&](const Function *G) { if (G->isDeclaration() || G->getInstructionCount() > 1500) return false; std::string n = srcName(G); return n != "ilSetError" && !Prp::alloc(n) && n != "ifree" && n != "ilCharStrLen" && !s.keep.count(n) && copies(C, const_cast<Function *>(G)).empty() && fileOf(G).find("/src-I") != std::string::npos; },
    [](Function *, Engine &E) { E.K = 64; });
  C.prepare = was; p.R.complete = ok; C.R.count["partial_evaluations"]++; return p.R;
}
std::string copies(Ctx &C, Function *F) {
  static std::map<Function *, std::string> memo; auto it = memo.find(F); if (it != memo.end()) return it->second; memo[F] = "";
  if (F->isDeclaration() || F->arg_size() < 1 || F->arg_size() > 2 || !F->getReturnType()->isPointerTy() || !F->getArg(0)->getType()->isPointerTy() || F->getInstructionCount() > 120) return "";
  bool al = false; for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) { auto n = calleeName(CB); if (Prp::alloc(n)) al = true; } if (!al) return "";
  PESpec s; Prp p(C, s, false); int64_t n = C.R.count["roots"]; runOn(C, F, p, [](const Function *) { return false; }, [](Function *, Engine &E) { E.K = 64; }); C.R.count["roots"] = n;
  bool any = false; for (auto &o : p.R.outs) { if (o.ret == "0") continue; if (o.ret != "copy(arg0)" || !o.err == 0 || !o.eff.empty()) { bool own = true; for (auto &e : o.eff) if (e.first.find("ialloc()") != 0) own = false; if (o.ret != "copy(arg0)" || o.err || !own) return ""; } any = true; }
  if (!any) return ""; return memo[F] = F->arg_size() == 2 ? "clip" : "dup";
}
}
