#include "summ.h"
#include "llvm/IR/InstIterator.h"
using namespace llvm;
namespace dv {
// P39: what an image owns is released before its place is taken by something else, and with the image.
struct ReplacedProp : Prop {
  Ctx &C; const Function *F; std::map<FieldClass, std::string> &own; std::vector<std::pair<int64_t, FieldClass>> offs; bool dtor; std::set<Sym> seen; std::map<FieldClass, Sym> at0; Sym self = 0;
  ReplacedProp(Ctx &C, const Function *F, std::map<FieldClass, std::string> &o, bool d) : C(C), F(F), own(o), dtor(d) {}
  // no colours: there is no palette to own
  FieldRef palP, palN, palT; std::map<Sym, std::set<Sym>> with;
  void beside(Sym p, Sym v, State &S) { if (!palP || !palN || !palT) return; Sym b = E->T.off(p, -palP.off); for (auto *f : {&palN, &palT}) with[v].insert(E->load(E->T.off(b, f->off), f->w, f->cls(), S, nullptr)); }
  bool empty(Sym old, State &S) { int64_t v; for (auto x : with[old]) if (E->single(x, S, v) && (v == 0 || v == 0x400)) return true; return false; }
  void onBranch(const BranchInst *I, State &S, bool) override { for (auto &w : with) if (!S.aux.count(k(w.first)) && empty(w.first, S)) S.aux.insert(k(w.first)); }
  static int k(Sym s) { return 1000 + (int)s; }
  void onEntry(State &S) override { if (dtor) { self = E->eval(E->F.getArg(0), S); for (auto &o : offs) at0[o.second] = E->load(E->T.off(self, o.first), 64, o.second, S, nullptr); for (auto &a : at0) seen.insert(a.second); } }
  void onLoad(const LoadInst *I, Sym p, Sym v, State &S) override { auto c = own.find(classOfAccess(I)); if (c == own.end()) return; seen.insert(v); if (c->second == "palette") beside(p, v, S); }
  void gone(Sym v, State &S) { v = rootOf(E->T, v); if (!seen.count(v)) return; if (dtor) S.flag[k(v)] = 2; else S.aux.insert(k(v)); if (S.flag.count(1) && S.reg[1] == v) { S.flag.erase(1); S.reg.erase(1); } }
  void onStore(const StoreInst *I, Sym p, Sym v, State &S) override {
    if (!I->getValueOperand()->getType()->isPointerTy()) return; auto it = own.find(classOfAccess(I));
    if (it != own.end()) { C.R.count["replacements"]++; Sym old = E->load(p, 64, it->first, S, nullptr); if (old != v && seen.count(old) && !S.flag.count(k(old)) && !S.aux.count(k(old)) && E->T[old].k != K::Const && E->nonNull(old, S) && !(it->second == "palette" && empty(old, S))) { if (!S.flag.count(1)) { int id = 1; for (auto &w : where) if (w.second == I) id = 0; static int next = 0; if (id) { where[++next] = I; what[next] = it->second; } for (auto &w : where) if (w.second == I) S.flag[1] = w.first; S.reg[1] = old; } } }
    gone(v, S); }
  bool keyOffsets() const override { return false; } bool keyRet() const override { return false; }
  std::map<int, const Instruction *> where; std::map<int, std::string> what;
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &) override { if (isa<DbgInfoIntrinsic>(CB)) return false; auto *H = CB->getCalledFunction(); bool lib = H && H->isDeclaration() && (H->isIntrinsic() || n.compare(0, 3, "mem") == 0 || n.compare(0, 3, "str") == 0); if (lib) return false;
    if (dtor && n == "ifree" && E->eval(CB->getArgOperand(0), S) == self) { C.R.count["destructions"]++; for (auto &o : offs) { Sym now = E->load(E->T.off(self, o.first), 64, o.second, S, nullptr), was = at0[o.second]; C.R.count["owned_released"]++; if (now == was && !E->isNull(now, S) && !(S.flag.count(k(was)) && S.flag[k(was)] == 2)) C.R.add("kept:" + srcName(F) + ":" + own[o.second], exactLine(CB), "releases an image without releasing its " + own[o.second], S.path()); } }
    for (auto &a : CB->args()) if (a->getType()->isPointerTy()) gone(E->eval(a.get(), S), S); return false; }
  void onRet(const ReturnInst *I, State &S, Sym v) override { if (v) gone(v, S); if (S.flag.count(1) && !S.aux.count(k(S.reg[1]))) { int s = S.flag[1]; C.R.add("replaced:" + srcName(F) + ":" + what[s], exactLine(where[s]), "puts something else in the place of the " + what[s] + " of an image that is known to be there and is neither released nor kept", S.path()); } }
};
void overwritten(Ctx &C) {
  std::map<FieldClass, std::string> own; std::vector<std::pair<int64_t, FieldClass>> offs; int64_t pal = -1;
  for (auto *m : {"Data", "AnimList", "Profile", "DxtcData", "Mipmaps", "Next", "Faces", "Layers"}) { auto r = fieldOf(C, "ILimage", m); if (!r) { C.R.broken(std::string("ILimage.") + m + " not found"); continue; } own[r.cls()] = m; offs.push_back({r.off, r.cls()}); }
  if (auto r = fieldOf(C, "ILimage", "Pal")) pal = r.off; if (auto r = fieldOf(C, "ILpal", "Palette")) { own[r.cls()] = "palette"; if (pal >= 0) offs.push_back({pal + r.off, r.cls()}); } else C.R.broken("ILpal.Palette not found");
  auto *D = C.P.fn("ilCloseImage"); if (!D) C.R.broken("ilCloseImage not found");
  for (auto &F : *C.P.M) { if (F.isDeclaration() || fileOf(&F).find("/src-I") == std::string::npos) continue; bool has = &F == D; for (auto &I : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&I)) if (own.count(classOfAccess(S))) has = true; if (!has) continue;
    if (C.opt.count("only") && C.opt["only"] != srcName(&F)) continue; C.R.items["replacing_functions"].insert(srcName(&F)); ReplacedProp p(C, &F, own, &F == D); p.offs = offs; p.palP = fieldOf(C, "ILpal", "Palette"); p.palN = fieldOf(C, "ILpal", "PalSize"); p.palT = fieldOf(C, "ILpal", "PalType"); runOn(C, const_cast<Function *>(&F), p, [](const Function *) { return false; }); }
}
CHECK(over) { overwritten(C); }
}
