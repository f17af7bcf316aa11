#include "summ.h"
#include "llvm/IR/InstIterator.h"
using namespace llvm;
namespace dv {
std::vector<Function *> targetsOf(Ctx &C, const CallBase *CB) {
  std::vector<Function *> r;
  const Value *V = CB->getCalledOperand()->stripPointerCasts();
  if (auto *F = dyn_cast<Function>(V)) { if (!F->isDeclaration()) r.push_back(const_cast<Function *>(F)); return r; }
  if (auto *LI = dyn_cast<LoadInst>(V)) if (auto *G = dyn_cast<GlobalVariable>(LI->getPointerOperand()->stripPointerCasts()))
    for (auto *U : G->users()) if (auto *SI = dyn_cast<StoreInst>(U)) if (auto *F2 = dyn_cast<Function>(SI->getValueOperand()->stripPointerCasts()))
      if (!F2->isDeclaration() && std::find(r.begin(), r.end(), F2) == r.end()) r.push_back(const_cast<Function *>(F2));
  return r;
}
// ctx 1: no image is bound at entry.  flags: 1 = error recorded, 2 = current image may have changed
struct NullSumm;
struct NullProp : SummProp {
  Report &R; GlobalVariable *Cur;
  NullProp(Report &R, GlobalVariable *Cur) : R(R), Cur(Cur) {}
  Sym curPtr(State &S) { return E->eval(Cur, S); }
  bool curNull(State &S) { Sym v = E->load(curPtr(S), 64, FieldClass{Cur, -1}, S, nullptr); return v && E->isNull(v, S); }
  void onEntry(State &S) override {
    unsigned i = 0; for (auto &A : F->args()) { if (i < 24 && (ctx >> (i + 1)) & 1) S.env[&A] = E->T.cst(0, 64); ++i; }
    if (ctx & 1) { E->store(curPtr(S), E->T.cst(0, 64), 64, FieldClass{Cur, -1}, S, nullptr); } }
  std::map<std::string,std::string> *chain = nullptr;
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override {
    if (n == "ilSetError") { S.flag[1] = 1; CallOut o; o.S = S; outs.push_back(o); return true; }
    if (isa<MemIntrinsic>(CB)) { if (!(ctx & 1)) return false;
      R.count["derefs_checked"]++;
      for (unsigned i = 0; i < (isa<MemTransferInst>(CB) ? 2u : 1u); ++i) chk(CB, E->eval(CB->getArgOperand(i), S), S);
      return false; }
    auto T = targetsOf(Z->C, CB); if (T.empty()) return false;
    bool cn = curNull(S); int c2 = cn ? 1 : 0;
    std::set<Outcome> all;
    for (unsigned i = 0; i < CB->arg_size() && i < 24; ++i) if (CB->getArgOperand(i)->getType()->isPointerTy() && E->isNull(E->eval(CB->getArgOperand(i), S), S)) c2 |= 2 << i;
    for (auto *F2 : T) { auto &o = Z->get(F2, c2); all.insert(o.begin(), o.end()); }
    State B = S; Sym ret = 0; E->defaultCall(CB, B, ret);
    for (auto &o : all) {
      CallOut co; co.S = B;
      if (!Summarizer::apply(*E, CB, o, co)) continue;
      if (o.flag.count(1)) co.S.flag[1] = 1;
      if (o.flag.count(2)) co.S.flag[2] = 1;
      if (cn && !o.flag.count(2)) E->store(curPtr(co.S), E->T.cst(0, 64), 64, FieldClass{Cur, -1}, co.S, nullptr);
      outs.push_back(co);
    }
    if (all.empty()) { // recursion in progress, or callee never returns
      bool rec = false; for (auto *F2 : T) if (Z->active.count({F2, c2})) rec = true;
      if (rec) { CallOut co; co.S = B; outs.push_back(co); } 
    }
    return true;
  }
  void chk(const Instruction *I, Sym p, State &S) {
    p = rootOf(E->T, p); int64_t v; if (E->single(p, S, v) && v >= 0 && v < 4096) R.add("null-deref:" + srcName(F), locOf(I), (ctx & 1) ? "dereferences the current image although none is bound" : "dereferences a null pointer", S.path());
  }
  void onDeref(const Instruction *I, Sym p, State &S, bool st) override { if (ctx & 1) { R.count["derefs_checked"]++; chk(I, p, S); } }
  void onStore(const StoreInst *I, Sym p, Sym v, State &S) override {
    if (E->T[p].k == K::Glob && E->T[p].p == Cur) { if (!E->isNull(v, S)) S.flag[2] = 1; } }
  void onRet(const ReturnInst *I, State &S, Sym v) override {
    if ((ctx & 1) && !curNull(S)) S.flag[2] = 1;
    outs.insert(Summarizer::outcome(*E, S, I, v));
  }
};
struct NullSumm : Summarizer {
  GlobalVariable *Cur; NullSumm(Ctx &C, GlobalVariable *g) : Summarizer(C), Cur(g) {}
  SummProp *make(const Function *F, int ctx) override { return new NullProp(C.R, Cur); }
};
CHECK(nullimage) {
  GlobalVariable *Cur = C.P.gv("iCurImage"); if (!Cur) { C.R.broken("current-image variable not found"); return; }
  // functions that (transitively) read the current image
  std::set<const Function *> own; for (auto &F : *C.P.M) for (auto &I : instructions(F)) if (auto *L = dyn_cast<LoadInst>(&I)) if (L->getPointerOperand()->stripPointerCasts() == Cur) own.insert(&F);
  auto set = C.reaching([&](const Function *F) { return own.count(F) != 0; });
  NullSumm Z(C, Cur);
  // calls that do not operate on the current image: state queries/settings, name management, calls that bring their own image
  static const std::set<std::string> exempt = {"ilInit","ilShutDown","ilGetInteger","ilGetIntegerv","ilGetBoolean","ilGetBooleanv","ilSetInteger","ilSetInteger","ilEnable","ilDisable",
    "ilGenImages","ilGenImage","ilDeleteImages","ilDeleteImage","ilBindImage","ilIsImage","ilCompressDXT","iluLoadImage","iluGenImage","iluDeleteImage","ilGetCurName","ilGetCurImage","ilSetCurImage"};
  for (auto &F : *C.P.M) if (!F.isDeclaration() && C.isApi(&F) && set.count(&F)) {
    auto &o = Z.get(&F, 1); std::string s; bool silent = false;
    for (auto &x : o) { s += " " + std::to_string(x.cls) + (x.cls==3? "="+std::to_string(x.val):"") + (x.flag.count(1) ? "e" : "-") + (x.flag.count(2) ? "b" : ""); }
    C.R.count["api_functions"]++; C.R.items["image_functions"].insert(srcName(&F));
    std::string nm = srcName(&F);
    if (!exempt.count(nm)) for (auto &x : o) {
      bool mayUnknown = nm == "ilLoad" || nm == "ilSave" || nm == "ilSaveL" || nm == "ilDetermineSize"; // registered callback / size query
      std::string at = fileOf(&F) + "(" + nm + ")";
      if (!x.flag.count(1)) C.R.add("silent:" + nm, at, "can return without recording an error although no image is bound", x.cls == 4 ? "" : "returns " + (x.cls == 0 ? std::string("0") : x.cls == 3 ? std::to_string(x.val) : "a value"));
      if (x.cls == 3 || x.cls == 1 || (x.cls == 2 && !mayUnknown)) C.R.add("succeeds:" + nm, at, "can return a success value although no image is bound");
      C.R.count["outcomes_checked"]++;
    }
    
  }
  if (C.opt.count("verbose")) for (auto &m : Z.memo) if (m.first.ctx & 1) { std::string s; for (auto &x : m.second) s += " " + std::to_string(x.cls) + (x.cls==3? "="+std::to_string(x.val):"") + (x.flag.count(1) ? "e" : "-") + (x.flag.count(2) ? "b" : ""); C.R.notes.push_back("* " + srcName(m.first.F) + ":" + s); }
}
}
