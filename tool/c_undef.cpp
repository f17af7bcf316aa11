#include "summ.h"
#include "llvm/IR/InstIterator.h"
using namespace llvm;
namespace dv {
// P42: nothing is decided, stored, passed on or answered from a local variable that was given no value on the path taken.
// main.cpp lets every local variable start as the result of dv.uninit.*
struct UninitProp : Prop {
  Ctx &C; const Function *F; UninitProp(Ctx &C, const Function *F) : C(C), F(F) {}
  std::map<Sym, const CallBase *> none; bool keyOffsets() const override { return false; }
  Sym find(Sym s, int d = 0) { if (!s || d > 8) return 0; if (none.count(s)) return s; const Node n = E->T[s]; switch (n.k) { case K::Bin: case K::Cmp: case K::Var: case K::Sel: { Sym r = n.a ? find(n.a, d + 1) : 0; return r ? r : n.b ? find(n.b, d + 1) : 0; } case K::Cast: case K::Not: case K::Off: return find(n.a, d + 1); default: return 0; } }
  void use(const Instruction *I, Sym v, const char *how, State &S) { if (Sym s = find(v)) C.R.add("uninit:" + srcName(F) + ":" + how, exactLine(I), std::string(how) + " a local variable that was given no value on this path", S.path()); }
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override { if (isa<DbgInfoIntrinsic>(CB)) return false;
    if (CB->getCalledFunction() && CB->getCalledFunction()->getName().starts_with("dv.uninit.")) { C.R.count["variables"]++; CallOut o; o.S = S; unsigned w = CB->getType()->isPointerTy() ? 64 : CB->getType()->isIntegerTy() ? CB->getType()->getIntegerBitWidth() : 63; Sym r = E->T.fresh(CB, w, 77); none[r] = CB; o.retSet = true; o.ret = r; outs.push_back(o); return true; }
    for (auto &a : CB->args()) { C.R.count["values_checked"]++; use(CB, E->eval(a.get(), S), "passes on", S); } return false; }
  void onStore(const StoreInst *I, Sym p, Sym v, State &S) override { C.R.count["values_checked"]++; use(I, v, "stores", S); use(I, p, "writes through", S); }
  void onLoad(const LoadInst *I, Sym p, Sym v, State &S) override { C.R.count["values_checked"]++; use(I, p, "reads through", S); }
  // states in which different variables are without a value are kept apart
  std::map<Sym, int> num; void onKill(State &S) override { S.flag.clear(); if (none.empty()) return; for (auto &e : S.env) { auto it = none.find(e.second); if (it != none.end()) S.flag[num.emplace(e.second, (int)num.size()).first->second] = 1; } }
  void onBranch(const BranchInst *I, State &S, bool) override { C.R.count["values_checked"]++; use(I, E->eval(I->getCondition(), S), "decides by", S); }
  void onRet(const ReturnInst *I, State &S, Sym v) override { if (v) { C.R.count["values_checked"]++; use(I, v, "returns", S); } }
};
CHECK(uninit) { for (auto &F : *C.P.M) { if (F.isDeclaration() || fileOf(&F).find("/src-I") == std::string::npos) continue; C.R.items["functions"].insert(srcName(&F)); UninitProp p(C, &F); runOn(C, const_cast<Function *>(&F), p, [](const Function *) { return false; }, [](Function *, Engine &E) { E.K = 24; }); } }
}
