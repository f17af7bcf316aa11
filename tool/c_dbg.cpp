// Development aids: `dbg` shows what a function returns on each path, `mods` what each function may change.
#include "check.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Analysis/ValueTracking.h"
using namespace llvm;
namespace dv {
struct Dbg : Prop { void onRet(const ReturnInst *I, State &S, Sym v) override { errs() << "RET " << exactLine(I) << " " << E->show(v) << "\n"; } };
CHECK(dbg) { Function *F = C.P.fn(C.opt["fn"]); Dbg p; runOn(C, F, p, [&](const Function *) { return false; }); if (C.opt.count("dump")) errs() << *F; }
CHECK(mods) { Function *F = C.P.fn(C.opt["fn"]); auto show = [&](const Function *G) { auto m = C.P.mod.find(G); errs() << G->getName() << ":"; if (m != C.P.mod.end()) for (auto &c : m->second) if (c.idx >= 0) errs() << " " << ((const StructType *)c.p)->getName() << "." << c.idx; else if (c.p) errs() << " " << ((const GlobalVariable *)c.p)->getName();  errs() << "\n"; };
  show(F); for (auto &B : *F) for (auto &I : B) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = CB->getCalledFunction()) { errs() << "  "; show(G); } }
}
namespace dv {
CHECK(savemods) { std::set<const Function *> rs; for (auto &F : *C.P.M) { std::string n = srcName(&F); if (!F.isDeclaration() && n.rfind("iSave", 0) == 0 && n.size() > 8 && n.substr(n.size() - 8) == "Internal") { rs.insert(&F); for (auto *g : C.P.reach[&F]) rs.insert(g); } }
  for (auto *F : rs) for (auto &B : *F) for (auto &I : B) if (auto *SI = dyn_cast<StoreInst>(&I)) { auto c = classOfAccess(SI); const Value *u = getUnderlyingObject(SI->getPointerOperand()); if (isa<AllocaInst>(u)) continue; if (c.p && c.idx >= 0) { auto nm = ((const StructType *)c.p)->getName(); if (nm.contains("ILimage") || nm.contains("ILpal")) errs() << "ST " << exactLine(SI) << " " << srcName(F) << " " << nm << "." << c.idx << "\n"; } } }
}
