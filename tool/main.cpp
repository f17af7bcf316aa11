#include "check.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/CommandLine.h"
#include <fstream>
#include <unistd.h>
#include <chrono>
using namespace llvm;
namespace dv {
std::map<std::string, CheckFn> &registry() { static std::map<std::string, CheckFn> r; return r; }
Reg::Reg(const char *n, CheckFn f) { registry()[n] = f; }
std::set<const Function *> Ctx::reaching(const std::function<bool(const Function *)> &isEvent) const {
  std::set<const Function *> r;
  for (auto &F : *P.M) { if (isEvent(&F)) { r.insert(&F); continue; }
    auto it = P.reach.find(&F); if (it == P.reach.end()) continue;
    for (auto *c : it->second) if (isEvent(c)) { r.insert(&F); break; } }
  return r;
}
std::set<const Function *> Ctx::reachingCalls(const std::set<std::string> &names) const {
  std::set<const Function *> own;
  for (auto &F : *P.M) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (names.count(calleeName(CB))) { own.insert(&F); break; }
  return reaching([&](const Function *F) { return own.count(F) != 0; });
}
std::vector<Function *> Ctx::rootsOf(const std::set<const Function *> &s) const {
  std::vector<Function *> r;
  for (auto &F : *P.M) { if (!s.count(&F) || F.isDeclaration()) continue;
    bool called = false; auto it = P.callers.find(&F); if (it != P.callers.end()) for (auto *c : it->second) if (c != &F) called = true;
    if (api.count(srcName(&F)) || (!called)) r.push_back(&F); }
  return r;
}
FieldRef fieldOf(Ctx &C, const std::string &st, const std::string &member) {
  static DebugInfoFinder *DF = nullptr; if (!DF) { DF = new DebugInfoFinder; DF->processModule(*C.P.M); }
  FieldRef r; const DataLayout &DL = C.P.M->getDataLayout();
  for (auto *T : DF->types()) if (auto *CT = dyn_cast<DICompositeType>(T)) if (CT->getName() == st && !CT->isForwardDecl())
    for (auto *E : CT->getElements()) if (auto *D = dyn_cast_or_null<DIDerivedType>(E)) if (D->getName() == member) {
      for (auto *S : C.P.M->getIdentifiedStructTypes()) { std::string n = S->getName().str(); auto p = n.find('.'); if (p != std::string::npos) n = n.substr(p + 1);
        p = n.find('.'); if (p != std::string::npos) n = n.substr(0, p); if (n != st || S->isOpaque()) continue;
        auto *L = DL.getStructLayout(S); uint64_t o = D->getOffsetInBits() / 8; if (o >= L->getSizeInBytes()) continue;
        unsigned i = L->getElementContainingOffset(o); if (L->getElementOffset(i) != o) continue;
        r.ST = S; r.idx = i; r.off = o; r.w = D->getSizeInBits(); Type *ET = S->getElementType(i); if (!r.w) r.w = DL.getTypeSizeInBits(ET); return r; } }
  return r;
}
bool runOn(Ctx &C, Function *Root, Prop &p, const std::function<bool(const Function *)> &want, const std::function<void(Function*, Engine&)> &pre) {
  InlineStats st; Function *Fl = flatten(C.P, Root, want, &st);
  if (C.prepare) C.prepare(Fl);
  bool ok;
  { Engine E(C.P, *Fl, p); if (pre) pre(Fl, E); E.run(); ok = E.complete;
  C.R.count["roots"]++; C.R.count["blocks_analysed"] += E.blocksSeen; C.R.count["abstract_states"] += E.states; C.R.count["call_sites_inlined"] += st.sites; C.R.count["instructions"] += Fl->getInstructionCount();
  if (C.opt.count("verbose")) errs() << srcName(Root) << " insts " << Fl->getInstructionCount() << " steps " << E.steps << " states " << E.states << " blocked " << st.blocked << (ok ? "" : " INCOMPLETE") << "\n"; }
  if (!ok) C.R.count["roots_incomplete"]++;
  if (C.opt.count("dumpflat")) errs() << *Fl;
  Fl->eraseFromParent();
  return ok;
}
}
using namespace dv;
int main(int argc, char **argv) {
  if (argc < 3) { errs() << "usage: dvan all.bc check... [--api file] [--opt k=v]\n"; return 2; }
  LLVMContext LC; SMDiagnostic Err; Ctx C;
  C.P.M = parseIRFile(argv[1], Err, LC);
  if (!C.P.M) { Err.print("dvan", errs()); return 2; }
  std::vector<std::string> checks;
  for (int i = 2; i < argc; ++i) { std::string a = argv[i];
    if (a == "--api") { std::ifstream f(argv[++i]); std::string n; while (f >> n) C.api.insert(n); }
    else if (a == "--opt") { std::string o = argv[++i]; auto p = o.find('='); C.opt[o.substr(0, p)] = p == std::string::npos ? "1" : o.substr(p + 1); }
    else checks.push_back(a); }
  unsigned nf = 0, ni = 0; for (auto &F : *C.P.M) if (!F.isDeclaration()) { nf++; }
  std::vector<Function *> fs; for (auto &F : *C.P.M) if (!F.isDeclaration()) fs.push_back(&F);
  // local variables start out holding a recognisable nothing
  if (std::find(checks.begin(), checks.end(), "uninit") != checks.end()) for (auto *F : fs) { std::vector<AllocaInst *> as; for (auto &I : F->getEntryBlock()) if (auto *A = dyn_cast<AllocaInst>(&I)) if (!A->isArrayAllocation() && (A->getAllocatedType()->isIntegerTy() || A->getAllocatedType()->isFloatingPointTy() || A->getAllocatedType()->isPointerTy()) && isAllocaPromotable(A)) as.push_back(A);
    for (auto *A : as) { auto *T = A->getAllocatedType(); std::string n; raw_string_ostream o(n); o << "dv.uninit." << *T; auto Fn = C.P.M->getOrInsertFunction(o.str(), FunctionType::get(T, false)); IRBuilder<> B(A->getNextNode()); auto *CB = B.CreateCall(Fn); B.CreateStore(CB, A); } }
  // tables that are never written are constant
  for (auto &G : C.P.M->globals()) if (G.hasLocalLinkage() && G.hasInitializer() && !G.isConstant()) { bool ro = true; std::vector<User *> w(G.user_begin(), G.user_end()); while (ro && !w.empty()) { auto *U = w.back(); w.pop_back(); if (isa<LoadInst>(U)) continue; if (isa<GetElementPtrInst>(U) || isa<ConstantExpr>(U)) w.insert(w.end(), U->user_begin(), U->user_end()); else ro = false; } if (ro) G.setConstant(true); }
  // element accessors and the like of library templates: no calls, no branches
  for (auto *F : fs) for (bool again = true; again;) { again = false;
    for (auto &I : instructions(F)) { auto *CB = dyn_cast<CallBase>(&I); auto *G = CB ? CB->getCalledFunction() : nullptr;
      if (!G || G == F || G->isDeclaration() || !G->hasLinkOnceODRLinkage() || G->size() != 1 || G->isVarArg()) continue;
      unsigned n = 0; bool leaf = true; for (auto &J : G->front()) { if (isa<DbgInfoIntrinsic>(J)) continue; n++; if (isa<CallBase>(J)) leaf = false; }
      if (!leaf || n > 16) continue;
      InlineFunctionInfo IFI; if (InlineFunction(*CB, IFI).isSuccess()) { again = true; break; } } }
  // a helper that calls the function it is given: one copy per function it is given
  auto callsParam = [](Function *G, Argument &A) { for (auto *U : A.users()) { auto *S = dyn_cast<StoreInst>(U); auto *Al = S && S->getValueOperand() == &A ? dyn_cast<AllocaInst>(S->getPointerOperand()) : nullptr; if (!Al) continue;
      for (auto *V : Al->users()) if (auto *L = dyn_cast<LoadInst>(V)) for (auto *W : L->users()) if (auto *CB = dyn_cast<CallBase>(W)) if (CB->getCalledOperand() == L) return true; } return false; };
  for (unsigned round = 0; round < 3; ++round) { std::vector<CallBase *> todo; std::map<std::pair<Function *, std::vector<Constant *>>, Function *> made; std::set<Function *> from;
    for (auto *F : fs) for (auto &I : instructions(F)) { auto *CB = dyn_cast<CallBase>(&I); auto *G = CB ? CB->getCalledFunction() : nullptr;
      if (!G || G->isDeclaration() || G->isVarArg() || G->hasLinkOnceODRLinkage() || C.api.count(G->getName().str())) continue;
      for (auto &A : G->args()) if (A.getType()->isPointerTy() && A.getArgNo() < CB->arg_size() && isa<Function>(CB->getArgOperand(A.getArgNo())) && callsParam(G, A)) { todo.push_back(CB); break; } }
    for (auto *CB : todo) { auto *G = CB->getCalledFunction(); std::vector<Constant *> k;
      for (auto &A : G->args()) { auto *T = A.getType()->isPointerTy() ? dyn_cast<Function>(CB->getArgOperand(A.getArgNo())) : nullptr; k.push_back(T && callsParam(G, A) ? T : nullptr); }
      auto &N = made[{G, k}];
      if (!N) { ValueToValueMapTy VM; N = CloneFunction(G, VM); N->setName(G->getName() + ".with." + std::to_string(made.size())); for (unsigned i = 0; i < k.size(); ++i) if (k[i]) N->getArg(i)->replaceAllUsesWith(k[i]); fs.push_back(N); }
      CB->setCalledFunction(N); from.insert(G); }
    for (auto *G : from) if (G->use_empty()) { fs.erase(std::find(fs.begin(), fs.end(), G)); G->eraseFromParent(); }
    if (todo.empty()) break; }
  markAccesses(*C.P.M);
  for (auto *F : fs) { cleanup(F, false); ni += F->getInstructionCount(); }
  C.P.build();
  json::Object out; out["functions"] = nf; out["instructions"] = ni;
  for (auto &c : checks) {
    auto it = registry().find(c); if (it == registry().end()) { errs() << "no check " << c << "\n"; return 2; }
    C.R = Report(); auto t0 = std::chrono::steady_clock::now();
    it->second(C);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    json::Object o; json::Array fa; for (auto &f : C.R.findings) fa.push_back(json::Object{{"key", f.key}, {"where", f.where}, {"what", f.what}, {"path", f.path}});
    json::Object cnt; for (auto &k : C.R.count) cnt[k.first] = k.second;
    json::Object its; for (auto &k : C.R.items) { json::Array a; for (auto &x : k.second) a.push_back(x); its[k.first] = std::move(a); }
    json::Array er; for (auto &e : C.R.errors) er.push_back(e); json::Array no; for (auto &e : C.R.notes) no.push_back(e);
    o["findings"] = std::move(fa); o["count"] = std::move(cnt); o["items"] = std::move(its); o["errors"] = std::move(er); o["notes"] = std::move(no); o["seconds"] = dt;
    out[c] = std::move(o);
  }
  outs() << formatv("{0:2}", json::Value(std::move(out))) << "\n";
  outs().flush(); _exit(0);
}
