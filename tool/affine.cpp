#include "check.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Scalar/LoopUnrollPass.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
using namespace llvm;
namespace dv {
// Loops over constant tables are read entry by entry.
void unrollTables(Function *F) {
  { DominatorTree DT(*F); LoopInfo LI(DT); bool table = false; // only loops that look into a constant table
    for (auto *L : LI.getLoopsInPreorder()) for (auto *B : L->blocks()) for (auto &I : *B) if (auto *Ld = dyn_cast<LoadInst>(&I)) if (auto *G = dyn_cast<GlobalVariable>(getUnderlyingObject(Ld->getPointerOperand(), 20))) if (G->isConstant() && G->hasInitializer()) table = true;
    if (!table) return; }
  static bool once = false; if (!once) { const char *a[] = {"dvan", "-unroll-threshold=40000", "-unroll-full-max-count=300"}; cl::ParseCommandLineOptions(3, a); once = true; }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  FunctionPassManager PM; PM.addPass(LoopSimplifyPass()); PM.addPass(LCSSAPass()); LoopUnrollOptions o(3); o.setPartial(false).setRuntime(false).setPeeling(false).setUpperBound(false); PM.addPass(LoopUnrollPass(o)); PM.addPass(SCCPPass());
  PM.run(*F, FAM); FAM.clear();
}
// Loops read in terms of the number of rounds made: scalars whose address never
// escapes live in registers, and whatever grows by a constant each round becomes
// start + constant * round.
void affine(Prog &P, Function *F) {
  Module &M = *P.M; auto &DL = M.getDataLayout();
  // globals that are only loaded and stored
  std::map<GlobalVariable *, std::vector<Instruction *>> acc;
  for (auto &I : instructions(*F)) { Value *p = nullptr; if (auto *L = dyn_cast<LoadInst>(&I)) p = L->getPointerOperand(); else if (auto *S = dyn_cast<StoreInst>(&I)) p = S->getPointerOperand(); if (auto *G = dyn_cast_or_null<GlobalVariable>(p)) if (G->getValueType()->isIntegerTy() && !G->isConstant()) acc[G].push_back(&I); }
  std::vector<AllocaInst *> al;
  for (auto &a : acc) { auto *G = a.first; bool ok = false; for (auto *I : a.second) ok |= isa<StoreInst>(I); 
    for (auto *U : G->users()) { if (auto *L = dyn_cast<LoadInst>(U)) ok = ok && L->getType() == G->getValueType(); else if (auto *S = dyn_cast<StoreInst>(U)) ok = ok && S->getPointerOperand() == G && S->getValueOperand()->getType() == G->getValueType(); else ok = false; }
    if (!ok) continue;
    std::vector<CallBase *> calls; std::vector<ReturnInst *> rets; for (auto &I : instructions(*F)) { if (auto *R = dyn_cast<ReturnInst>(&I)) rets.push_back(R); if (auto *CB = dyn_cast<CallBase>(&I)) if (!isa<IntrinsicInst>(CB)) calls.push_back(CB); }
    IRBuilder<> B(&*F->getEntryBlock().getFirstInsertionPt()); auto *A = B.CreateAlloca(G->getValueType()); B.CreateStore(B.CreateLoad(G->getValueType(), G), A); al.push_back(A);
    for (auto *I : a.second) { if (auto *L = dyn_cast<LoadInst>(I)) L->setOperand(0, A); else cast<StoreInst>(I)->setOperand(1, A); }
    auto *T = G->getValueType(); auto flush = [&](Instruction *at) { IRBuilder<> X(at); X.CreateStore(X.CreateLoad(T, A), G); };
    for (auto *R : rets) flush(R);
    for (auto *CB : calls) { bool mod = !CB->getCalledFunction(); if (auto *H = CB->getCalledFunction()) { auto m = P.mod.find(H); if (m != P.mod.end()) for (auto &c : m->second) if (c.p == G || c.raw()) mod = true; } flush(CB); if (mod) { IRBuilder<> X(CB->getNextNode()); X.CreateStore(X.CreateLoad(T, G), A); } } }
  { DominatorTree DT(*F); if (!al.empty()) PromoteMemToReg(al, DT); }
  DominatorTree DT(*F); LoopInfo LI(DT);
  for (auto *L : LI.getLoopsInPreorder()) { BasicBlock *H = L->getHeader(), *Pre = L->getLoopPredecessor(), *La = L->getLoopLatch(); if (!Pre || !La) continue;
    struct IV { PHINode *P; Value *start; int64_t step; bool ptr; }; std::vector<IV> ivs;
    for (auto &Ph : H->phis()) { Value *n = Ph.getIncomingValueForBlock(La); IV v{&Ph, Ph.getIncomingValueForBlock(Pre), 0, false};
      if (auto *BO = dyn_cast<BinaryOperator>(n)) { auto *K = dyn_cast<ConstantInt>(BO->getOperand(1)); if (BO->getOperand(0) == &Ph && K && K->getBitWidth() <= 64 && (BO->getOpcode() == Instruction::Add || BO->getOpcode() == Instruction::Sub)) v.step = BO->getOpcode() == Instruction::Add ? K->getSExtValue() : -K->getSExtValue(); }
      else if (auto *GE = dyn_cast<GetElementPtrInst>(n)) { APInt o(64, 0); if (GE->getPointerOperand() == &Ph && GE->accumulateConstantOffset(DL, o)) v.step = o.getSExtValue(), v.ptr = true; }
      if (v.step) ivs.push_back(v); }
    if (ivs.size() < 2) continue;
    auto *I64 = Type::getInt64Ty(F->getContext()); auto *k = PHINode::Create(I64, 2, "round", &*H->begin()); IRBuilder<> N(La->getTerminator()); k->addIncoming(ConstantInt::get(I64, 0), Pre); k->addIncoming(N.CreateAdd(k, ConstantInt::get(I64, 1)), La);
    IRBuilder<> B(&*H->getFirstInsertionPt());
    for (auto &v : ivs) { Value *x; bool one = v.step == 1 || v.step == -1;
      if (v.ptr) { Value *o = one && v.step > 0 ? (Value *)k : B.CreateMul(k, ConstantInt::get(I64, v.step)); x = B.CreateGEP(Type::getInt8Ty(F->getContext()), v.start, o); }
      else { Value *o = B.CreateZExtOrTrunc(k, v.P->getType()); auto *Z = dyn_cast<Constant>(v.start); bool zero = Z && Z->isNullValue(); if (v.step == 1 && zero) x = o; else if (v.step == 1) x = B.CreateAdd(v.start, o); else if (v.step == -1) x = B.CreateSub(v.start, o); else x = B.CreateAdd(v.start, B.CreateMul(o, ConstantInt::get(v.P->getType(), v.step, true))); }
      v.P->replaceAllUsesWith(x); v.P->eraseFromParent(); } }
}
}
