#include "engine.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IR/Metadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
using namespace llvm;
namespace dv {

std::string srcName(const Function *F) {
  if (auto *SP = F->getSubprogram()) { if (!SP->getName().empty()) return SP->getName().str(); }
  std::string n = F->getName().str();
  return n;
}
std::string fileOf(const Function *F) {
  if (auto *SP = F->getSubprogram()) {
    std::string f = SP->getFilename().str();
    auto p = f.find("DevIL/"); if (p != std::string::npos) { auto q = f.rfind("DevIL/src-"); return q!=std::string::npos? f.substr(q): f.substr(p); }
    return f;
  }
  return "?";
}
static std::string shortFile(StringRef f) {
  auto p = f.rfind('/'); return (p == StringRef::npos ? f : f.substr(p + 1)).str();
}
std::string locOf(const Instruction *I) {
  if (const DILocation *L = I->getDebugLoc()) {
    auto *SP = L->getScope()->getSubprogram();
    return shortFile(L->getFilename()) + ":" + std::to_string(L->getLine()) + (SP ? "(" + SP->getName().str() + ")" : "");
  }
  return srcName(I->getFunction()) + ":?";
}
std::string fnOfInst(const Instruction *I) {
  if (const DILocation *L = I->getDebugLoc()) if (auto *SP = L->getScope()->getSubprogram()) return SP->getName().str();
  return srcName(I->getFunction());
}
std::string exactLine(const Instruction *I) {
  if (const DILocation *L = I->getDebugLoc()) return shortFile(L->getFilename()) + ":" + std::to_string(L->getLine());
  return "?";
}
std::string calleeName(const CallBase *CB) {
  const Value *V = CB->getCalledOperand()->stripPointerCasts();
  if (auto *F = dyn_cast<Function>(V)) return srcName(F);
  if (auto *LI = dyn_cast<LoadInst>(V)) if (auto *G = dyn_cast<GlobalVariable>(LI->getPointerOperand()->stripPointerCasts())) {
    return "*" + G->getName().str();
  }
  return "*?";
}
Function *Prog::fn(const std::string &n) const {
  auto it = byName.find(n); if (it == byName.end()) return nullptr;
  for (auto *F : it->second) if (!F->isDeclaration()) return F;
  return it->second.empty() ? nullptr : it->second[0];
}
GlobalVariable *Prog::gv(const std::string &n) const {
  if (auto *g = M->getGlobalVariable(n, true)) return g;
  // C++ static/global: look for debug name
  for (auto &G : M->globals()) {
    SmallVector<DIGlobalVariableExpression *, 1> GVs; G.getDebugInfo(GVs);
    for (auto *e : GVs) if (e->getVariable()->getName() == n) return &G;
  }
  return nullptr;
}

FieldClass classOfPtr(const Value *Ptr) {
  while (auto *C = dyn_cast<BitCastOperator>(Ptr)) Ptr = C->getOperand(0); // not stripPointerCasts: that drops zero-index GEPs
  if (auto *G = dyn_cast<GlobalVariable>(Ptr)) {
    if (auto *ST = dyn_cast<StructType>(G->getValueType())) return {ST, 0};
    return {G, -1};
  }
  if (auto *GEP = dyn_cast<GEPOperator>(Ptr)) {
    // walk to innermost struct indexing
    Type *T = GEP->getSourceElementType();
    FieldClass c;
    bool first = true;
    for (auto it = GEP->idx_begin(); it != GEP->idx_end(); ++it) {
      if (first) { first = false; continue; }
      if (auto *ST = dyn_cast<StructType>(T)) {
        unsigned i = cast<ConstantInt>(*it)->getZExtValue();
        c = {ST, (int)i}; T = ST->getElementType(i);
      } else if (auto *AT = dyn_cast<ArrayType>(T)) T = AT->getElementType();
      else if (auto *VT = dyn_cast<VectorType>(T)) T = VT->getElementType();
    }
    if (!c.raw()) return c;
    // pointer into an array of structs, element 0 field 0, or raw
    if (auto *ST = dyn_cast<StructType>(T)) return {ST, 0};
    const Value *B = GEP->getPointerOperand()->stripPointerCasts();
    if (auto *G = dyn_cast<GlobalVariable>(B)) return {G, -1};
    if (isa<GEPOperator>(B)) return classOfPtr(B);
    return {};
  }
  return {};
}

// the class of an access is recorded before simplification folds zero-index GEPs
void markAccesses(Module &M) {
  LLVMContext &X = M.getContext();
  for (auto &F : M) for (auto &I : instructions(F)) { const Value *p = getLoadStorePointerOperand(&I); if (!p) continue;
    if (isa<AllocaInst>(getUnderlyingObject(p))) continue;
    FieldClass c = classOfPtr(p); if (c.raw() || c.idx < 0) continue;
    auto *ST = const_cast<StructType *>((const StructType *)c.p); if (!ST->isSized()) continue;
    I.setMetadata("dvc", MDNode::get(X, {ConstantAsMetadata::get(UndefValue::get(ST)), ConstantAsMetadata::get(ConstantInt::get(Type::getInt32Ty(X), c.idx))})); }
}
FieldClass classOfAccess(const Instruction *I) {
  if (auto *N = I->getMetadata("dvc")) return {cast<ConstantAsMetadata>(N->getOperand(0))->getValue()->getType(), (int)cast<ConstantInt>(cast<ConstantAsMetadata>(N->getOperand(1))->getValue())->getZExtValue()};
  return classOfPtr(getLoadStorePointerOperand(I));
}
static void addStructFields(std::set<FieldClass> &s, StructType *ST) {
  for (unsigned i = 0; i < ST->getNumElements(); ++i) {
    s.insert({ST, (int)i});
    Type *T = ST->getElementType(i);
    while (auto *AT = dyn_cast<ArrayType>(T)) T = AT->getElementType();
    if (auto *S2 = dyn_cast<StructType>(T)) addStructFields(s, S2);
  }
}

void Prog::build() {
  const DataLayout &DL = M->getDataLayout();
  byName.clear(); mod.clear(); callees.clear(); callers.clear(); reach.clear();
  for (auto &F : *M) byName[srcName(&F)].push_back(&F);
  // functions stored into global function pointers / arrays
  std::map<const GlobalVariable *, std::set<Function *>> ptrTargets;
  for (auto &G : M->globals()) if (G.hasInitializer())
    if (auto *F = dyn_cast<Function>(G.getInitializer()->stripPointerCasts())) ptrTargets[&G].insert(F);
  for (auto &F : *M) for (auto &I : instructions(F)) if (auto *SI = dyn_cast<StoreInst>(&I))
    if (auto *T = dyn_cast<Function>(SI->getValueOperand()->stripPointerCasts()))
      if (auto *G = dyn_cast<GlobalVariable>(SI->getPointerOperand()->stripPointerCasts())) ptrTargets[G].insert(T);
  std::vector<StructType *> structs = M->getIdentifiedStructTypes();
  // own: classes stored to through pointers that may lead to objects existing before the function runs;
  // byParam: the same, through a parameter.  Stores into objects the function itself allocates change nothing its caller can see.
  std::map<const Function *, std::set<FieldClass>> own;
  std::map<const Function *, std::map<unsigned, std::set<FieldClass>>> byParam;
  givesFresh.clear();
  auto isFreshCall = [&](const Value *v) { auto *CB = dyn_cast<CallBase>(v); if (!CB) return false; auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
    return C && givesFresh.count(C); };
  for (const char *n : {"ialloc", "icalloc", "malloc", "calloc"}) { for (auto *f : byName[n]) givesFresh.insert(f); }
  auto bases = [&](const Value *p) { SmallVector<const Value *, 4> o; getUnderlyingObjects(p, o, nullptr, 0); return o; };
  for (bool go = true; go;) { go = false;
    for (auto &F : *M) { if (F.isDeclaration() || givesFresh.count(&F) || !F.getReturnType()->isPointerTy()) continue;
      bool all = true, any = false;
      for (auto &B : F) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) for (auto *o : bases(R->getReturnValue())) { if (isa<ConstantPointerNull>(o)) continue; if (isFreshCall(o)) any = true; else all = false; }
      if (all && any) { givesFresh.insert(&F); go = true; } } }
  auto note = [&](const Function *F, const Value *p, const FieldClass &c) { bool ch = false;
    for (auto *o : bases(p)) { if (isa<AllocaInst>(o) || isa<ConstantPointerNull>(o) || isFreshCall(o)) continue;
      if (auto *A = dyn_cast<Argument>(o)) ch |= byParam[F][A->getArgNo()].insert(c).second; else ch |= own[F].insert(c).second; }
    return ch; };
  std::vector<std::pair<const CallBase *, const Function *>> calls;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    for (auto &I : instructions(F)) {
      if (auto *SI = dyn_cast<StoreInst>(&I)) {
        const Value *p = SI->getPointerOperand();
        const Value *u = getUnderlyingObject(p);
        if (isa<AllocaInst>(u)) continue;
        note(&F, p, classOfAccess(SI));
      } else if (auto *MI = dyn_cast<MemIntrinsic>(&I)) {
        const Value *d = MI->getDest()->stripPointerCasts();
        const Value *u = getUnderlyingObject(d);
        if (isa<AllocaInst>(u)) continue;
        bool hit = false;
        if (auto *G = dyn_cast<GlobalVariable>(u)) {
          Type *T = G->getValueType(); while (auto *AT = dyn_cast<ArrayType>(T)) T = AT->getElementType();
          if (auto *ST = dyn_cast<StructType>(T)) addStructFields(own[&F], ST); else own[&F].insert({G, -1});
          hit = true;
        }
        if (!hit) {
          if (auto *C = dyn_cast<ConstantInt>(MI->getLength()))
            for (auto *ST : structs) if (ST->isSized() && DL.getTypeAllocSize(ST) == C->getZExtValue()) { std::set<FieldClass> fs; addStructFields(fs, ST); for (auto &c : fs) note(&F, d, c); hit = true; }
          note(&F, d, classOfPtr(d));
        }
      } else if (auto *CB = dyn_cast<CallBase>(&I)) {
        const Value *V = CB->getCalledOperand()->stripPointerCasts();
        if (auto *C = dyn_cast<Function>(V)) { callees[&F].insert(C); calls.push_back({CB, C}); }
        else if (auto *LI = dyn_cast<LoadInst>(V))
          if (auto *G = dyn_cast<GlobalVariable>(LI->getPointerOperand()->stripPointerCasts()))
            for (auto *t : ptrTargets[G]) { callees[&F].insert(t); calls.push_back({CB, t}); }
      }
    }
  }
  for (bool go = true; go;) { go = false;
    for (auto &[CB, C] : calls) { auto it = byParam.find(C); if (it == byParam.end()) continue; auto pm = it->second; // a copy: C may be F
      for (auto &[i, cs] : pm) if (i < CB->arg_size()) for (auto &c : cs) go |= note(CB->getFunction(), CB->getArgOperand(i), c); } }
  for (auto &F : *M) {
    std::set<const Function *> seen; std::vector<const Function *> wl{&F};
    while (!wl.empty()) { auto *f = wl.back(); wl.pop_back();
      auto it = callees.find(f); if (it == callees.end()) continue;
      for (auto *c : it->second) if (seen.insert(c).second) wl.push_back(c); }
    reach[&F] = seen;
    auto &m = mod[&F]; m = own[&F];
    for (auto *c : seen) m.insert(own[c].begin(), own[c].end());
    for (auto &kv : byParam[&F]) m.insert(kv.second.begin(), kv.second.end());
    for (auto *c : callees[&F]) callers[c].insert(&F);
  }
  // paramMod: param (or pointer derived from it) stored through / passed on
  bool ch = true;
  for (auto &F : *M) if (F.isDeclaration())
    for (auto &A : F.args()) if (A.getType()->isPointerTy() && !A.onlyReadsMemory()) {
      std::string n = F.getName().str();
      static const std::set<std::string> ro = {"strlen","strcmp","strncmp","strcasecmp","strncasecmp","memcmp","fopen","fwrite","atoi","atof","strdup","fputs","printf","fprintf"};
      if (!ro.count(n) && !(A.getArgNo() > 0 && (n == "strcpy" || n == "strcat" || n=="strncpy"))) paramMod[&F].insert(A.getArgNo());
    }
  while (ch) {
    ch = false;
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      for (auto &A : F.args()) {
        if (!A.getType()->isPointerTy() || paramMod[&F].count(A.getArgNo())) continue;
        std::set<const Value *> seen; std::vector<const Value *> wl{&A}; bool m = false;
        while (!wl.empty() && !m) {
          const Value *v = wl.back(); wl.pop_back();
          if (!seen.insert(v).second) continue;
          for (auto *U : v->users()) {
            if (isa<GetElementPtrInst>(U) || isa<CastInst>(U) || isa<PHINode>(U) || isa<SelectInst>(U)) wl.push_back(U);
            else if (auto *SI = dyn_cast<StoreInst>(U)) { m = true; (void)SI; }
            else if (auto *CB = dyn_cast<CallBase>(U)) {
              const Function *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
              for (unsigned i = 0; i < CB->arg_size(); ++i) if (CB->getArgOperand(i) == v) {
                if (auto *MT = dyn_cast<MemTransferInst>(CB)) { if (MT->getRawDest() == v) m = true; }
                else if (isa<DbgInfoIntrinsic>(CB)) {}
                else if (!C) m = true;
                else if (C->isVarArg() && i >= C->arg_size()) { if (C->getName() != "fprintf" && C->getName() != "printf") m = true; }
                else if (paramMod[C].count(i)) m = true;
              }
            }
          }
        }
        if (m) { paramMod[&F].insert(A.getArgNo()); ch = true; }
      }
    }
  }
}

void cleanup(Function *F, bool sccp) {
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  FunctionPassManager FPM;
  FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
  FPM.addPass(PromotePass());
  if (sccp) { FPM.addPass(SCCPPass()); }
  FPM.addPass(InstSimplifyPass());
  FPM.addPass(DCEPass());
  FPM.run(*F, FAM);
  removeUnreachableBlocks(*F);
  // fold single-entry phis
  for (auto &BB : *F) { if (BB.getSinglePredecessor()) FoldSingleEntryPHINodes(&BB); for (auto it = BB.begin(); it != BB.end();) { Instruction *I=&*it++; if (auto*P=dyn_cast<PHINode>(I)) if (Value*v=P->hasConstantValue()) { if(v!=P){P->replaceAllUsesWith(v); P->eraseFromParent();} } } }
}

Function *flatten(Prog &P, Function *F, const std::function<bool(const Function *)> &want, InlineStats *st, unsigned maxInsts) {
  ValueToValueMapTy VM;
  Function *C = CloneFunction(F, VM);
  C->setName(F->getName() + ".flat");
  struct Site { CallBase *CB; std::vector<const Function *> hist; };
  std::vector<Site> wl;
  auto collect = [&](Function *G, const std::vector<const Function *> &h) {
    for (auto &I : instructions(G)) if (auto *CB = dyn_cast<CallBase>(&I)) wl.push_back({CB, h});
  };
  collect(C, {F});
  unsigned total = C->getInstructionCount();
  while (!wl.empty()) {
    Site s = wl.back(); wl.pop_back();
    auto *callee = dyn_cast<Function>(s.CB->getCalledOperand()->stripPointerCasts());
    if (!callee || callee->isDeclaration() || callee->isVarArg() || !want(callee)) continue;
    if (std::find(s.hist.begin(), s.hist.end(), callee) != s.hist.end() || total + callee->getInstructionCount() > maxInsts) { if (st) st->blocked++; continue; }
    if (callee->getFunctionType() != s.CB->getFunctionType()) { if (st) st->blocked++; continue; }
    InlineFunctionInfo IFI;
    unsigned n = callee->getInstructionCount();
    auto R = InlineFunction(*s.CB, IFI);
    if (!R.isSuccess()) { if (st) st->blocked++; continue; }
    total += n; if (st) st->sites++;
    auto h = s.hist; h.push_back(callee);
    for (auto *CB : IFI.InlinedCallSites) wl.push_back({CB, h});
  }
  cleanup(C);
  return C;
}
} // namespace dv
