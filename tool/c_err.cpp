#include "summ.h"
#include "llvm/IR/InstIterator.h"
using namespace llvm;
namespace dv {
struct ErrProp : SummProp {
  std::map<const Function *, std::string> &how();
  Report &R; FieldRef oData; ErrProp(Ctx &C) : R(C.R), oData(fieldOf(C, "ILimage", "Data")) {}
  int rawReload() const override { return 1; }
  void onEntry(State &S) override {
    E->K = 24; unsigned i = 0; for (auto &A : F->args()) { if (i < 12 && A.getType()->isPointerTy()) { if ((ctx >> (i + 1)) & 1) S.env[&A] = E->T.cst(0, 64);
        else if ((ctx >> (i + 13)) & 1) S.facts.insert_or_assign(E->eval(&A, S), ConstantRange(APInt(64, 0)).inverse()); } ++i; }
    if (srcName(F) == "ilCreateSubImage") S.facts.insert_or_assign(E->eval(F->getArg(1), S), ConstantRange(APInt(32, 0)).inverse()); } // none asked for is none created
  void onLoad(const LoadInst *I, Sym q, Sym v, State &S) override { // an image always has its pixels
    if (classOfAccess(I) == oData.cls()) S.facts.insert_or_assign(v, E->range(v, S).intersectWith(ConstantRange(APInt(64, 0)).inverse())); }
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override {
    if (n == "ilSetError") { if (!S.flag.count(1)) { S.flag[1] = 1; } CallOut o; o.S = S; outs.push_back(o); return true; }
    auto T = targetsOf(Z->C, CB);
    if (T.empty() && n.find("GetStorageRequirements") != std::string::npos) { CallOut o; o.S = S; Sym r = 0; E->defaultCall(CB, o.S, r); o.S.facts.insert_or_assign(r, ConstantRange(APInt(32, 0)).inverse()); o.retSet = true; o.ret = r; outs.push_back(o); return true; } // libsquish: a compressed image is not empty
    if (T.empty()) return false;
    int c2 = 0;
    for (unsigned i = 0; i < CB->arg_size() && i < 12; ++i) if (CB->getArgOperand(i)->getType()->isPointerTy()) { Sym a = E->eval(CB->getArgOperand(i), S); if (E->isNull(a, S)) c2 |= 2 << i; else if (E->nonNull(a, S)) c2 |= 1 << (i + 13); }
    std::set<Outcome> all;
    for (auto *F2 : T) { auto &o = Z->get(F2, c2); all.insert(o.begin(), o.end()); }
    State B = S; Sym ret = 0; E->defaultCall(CB, B, ret);
    for (auto &o : all) {
      CallOut co; co.S = B;
      if (!Summarizer::apply(*E, CB, o, co)) continue;
      if (o.flag.count(1)) co.S.flag[1] = 1;
      if (n == "ilGenImages" && !o.flag.count(1)) { Sym v = E->T.fresh(CB, 32); co.S.facts.insert_or_assign(v, ConstantRange(APInt(32, 0)).inverse()); E->store(E->eval(CB->getArgOperand(1), co.S), v, 32, FieldClass(), co.S, CB); }
      if (o.cls == 0 && !o.flag.count(1)) co.S.note("silent " + n + "@" + exactLine(CB));
      outs.push_back(co);
    }
    if (all.empty()) { bool rec = false; for (auto *F2 : T) if (Z->active.count({F2, c2})) rec = true;
      if (rec) { CallOut co; co.S = B; outs.push_back(co); } }
    return true;
  }
  void onRet(const ReturnInst *I, State &S, Sym v) override {
    auto o = Summarizer::outcome(*E, S, I, v);
    if (!S.flag.count(1) && o.cls == 0) how().insert({F, S.path() + " -> returns at " + exactLine(I)});
    if (Z->C.opt.count("explain") && !S.flag.count(1) && o.cls == 0) R.items["silent:" + srcName(F)].insert(exactLine(I) + " " + S.path());
    outs.insert(o);
  }
  void onBranch(const BranchInst *I, State &S, bool taken) override { if (Z->C.opt.count("explain") && I->getDebugLoc()) S.note(std::string(taken ? "T" : "F") + std::to_string(I->getDebugLoc().getLine())); }
};
struct ErrSumm : Summarizer {
  std::map<const Function *, std::string> how; // a path on which nothing was recorded
  ErrSumm(Ctx &C) : Summarizer(C) {}
  bool inlines(const Function *F) override { auto n = srcName(F); return n == "ilBindImage" || n == "ilGetDXTCData" || n == "CompressToRXGB" || n == "ilSquishCompressDXT"; } // what they select or report matters to their callers
  SummProp *make(const Function *F, int ctx) override { return new ErrProp(C); } };
std::map<const Function *, std::string> &ErrProp::how() { return ((ErrSumm *)Z)->how; }
// Calls whose zero is an answer, and those that report on files, are not the subject of this property.
static bool reports(const std::string &n) {
  for (const char *p : {"ilLoad", "ilSave", "ilIsValid", "ilDetermine", "ilGet", "iluGet", "ilut", "iluLoad"}) if (n.rfind(p, 0) == 0) return false;
  static const std::set<std::string> no{"ilTypeFromExt", "ilIsImage", "ilRemoveLoad", "ilRemoveSave", "iluColoursUsed", "iluCompareImage", "ilCopyPixels", "ilCompressDXT", "ilIsEnabled", "ilIsDisabled"};
  return !no.count(n); }
CHECK(errors) {
  ErrSumm Z(C); bool ex = C.opt.count("explain");
  for (auto &F : *C.P.M) if (!F.isDeclaration() && C.isApi(&F)) {
    auto n = srcName(&F); if (!ex && (!reports(n) || F.getReturnType()->isVoidTy())) continue;
    auto &o = Z.get(&F, 0); std::string s; bool silent = false, told = false, good = false;
    for (auto &x : o) { s += " " + std::to_string(x.cls) + (x.cls==3? "="+std::to_string(x.val):"") + (x.flag.count(1) ? "e" : "-"); if (x.cls == 0) (x.flag.count(1) ? told : silent) = true; else good = true; }
    if (ex) C.R.notes.push_back(n + ":" + s);
    if (!reports(n) || !(silent || told) || !good) continue;
    C.R.items["calls"].insert(n); C.R.count["outcomes_checked"] += o.size();
    if (silent) { // follow the path to the place that kept quiet
      std::string P = Z.how[&F], at; const Function *G = &F;
      for (int d = 0; d < 12; ++d) { auto i = Z.how[G].rfind("silent "); if (i == std::string::npos) break; auto t = Z.how[G].substr(i + 7); t = t.substr(0, t.find('@')); Function *H = C.P.fn(t); if (!H || H == G || !Z.how.count(H)) break; P += " | " + t + ": " + Z.how[H]; G = H; }
      C.R.add(n, srcName(G), n + " can report failure without having recorded an error", P); }
  }
  if (ex) for (auto &m : Z.memo) { std::string s; for (auto &x : m.second) { s += " " + std::to_string(x.cls) + (x.cls==3? "="+std::to_string(x.val):"") + (x.flag.count(1) ? "e" : "-"); }
    C.R.notes.push_back("* " + srcName(m.first.F) + "#" + std::to_string(m.first.ctx) + ":" + s); }
}
}
