#include "check.h"
using namespace llvm;
namespace dv {
// typestate of file handles
struct Handles : Prop {
  Report &R; std::string root; const Function *Root;
  Handles(Report &R, const Function *Rt) : R(R), root(srcName(Rt)), Root(Rt) {}
  enum { RD = 1, WR = 2, FP = 3, CLOSED = 10 };
  std::map<Sym, std::string> site;
  static int openKind(const std::string &n) { return n == "*iopenr" ? RD : n == "*iopenw" ? WR : n == "fopen" ? FP : 0; }
  static int closeKind(const std::string &n) { return n == "*icloser" ? RD : n == "*iclosew" ? WR : n == "fclose" ? FP : 0; }
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override {
    if (int k = openKind(n)) {
      R.items["open_sites"].insert(locOf(CB));
      Sym r = E->T.fresh(CB, 64); site[r] = locOf(CB);
      CallOut a; a.S = S; a.retSet = true; a.ret = E->T.cst(0, 64); a.S.note(n + " fails at " + exactLine(CB)); outs.push_back(a);
      CallOut b; b.S = S; b.retSet = true; b.ret = r; b.S.facts.insert_or_assign(r, ConstantRange(APInt(64, 1), APInt(64, 0))); b.S.obj[r] = k; b.S.note(n + " opens at " + exactLine(CB)); outs.push_back(b);
      return true;
    }
    if (int k = closeKind(n)) {
      R.items["close_sites"].insert(locOf(CB));
      Sym a = E->eval(CB->getArgOperand(0), S);
      auto it = S.obj.find(a);
      if (it != S.obj.end()) {
        if (it->second >= CLOSED) R.add("double-close:" + fnOfInst(CB), locOf(CB), "handle opened at " + site[a] + " is closed a second time", S.path());
        else if (it->second != k) R.add("wrong-close:" + fnOfInst(CB), locOf(CB), "handle opened at " + site[a] + " is closed with the procedure of the other direction", S.path());
        it->second = CLOSED + k; S.note("closed at " + exactLine(CB));
      } else if (E->isNull(a, S)) R.add("close-null:" + fnOfInst(CB), locOf(CB), "close procedure called with a NULL handle (open failed)", S.path());
      else { const Node &nd = E->T[a];
        if (nd.k == K::Fresh && nd.p && isa<Argument>((const Value *)nd.p)) R.add("close-caller:" + root, locOf(CB), "closes the stream supplied by the caller of " + root, S.path());
        else R.count["unresolved_closes"]++; }
      CallOut o; o.S = S; outs.push_back(o); return true;
    }
    for (unsigned i = 0; i < CB->arg_size(); ++i) if (CB->getArgOperand(i)->getType()->isPointerTy()) {
      Sym a = E->eval(CB->getArgOperand(i), S); auto it = S.obj.find(a);
      if (it != S.obj.end() && it->second >= CLOSED) R.add("use-after-close:" + fnOfInst(CB), locOf(CB), "handle opened at " + site[a] + " is used after it was closed (" + n + ")", S.path());
    }
    return false;
  }
  void onStale(Sym o, State &S) override { if (S.obj[o] < CLOSED) R.add("leak:" + fnOfInst((const Instruction *)E->T[o].p), site[o], "handle is overwritten by a later open without having been closed", S.path()); }
  void onRet(const ReturnInst *I, State &S, Sym v) override {
    R.count["exits_checked"]++;
    for (auto &o : S.obj) if (o.second < CLOSED) {
      R.add("leak:" + fnOfInst((const Instruction *)E->T[o.first].p), site[o.first], "handle opened here is still open when " + root + " returns at " + exactLine(I), S.path());
    }
  }
};
CHECK(handles) {
  std::set<std::string> ev = {"*iopenr", "*iopenw", "*icloser", "*iclosew", "fopen", "fclose"};
  auto set = C.reachingCalls(ev);
  // the default procedures themselves are the implementation of open/close
  std::set<const Function *> impl;
  for (auto &F : *C.P.M) { std::string n = srcName(&F); if (n == "iDefaultOpenR" || n == "iDefaultOpenW" || n == "iDefaultCloseR" || n == "iDefaultCloseW") impl.insert(&F); }
  for (auto *F : impl) set.erase(F);
  for (auto *F : C.rootsOf(set)) {
    Handles p(C.R, F); C.R.items["roots"].insert(srcName(F));
    runOn(C, F, p, [&](const Function *G) { return set.count(G) != 0; });
  }
}
}
