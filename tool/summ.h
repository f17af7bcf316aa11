#pragma once
#include "check.h"
#include "llvm/Support/raw_ostream.h"
namespace dv {
// Compositional summaries: each function body is interpreted once per context;
// an outcome is (class of returned value, property flags at exit).
struct Outcome {
  int cls;        // 0: zero/null, 1: non-zero, 2: unknown, 3: exact constant, 4: void
  int64_t val; std::map<int, int> flag;
  bool operator<(const Outcome &o) const { return std::tie(cls, val, flag) < std::tie(o.cls, o.val, o.flag); } bool operator==(const Outcome &o) const { return cls == o.cls && val == o.val && flag == o.flag; }
};
struct SummKey { const Function *F; int ctx; bool operator<(const SummKey &o) const { return std::tie(F, ctx) < std::tie(o.F, o.ctx); } };
struct Summarizer;
struct SummProp : Prop {
  Summarizer *Z; const Function *F; int ctx; std::set<Outcome> outs;
};
struct Summarizer {
  Ctx &C; std::map<SummKey, std::set<Outcome>> memo; std::set<SummKey> active; std::set<SummKey> recursive; std::map<SummKey, std::set<Outcome>> partial;
  Summarizer(Ctx &C) : C(C) {}
  virtual ~Summarizer() {}
  virtual SummProp *make(const Function *F, int ctx) = 0;
  virtual bool inlines(const Function *F) { return false; } // callees read in place rather than summarised
  virtual bool inlinesIn(const Function *F, const Function *In) { return inlines(F); }
  // flags that survive into outcomes
  const std::set<Outcome> &get(const Function *F, int ctx) {
    SummKey k{F, ctx}; auto it = memo.find(k); if (it != memo.end()) return it->second;
    if (active.count(k)) { recursive.insert(k); return partial[k]; }
    active.insert(k); if (C.opt.count("verbose")) errs() << "begin " << srcName(F) << " ctx " << ctx << "\n";
    Function *B = const_cast<Function *>(F), *Fl = nullptr; for (auto &BB : *B) for (auto &I : BB) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *H = CB->getCalledFunction()) if (!Fl && H != F && !H->isDeclaration() && inlinesIn(H, F)) { InlineStats st; B = Fl = flatten(C.P, B, [&](const Function *G) { return !G->isDeclaration() && inlinesIn(G, F); }, &st); }
    SummProp *p; for (int round = 0;; ++round) { // recursive functions: to a fixpoint
    p = make(F, ctx); p->Z = this; p->F = F; p->ctx = ctx;
    bool ok; unsigned steps, merges; { Engine E(C.P, *B, *p); E.run(); ok = E.complete; steps = E.steps; merges = E.merges;
      C.R.count["blocks_analysed"] += E.blocksSeen; C.R.count["abstract_states"] += E.states; }
    C.R.count["function_contexts"]++; if (!ok) C.R.count["incomplete"]++;
    if (C.opt.count("verbose")) errs() << "summ " << srcName(F) << " ctx " << ctx << " insts " << F->getInstructionCount() << " steps " << steps << " merges " << merges << (ok ? "" : " INCOMPLETE") << "\n";
    if (!recursive.count(k) || p->outs == partial[k] || round == 6) break;
    partial[k] = p->outs; delete p; }
    if (Fl) Fl->eraseFromParent();
    active.erase(k); partial.erase(k);
    memo[k] = p->outs; delete p; return memo[k];
  }
  static Outcome outcome(Engine &E, State &S, const ReturnInst *I, Sym v) {
    Outcome o{4, 0, S.flag};
    if (!I->getReturnValue()) return o;
    unsigned w = E.T[v].w; int64_t c;
    if (w == 63 || w > 64 || !w) { o.cls = 2; return o; }
    if (E.single(v, S, c)) { if (!c) o.cls = 0; else { o.cls = 3; o.val = c; } }
    else if (E.nonNull(v, S)) o.cls = 1; else o.cls = 2;
    return o;
  }
  // apply an outcome to a call in state S (already havoc'd); returns false if infeasible
  static bool apply(Engine &E, const CallBase *CB, const Outcome &o, CallOut &co) {
    if (CB->getType()->isVoidTy()) return true;
    unsigned w = CB->getType()->isPointerTy() ? 64 : CB->getType()->isIntegerTy() ? CB->getType()->getIntegerBitWidth() : 63;
    if (w == 63 || w > 64) { co.retSet = false; return true; }
    if (o.cls == 0) { co.retSet = true; co.ret = E.T.cst(0, w); }
    else if (o.cls == 3) { co.retSet = true; co.ret = E.T.cst(o.val, w); }
    else { co.retSet = true; co.ret = E.T.fresh(CB, w); if (o.cls == 1) co.S.facts.insert_or_assign(co.ret, ConstantRange(APInt(w, 0)).inverse()); }
    return true;
  }
};
bool keepsImage(Ctx &C, const Function *F); // leaves the selected image alone (c_bind.cpp)
std::vector<Function *> targetsOf(Ctx &C, const CallBase *CB); // resolved direct or dispatch targets
}
