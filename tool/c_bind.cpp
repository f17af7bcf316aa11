#include "summ.h"
#include "llvm/IR/InstIterator.h"
using namespace llvm;
namespace dv {
// P12: which image is bound at exit, compared with entry.  The bound image is
// followed as: the one at entry, the parent image of the current name ("base",
// what ilBindImage(current name) selects), or another one.
struct BindCtx {
  Ctx &C; GlobalVariable *G, *N; FieldClass cls, ncls; std::map<const Function *, int> memo; // 1 keeps it, 3 keeps it or selects the parent, 2 another one but only when it succeeds, 0 neither, -1 in progress
  std::set<const Function *> mayChange, assumed; std::vector<const Function *> order;
  BindCtx(Ctx &C) : C(C), G(C.P.gv("iCurImage")), N(C.P.gv("CurName")) { if (!G || !N) return; cls = FieldClass{G, -1}; ncls = FieldClass{N, -1}; for (auto &F : *C.P.M) if (!F.isDeclaration()) { auto it = C.P.mod.find(&F); if (it != C.P.mod.end()) for (auto &c : it->second) if (c.p == G) mayChange.insert(&F), cls = c; else if (c.p == N) mayChange.insert(&F), ncls = c; } }
  int keeps(const Function *F);
  struct Bad { std::string where, path; bool failed, name; };
  std::pair<int, std::vector<Bad>> run(const Function *F);
};
struct BindProp : Prop { BindCtx &B; std::vector<BindCtx::Bad> bad; bool parent = false, kept = false; BindProp(BindCtx &b) : B(b) {}
  Sym cur(State &S, const void *s) { return E->load(E->eval(B.G, S), 64, B.cls, S, s); }
  Sym name(State &S, const void *s) { return E->load(E->eval(B.N, S), 32, B.ncls, S, s); }
  void set(State &S, Sym c, Sym n, const void *s) { E->store(E->eval(B.G, S), c, 64, B.cls, S, s); E->store(E->eval(B.N, S), n, 32, B.ncls, S, s); keyOf(S, c, n); }
  void keyOf(State &S, Sym c, Sym n) { bool nm = same(n, S.reg[1], S); S.flag[0] = nm && same(c, S.reg[0], S) ? 0 : nm && c == baseOf(S.reg[1], S) ? 1 : 2; S.flag[1] = nm ? 0 : 1; } // keeps the cases apart at joins
  Sym baseOf(Sym n, State &S) { Sym b = E->T.get({K::Misc, 9, 64, nullptr, n, 0, 9}); return b; }
  void onEntry(State &S) override { Sym c = cur(S, B.G), n = name(S, B.N); S.reg[0] = c; S.reg[1] = n; set(S, c, n, B.G); E->assumeRange(c, ConstantRange(APInt(64, 0)).inverse(), S); }
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override {
    if (CB->getCalledFunction() && CB->getCalledFunction()->isIntrinsic()) return false;
    if (n == "ilGetCurName") { CallOut k; k.S = S; k.retSet = true; k.ret = name(k.S, CB); outs.push_back(k); return true; } // the image stack is initialised (assumption)
    if (n == "ilGetCurImage") { CallOut k; k.S = S; k.retSet = true; k.ret = cur(k.S, CB); outs.push_back(k); return true; }
    if (n == "ilGetInteger") { int64_t m; if (E->single(E->eval(CB->getArgOperand(0), S), S, m) && m == 0x0DF7) { CallOut k; k.S = S; k.retSet = true; k.ret = name(k.S, CB); outs.push_back(k); return true; } } // IL_CUR_IMAGE
    if (n == "ilBindImage") { CallOut k; k.S = S; Sym a = E->eval(CB->getArgOperand(0), k.S), c0 = cur(k.S, CB), n0 = name(k.S, CB), r = 0; (void)c0; (void)n0; E->defaultCall(CB, k.S, r); Sym b = baseOf(a, k.S); set(k.S, b, a, CB); k.S.note("binds at " + exactLine(CB)); k.S.facts.insert_or_assign(b, ConstantRange(APInt(64, 0)).inverse()); outs.push_back(k); return true; }
    auto T = targetsOf(B.C, CB); int w = T.empty() ? 1 : 7; for (auto *F : T) { int k = F->isDeclaration() ? 1 : B.keeps(F); if (k == 0 || k == 2) { w = 0; break; } w = w == 7 ? k : w == k ? w : 3; }
    if (!w) { S.note("call at " + exactLine(CB)); return false; }
    CallOut k; k.S = S; Sym c = cur(k.S, CB), m = name(k.S, CB), r = 0; E->defaultCall(CB, k.S, r); set(k.S, c, m, CB); if (r) { k.retSet = true; k.ret = r; } if (w != 4) outs.push_back(k);
    if (w != 1) { CallOut p = k; Sym b = baseOf(m, p.S); set(p.S, b, m, CB); p.S.facts.insert_or_assign(b, ConstantRange(APInt(64, 0)).inverse()); outs.push_back(p); }
    return true; }
  void onStore(const StoreInst *I, Sym p, Sym v, State &S) override { auto &n = E->T[p]; if (n.k == K::Glob && n.p == B.G) { S.note("selected at " + exactLine(I)); keyOf(S, v, name(S, I)); } else if (n.k == K::Glob && n.p == B.N) keyOf(S, cur(S, I), v); }
  bool same(Sym a, Sym b, State &S) { if (a == b) return true; int64_t t; for (auto q : {E->T.get({K::Cmp, (uint8_t)CmpInst::ICMP_EQ, 1, nullptr, a, b, 0}), E->T.get({K::Cmp, (uint8_t)CmpInst::ICMP_EQ, 1, nullptr, b, a, 0})}) if (E->single(q, S, t) && t) return true; return false; }
  void onRet(const ReturnInst *I, State &S, Sym v) override {
    Sym c = cur(S, I), n = name(S, I); B.C.R.count["exits_checked"]++; bool nm = same(n, S.reg[1], S); if (nm && same(c, S.reg[0], S)) return void(kept = true); if (nm && c == baseOf(S.reg[1], S)) { parent = true; return; }
    bool f = I->getReturnValue() && E->T[v].w <= 64 && E->T[v].w != 63 && E->isNull(v, S); bad.push_back({exactLine(I), S.path() + (B.C.opt.count("verbose") ? " cur=" + E->show(c) + " name=" + E->show(n) : ""), f, !nm}); }
};
std::pair<int, std::vector<BindCtx::Bad>> BindCtx::run(const Function *F) {
  BindProp p(*this); bool ok = runOn(C, const_cast<Function *>(F), p, [&](const Function *H) { if (!mayChange.count(H) || H == F || srcName(H) == "ilBindImage") return false; int k = keeps(H); return k == 0 || k == 2; });
  if (!ok) C.R.count["budget_exhausted"]++; int r = p.parent ? p.kept ? 3 : 4 : 1; if (!p.bad.empty()) { r = 2; for (auto &x : p.bad) if (x.failed) r = 0; } return {r, p.bad}; }
int BindCtx::keeps(const Function *F) {
  if (!mayChange.count(F) || F->isDeclaration()) return 1; auto it = memo.find(F); if (it != memo.end()) return it->second == -1 ? (assumed.insert(F), 1) : it->second; // recursion: assumed, and verified by induction
  memo[F] = -1; size_t mark = order.size(); auto [r, b] = run(F); C.R.count["functions_analysed"]++;
  if (C.opt.count("verbose")) for (auto &x : b) errs() << "NK " << srcName(F) << " " << x.where << (x.failed ? " FAIL " : " ok ") << (x.name ? "NAME " : "") << x.path << "\n";
  if (r != 1 && assumed.count(F)) { for (size_t i = mark; i < order.size(); ++i) if (memo[order[i]] == 1 || memo[order[i]] == 3 || memo[order[i]] == 4) memo.erase(order[i]); order.resize(mark);
    if (r == 3 || r == 4) { assumed.erase(F); memo[F] = 3; auto again = run(F); r = again.first; b = again.second; } } // what relied on the assumption is analysed again
  order.push_back(F); return memo[F] = r; }
bool keepsImage(Ctx &C, const Function *F) { // leaves iCurImage exactly as it was
  static BindCtx *B = nullptr; Report keep = C.R; if (!B) B = new BindCtx(C); bool r = B->G && B->N && B->keeps(F) == 1; C.R = keep; return r; }
CHECK(binding) {
  BindCtx B(C); if (!B.G || !B.N) { C.R.broken("no variable iCurImage/CurName"); return; }
  std::set<std::string> binds = {"ilBindImage", "ilActiveImage", "ilActiveMipmap", "ilActiveLayer", "ilActiveFace", "ilDeleteImage", "ilDeleteImages", "ilShutDown", "iluDeleteImage", "ilInit", "iluLoadImage", "ilSetCurImage", "ilReplaceCurImage", "iluSwapImage", "iluGenImage"};
  for (auto &F : *C.P.M) { if (F.isDeclaration() || !C.isApi(&F) || !B.mayChange.count(&F)) continue; std::string n = srcName(&F); bool b = binds.count(n); C.R.items[b ? "binding_calls" : "other_calls"].insert(n);
    if (n == "ilBindImage" || n == "iluLoadImage") continue; int k = B.keeps(&F); if (k == 1 || k == 3 || k == 4) continue; auto bad = B.run(&F).second; for (auto &x : bad) { if (b && !x.failed) continue; C.R.add(std::string(x.failed ? "failed:" : "rebinds:") + n, x.where, n + (x.failed ? " fails" : " returns") + (x.name ? " with another image name current than before" : " with another image selected than before"), x.path); } }
}
}
