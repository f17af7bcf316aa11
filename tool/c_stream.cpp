#include "summ.h"
#include <regex>
#include "llvm/IR/InstIterator.h"
using namespace llvm;
namespace dv {
static const int U = -2000000000; // unknown position
// P02: positions are tracked relative to where the caller's stream stood at entry
struct PosProp : Prop {
  Ctx &C; Report &R; std::string root; Value *Handle; const std::set<const Function *> &moves, &rebinds, &checked;
  PosProp(Ctx &C, const std::string &r, const std::set<const Function *> &m, const std::set<const Function *> &b, const std::set<const Function *> &c) : C(C), R(C.R), root(r), moves(m), rebinds(b), checked(c) {}
  // flags: 1 position, 2 base of relative seeks, 3 the caller's stream has been made the input
  static int get(State &S, int f) { auto it = S.flag.find(f); return it == S.flag.end() ? U : it->second; }
  void onEntry(State &S) override { S.flag[1] = 0; S.flag[2] = U; }
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override {
    auto emit = [&](Sym r = 0) { CallOut o; o.S = S; if (r) { o.retSet = true; o.ret = r; } outs.push_back(o); return true; };
    if (n == "iSetInputFile") { S.flag[3] = 1; S.flag[2] = S.flag[1]; S.flag[4] = 0; return emit(); }
    if (n == "iSetInputLump") { S.flag[4] = 1; return emit(); } // the input is no longer the caller's stream
    if (S.flag[4] && (n == "*iseek" || n == "*itell" || n == "*iread" || n == "*igetc")) return false;
    if (n == "*itell") { R.items["position_queries"].insert(locOf(CB)); Sym r = E->T.fresh(CB, 32); if (get(S, 1) != U && get(S, 2) != U) { S.obj[r] = get(S, 1) - get(S, 2) + 1000000; } else S.obj.erase(r); return emit(r); }
    if (n == "*iseek") {
      R.items["seeks"].insert(locOf(CB));
      Sym o = E->eval(CB->getArgOperand(0), S), m = E->eval(CB->getArgOperand(1), S); int64_t mode, off; int rel = U;
      while (E->T[o].k == K::Cast) o = E->T[o].a;
      if (E->single(o, S, off)) rel = (int)(int32_t)off; else { auto it = S.obj.find(o); if (it != S.obj.end()) rel = it->second - 1000000; }
      int np = U;
      if (E->single(m, S, mode) && rel != U) { if (mode == 0 && get(S, 2) != U) np = get(S, 2) + rel; else if (mode == 1 && get(S, 1) != U) np = get(S, 1) + rel; }
      S.flag[1] = np; S.note("seek at " + exactLine(CB)); 
      Sym r = 0; State B = S; E->defaultCall(CB, B, r); CallOut co; co.S = B; outs.push_back(co); return true; }
    if (n == "*ieof") return emit();
    bool mv = false, rb = false, pres = true;
    if (n == "*iread" || n == "*igetc") { mv = true; pres = false; }
    else for (auto *F : targetsOf(C, CB)) { if (moves.count(F)) mv = true; if (rebinds.count(F)) rb = true; if (!checked.count(F)) pres = false; }
    if (S.flag[4] && !rb) return false;
    if (!mv && !rb) return false;
    if (pres) { S.flag[2] = S.flag[1]; } // proved on its own to leave its stream where it was
    else { S.flag[1] = U; if (rb) { S.flag[2] = U; S.flag[4] = 0; } S.note(n + " at " + exactLine(CB)); }
    return false;
  }
  void onRet(const ReturnInst *I, State &S, Sym v) override {
    R.count["exits_checked"]++;
    if (S.flag.count(3) && get(S, 1) != 0) R.add("moved:" + root, exactLine(I) + "(" + root + ")", get(S, 1) == U ? "returns with the caller's stream at a different position" : "returns with the caller's stream moved by " + std::to_string(get(S, 1)), S.path());
  }
};
// linear coefficient of a load of global G in s
static int coef(const SymTab &T, Sym s, const GlobalVariable *G, int d = 0) {
  const Node &n = T[s]; if (d > 12) return 0;
  if (n.k == K::Cast) return coef(T, n.a, G, d + 1);
  if (n.k == K::Load) { const Node &b = T[n.a]; return b.k == K::Glob && b.p == G ? 1 : 0; }
  if (n.k == K::Bin && n.op == Instruction::Add) return coef(T, n.a, G, d + 1) + coef(T, n.b, G, d + 1);
  if (n.k == K::Bin && n.op == Instruction::Sub) return coef(T, n.a, G, d + 1) - coef(T, n.b, G, d + 1);
  return 0;
}
struct RelProp : Prop { GlobalVariable *G; int seek = 99, tell = 99; bool same = true; void onEntry(State &S) override {}
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override {
    if (n == "*SeekRProc" || n == "*SeekWProc") { int c = coef(E->T, E->eval(CB->getArgOperand(1), S), G); int64_t m; if (E->single(E->eval(CB->getArgOperand(2), S), S, m) && m == 0) { if (seek != 99 && seek != c) same = false; seek = c; } }
    return false; }
  void onRet(const ReturnInst *I, State &S, Sym v) override { if (v) { int c = coef(E->T, v, G); if (tell != 99 && tell != c) same = false; tell = c; } } };
struct StartProp : Prop { Report &R; std::string root, tell; GlobalVariable *G; StartProp(Report &R, const std::string &r, const std::string &t, GlobalVariable *G) : R(R), root(r), tell(t), G(G) {}
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override { if (n != tell && n != "*itell" && n != "*itellw") return false; CallOut o; o.S = S; o.retSet = true; o.ret = E->T.fresh(CB, 32); o.S.obj[o.ret] = n == tell ? 1 : 2; outs.push_back(o); return true; }
  void onStore(const StoreInst *I, Sym ptr, Sym val, State &S) override { const Node &b = E->T[ptr]; if (b.k == K::Glob && b.p == G) { auto it = S.obj.find(val); S.flag[1] = it != S.obj.end() && it->second == 1 ? 1 : 2; } }
  void onRet(const ReturnInst *I, State &S, Sym v) override { if (!S.flag.count(1) || S.flag[1] != 1) R.add("origin:" + root, exactLine(I) + "(" + root + ")", "the origin of stream positions is not set to where the caller's stream stands"); } };
static std::set<const Function *> streamFns(Ctx &C, const char *re) {
  std::regex rx(re); std::set<const Function *> r;
  for (auto &F : *C.P.M) if (!F.isDeclaration() && std::regex_match(srcName(&F), rx) && F.arg_size() >= 1) { bool ptr = false; for (auto &A : F.args()) if (A.getType()->isPointerTy()) ptr = true; if (ptr) r.insert(&F); }
  return r;
}
CHECK(streampos) {
  auto moves = C.reachingCalls({"*iread", "*igetc", "*iseek"}), rebinds = C.reachingCalls({"iSetInputFile", "iSetInputLump"});
  auto bindsFile = C.reachingCalls({"iSetInputFile"});
  auto checked = streamFns(C, "il(IsValid|Load|DetermineType)[A-Za-z0-9]*F"); for (auto it = checked.begin(); it != checked.end();) if (!bindsFile.count(*it)) it = checked.erase(it); else ++it;
  // iDefaultEof and friends are the implementation of the stream procedures
  for (auto *F0 : checked) { Function *F = const_cast<Function *>(F0); C.R.items["stream_functions"].insert(srcName(F));
    PosProp p(C, srcName(F), moves, rebinds, checked);
    runOn(C, F, p, [&](const Function *G) { return !checked.count(G) && srcName(G) != "iSetInputFile" && srcName(G) != "iSetInputLump" && (rebinds.count(G) || (moves.count(G) && G->getInstructionCount() <= 60)); }); }
  GlobalVariable *G = C.P.gv("ReadFileStart"); Function *Sk = C.P.fn("iSeekRFile"), *Te = C.P.fn("iTellRFile");
  if (G && Sk && Te) {
    RelProp a; a.G = G; runOn(C, Sk, a, [](const Function *) { return false; }, [&](Function *, Engine &) {}); RelProp b; b.G = G; runOn(C, Te, b, [](const Function *) { return false; });
    C.R.count["relative_position_rules"]++;
    if (a.seek != 99 && b.tell != 99 && (!a.same || !b.same || a.seek != -b.tell)) C.R.add("relative-mismatch", locOf(&*inst_begin(Te)), "positions reported by iTellRFile and accepted by iSeekRFile are relative to different origins");
  }
  G = C.P.gv("WriteFileStart"); Sk = C.P.fn("iSeekWFile"); Te = C.P.fn("iTellWFile");
  if (G && Sk && Te) {
    RelProp a; a.G = G; runOn(C, Sk, a, [](const Function *) { return false; }); RelProp b; b.G = G; runOn(C, Te, b, [](const Function *) { return false; });
    C.R.count["relative_position_rules"]++;
    if (a.seek != 99 && b.tell != 99 && (!a.same || !b.same || a.seek != -b.tell)) C.R.add("relative-mismatch-w", locOf(&*inst_begin(Te)), "positions reported by iTellWFile and accepted by iSeekWFile are relative to different origins");
  }
  // the origin is where the caller's stream stands when it is made the input or output
  for (auto pr : {std::make_tuple("iSetInputFile", "ReadFileStart", "*TellRProc"), std::make_tuple("iSetOutputFile", "WriteFileStart", "*TellWProc")}) {
    Function *F = C.P.fn(std::get<0>(pr)); GlobalVariable *Gs = C.P.gv(std::get<1>(pr)); if (!F || !Gs) continue;
    StartProp p(C.R, std::get<0>(pr), std::get<2>(pr), Gs); runOn(C, F, p, [&](const Function *) { return false; }); C.R.count["relative_position_rules"]++; }
}
// P30: a stream or lump save returns end position - start position
struct SizeProp : Prop {
  Ctx &C; Report &R; std::string root; const std::set<const Function *> &writes, &lib; std::set<const Function *> &checked;
  SizeProp(Ctx &C, const std::string &r, const std::set<const Function *> &w, const std::set<const Function *> &l, std::set<const Function *> &c) : C(C), R(C.R), root(r), writes(w), lib(l), checked(c) {}
  // flags: 1 something written; 2 output set; 4 writing failed; 5 output does not stand at the end of what was written
  //        (1: elsewhere, 2: wherever a library left it); 6 start position asked before the output was set
  // tags of positions: 1 start, 2 end so far, 3 elsewhere
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override {
    auto emit = [&](Sym r = 0) { CallOut o; o.S = S; if (r) { o.retSet = true; o.ret = r; } outs.push_back(o); return true; };
    if (n == "iSetOutputFile" || n == "iSetOutputLump") { for (auto &o : S.obj) if (o.second == 1 || o.second == 2) o.second = 3; S.flag[2] = 1; S.flag.erase(1); S.flag.erase(5); return emit(); }
    if (n == "*itellw") { R.items["position_queries"].insert(locOf(CB)); Sym r = E->T.fresh(CB, 32); S.obj[r] = !S.flag.count(2) ? 3 : !S.flag.count(1) ? 1 : S.flag.count(5) ? 3 : 2; return emit(r); }
    if (n == "*iseekw") { Sym o = E->eval(CB->getArgOperand(0), S), m = E->eval(CB->getArgOperand(1), S); int64_t mode, off; bool set = E->single(m, S, mode) && mode == 0; while (E->T[o].k == K::Cast) o = E->T[o].a; auto it = S.obj.find(o); int tag = it == S.obj.end() ? 0 : it->second; bool cst = E->single(o, S, off);
      if ((set && tag == 2) || (E->single(m, S, mode) && mode == 2 && cst && off == 0)) S.flag.erase(5); else if (set && !tag && !cst && S.flag.count(5) && S.flag[5] == 2) S.flag.erase(5); // the codec's own record of the end
      else { S.flag[5] = 1; S.note("seek at " + exactLine(CB)); } return false; }
    bool w = n == "*iwrite" || n == "*iputc", l = false; if (!w) { for (auto *F : targetsOf(C, CB)) { if (writes.count(F)) w = true; if (lib.count(F)) l = true; }
      auto *F = CB->getCalledFunction(); if (F && F->isDeclaration() && StringRef(n).starts_with("TIFF")) w = l = true; }
    if (!w) return false;
    if (!S.flag.count(5)) for (auto &o : S.obj) if (o.second == 2) o.second = 3;
    S.flag[1] = 1; if (l && n != "TIFFSetField") { S.flag[5] = 2; }
    auto *F = CB->getCalledFunction();
    if (CB->getType()->isIntegerTy() && F && !F->isDeclaration() && retBool(F)) { State B = S; Sym ret = 0; E->defaultCall(CB, B, ret); unsigned wd = CB->getType()->getIntegerBitWidth();
      CallOut a; a.S = B; a.S.flag[4] = 1; a.retSet = true; a.ret = E->T.cst(0, wd); a.S.note(n + " fails at " + exactLine(CB)); outs.push_back(a);
      CallOut b; b.S = B; b.retSet = true; b.ret = E->T.fresh(CB, wd); b.S.facts.insert_or_assign(b.ret, ConstantRange(APInt(wd, 0)).inverse()); b.S.note(n + " succeeds at " + exactLine(CB)); outs.push_back(b); return true; }
    return false;
  }
  static bool retBool(const Function *F) { auto *SP = F->getSubprogram(); if (!SP || !SP->getType() || !SP->getType()->getTypeArray().size()) return false; auto *T = SP->getType()->getTypeArray()[0]; return T && T->getName() == "ILboolean"; }
  void onRet(const ReturnInst *I, State &S, Sym v) override {
    R.count["exits_checked"]++; if (!v) return;
    std::string at = exactLine(I) + "(" + root + ")";
    if (S.flag.count(4)) { if (!E->isNull(v, S)) R.add("failure-size:" + root, at, "returns a value other than 0 although writing the image failed", S.path()); return; }
    if (E->isNull(v, S)) { if (S.flag.count(1)) R.add("success-zero:" + root, at, "returns 0 although the image was written", S.path()); return; }
    const Node &n = E->T[v]; auto tag = [&](Sym s) { auto it = S.obj.find(s); return it == S.obj.end() ? 0 : it->second; };
    if (n.k == K::Bin && n.op == Instruction::Sub && (tag(n.a) == 2 || (tag(n.a) == 1 && !S.flag.count(1))) && tag(n.b) == 1) { R.count["size_returns"]++; return; }
    R.add("size:" + root, at, "does not return the number of bytes written (end position minus start position)", S.path());
  }
};
// internal save functions: at a successful return the output stands at the end of what was written
struct EndProp : SizeProp { using SizeProp::SizeProp;
  void onEntry(State &S) override { S.flag[2] = 1; }
  void onRet(const ReturnInst *I, State &S, Sym v) override { R.count["exits_checked"]++; if (S.flag.count(4)) return; if (v && E->isNull(v, S)) return;
    if (S.flag.count(5) && S.flag[5] >= 1) R.add("not-at-end:" + root, exactLine(I) + "(" + root + ")", "reports success with the output standing elsewhere than at the end of what was written", S.path()); }
};
// callers of the save functions: dispatchers hand the count on unchanged; by-name saves succeed iff it is not 0
struct DispProp : Prop { Ctx &C; Report &R; std::string root; const std::set<const Function *> &checked; bool byName;
  DispProp(Ctx &C, const std::string &r, const std::set<const Function *> &c, bool b) : C(C), R(C.R), root(r), checked(c), byName(b) {}
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override {
    bool is = false; for (auto *F : targetsOf(C, CB)) if (checked.count(F)) is = true; if (!is || !CB->getType()->isIntegerTy()) return false;
    R.items[byName ? "by_name_calls" : "dispatched_calls"].insert(locOf(CB)); State B = S; Sym r = 0; E->defaultCall(CB, B, r); unsigned w = CB->getType()->getIntegerBitWidth();
    CallOut a; a.S = B; a.retSet = true; a.ret = E->T.cst(0, w); a.S.flag[1] = 1; a.S.note(n + " fails at " + exactLine(CB)); outs.push_back(a);
    CallOut b; b.S = B; b.retSet = true; b.ret = E->T.fresh(CB, w, 77); b.S.facts.insert_or_assign(b.ret, ConstantRange(APInt(w, 0)).inverse()); b.S.flag[1] = 2; b.S.reg[1] = b.ret; b.S.note(n + " succeeds at " + exactLine(CB)); outs.push_back(b); return true; }
  void onRet(const ReturnInst *I, State &S, Sym v) override { R.count["exits_checked"]++; if (!v) return; std::string at = exactLine(I) + "(" + root + ")"; int f = S.flag.count(1) ? S.flag[1] : 0;
    if (f == 1 && !E->isNull(v, S)) R.add("caller-failure:" + root, at, "reports success although the stream save returned 0", S.path());
    if (f == 2 && byName && !E->nonNull(v, S)) R.add("caller-success:" + root, at, "may report failure although the stream save returned a size", S.path());
    if (f == 2 && !byName && S.reg[1] != v) R.add("caller-size:" + root, at, "does not return the number of bytes written that the codec returned", S.path()); }
};
CHECK(savesize) {
  auto writes = C.reachingCalls({"*iwrite", "*iputc"}), sets = C.reachingCalls({"iSetOutputFile", "iSetOutputLump"}), seeks = C.reachingCalls({"*iseekw"});
  auto checked = streamFns(C, "ilSave[A-Za-z0-9]*[FL]"); std::set<const Function *> own, lib;
  // libraries that write through callbacks: libpng, libjpeg, libmng; libtiff also seeks
  auto libWrites = [&](const Function *F) { for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) { StringRef n = calleeName(CB); if (n.starts_with("png_write") || n.starts_with("jpeg_write") || n == "mng_create" || n == "mng_write" || n.starts_with("TIFFWrite") || n == "TIFFClose") return true; } return false; };
  auto allw = C.reaching([&](const Function *F) { return writes.count(F) || (!F->isDeclaration() && libWrites(F)); });
  for (auto *F : checked) for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) { auto n = calleeName(CB); if (n == "iSetOutputFile" || n == "iSetOutputLump") own.insert(F); }
  std::set<const Function *> savers, tells; // helpers that ask for the position and answer the size
  for (auto &F : *C.P.M) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (calleeName(CB) == "*itellw") tells.insert(&F);
  for (auto *F0 : checked) { Function *F = const_cast<Function *>(F0);
    // dispatchers (ilSaveF, ilSaveL) return what the format's function returns
    if (!sets.count(F)) continue;
    bool direct = own.count(F); if (!direct) { bool viaChecked = false; for (auto *g : C.P.callees[F]) if (checked.count(g)) viaChecked = true; if (viaChecked) { C.R.items["dispatchers"].insert(srcName(F)); DispProp p(C, srcName(F), checked, false); runOn(C, F, p, [](const Function *) { return false; }); continue; } }
    C.R.items["save_functions"].insert(srcName(F));
    std::set<const Function *> from{F}; for (auto *g : C.P.callees[F]) if (tells.count(g) && !C.isApi(g)) from.insert(g);
    for (auto *f : from) for (auto *g : C.P.callees[f]) if (allw.count(g) && SizeProp::retBool(g)) savers.insert(g);
    SizeProp p(C, srcName(F), allw, lib, checked);
    runOn(C, F, p, [&](const Function *G) { return (sets.count(G) || (tells.count(G) && !C.isApi(G) && !savers.count(G) && !SizeProp::retBool(G))) && G->getInstructionCount() <= 60 && srcName(G) != "iSetOutputFile" && srcName(G) != "iSetOutputLump"; }); }
  for (auto &F : *C.P.M) if (!F.isDeclaration() && !checked.count(&F) && SizeProp::retBool(&F)) { bool via = false; for (auto *g : C.P.callees[&F]) if (checked.count(g)) via = true; if (!via) continue;
    C.R.items["by_name_functions"].insert(srcName(&F)); DispProp p(C, srcName(&F), checked, true); runOn(C, &F, p, [](const Function *) { return false; }); }
  for (auto *F0 : savers) { Function *F = const_cast<Function *>(F0); C.R.items["internal_save_functions"].insert(srcName(F)); EndProp p(C, srcName(F), allw, lib, checked); runOn(C, F, p, [&](const Function *G) { return seeks.count(G) && !checked.count(G) && srcName(G) != "ilGetDXTCData"; }); }
}
// P03
struct OverProp : Prop {
  Ctx &C; Report &R; std::string root; OverProp(Ctx &C, const std::string &r) : C(C), R(C.R), root(r) {}
  // flags: 1 overwrite mode (1 off, 2 on), 2 exists (1 yes, 2 no), 3 error recorded
  static bool isOpen(const CallBase *CB, const std::string &n) {
    if (n == "*iopenw") return true;
    if (n != "fopen" && n != "TIFFOpen") return false;
    StringRef s; if (!getConst(CB->getArgOperand(1), s)) return true;
    return s.contains('w') || s.contains('a') || s.contains('+'); }
  static bool getConst(const Value *V, StringRef &s) { auto *G = dyn_cast<GlobalVariable>(V->stripPointerCasts()); if (!G || !G->hasInitializer()) return false; auto *D = dyn_cast<ConstantDataSequential>(G->getInitializer()); if (!D || !D->isString()) return false; s = D->getAsString(); return true; }
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override {
    auto fork = [&](int flag, int v0, int v1) { unsigned w = CB->getType()->getIntegerBitWidth(); State B = S; Sym r = 0; E->defaultCall(CB, B, r);
      CallOut a; a.S = B; a.retSet = true; a.ret = E->T.cst(0, w); a.S.flag[flag] = v0; outs.push_back(a);
      CallOut b; b.S = B; b.retSet = true; b.ret = E->T.cst(1, w); b.S.flag[flag] = v1; outs.push_back(b); };
    if ((n == "ilGetBoolean" || n == "ilGetInteger" || n == "iGetInt" || n == "ilIsEnabled") && CB->getType()->isIntegerTy()) { int64_t v; if (E->single(E->eval(CB->getArgOperand(0), S), S, v) && (n == "ilIsEnabled" ? v == 0x0620 : v == 0x0621)) { fork(1, 1, 2); return true; } return false; }
    if (n == "iFileExists") { R.items["existence_checks"].insert(locOf(CB)); Sym nm = E->eval(CB->getArgOperand(0), S); S.reg[1] = nm; S.note("existence checked at " + exactLine(CB)); fork(2, 2, 1); return true; }
    if (n == "ilSetError") { int64_t v; if (E->single(E->eval(CB->getArgOperand(0), S), S, v) && v == 0x050C) S.flag[3] = 1; CallOut o; o.S = S; outs.push_back(o); return true; }
    if (isOpen(CB, n)) {
      R.items["write_open_sites"].insert(locOf(CB)); R.count["opens_checked"]++;
      bool ok = S.flag.count(1) && S.flag[1] == 2;
      if (!ok && S.flag.count(2) && S.flag[2] == 2) { Sym nm = E->eval(CB->getArgOperand(0), S); auto it = S.reg.find(1); if (it != S.reg.end() && it->second == nm) ok = true; else R.add("other-file:" + fnOfInst(CB), locOf(CB), "opens a file for writing that is not the one whose existence was checked", S.path()), ok = true; }
      if (!ok) R.add("overwrite:" + fnOfInst(CB), locOf(CB), S.flag.count(2) && S.flag[2] == 1 ? "opens an existing file for writing although overwriting is off" : "opens a file for writing without having established that overwriting is on or the file does not exist", S.path());
      S.flag[4] = 1; }
    return false;
  }
  void onRet(const ReturnInst *I, State &S, Sym v) override {
    R.count["exits_checked"]++;
    if (!S.flag.count(4) && S.flag.count(1) && S.flag[1] == 1 && S.flag.count(2) && S.flag[2] == 1) {
      R.count["refusals_checked"]++;
      std::string at = exactLine(I) + "(" + root + ")";
      if (!S.flag.count(3)) R.add("no-error:" + root, at, "refuses to overwrite without recording IL_FILE_ALREADY_EXISTS", S.path());
      if (v && !E->isNull(v, S)) R.add("succeeds:" + root, at, "reports success although the existing file was not written", S.path()); }
  }
};
CHECK(overwrite) {
  std::set<const Function *> own;
  for (auto &F : *C.P.M) { std::string n = srcName(&F); if (n == "iDefaultOpenW" || n == "iDefaultOpenR") continue; for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (fileOf(&F).find("/src-I") != std::string::npos && OverProp::isOpen(CB, calleeName(CB))) own.insert(&F); }
  auto set = C.reaching([&](const Function *F) { return own.count(F) != 0; });
  std::set<const Function *> asks; // helpers that answer whether the file may be written
  for (auto &F : *C.P.M) if (!C.isApi(&F) && F.getInstructionCount() <= 80) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (calleeName(CB) == "iFileExists" || calleeName(CB) == "ilGetBoolean" || calleeName(CB) == "ilIsEnabled") asks.insert(&F);
  for (auto *F : C.rootsOf(set)) { OverProp p(C, srcName(F)); C.R.items["roots"].insert(srcName(F)); runOn(C, F, p, [&](const Function *G) { return set.count(G) != 0 || asks.count(G) != 0; }); }
}
}
