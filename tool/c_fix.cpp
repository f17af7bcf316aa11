#include "summ.h"
#include "llvm/IR/InstIterator.h"
using namespace llvm;
namespace dv {
// P10: what a successful load leaves behind has passed ilFixImage (flag 1), which visits every image (part C) and
// establishes the requested origin, type and format on it (part B).
struct FixProp : SummProp {
  const std::set<const Function *> &rel; FixProp(const std::set<const Function *> &r) : rel(r) {}
  void onEntry(State &S) override { if (ctx) S.flag[1] = 1; }
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override {
    if (n == "ilFixImage") { CallOut a; a.S = S; Sym r = 0; E->defaultCall(CB, a.S, r); CallOut b = a; unsigned w = CB->getType()->isVoidTy() ? 0 : CB->getType()->getIntegerBitWidth();
      a.S.flag[1] = 1; if (w) { a.retSet = true; a.ret = E->T.fresh(CB, w); a.S.facts.insert_or_assign(a.ret, ConstantRange(APInt(w, 0)).inverse()); b.retSet = true; b.ret = E->T.cst(0, w); outs.push_back(b); } outs.push_back(a); return true; }
    if (n == "ilTexImage" || n == "ilTexImage_") { S.flag.erase(1); S.note("image made at " + exactLine(CB)); return false; }
    auto T = targetsOf(Z->C, CB); bool any = false; for (auto *G : T) if (rel.count(G)) any = true; if (!any) return false;
    int c2 = S.flag.count(1); std::set<Outcome> all; for (auto *G : T) { if (!rel.count(G)) { all.insert({2, 0, S.flag}); continue; } auto &o = Z->get(G, c2); all.insert(o.begin(), o.end()); }
    State B = S; Sym r = 0; E->defaultCall(CB, B, r);
    for (auto &o : all) { CallOut co; co.S = B; if (!Summarizer::apply(*E, CB, o, co)) continue; if (o.flag.count(1)) co.S.flag[1] = 1; else co.S.flag.erase(1); if (o.cls && !o.flag.count(1)) co.S.note(n + " succeeds at " + exactLine(CB)); outs.push_back(co); }
    return true; }
  void onRet(const ReturnInst *I, State &S, Sym v) override { auto o = Summarizer::outcome(*E, S, I, v); if (o.cls && !S.flag.count(1)) Z->C.R.notes.push_back(srcName(F) + " " + exactLine(I) + " " + S.path()); std::map<int, int> f; if (o.flag.count(1)) f[1] = 1; o.flag = f; outs.insert(o); }
};
struct FixSumm : Summarizer { std::set<const Function *> rel; FixSumm(Ctx &C) : Summarizer(C) {} SummProp *make(const Function *, int) override { return new FixProp(rel); } };
// one image: ilFixCur
struct CurProp : Prop {
  Ctx &C; GlobalVariable *Cur; FieldRef fld[3]; static constexpr int mode[3] = {0x0603, 0x0613, 0x0611}; // IL_ORIGIN_MODE, IL_TYPE_MODE, IL_FORMAT_MODE
  static constexpr int en[3] = {0x0600, 0x0612, 0x0610}; Sym enS[3] = {0, 0, 0}, modeS[3] = {0, 0, 0}, pal = 0;
  CurProp(Ctx &C) : C(C), Cur(C.P.gv("iCurImage")) { const char *n[3] = {"Origin", "Type", "Format"}; for (int i = 0; i < 3; ++i) fld[i] = fieldOf(C, "ILimage", n[i]); }
  Sym query(const CallBase *CB, int64_t m, unsigned w, State &S) { Sym k = E->T.cst(m, 32); return E->T.get({K::Misc, 11, (uint16_t)w, nullptr, k, 0, 11}); }
  Sym field(int i, State &S, const void *at) { Sym img = E->load(E->eval(Cur, S), 64, FieldClass{Cur, -1}, S, at); return E->load(E->T.off(img, fld[i].off), fld[i].w, fld[i].cls(), S, at); }
  bool eq(Sym a, Sym b, State &S) { if (a == b) return true; int64_t t; for (auto q : {E->T.get({K::Cmp, (uint8_t)CmpInst::ICMP_EQ, 1, nullptr, a, b, 0}), E->T.get({K::Cmp, (uint8_t)CmpInst::ICMP_EQ, 1, nullptr, b, a, 0})}) if (E->single(q, S, t) && t) return true;
    for (auto q : {E->T.get({K::Cmp, (uint8_t)CmpInst::ICMP_NE, 1, nullptr, a, b, 0}), E->T.get({K::Cmp, (uint8_t)CmpInst::ICMP_NE, 1, nullptr, b, a, 0})}) if (E->single(q, S, t) && !t) return true; return false; }
  bool holds(int i, State &S, const void *at) { int64_t v; Sym e = query(nullptr, en[i], 8, S); if (E->single(e, S, v) && !v) return true; return eq(query(nullptr, mode[i], 32, S), field(i, S, at), S); }
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override {
    int64_t m; unsigned w = CB->getType()->isIntegerTy() ? CB->getType()->getIntegerBitWidth() : 0;
    if ((n == "ilIsEnabled" || n == "ilGetInteger" || n == "ilGetBoolean") && E->single(E->eval(CB->getArgOperand(0), S), S, m)) { CallOut k; k.S = S; k.retSet = true; k.ret = query(CB, m, w, S); if (n != "ilGetInteger") E->assumeRange(k.ret, ConstantRange(APInt(w, 0), APInt(w, 2)), k.S); outs.push_back(k); return true; }
    if (n == "ilFlipImage" || n == "ilConvertImage") { bool conv = n == "ilConvertImage"; Sym f = 0, t = 0, o = field(0, S, CB), ft = field(1, S, CB), ff = field(2, S, CB); if (conv) { f = E->eval(CB->getArgOperand(0), S); t = E->eval(CB->getArgOperand(1), S); }
      C.R.count["steps"]++; CallOut a; a.S = S; Sym r = 0; E->defaultCall(CB, a.S, r); CallOut b = a; b.retSet = true; b.ret = E->T.cst(0, w); outs.push_back(b);
      a.retSet = true; a.ret = E->T.cst(1, w); Sym img = E->load(E->eval(Cur, S), 64, FieldClass{Cur, -1}, S, CB); E->store(E->eval(Cur, a.S), img, 64, FieldClass{Cur, -1}, a.S, CB);
      auto put = [&](int i, Sym v) { E->store(E->T.off(img, fld[i].off), v, fld[i].w, fld[i].cls(), a.S, CB); };
      if (conv) { put(0, o); put(1, t); put(2, f); } else { Sym want = query(nullptr, mode[0], 32, S); int64_t q; bool differs = false; for (auto c : {E->T.get({K::Cmp, (uint8_t)CmpInst::ICMP_EQ, 1, nullptr, want, o, 0}), E->T.get({K::Cmp, (uint8_t)CmpInst::ICMP_EQ, 1, nullptr, o, want, 0})}) if (E->single(c, S, q) && !q) differs = true;
        for (auto c : {E->T.get({K::Cmp, (uint8_t)CmpInst::ICMP_NE, 1, nullptr, want, o, 0}), E->T.get({K::Cmp, (uint8_t)CmpInst::ICMP_NE, 1, nullptr, o, want, 0})}) if (E->single(c, S, q) && q) differs = true;
        put(0, differs ? want : E->T.fresh(CB, 32, 77)); put(1, ft); put(2, ff); } // there are two origins
      bool k0 = a.S.flag[0], k1 = a.S.flag[1], k2 = a.S.flag[2]; for (int i = 0; i < 3; ++i) a.S.flag[i] = 0; keys(a.S); if (conv) { int64_t pv; if (E->single(query(nullptr, 0x0630, 8, S), S, pv) && pv) a.S.flag[5] = 1; if (k0) a.S.flag[0] = 1; if (k1 && eq(t, ft, S)) a.S.flag[1] = 1; if (k2 && eq(f, ff, S)) a.S.flag[2] = 1; a.S.flag[3] = fixedFormat(f, S); } else { if (k1) a.S.flag[1] = 1; if (k2) a.S.flag[2] = 1; } keys(outs.back().S); outs.push_back(a); a.S.note(n + " at " + exactLine(CB)); return true; }
    return false; }
  bool fixedFormat(Sym f, State &S) { int64_t v; return !E->range(f, S).contains(APInt(32, 0x1900)) || (E->single(E->T.get({K::Cmp, (uint8_t)CmpInst::ICMP_EQ, 1, nullptr, f, E->T.cst(0x1900, 32), 0}), S, v) && !v); }
  void keys(State &S) { for (int i = 0; i < 3; ++i) if (!S.flag[i]) S.flag[i] = holds(i, S, Cur); } // keeps the cases apart at joins
  void onEntry(State &S) override { Sym img = E->load(E->eval(Cur, S), 64, FieldClass{Cur, -1}, S, Cur); E->store(E->eval(Cur, S), img, 64, FieldClass{Cur, -1}, S, Cur); for (int i = 0; i < 3; ++i) E->store(E->T.off(img, fld[i].off), E->T.fresh(Cur, 32, 80 + i), 32, fld[i].cls(), S, Cur); for (int i = 0; i < 3; ++i) { S.reg[i] = query(nullptr, en[i], 8, S); S.reg[3 + i] = query(nullptr, mode[i], 32, S); } S.reg[6] = query(nullptr, 0x0630, 8, S); keys(S); }
  void onBranch(const BranchInst *I, State &S, bool taken) override { keys(S); Sym f = field(2, S, Cur), p = query(nullptr, 0x0630, 8, S); if (!S.flag[3]) S.flag[3] = fixedFormat(f, S); if (!S.flag[4]) { int64_t v; Sym z = E->T.get({K::Cast, (uint8_t)Instruction::ZExt, 32, nullptr, p, 0, 0}); S.flag[4] = !E->range(p, S).contains(APInt(8, 1)) || (E->single(E->T.get({K::Cmp, (uint8_t)CmpInst::ICMP_EQ, 1, nullptr, z, E->T.cst(1, 32), 0}), S, v) && !v); } }
  void onRet(const ReturnInst *I, State &S, Sym v) override { if (E->isNull(v, S)) return; C.R.count["success_returns"]++; const char *what[3] = {"origin", "type", "format"};
    
    for (int i = 0; i < 3; ++i) { C.R.items["modes"].insert(what[i]); if (!S.flag[i] && !(S.flag[5] && i)) C.R.add(std::string("mode:") + what[i], exactLine(I), std::string("an image is left without the ") + what[i] + " that was requested", S.path()); }
    C.R.items["modes"].insert("palette"); if (!S.flag[3] && !S.flag[4]) C.R.add("mode:palette", exactLine(I), "an image is left with a palette although IL_CONV_PAL is set", S.path()); }
};
constexpr int CurProp::mode[3]; constexpr int CurProp::en[3];
// the walk over the images of a chain: ilFixImage
struct WalkProp : Prop {
  Ctx &C; int n[4]; std::set<int> *missing = nullptr; bool lost = false, silent = false; std::string at; WalkProp(Ctx &C) : C(C) {}
  bool onCall(const CallBase *CB, const std::string &nm, State &S, std::vector<CallOut> &outs) override {
    static const std::map<std::string, int> act = {{"ilActiveImage", 0}, {"ilActiveFace", 1}, {"ilActiveLayer", 2}, {"ilActiveMipmap", 3}}; static const std::map<int64_t, int> num = {{0x0DF1, 0}, {0x0DE1, 1}, {0x0DF3, 2}, {0x0DF2, 3}};
    unsigned w = CB->getType()->isIntegerTy() ? CB->getType()->getIntegerBitWidth() : 0; int64_t v; CallOut k; k.S = S; k.retSet = true;
    if (nm == "ilGetInteger" && E->single(E->eval(CB->getArgOperand(0), S), S, v) && num.count(v)) { k.ret = E->T.cst(n[num.at(v)], 32); outs.push_back(k); return true; }
    if (nm == "ilGetCurName") { k.ret = E->T.get({K::Misc, 12, 32, nullptr, 0, 0, 12}); outs.push_back(k); return true; }
    if (nm == "ilBindImage") { for (int i = 0; i < 4; ++i) k.S.flag[i] = 0; k.retSet = false; outs.push_back(k); return true; }
    auto it = act.find(nm); if (it != act.end()) { if (!E->single(E->eval(CB->getArgOperand(0), S), S, v)) { k.S.flag[9] = 1; v = 0; } bool order = true; for (int j = it->second + 1; j < 4; ++j) if (S.flag[j]) order = false; if (!order || v > n[it->second]) k.S.flag[9] = 1; k.S.flag[it->second] = v; k.ret = E->T.cst(1, w); outs.push_back(k); return true; }
    if (nm == "ilFixCur") { int c = 0; for (int i = 0; i < 4; ++i) c = c * 4 + S.flag[i]; CallOut f = k; f.ret = E->T.cst(0, w); f.S.flag[10] = 1; f.S.note("ilFixCur fails at " + exactLine(CB)); outs.push_back(f); k.ret = E->T.cst(1, w); k.S.flag[100 + c] = 1; outs.push_back(k); return true; }
    return false; }
  void onRet(const ReturnInst *I, State &S, Sym v) override { if (E->isNull(v, S)) return; C.R.count["walks"]++; if (S.flag.count(9)) lost = true; if (S.flag.count(10)) silent = true; at = exactLine(I);
    for (int a = 0; a <= n[0]; ++a) for (int b = 0; b <= n[1]; ++b) for (int c = 0; c <= n[2]; ++c) for (int d = 0; d <= n[3]; ++d) if (!S.flag.count(100 + ((a * 4 + b) * 4 + c) * 4 + d)) C.R.add("walk:missed", at, "a chain with " + std::to_string(n[0]) + " further images, " + std::to_string(n[1]) + " faces, " + std::to_string(n[2]) + " layers and " + std::to_string(n[3]) + " mipmaps: image " + std::to_string(a) + " face " + std::to_string(b) + " layer " + std::to_string(c) + " mipmap " + std::to_string(d) + " is not fixed"); }
};
CHECK(fixup) {
  auto *Fix = C.P.fn("ilFixImage"), *One = C.P.fn("ilFixCur"); if (!Fix) { C.R.broken("no function ilFixImage"); return; }
  { FixSumm Z(C); for (auto *f : C.reachingCalls({"ilFixImage", "ilTexImage", "ilTexImage_"})) Z.rel.insert(f); Z.rel.erase(Fix);
    for (const char *skip : {"ilTexImage", "ilTexImage_", "ilConvertImage", "iConvertImage", "ilFlipImage"}) if (auto *f = C.P.fn(skip)) Z.rel.erase(f);
    std::set<const Function *> loaders; for (const char *d : {"ilLoad", "ilLoadF", "ilLoadL", "ilLoadImage"}) { auto *D = C.P.fn(d); if (!D) { C.R.broken(std::string("no function ") + d); continue; } for (auto *g : C.P.callees[D]) if (!g->isDeclaration() && Z.rel.count(g) && !C.isApi(g)) loaders.insert(g); for (auto *g : C.P.callees[D]) if (!g->isDeclaration() && Z.rel.count(g) && srcName(g).compare(0, 6, "ilLoad") == 0) loaders.insert(g); }
    for (const char *d : {"ilLoadData", "ilLoadDataF", "ilLoadDataL"}) if (auto *D = C.P.fn(d)) loaders.insert(D);
    for (auto *L : loaders) { std::string n = srcName(L); if (n == "ilLoadImage" || n == "ilLoad" || n == "ilLoadF" || n == "ilLoadL") continue; C.R.items["loaders"].insert(n); C.R.notes.clear(); for (auto &o : Z.get(L, 0)) if (o.cls && !o.flag.count(1)) { C.R.add("loader:" + n, fileOf(L) + "(" + n + ")", n + " can succeed without the image having been brought to the requested origin, type and format", C.R.notes.empty() ? "" : C.R.notes[0]); break; } }
    C.R.notes.clear(); }
  if (One) { CurProp p(C); if (!p.fld[0] || !p.fld[1] || !p.fld[2] || !p.Cur) { C.R.broken("no ILimage fields"); return; } if (!runOn(C, One, p, [&](const Function *G) { std::string n = srcName(G); return n != "ilIsEnabled" && n != "ilGetInteger" && n != "ilGetBoolean" && n != "ilFlipImage" && n != "ilConvertImage" && n != "ilSetError"; })) C.R.broken("ilFixCur: budget"); } else C.R.broken("no function ilFixCur");
  int shapes[][4] = {{0, 0, 0, 0}, {1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {2, 0, 0, 1}, {0, 2, 0, 2}, {1, 1, 1, 1}, {2, 1, 1, 2}};
  for (auto &s : shapes) { WalkProp p(C); for (int i = 0; i < 4; ++i) p.n[i] = s[i]; runOn(C, Fix, p, [](const Function *G) { std::string n = srcName(G); return n.compare(0, 8, "ilActive") && n != "ilFixCur" && n != "ilBindImage" && n != "ilGetInteger" && n != "ilGetCurName" && n != "ilSetError"; }, [](Function *, Engine &E) { E.K = 64; }); C.R.items["shapes"].insert(std::to_string(s[0]) + "," + std::to_string(s[1]) + "," + std::to_string(s[2]) + "," + std::to_string(s[3]));
    if (p.at.empty()) C.R.add("walk:none", fileOf(Fix), "ilFixImage never succeeds on such a chain"); if (p.lost) C.R.add("walk:selection", p.at, "the selection of an image to fix is not relative to the base image"); if (p.silent) C.R.add("walk:silent", p.at, "ilFixImage reports success although an image could not be fixed"); }
}
}
