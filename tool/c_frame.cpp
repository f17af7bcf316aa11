#include "summ.h"
#include "llvm/IR/InstIterator.h"
#include <sstream>
using namespace llvm;
namespace dv {
// P32: calls that only look at the current image leave it as it was.
// A function's effect is the set of places of the images it is given (the one
// bound when it starts, and what its parameters point to) that may differ
// when it returns from what they were when it started.
enum { ROOT = 10000, PIXELS = 9000, STORAGE = 9001, SUBIMG = 9002, SWAPPED = 9005 };
struct ImgLayout { struct Fld { int64_t off; unsigned w; FieldClass c; std::string name; }; std::vector<Fld> f; std::set<FieldClass> cls; int64_t data = -1, size = 0; std::set<int64_t> stor, sub;
  const Fld *at(int64_t o) const { for (auto &x : f) if (x.off == o) return &x; return nullptr; } };
struct FrameSumm;
struct FrameProp : SummProp {
  Report &R; const ImgLayout &L; GlobalVariable *Cur; FieldClass curCls; Sym B0 = 0; std::map<Sym, int> rootId; std::map<std::pair<int, int64_t>, Sym> ent; std::map<Sym, Sym> may; std::string trail;
  FrameProp(Report &R, const ImgLayout &L, GlobalVariable *G, FieldClass cc) : R(R), L(L), Cur(G), curCls(cc) {}
  bool keyOffsets() const override { return false; }
  Sym cur(State &S, const void *s) { return E->load(E->eval(Cur, S), 64, curCls, S, s); }
  FieldClass Fmt, Org; enum { SPLIT = 1000000 }; std::map<const CallBase *, int> siteId;
  void onLoad(const LoadInst *I, Sym p, Sym v, State &S) override { auto c = classOfAccess(I); unsigned w = E->T[v].w; if (c == Fmt) E->assumeRange(v, ConstantRange(APInt(w, 0x1900), APInt(w, 0x80E2)), S); else if (c == Org) E->assumeRange(v, ConstantRange(APInt(w, 0x601), APInt(w, 0x603)), S); }
  void onEntry(State &S) override { B0 = cur(S, F); rootId[B0] = 0; preload(S, B0, 0); bool img = false; auto m = Z->C.P.mod.find(F); if (m != Z->C.P.mod.end()) for (auto &c : m->second) img |= L.cls.count(c) > 0;
    for (auto &A : F->args()) if (A.getType()->isPointerTy()) { Sym a = E->eval(&A, S); rootId[a] = 1 + A.getArgNo(); if (img) preload(S, a, 1 + A.getArgNo()); } }
  void preload(State &S, Sym b, int r) { for (auto &f : L.f) ent[{r, f.off}] = E->load(E->T.off(b, f.off), f.w, f.c, S, F); }
  // where a pointer leads: effect id, or -1
  int where(Sym p, int d = 0) { if (d > 12) return -1; auto m = may.find(p); if (m != may.end()) return where(m->second, d + 1); auto &n = E->T[p];
    if (n.k == K::Off) { auto r = rootId.find(n.a); if (r != rootId.end()) return r->second * ROOT + (n.n >= 0 && n.n < L.size ? (int)n.n : STORAGE); int w = where(n.a, d + 1); if (w >= 0 && w % ROOT == 0 && may.count(n.a)) return w + (n.n >= 0 && n.n < L.size ? (int)n.n : STORAGE); return w; }
    if (n.k == K::Var) { int w = where(n.a, d + 1); return w; }
    auto r = rootId.find(p); if (r != rootId.end()) return r->second * ROOT;
    if (n.k == K::Load) { auto [b, o0] = E->T.split(n.a); int64_t o = o0 + n.n; int w = where(b, d + 1); if (w < 0) return -1; int root = w / ROOT; int in = w % ROOT; if (in >= PIXELS) return root * ROOT + in; if (rootId.count(b) || may.count(b)) { if (o == L.data) return root * ROOT + PIXELS; if (L.stor.count(o)) return root * ROOT + STORAGE; if (L.sub.count(o)) return root * ROOT + SUBIMG; } return root * ROOT + STORAGE; }
    return -1; }
  void onJoin(const State &a, const State &b, State &r, const std::map<Sym, std::pair<Sym, Sym>> &made) override { for (auto &m : made) if (E->T[m.first].w == 64) for (Sym x : {m.second.first, m.second.second}) if (x != m.first && where(x) >= 0 && !may.count(m.first)) { bool cyc = false; for (Sym y = x; may.count(y); y = may[y]) if (may[y] == m.first) cyc = true; if (!cyc) may[m.first] = x; } }
  bool relational() const override { return true; }
  void onRename(const State &B, State &S, const std::map<Sym, Sym> &sub) override { for (auto &m : sub) if (E->T[m.first].w == 64 && m.first != m.second && !may.count(m.second) && !rootId.count(m.second) && where(m.second) < 0 && where(m.first) >= 0) may[m.second] = m.first; }
  // a pointer found different from the image bound at the start
  bool apart(Sym p, State &S) { for (int d = 0; d < 12; ++d) { if (S.obj.count(p)) return true; auto &n = E->T[p]; if (n.k == K::Off || n.k == K::Var) p = n.a; else return false; } return false; }
  void onBranch(const BranchInst *I, State &S, bool taken) override { auto *IC = dyn_cast<ICmpInst>(I->getCondition()); if (!IC || !IC->isEquality() || !IC->getOperand(0)->getType()->isPointerTy()) return; if ((IC->getPredicate() == CmpInst::ICMP_EQ) == taken) return;
    Sym a = E->eval(IC->getOperand(0), S), b = E->eval(IC->getOperand(1), S); for (auto x : {a, b}) { Sym y = x == a ? b : a; if (may.count(x) && where(x) >= 0 && where(x) == where(y) && !may.count(y)) S.obj[x] = 1; } }
  void changed(State &S, int id, const std::string &at) { if (S.flag[id]) return; S.flag[id] = 1; S.note("changes " + name(id) + " at " + at); }
  std::string name(int id) { int in = id % ROOT; std::string s = in == PIXELS ? "pixel data" : in == STORAGE ? "palette or other data" : in == SUBIMG ? "sub-images" : in == SWAPPED ? "order of red and blue" : ""; if (s.empty()) { auto *f = L.at(in); s = f ? f->name : "offset " + std::to_string(in); } return s; }
  void onStore(const StoreInst *I, Sym p, Sym v, State &S) override { int w = where(p); if (w < 0 || apart(p, S)) return; int in = w % ROOT, r = w / ROOT; if (in < PIXELS) { auto e = ent.find({r, in}); auto [b, o] = E->T.split(p); (void)o; bool direct = rootId.count(b) && rootId[b] == r; if (direct && e != ent.end() && (e->second == v || same(e->second, v, S) || undone(e->second, v, S) || undoneBy(e->second, I->getValueOperand(), S))) { S.flag.erase(w); return; } if (!direct && E->T[b].k == K::Var) w = r * ROOT + STORAGE; }
    changed(S, w, exactLine(I)); }
  bool same(Sym a, Sym b, State &S) { int64_t x, y; return E->single(a, S, x) && E->single(b, S, y) && x == y; }
  // (x / k) * k: these fields are multiples of the channel size
  bool undone(Sym x, Sym v, State &S) { auto &n = E->T[v]; if (n.k != K::Bin || (n.op != Instruction::Mul && n.op != Instruction::Shl)) return false; for (auto [q, k] : {std::pair<Sym, Sym>{n.a, n.b}, {n.b, n.a}}) { auto &d = E->T[q]; if (d.k == K::Bin && d.a == x && d.b == k && ((n.op == Instruction::Mul && (d.op == Instruction::UDiv)) || (n.op == Instruction::Shl && d.op == Instruction::LShr && q == n.a))) return true; int64_t c1, c2; if (d.k == K::Bin && d.a == x && E->single(d.b, S, c1) && E->single(k, S, c2)) { if (d.op == Instruction::LShr) c1 = 1ll << c1; else if (d.op != Instruction::UDiv) continue; if (n.op == Instruction::Shl) c2 = 1ll << c2; if (c1 == c2) return true; } } return false; }
  bool undoneBy(Sym x, const Value *V, State &S) { auto *BO = dyn_cast<BinaryOperator>(V); if (!BO || (BO->getOpcode() != Instruction::Mul && BO->getOpcode() != Instruction::Shl)) return false; Sym a = E->eval(BO->getOperand(0), S), b = E->eval(BO->getOperand(1), S); return undone(x, E->T.get({K::Bin, (uint8_t)BO->getOpcode(), E->T[a].w, nullptr, a, b, 0}), S); }
  static bool writes(const std::string &n, unsigned k) { static const std::set<std::string> w0 = {"memcpy", "memmove", "memset", "strcpy", "strcat", "strncpy", "sprintf", "snprintf", "vsprintf", "vsnprintf", "fread", "*iread", "qsort", "fgets"}; return k == 0 && (w0.count(n) || StringRef(n).starts_with("llvm.mem")); }
  void applyEffect(const CallBase *CB, State &S, int id, const std::vector<Sym> &args, Sym curAt, const std::string &n) { int r = id / ROOT, in = id % ROOT; Sym a = r ? (r - 1 < (int)args.size() ? args[r - 1] : 0) : curAt; if (!a || apart(a, S)) return; int w;
    if (in < PIXELS) { Sym p = E->T.off(a, in); w = where(p); if (w < 0) return; auto [b, o] = E->T.split(p); for (auto &kv : S.mem) if (kv.first.base == b && kv.first.off == o) kv.second.v = E->T.get({K::Misc, 12, (uint16_t)kv.second.w, CB, b, 0, o}); }
    else { int q = where(a); if (q < 0) return; int qi = q % ROOT; bool whole = rootId.count(a) || (may.count(a) && qi == 0); w = q / ROOT * ROOT + (whole ? in : qi >= PIXELS ? qi : STORAGE); if (in == SWAPPED && whole) { if (S.flag.count(w)) { S.flag.erase(w); S.note(n + " changes it back at " + exactLine(CB)); return; } } }
    if (!S.flag.count(w)) { S.flag[w] = 1; S.note(n + " changes " + name(w) + " at " + exactLine(CB)); } }
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override {
    if (isa<DbgInfoIntrinsic>(CB)) return false;
    if (n == "ilSetError") { CallOut o; o.S = S; outs.push_back(o); return true; }
    State B = S; std::vector<Sym> args; for (auto &A : CB->args()) args.push_back(A->getType()->isPointerTy() ? E->eval(A, B) : 0); Sym c0 = cur(B, CB);
    if (n == "ilGetCurImage") { CallOut k; k.S = B; k.retSet = true; k.ret = c0; outs.push_back(k); return true; }
    std::vector<std::pair<Loc, MemVal>> keep; for (auto &kv : B.mem) if (!kv.second.c.raw() && where(kv.first.base) >= 0) keep.push_back(kv);
    Sym ret = 0; E->defaultCall(CB, B, ret); for (auto &kv : keep) B.mem[kv.first] = kv.second;
    if (n == "ilSwapColours") { CallOut k; k.S = B; if (ret) k.retSet = true, k.ret = ret; applyEffect(CB, k.S, SWAPPED, args, c0, n); outs.push_back(k); return true; } // its own inverse
    auto T = targetsOf(Z->C, CB); if (ret && E->T[ret].w == 64 && T.size() == 1 && Z->C.P.givesFresh.count(*T.begin())) for (auto &e : ent) if (E->T[e.second].w == 64) E->distinct(ret, e.second, B);
    std::set<Outcome> all; bool ext = T.empty();
    for (auto *G : T) { if (G->isDeclaration()) { ext = true; continue; } std::string gf = fileOf(G); if (gf.find("/src-I") == std::string::npos) { ext = true; continue; } auto &o = Z->get(G, 0); all.insert(o.begin(), o.end()); }
    bool split = CB->getType()->isPointerTy() && !args.empty() && args[0] && where(args[0]) >= 0; // what is made from the image is kept apart from it
    if (ext) { CallOut k; k.S = B; if (ret) k.retSet = true, k.ret = ret; for (unsigned i = 0; i < args.size(); ++i) if (args[i] && writes(n, i)) applyEffect(CB, k.S, (1 + i) * ROOT, args, c0, n); outs.push_back(k); }
    for (auto &o : all) { CallOut co; co.S = B; if (!Summarizer::apply(*E, CB, o, co)) continue; for (auto &f : o.flag) applyEffect(CB, co.S, f.first, args, c0, n); if (co.retSet && split) co.S.flag[SPLIT + siteId.insert({CB, (int)siteId.size()}).first->second] = E->isNull(co.ret, co.S) ? 0 : 1; outs.push_back(co); }
    if (outs.empty()) { bool rec = false; for (auto *G : T) if (Z->active.count({G, 0})) rec = true; if (rec) { CallOut co; co.S = B; if (ret) co.retSet = true, co.ret = ret; outs.push_back(co); } }
    return true; }
  void onRet(const ReturnInst *I, State &S, Sym v) override { auto o = Summarizer::outcome(*E, S, I, v); for (auto it = o.flag.begin(); it != o.flag.end();) it = it->second && it->first < SPLIT ? std::next(it) : o.flag.erase(it); R.count["exits_checked"]++;
    if (o.cls == 3) o.cls = 1, o.val = 0; for (auto &f : o.flag) trails.insert({f.first, S.path() + " -> returns at " + exactLine(I)});
    for (auto it = outs.begin(); it != outs.end(); ++it) if (it->cls == o.cls && it->val == o.val) { Outcome q = *it; q.flag.insert(o.flag.begin(), o.flag.end()); outs.erase(it); outs.insert(q); keepTrails(); return; } outs.insert(o); keepTrails(); }
  std::map<int, std::string> trails; void keepTrails();
};
struct FrameSumm : Summarizer { ImgLayout L; GlobalVariable *G; FieldClass cc; std::map<const Function *, std::map<int, std::string>> trails; FrameSumm(Ctx &C) : Summarizer(C) {} FieldClass Fmt, Org; SummProp *make(const Function *F, int ctx) override { auto *p = new FrameProp(C.R, L, G, cc); p->Fmt = Fmt; p->Org = Org; return p; } };
void FrameProp::keepTrails() { auto &t = static_cast<FrameSumm *>(Z)->trails[F]; t.insert(trails.begin(), trails.end()); }
CHECK(frame) {
  FrameSumm Z(C); Z.G = C.P.gv("iCurImage"); if (!Z.G) { C.R.broken("no variable iCurImage"); return; } Z.cc = FieldClass{Z.G, -1}; for (auto &kv : C.P.mod) for (auto &c : kv.second) if (c.p == Z.G) Z.cc = c;
  for (const char *m : {"Width", "Height", "Depth", "Bpp", "Bpc", "Bps", "Data", "SizeOfData", "SizeOfPlane", "Format", "Type", "Origin", "Duration", "CubeFlags", "Mipmaps", "Next", "Faces", "Layers", "AnimList", "AnimSize", "Profile", "ProfileSize", "OffX", "OffY", "DxtcData", "DxtcFormat", "DxtcSize"}) { auto r = fieldOf(C, "ILimage", m); if (!r) { C.R.broken(std::string("ILimage.") + m + " not found"); return; } Z.L.f.push_back({r.off, r.w, r.cls(), m}); Z.L.cls.insert(r.cls()); Z.L.size = std::max(Z.L.size, r.off + 8); std::string s = m; if (s == "Format") Z.Fmt = r.cls(); if (s == "Origin") Z.Org = r.cls(); if (s == "Data") Z.L.data = r.off; if (s == "AnimList" || s == "Profile" || s == "DxtcData") Z.L.stor.insert(r.off); if (s == "Mipmaps" || s == "Next" || s == "Faces" || s == "Layers") Z.L.sub.insert(r.off); }
  auto pal = fieldOf(C, "ILimage", "Pal"); if (pal) for (const char *m : {"Palette", "PalSize", "PalType"}) { auto r = fieldOf(C, "ILpal", m); if (!r) continue; Z.L.f.push_back({pal.off + r.off, r.w, r.cls(), std::string("Pal.") + m}); Z.L.cls.insert(r.cls()); if (std::string(m) == "Palette") Z.L.stor.insert(pal.off + r.off); }
  bool busy = false; C.P.keeps = [&](const Function *F, const FieldClass &c) { if (c.p != Z.G || busy || F->isDeclaration()) return false; busy = true; bool k = keepsImage(C, F); busy = false; return k; };
  const std::string PAL = "Pal.Palette Pal.PalSize Pal.PalType", PIX = "@pixel data @palette or other data";
  std::map<std::string, std::string> allow; auto put = [&](const std::string &names, const std::string &what) { std::stringstream ss(names); std::string n; while (ss >> n) allow[n] = what; };
  // look at, save, describe or choose
  put("ilSave ilSaveImage ilSaveF ilSaveL ilSaveData ilSavePal ilTypeFromExt ilDetermineType ilDetermineTypeF ilDetermineTypeL ilDetermineSize ilIsValid ilIsValidF ilIsValidL ilGetDXTCData ilCompressDXT ilGetData ilGetPalette ilGetAlpha ilCopyPixels "
      "ilCloneCurImage ilGetError ilGetLumpPos ilGetString ilGetBoolean ilGetBooleanv ilGetInteger ilGetIntegerv ilIsEnabled ilIsDisabled ilIsImage ilGenImage ilGenImages ilBindImage ilActiveImage ilActiveMipmap ilActiveFace ilActiveLayer "
      "ilEnable ilDisable ilPushAttrib ilPopAttrib ilHint ilSetString ilOriginFunc ilFormatFunc ilTypeFunc ilCompressFunc ilKeyColour ilClearColour ilResetRead ilSetRead ilResetWrite ilSetWrite ilSetMemory ilResetMemory ilRegisterLoad ilRegisterSave ilRemoveLoad ilRemoveSave "
      "ilRegisterNumFaces ilRegisterMipNum ilRegisterNumImages iluErrorString iluSetLanguage iluInit iluColoursUsed iluCompareImage iluRegionfv iluRegioniv iluGetString iluGetInteger iluGetIntegerv iluImageParameter iluGenImage iluGetImageInfo "
      "ilutInit ilutGetString ilutEnable ilutDisable ilutIsEnabled ilutIsDisabled ilutGetBoolean ilutGetBooleanv ilutGetInteger ilutGetIntegerv ilutSetInteger ilutPushAttrib ilutPopAttrib ilutRenderer ilInit", "");
  // give the image one attribute
  put("ilRegisterOrigin", "Origin"); put("ilRegisterFormat", "Format"); put("ilRegisterType", "Type"); put("ilSetDuration", "Duration"); put("ilSetInteger", "Duration CubeFlags OffX OffY"); put("ilRegisterPal ilLoadPal ilConvertPal", PAL); put("ilSurfaceToDxtcData", "DxtcData DxtcFormat DxtcSize");
  // work on the pixels where they are
  put("ilClampNTSC iluScaleAlpha iluScaleColours iluGammaCorrect iluSaturate1f iluSaturate4f iluAlienify iluContrast iluSharpen iluSepia iluFlipImage iluInvertAlpha iluNegative iluWave iluReplaceColour iluEqualize iluEqualize2 iluNoisify", PIX); put("ilSetData ilSetPixels iluMirror", "Data " + PIX);
  int seen = 0; FrameProp np(C.R, Z.L, Z.G, Z.cc);
  auto leaf = [&](const Function *F, int id, std::string &at, std::string &path) { std::set<const Function *> done; const Function *G = F; at = srcName(F);
    while (G && done.insert(G).second) { auto &t = Z.trails[G]; auto it = t.find(id); if (it == t.end()) for (it = t.begin(); it != t.end() && np.name(it->first) != np.name(id); ++it) {} if (it == t.end()) return; path += (path.empty() ? "" : "; ") + srcName(G) + ": " + it->second; at = srcName(G);
      size_t c = std::string::npos; std::string mark = "changes " + np.name(id) + " at "; c = it->second.find(mark); if (c == std::string::npos || c < 2) return; size_t b = it->second.rfind(' ', c - 2); std::string callee = it->second.substr(b == std::string::npos ? 0 : b + 1, c - 1 - (b == std::string::npos ? 0 : b + 1)); G = C.P.fn(callee); } };
  for (auto &F : *C.P.M) { if (F.isDeclaration() || !C.isApi(&F)) continue; std::string n = srcName(&F); if (C.opt.count("only") && C.opt["only"] != n) continue; auto al = allow.find(n); if (!C.opt.count("list") && al == allow.end()) continue; if (C.opt.count("noload") && StringRef(n).contains("Load") && n != "ilLoadPal") continue;
    auto os = Z.get(&F, 0); std::set<int> e; for (auto &o : os) for (auto &f : o.flag) if (f.first / ROOT == 0) e.insert(f.first);
    if (C.opt.count("list")) { errs() << "EFF " << n; for (int x : e) errs() << " | " << np.name(x); errs() << "\n"; if (C.opt["list"] == "t") for (auto &t : Z.trails[&F]) errs() << "   " << t.first << " " << t.second << "\n"; }
    if (al == allow.end()) continue; seen++; C.R.items["calls"].insert(n); std::string ok = " " + al->second + " ";
    for (int x : e) { std::string w = np.name(x); if (x >= PIXELS ? al->second.find("@" + w) != std::string::npos : ok.find(" " + w + " ") != std::string::npos) continue;
      std::string at, path; leaf(&F, x, at, path); C.R.add("changes:" + n + ":" + w, at, n + " can return with the " + w + " of the image it works on changed" + (al->second.empty() ? ", though it only looks at it" : ", which is not its business"), path); } }
  if (C.opt.count("trails")) for (auto &kv : Z.trails) if (srcName(kv.first).rfind(C.opt["trails"], 0) == 0) for (auto &t : kv.second) if (t.first < ROOT) { FrameProp p(C.R, Z.L, Z.G, Z.cc); errs() << "TR " << srcName(kv.first) << " " << p.name(t.first) << ": " << t.second << "\n"; }
  C.P.keeps = nullptr;
}
}
