#include "summ.h"
#include "llvm/IR/InstIterator.h"
using namespace llvm;
namespace dv {
// P06: no dereference of a pointer that is null on the path (allocation, open or creation failed)
static bool mayFail(const std::string &n) {
  static const std::set<std::string> s = {"*ialloc_ptr","malloc","calloc","realloc","strdup","*iopenr","*iopenw","fopen","png_create_read_struct","png_create_write_struct","png_create_info_struct",
    "TIFFOpen","TIFFClientOpen","mng_initialize","cmsOpenProfileFromFile","cmsCreateTransform","cmsOpenProfileFromMem","cmsCreate_sRGBProfile","gzopen"};
  return s.count(n);
}
static bool inDevIL(const Function *F) { std::string f = fileOf(F); return f.find("/src-I") != std::string::npos && f.find("rg_etc1") == std::string::npos; }
// calls whose failure need not fail the caller: iFileExists looks whether a file can be opened; a missing cache only
// slows reading down; metadata strings are written when present; a file that is no IFF is tried as ILBM
static bool optional(const std::string &n) { return n == "iFileExists" || n == "iPreCache" || n == "iGetString" || n == "iLoadIffInternal" ||
  n == "ilBindImage" /* selecting a name that exists allocates nothing; reports its own errors */; }
struct AllocProp : SummProp {
  GlobalVariable *Cur = nullptr; FieldRef Data, PalP; int64_t Pal = 0;
  Report &R; std::map<SummKey, std::string> &via; AllocProp(Report &R, std::map<SummKey, std::string> &v) : R(R), via(v) {}
  // flags remember the first failing call, so that states are only merged per failing call
  std::map<const CallBase *, int> ids; void mark(State &S, int f, const CallBase *CB) { if (S.flag.count(f)) return; auto it = ids.emplace(CB, (int)ids.size() + 1).first; S.flag[f] = it->second; }
  void onEntry(State &S) override { unsigned i = 0; for (auto &A : F->args()) { if (i < 24 && (ctx >> (i + 1)) & 1) S.env[&A] = E->T.cst(0, 64); ++i; } }
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override {
    if (n == "ilSetError") { CallOut o; o.S = S; outs.push_back(o); return true; }
    if (isa<MemIntrinsic>(CB)) { for (unsigned i = 0; i < (isa<MemTransferInst>(CB) ? 2u : 1u); ++i) { int64_t L; if (E->single(E->eval(CB->getArgOperand(2), S), S, L) && !L) continue; chk(CB, E->eval(CB->getArgOperand(i), S), S); } return false; }
    if (mayFail(n)) {
      R.items["failing_calls"].insert(locOf(CB));
      State B = S; Sym r = 0; E->defaultCall(CB, B, r); r = E->T.fresh(CB, 64);
      CallOut a; a.S = B; a.retSet = true; a.ret = E->T.cst(0, 64); mark(a.S, 8, CB); a.S.note(n + " fails at " + exactLine(CB)); outs.push_back(a);
      CallOut b; b.S = B; b.retSet = true; b.ret = r; b.S.facts.insert_or_assign(r, ConstantRange(APInt(64, 0)).inverse()); outs.push_back(b);
      return true;
    }
    if ((n == "*iread" || n == "*iwrite") && CB->arg_size() == 3) {
      int64_t z = 1; bool zero = false; for (unsigned i = 1; i < 3; ++i) if (E->single(E->eval(CB->getArgOperand(i), S), S, z) && z == 0) zero = true; else if (n == "*iwrite" && !E->nonNull(E->eval(CB->getArgOperand(i), S), S)) zero = true;
      if (!zero) chk(CB, E->eval(CB->getArgOperand(0), S), S);
      State B = S; Sym r = 0; E->defaultCall(CB, B, r); CallOut co; co.S = B; outs.push_back(co); return true; }
    auto T = targetsOf(Z->C, CB);
    if (T.empty()) { // library routines that dereference their pointer arguments
      static const std::map<std::string, int> lib = {{"strlen",1},{"strcpy",3},{"strncpy",3},{"strcmp",3},{"strcat",3},{"sprintf",3},{"strdup",1},{"fclose",1},{"fread",8},{"fwrite",8},{"fseek",1},{"ftell",1},{"fgetc",1},{"feof",1},{"fputc",2},{"strcasecmp",3},{"strncmp",3},{"strncasecmp",3},{"atoi",1},{"atof",1},{"sscanf",3},{"strstr",3},{"strchr",1},{"strrchr",1}};
      auto it = lib.find(n); if (it != lib.end()) for (unsigned i = 0; i < CB->arg_size() && i < 4; ++i) if ((it->second >> i & 1) && CB->getArgOperand(i)->getType()->isPointerTy()) chk(CB, E->eval(CB->getArgOperand(i), S), S);
      return false; }
    int c2 = 0; bool ours = inDevIL(F); for (auto *F2 : T) if (!inDevIL(F2)) ours = false;
    if (ours) for (unsigned i = 0; i < CB->arg_size() && i < 24; ++i) if (CB->getArgOperand(i)->getType()->isPointerTy() && E->isNull(E->eval(CB->getArgOperand(i), S), S)) c2 |= 2 << i;
    if (c2) { R.count["null_argument_contexts"]++; for (auto *F2 : T) { auto &s = via[{F2, c2}]; if (s.empty()) { s = exactLine(CB) + " " + S.path(4); if (ctx) s = via[{F, ctx}] + " -> " + s; } } }
    std::set<Outcome> all;
    for (auto *F2 : T) { auto &o = Z->get(F2, c2); all.insert(o.begin(), o.end()); }
    State B = S; Sym ret = 0; E->defaultCall(CB, B, ret);
    for (auto &o : all) {
      CallOut co; co.S = B;
      if (!Summarizer::apply(*E, CB, o, co)) continue;
      if (o.cls == 0 && (n == "ialloc" || n == "icalloc" || n == "ilNewImage" || n == "ilNewImageFull" || n == "ilCopyImage_" || n == "ilCopyImage")) mark(co.S, 8, CB);
      co.S.flag.erase(10); if ((o.cls == 0 || o.cls == 4) && o.flag.count(10)) mark(co.S, 8, CB), co.S.note(n + " fails at " + exactLine(CB));
      if (o.cls == 0 && CB->getType()->isPointerTy()) mark(co.S, 9, CB), co.S.note(n + " returns NULL at " + exactLine(CB));
      if (o.cls == 0 && Data && (n == "ilTexImage" || n == "ilTexImage_" || n == "ilTexImageSurface" || n == "ilTexImageSurface_" || n == "ilInitImage" || n == "ilResizeImage")) {
        // a failed (re)creation leaves the image without usable data
        R.items["creation_calls"].insert(locOf(CB));
        Sym img = 0; if (n == "ilTexImage" || n == "ilTexImageSurface") { if (Cur) img = E->load(E->eval(Cur, co.S), 64, FieldClass{Cur, -1}, co.S, CB); } else img = E->eval(CB->getArgOperand(0), co.S);
        if (img && !E->isNull(img, co.S)) E->store(E->T.off(img, Data.off), E->T.cst(0, 64), 64, Data.cls(), co.S, CB);
        co.S.note(n + " fails at " + exactLine(CB)); mark(co.S, 7, CB);
      }
      if (n == "ilRegisterPal" && o.cls == 4 && o.flag.count(10) && Cur && Pal) { // no palette left
        Sym img = E->load(E->eval(Cur, co.S), 64, FieldClass{Cur, -1}, co.S, CB); E->store(E->T.off(img, Pal), E->T.cst(0, 64), 64, PalP.cls(), co.S, CB); }
      outs.push_back(co);
    }
    if (all.empty()) { bool rec = false; for (auto *F2 : T) if (Z->active.count({F2, c2})) rec = true;
      if (rec) { CallOut co; co.S = B; outs.push_back(co); } }
    return true;
  }
  void chk(const Instruction *I, Sym p, State &S) {
    R.count["derefs_checked"]++;
    p = rootOf(E->T, p); int64_t v; if (inDevIL(F) && (ctx || S.flag.count(7) || S.flag.count(8) || S.flag.count(9)) && E->single(p, S, v) && v >= 0 && v < 4096) R.add("null-deref:" + srcName(F), locOf(I), "uses a pointer that is NULL on this path (failed allocation or open)", (ctx ? "null argument from " + via[{F, ctx}] + " -> " : std::string()) + S.path());
  }
  void onDeref(const Instruction *I, Sym p, State &S, bool st) override { chk(I, p, S); }
  void onLoad(const LoadInst *I, Sym p, Sym v, State &S) override { // a call without a bound image is the subject of P08
    if (Cur && I->getPointerOperand()->stripPointerCasts() == Cur && !E->isNull(v, S)) E->assumeRange(v, ConstantRange(APInt(64, 0)).inverse(), S); }
  void onRet(const ReturnInst *I, State &S, Sym v) override {
    auto o = Summarizer::outcome(*E, S, I, v);
    if (S.flag.count(7) || S.flag.count(8)) { const Type *T = F->getReturnType(); if (srcName(F) != "iSaveHdrInternal" /* falls back to uncompressed output */ && T->isIntegerTy(8) && (o.cls == 1 || o.cls == 3) && inDevIL(F)) { int id = S.flag.count(8) ? S.flag[8] : S.flag[7]; std::string cal; for (auto &x : ids) if (x.second == id) cal = calleeName(x.first); R.add("succeeds:" + srcName(F) + ":" + cal, fileOf(F) + "(" + srcName(F) + ")", "returns success although " + cal + " failed on this path (image or buffer missing)", S.path()); } }
    if ((S.flag.count(7) || S.flag.count(8)) && (o.cls == 0 || o.cls == 4) && (F->getReturnType()->isVoidTy() || F->getReturnType()->isIntegerTy(8) || F->getReturnType()->isPointerTy()) && !optional(srcName(F))) o.flag[10] = 1;
    o.flag.erase(7); o.flag.erase(8); o.flag.erase(9);
    outs.insert(o); }
};
struct AllocSumm : Summarizer { std::map<SummKey, std::string> via; FieldRef Data, Pal, PalP; AllocSumm(Ctx &C) : Summarizer(C), Data(fieldOf(C, "ILimage", "Data")), Pal(fieldOf(C, "ILimage", "Pal")), PalP(fieldOf(C, "ILpal", "Palette")) {} SummProp *make(const Function *F, int ctx) override { auto *p = new AllocProp(C.R, via); p->Cur = C.P.gv("iCurImage"); p->Data = Data; p->PalP = PalP; if (Pal && PalP) p->Pal = Pal.off + PalP.off; return p; } };
CHECK(allocnull) {
  AllocSumm Z(C);
  for (auto &F : *C.P.M) if (!F.isDeclaration() && inDevIL(&F)) { Z.get(&F, 0); C.R.count["functions"]++; }
}
}
