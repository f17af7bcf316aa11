#include "check.h"
#include "llvm/IR/InstIterator.h"
using namespace llvm;
namespace dv {
// P18: a copy of an image is complete and owns what it refers to.
struct CopyLayout { std::map<std::string, FieldRef> f; };
static Sym bare(const SymTab &T, Sym s) { for (int i = 0; i < 8 && T[s].k == K::Cast; ++i) s = T[s].a; return s; }
struct CopyBase : Prop { Ctx &C; const CopyLayout &L; std::map<std::pair<Sym, Sym>, int> ids; CopyBase(Ctx &C, const CopyLayout &L) : C(C), L(L) {}
  bool keyOffsets() const override { return false; }
  Sym member(Sym b, const char *m, State &S, const void *at) { auto &r = L.f.at(m); return E->load(E->T.off(b, r.off), r.w, r.cls(), S, at); }
  void put(Sym b, const char *m, Sym v, State &S, const void *at) { auto &r = L.f.at(m); E->store(E->T.off(b, r.off), v, r.w, r.cls(), S, at); }
  bool same(Sym a, Sym b, State &S) { a = bare(E->T, a); b = bare(E->T, b); if (a == b) return true; int64_t x, y; if (E->single(a, S, x) && E->single(b, S, y) && E->T[a].w == E->T[b].w) return x == y; return false; }
  bool equal(Sym a, Sym b, State &S) { if (same(a, b, S)) return true; int64_t t; for (auto q : {E->T.get({K::Cmp, (uint8_t)CmpInst::ICMP_EQ, 1, nullptr, a, b, 0}), E->T.get({K::Cmp, (uint8_t)CmpInst::ICMP_EQ, 1, nullptr, b, a, 0})}) if (E->single(q, S, t) && t) return true; return false; }
  bool structCopy(const CallBase *CB, State &S) { // *a = *b
    auto *M = dyn_cast<MemTransferInst>(CB); if (!M) return false; auto *N = dyn_cast<ConstantInt>(M->getLength()); if (!N) return false; Sym d = E->eval(M->getDest(), S), s = E->eval(M->getSource(), S); auto [db, dof] = E->T.split(d); auto [sb, sof] = E->T.split(s); std::vector<std::pair<const char *, Sym>> v;
    for (auto &m : L.f) if (m.second.off >= sof && m.second.off + m.second.w / 8 <= sof + (int64_t)N->getZExtValue()) v.push_back({m.first.c_str(), member(sb, m.first.c_str(), S, CB)}); if (v.empty() || dof != sof) return false; for (auto &x : v) put(db, x.first, x.second, S, CB); return true; }
};
// ilCopyImageAttr
struct AttrProp : CopyBase {
  using CopyBase::CopyBase; Sym dst = 0, src = 0; std::map<std::string, Sym> ent; std::map<Sym, Sym> size; std::map<std::tuple<Sym, Sym, Sym>, int> cp;
  void onEntry(State &S) override { src = E->eval(E->F.getArg(1), S); dst = E->eval(E->F.getArg(0), S); E->T.unique = {src, dst}; for (auto &m : L.f) ent[m.first] = member(src, m.first.c_str(), S, &E->F); }
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override {
    if (n == "ilCloseImage" || n == "ifree" || n == "ilSetError") { CallOut k; k.S = S; outs.push_back(k); return true; } // what is released here belongs to the old contents of the destination alone
    if (n == "ialloc" || n == "icalloc") { CallOut k; k.S = S; k.retSet = true; k.ret = E->T.fresh(CB, 64); CallOut z = k; E->assumeRange(k.ret, ConstantRange(APInt(64, 0)).inverse(), k.S); z.ret = E->T.cst(0, 64); Sym s = E->eval(CB->getArgOperand(0), S); if (n == "icalloc") { Sym t = E->eval(CB->getArgOperand(1), S); int64_t one; if (E->single(s, S, one) && one == 1) s = t; else if (!(E->single(t, S, one) && one == 1)) s = E->T.get({K::Bin, (uint8_t)Instruction::Mul, 64, nullptr, s, t, 0}); } size[k.ret] = s; outs.push_back(k); outs.push_back(z); return true; }
    if (structCopy(CB, S)) { CallOut k; k.S = S; outs.push_back(k); return true; }
    if (isa<MemTransferInst>(CB) || n == "memcpy" || n == "memmove") { Sym d = E->eval(CB->getArgOperand(0), S), s = E->eval(CB->getArgOperand(1), S), l = bare(E->T, E->eval(CB->getArgOperand(2), S)); CallOut k; k.S = S; k.S.flag[100 + cp.insert({{d, s, l}, (int)cp.size()}).first->second] = 1; if (!CB->getType()->isVoidTy()) k.retSet = true, k.ret = d; outs.push_back(k); return true; }
    return false; }
  // n elements of k bytes
  bool times(Sym n, Sym cnt, int64_t k, State &S) { n = bare(E->T, n); cnt = bare(E->T, cnt); if (n == cnt) return k == 1; auto &b = E->T[n]; if (b.k != K::Bin) return false; int64_t c; if (b.op == Instruction::Shl) return bare(E->T, b.a) == cnt && E->single(b.b, S, c) && (1ll << c) == k; if (b.op != Instruction::Mul) return false; return (bare(E->T, b.a) == cnt && E->single(b.b, S, c) && c == k) || (bare(E->T, b.b) == cnt && E->single(b.a, S, c) && c == k); }
  void onRet(const ReturnInst *I, State &S, Sym v) override { if (E->isNull(v, S)) return; C.R.count["success_returns"]++; std::string fn = srcName(&E->F);
    for (const char *m : {"Width", "Height", "Depth", "Bpp", "Bpc", "Bps", "SizeOfData", "SizeOfPlane", "Format", "Type", "Origin", "PalSize", "PalType", "Duration", "CubeFlags", "AnimSize", "OffX", "OffY"}) { if (!L.f.count(m)) continue; C.R.items["members"].insert(fn + " " + m); if (!equal(member(dst, m, S, I), ent[m], S)) C.R.add("member:" + fn + ":" + m, exactLine(I), fn + " can succeed without giving the copy the " + m + " of the original", S.path()); }
    struct Own { const char *p, *n; int64_t k; }; for (auto &o : {Own{"Palette", "PalSize", 1}, Own{"AnimList", "AnimSize", 4}, Own{"Profile", "ProfileSize", 1}}) { if (!L.f.count(o.p)) continue; C.R.items["members"].insert(fn + " " + o.p); Sym p = ent[o.p], d = member(dst, o.p, S, I), n = ent[o.n]; int64_t z;
      if (E->isNull(d, S) && (E->isNull(p, S) || (E->single(n, S, z) && z == 0))) continue; bool ok = false; std::string why = "not a copy of its own";
      if (size.count(d)) { if (!times(size[d], n, o.k, S)) why = "not of the size the original has"; else { why = "not filled"; for (auto &c : cp) if (S.flag.count(100 + c.second) && std::get<0>(c.first) == d && equal(std::get<1>(c.first), p, S) && times(std::get<2>(c.first), n, o.k, S)) ok = true; } }
      if (ok && std::string(o.p) == "Profile" && !same(member(dst, o.n, S, I), n, S)) { ok = false; why = "of unknown size"; }
      if (!ok) C.R.add("owned:" + fn + ":" + o.p, exactLine(I), fn + " can succeed with the " + o.p + " of the copy " + why, S.path()); } }
};
// ilCopyImage, ilCloneCurImage, ilCopyImage_
struct WholeProp : CopyBase {
  using CopyBase::CopyBase; GlobalVariable *Cur = nullptr; FieldClass cc; int kind = 0; Sym c0 = 0, p0 = 0; bool any = false;
  Sym cur(State &S, const void *s) { return E->load(E->eval(Cur, S), 64, cc, S, s); }
  void setCur(Sym v, State &S, const void *s) { E->store(E->eval(Cur, S), v, 64, cc, S, s); }
  int id(Sym d, Sym s) { return ids.insert({{d, s}, (int)ids.size()}).first->second; }
  void onEntry(State &S) override { c0 = cur(S, Cur); setCur(c0, S, Cur); if (E->F.arg_size()) p0 = E->eval(E->F.getArg(0), S); }
  Sym bound(Sym name) { return E->T.get({K::Misc, 13, 64, nullptr, name, 0, 13}); }
  // the image all these values were read from
  std::vector<Sym> sources(const std::vector<std::pair<const char *, Sym>> &want, State &S, const void *at) { std::set<Sym> c; for (auto &e : S.env) if (E->T[e.second].w == 64) c.insert(E->T.split(e.second).first); for (auto &w : want) { Sym b = bare(E->T, w.second); if (E->T[b].k == K::Load) c.insert(E->T.split(E->T[b].a).first); } if (kind == 3) c.insert(p0); c.insert(c0); c.insert(cur(S, at)); if (p0 && kind == 1) c.insert(bound(p0));
    std::vector<Sym> r; for (Sym x : c) { if (E->T[x].k == K::Const || E->T[x].k == K::Glob) continue; State Q = S; bool ok = true; for (auto &w : want) if (!same(member(x, w.first, Q, at), w.second, Q)) { ok = false; break; } if (ok) r.push_back(x); } return r; }
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override {
    unsigned w = CB->getType()->isIntegerTy() ? CB->getType()->getIntegerBitWidth() : 0; auto arg = [&](int i) { return E->eval(CB->getArgOperand(i), S); };
    auto fails = [&](State B) { CallOut k; k.S = B; k.retSet = true; k.ret = E->T.cst(0, CB->getType()->isPointerTy() ? 64 : w); outs.push_back(k); };
    if (n == "ilSetError" || n == "ilCloseImage" || n == "ilDeleteImages" || n == "ilDeleteImage" || n == "ifree") { CallOut k; k.S = S; outs.push_back(k); return true; }
    if (n == "ilBindImage") { CallOut k; k.S = S; setCur(bound(arg(0)), k.S, CB); outs.push_back(k); return true; }
    if (n == "ilSetCurImage") { CallOut k; k.S = S; setCur(arg(0), k.S, CB); outs.push_back(k); return true; }
    if (n == "ilGetCurImage") { CallOut k; k.S = S; k.retSet = true; k.ret = cur(S, CB); outs.push_back(k); return true; }
    if (n == "ilGetCurName") { CallOut k; k.S = S; k.retSet = true; k.ret = E->T.fresh(Cur, 32, 90); outs.push_back(k); return true; }
    if (n == "ilTexImage" || n == "ilTexImage_" || n == "ilNewImage" || n == "ilNewImageFull") { any = true; int o = n == "ilTexImage_"; static const char *T1[] = {"Width", "Height", "Depth", "Bpp", "Format", "Type", "Data"}, *T2[] = {"Width", "Height", "Depth", "Bpp", "Bpc"}; bool shrt = n == "ilNewImage"; std::vector<std::pair<const char *, Sym>> want; for (int i = 0; i < (shrt ? 5 : 7); ++i) want.push_back({shrt ? T2[i] : T1[i], arg(i + o)});
      bool data = !shrt && !E->isNull(arg(6 + o), S); if (!shrt && !data) want.pop_back(); auto src = sources(want, S, CB); fails(S); CallOut k; k.S = S; k.retSet = true; Sym d; if (CB->getType()->isPointerTy()) { d = k.ret = E->T.fresh(CB, 64, 91); E->assumeRange(k.ret, ConstantRange(APInt(64, 0)).inverse(), k.S); } else { d = o ? arg(0) : cur(S, CB); k.ret = E->T.cst(1, w); }
      for (auto &x : want) if (std::string(x.first) != "Data") put(d, x.first, E->T[x.second].w == L.f.at(x.first).w ? x.second : bare(E->T, x.second), k.S, CB); put(d, "Data", E->T.fresh(CB, 64, 92), k.S, CB); for (Sym s : src) { k.S.flag[3 * id(d, s) + 10] = 1; if (data) k.S.flag[3 * id(d, s) + 11] = 1; } outs.push_back(k); return true; }
    if (n == "ilCopyImageAttr") { any = true; Sym d = arg(0), s = arg(1); fails(S); CallOut k; k.S = S; k.retSet = true; k.ret = E->T.cst(1, w); for (auto &m : L.f) { std::string t = m.first; if (t != "Data" && t != "Palette" && t != "AnimList" && t != "Profile") put(d, t.c_str(), member(s, t.c_str(), k.S, CB), k.S, CB); } k.S.flag[3 * id(d, s) + 12] = 1; outs.push_back(k); return true; }
    if (n == "ilCopyImage_" && kind != 3) { any = true; Sym s = arg(0); fails(S); CallOut k; k.S = S; k.retSet = true; k.ret = E->T.fresh(CB, 64, 93); E->assumeRange(k.ret, ConstantRange(APInt(64, 0)).inverse(), k.S); for (int i = 10; i < 13; ++i) k.S.flag[3 * id(k.ret, s) + i] = 1; outs.push_back(k); return true; }
    if (isa<MemTransferInst>(CB) || n == "memcpy" || n == "memmove") { Sym d = arg(0), s = arg(1), l = arg(2); CallOut k; k.S = S; if (!CB->getType()->isVoidTy()) k.retSet = true, k.ret = d; for (auto &p : std::map<std::pair<Sym, Sym>, int>(ids)) if (same(member(p.first.first, "Data", k.S, CB), d, k.S)) for (Sym q : sources({{"Data", s}, {"SizeOfData", l}}, S, CB)) k.S.flag[3 * id(p.first.first, q) + 11] = 1; outs.push_back(k); return true; }
    return false; }
  void onBranch(const BranchInst *I, State &S, bool taken) override { if (kind == 1 && equal(c0, bound(p0), S)) S.flag[5] = 1; } // an image copied onto itself
  void onRet(const ReturnInst *I, State &S, Sym v) override { if (E->isNull(v, S)) return; C.R.count["success_returns"]++; std::string fn = srcName(&E->F); Sym s = kind == 1 ? bound(p0) : kind == 2 ? c0 : p0, d = kind == 1 ? c0 : kind == 2 ? bound(v) : v; if (S.flag.count(5) || equal(d, s, S)) return;
    const char *what[3] = {"size and format", "pixels", "attributes"}; auto it = ids.find({d, s}); for (int i = 0; i < 3; ++i) { C.R.items["obligations"].insert(fn + " " + what[i]); if (it == ids.end() || !S.flag.count(3 * it->second + 10 + i)) C.R.add("copy:" + fn + ":" + what[i], exactLine(I), fn + " can succeed although the copy has not been given the " + what[i] + " of the original", S.path()); } }
};
CHECK(copies) {
  CopyLayout L; for (const char *m : {"Width", "Height", "Depth", "Bpp", "Bpc", "Bps", "Data", "SizeOfData", "SizeOfPlane", "Format", "Type", "Origin", "Duration", "CubeFlags", "AnimList", "AnimSize", "Profile", "ProfileSize", "OffX", "OffY"}) { auto r = fieldOf(C, "ILimage", m); if (!r) { C.R.broken(std::string("ILimage.") + m + " not found"); return; } L.f[m] = r; }
  auto pal = fieldOf(C, "ILimage", "Pal"); for (const char *m : {"Palette", "PalSize", "PalType"}) { auto r = fieldOf(C, "ILpal", m); if (!r || !pal) { C.R.broken("palette layout"); return; } r.off += pal.off; L.f[m] = r; }
  auto helper = [&](const Function *G) { if (G->isDeclaration()) return false; std::string n = srcName(G); static const std::set<std::string> ev = {"ialloc", "icalloc", "ifree", "ilSetError", "ilCloseImage", "ilTexImage", "ilTexImage_", "ilNewImage", "ilNewImageFull", "ilCopyImageAttr", "ilCopyImage_", "ilBindImage", "ilGetCurName", "ilGetCurImage", "ilSetCurImage", "ilGenImages", "ilGenImage", "ilDeleteImages", "ilDeleteImage"}; return !ev.count(n) && !C.isApi(G) && fileOf(G).find("il_devil") != std::string::npos; };
  auto need = [&](const char *n) { auto *F = C.P.fn(n); if (!F || F->isDeclaration()) C.R.broken(std::string("no function ") + n); return F && !F->isDeclaration() ? F : nullptr; };
  if (auto *F = need("ilCopyImageAttr")) { AttrProp p(C, L); runOn(C, F, p, helper, [](Function *, Engine &E) { E.K = 4096; }); }
  CopyLayout LP; for (const char *m : {"Palette", "PalSize", "PalType"}) LP.f[m] = fieldOf(C, "ILpal", m);
  if (auto *F = need("iCopyPalette")) { AttrProp p(C, LP); runOn(C, F, p, helper, [](Function *, Engine &E) { E.K = 4096; }); }
  GlobalVariable *G = C.P.gv("iCurImage"); if (!G) { C.R.broken("no variable iCurImage"); return; } FieldClass cc{G, -1}; for (auto &kv : C.P.mod) for (auto &c : kv.second) if (c.p == G) cc = c;
  int k = 0; for (const char *n : {"ilCopyImage", "ilCloneCurImage", "ilCopyImage_"}) { ++k; auto *F = need(n); if (!F) continue; WholeProp p(C, L); p.Cur = G; p.cc = cc; p.kind = k; runOn(C, F, p, helper); if (!p.any) C.R.broken(std::string(n) + ": no copying step recognised"); }
}
}
