#include "summ.h"
#include "poly.h"
#include "llvm/IR/InstIterator.h"
using namespace llvm;
namespace dv {
// P41: reading ahead. What a codec reads ahead of itself is delivered in order from where the stream stood, reading ahead
// has ended when a public call returns, and ending it puts the stream behind the last byte delivered.
static bool inDevIL(const Function *F) { std::string f = fileOf(F); return f.find("/src-I") != std::string::npos && f.find("rg_etc1") == std::string::npos; }
struct CacheVars { GlobalVariable *Use, *Buf, *Size, *Start, *Pos, *Read, *In; bool ok() const { return Use && Buf && Size && Start && Pos && Read && In; } std::set<const Function *> own, fills; const Function *file = nullptr; };
struct CacheProp : SummProp {
  Report &R; CacheVars &V; static std::vector<const CallBase *> sites; Namer N; bool mine, fills; Sym b0 = 0, p0 = 0, s0 = 0;
  CacheProp(Ctx &C, CacheVars &V, const Function *F) : R(C.R), V(V), N(C) { mine = V.own.count(F); fills = V.fills.count(F); }
  static int siteId(const CallBase *CB) { for (size_t i = 0; i < sites.size(); ++i) if (sites[i] == CB) return i + 1; sites.push_back(CB); return sites.size(); }
  unsigned w(GlobalVariable *G) { auto *T = G->getValueType(); return T->isPointerTy() ? 64 : T->getIntegerBitWidth(); }
  Sym get(GlobalVariable *G, State &S) { return E->load(E->eval(G, S), w(G), FieldClass{G, -1}, S, nullptr); }
  void put(GlobalVariable *G, Sym v, State &S) { E->store(E->eval(G, S), v, w(G), FieldClass{G, -1}, S, nullptr); }
  int on(State &S) { int64_t v; return E->single(get(V.Use, S), S, v) ? v != 0 : -1; }
  void onEntry(State &S) override { N.E = E; put(V.Use, E->T.cst(ctx & 1, w(V.Use)), S); if (mine) { Sym x = E->T.fresh(V.Pos, 32, 5); N.fixed[x] = "delivered"; put(V.Pos, x, S); put(V.Read, x, S); s0 = E->T.fresh(V.Start, w(V.Start), 6); N.fixed[s0] = "start"; put(V.Start, s0, S); p0 = x; } }
  // while memory is read nothing is read ahead
  void onBranch(const BranchInst *I, State &S, bool taken) override { if (!(ctx & 1)) return; auto *IC = dyn_cast<ICmpInst>(I->getCondition()); if (!IC || !IC->isEquality()) return; const Function *Fn = nullptr; const LoadInst *L = nullptr;
    for (auto &o : IC->operands()) { auto *x = o->stripPointerCasts(); if (auto *f = dyn_cast<Function>(x)) Fn = f; if (auto *l = dyn_cast<LoadInst>(x)) L = l; }
    if (!Fn || !L || L->getPointerOperand()->stripPointerCasts() != V.In) return; bool eq = (IC->getPredicate() == CmpInst::ICMP_EQ) == taken; if (eq != (Fn == V.file)) S.flag[99] = 1; }
  Poly poff(Sym p, State &S) { Poly r; for (int i = 0; i < 40; ++i) { const Node n = E->T[p]; if (n.k == K::Off) { Poly k; if (n.n) k[{}] = n.n; r = padd(r, k); p = n.a; } else if (n.k == K::Var) { Poly q = N.poly(n.b, S), k; k[{}] = n.n; r = padd(r, pmul(q, k)); p = n.a; } else break; } return r; }
  bool same(const Poly &a, const Poly &b) { return padd(a, b, ~0ull).empty(); }
  void taken(const Instruction *I, Sym p, Poly len, State &S) { R.count["deliveries"]++; R.items["delivery_sites"].insert(locOf(I)); Sym pos = get(V.Pos, S); if (S.flag.count(21)) { Poly old = lens[S.flag[21] - 1]; S.flag.erase(21); if (same(poff(p, S), old) && same(N.poly(pos, S), padd(old, len))) return; }
    if (!same(poff(p, S), N.poly(pos, S))) { R.add("deliver:" + srcName(F), exactLine(I), "takes bytes read ahead from " + polyStr(poff(p, S)) + " instead of the place reached (" + polyStr(N.poly(pos, S)) + ")", S.path()); return; } S.flag[20] = lenId(padd(N.poly(pos, S), len)); }
  std::vector<Poly> lens; int lenId(const Poly &p) { for (size_t i = 0; i < lens.size(); ++i) if (lens[i] == p) return i + 1; lens.push_back(p); return lens.size(); }
  void within(const Instruction *I, Sym p, State &S) { Sym z = get(V.Size, S), x = 0; int64_t off = 0; for (int i = 0; i < 40; ++i) { const Node n = E->T[p]; if (n.k == K::Off) { off += n.n; p = n.a; } else if (n.k == K::Var && !x && n.n == 1) { x = n.b; p = n.a; } else break; } while (x && E->T[x].k == K::Cast) x = E->T[x].a;
    R.count["bounds_checked"]++; bool ok = x ? !off && E->known(CmpInst::ICMP_ULT, x, z, S) : off >= 0 && E->range(z, S).getUnsignedMin().getZExtValue() > (uint64_t)off; if (!ok) R.add("bound:" + srcName(F), exactLine(I), "takes a byte from what was read ahead without knowing that there is one left", S.path()); }
  bool isBuf(Sym p, State &S) { Sym r = rootOf(E->T, p); return r == rootOf(E->T, get(V.Buf, S)) && E->T[r].k != K::Const; }
  void onLoad(const LoadInst *I, Sym p, Sym v, State &S) override { N.sawLoad(I, p, v); if (mine && !S.flag.count(99) && I->getType()->isIntegerTy(8) && on(S) == 1 && isBuf(p, S)) { Poly one; one[{}] = 1; within(I, p, S); taken(I, p, one, S); } }
  void onStore(const StoreInst *I, Sym p, Sym v, State &S) override { auto *G = dyn_cast<GlobalVariable>(I->getPointerOperand()->stripPointerCasts()); if (!G || S.flag.count(99)) return; int64_t c;
    if (G == V.Use) { if (E->single(v, S, c) && c) { S.flag.erase(2); S.flag.erase(3); } else { S.flag[3] = 1; S.flag.erase(4); } }
    if (G == V.Size && mine) { R.count["sizes"]++; int64_t z; Sym t = v; while (E->T[t].k == K::Cast) t = E->T[t].a; if (!(E->single(v, S, z) && !z) && !(S.obj.count(t) && S.obj[t] == 3)) R.add("size:" + srcName(F), exactLine(I), "what was read ahead is taken to hold something else than the number of bytes the read delivered", S.path()); }
    if (G == V.Start) { auto it = S.obj.find(v); if (it == S.obj.end() || it->second != 1) R.add("start:" + srcName(F), exactLine(I), "where reading ahead starts is not recorded as where the stream stands before it", S.path()); R.count["starts"]++; }
    if (G == V.Pos && S.flag.count(20)) { if (!same(N.poly(v, S), lens[S.flag[20] - 1])) R.add("advance:" + srcName(F), exactLine(I), "delivers bytes read ahead and moves on by something else", S.path()); S.flag.erase(20); } else if (G == V.Pos && mine) S.flag[21] = lenId(N.poly(get(V.Pos, S), S)); }
  void onJoin(const State &a, const State &b, State &r, const std::map<Sym, std::pair<Sym, Sym>> &made) override { if (!mine) return; State t = r; Loc P{E->eval(V.Pos, t), 0}, Q{E->eval(V.Read, t), 0}; auto eq = [&](const State &s) { auto x = s.mem.find(P), y = s.mem.find(Q); return x != s.mem.end() && y != s.mem.end() && x->second.v == y->second.v; }; if (eq(a) && eq(b)) { auto x = r.mem.find(P), y = r.mem.find(Q); if (x != r.mem.end() && y != r.mem.end()) y->second.v = x->second.v; } }
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override {
    if (isa<DbgInfoIntrinsic>(CB)) return false; int was = on(S);
    if (auto *MT = dyn_cast<MemTransferInst>(CB)) { if (mine && !S.flag.count(99) && was == 1) { Sym s = E->eval(MT->getSource(), S); if (isBuf(s, S)) { Sym l = E->eval(MT->getLength(), S); taken(CB, s, N.poly(l, S), S); } }
      std::vector<std::pair<GlobalVariable *, Sym>> kept; if (mine) for (auto *G : {V.Use, V.Buf, V.Size, V.Start, V.Pos, V.Read}) kept.push_back({G, get(G, S)}); CallOut o; o.S = S; Sym r = 0; E->defaultCall(CB, o.S, r); for (auto &k : kept) put(k.first, k.second, o.S); put(V.Use, get(V.Use, S), o.S); outs.push_back(o); return true; }
    if (isa<IntrinsicInst>(CB)) return false;
    bool moves = n == "*itell" || n == "*iseek"; CallOut d; d.S = S; Sym r = 0;
    if (!mine && moves && was == 1) R.add("moves:" + srcName(F) + ":" + n.substr(1), exactLine(CB), "asks for or sets the position of the stream while reading ahead", S.path());
    bool std = n.size() > 1 && n[0] == '*'; // the procedures set for reading, and the caller's
    auto T = targetsOf(Z->C, CB); bool may = false; if (!std) for (auto *H : T) { auto m = Z->C.P.mod.find(H); if (m != Z->C.P.mod.end() && (m->second.count(FieldClass{V.Use, -1}) || m->second.count(FieldClass{V.Pos, -1}))) may = true; }
    if (!may) { std::vector<std::pair<GlobalVariable *, Sym>> kept; kept.push_back({V.Use, get(V.Use, S)}); if (mine) for (auto *G : {V.Buf, V.Size, V.Start, V.Pos, V.Read}) kept.push_back({G, get(G, S)});
      if (mine && n == "*iseek" && was == 0) { Sym a = E->eval(CB->getArgOperand(0), S), m = E->eval(CB->getArgOperand(1), S); int64_t mv; Poly want = padd(N.poly(s0, S), N.poly(p0, S)); R.count["returns_to_the_stream"]++; if ((E->single(m, S, mv) && mv == 0) && same(N.poly(a, S), want)) d.S.flag[2] = 1; }
      if (!std || !mine || was != 1) { E->defaultCall(CB, d.S, r); for (auto &k : kept) put(k.first, k.second, d.S); } else { E->defaultCall(CB, d.S, r); put(V.Use, get(V.Use, S), d.S); put(V.Read, get(V.Pos, d.S), d.S); }
      if (n == "*itell" && mine) { r = E->T.fresh(CB, 32, 7); d.S.obj[r] = was == 0 && !S.flag.count(4) ? 1 : 2; } if (n == "*iread" && mine) { d.S.flag[4] = 1; r = E->T.fresh(CB, 32, 8); d.S.obj[r] = 3; }
      if (r) d.retSet = true, d.ret = r; outs.push_back(d); return true; }
    int c = was == 1; bool unsure = was < 0; std::set<Outcome> all; for (auto *H : T) { if (H->isDeclaration()) { all.insert(Outcome{2, 0, {}}); continue; } auto &o = Z->get(H, c); all.insert(o.begin(), o.end()); }
    E->defaultCall(CB, d.S, r); bool rec = false; for (auto *H : T) if (Z->active.count({H, c})) rec = true;
    if (all.empty() && rec) { CallOut co; co.S = d.S; put(V.Use, get(V.Use, S), co.S); if (r) co.retSet = true, co.ret = r; outs.push_back(co); }
    for (auto &o : all) { CallOut co; co.S = d.S; if (!Summarizer::apply(*E, CB, o, co)) continue; auto f = o.flag.find(1); bool now = f != o.flag.end();
      put(V.Use, E->T.cst(now ? 1 : 0, w(V.Use)), co.S); if (now) { int id = f->second < 0 ? (c ? (S.flag.count(1) ? S.flag[1] : -1) : siteId(CB)) : f->second; co.S.flag[1] = id; if (!c) co.S.note("reads ahead from " + exactLine(CB)); } else { co.S.flag.erase(1); if (c) co.S.note("stops reading ahead at " + exactLine(CB)); } outs.push_back(co); }
    (void)unsure; return true; }
  void onRet(const ReturnInst *I, State &S, Sym v) override { if (S.flag.count(99)) return; R.count["exits_checked"]++; int now = on(S); auto o = Summarizer::outcome(*E, S, I, v); o.flag.clear();
    if (mine && now == 1 && (ctx & 1)) { if (S.flag.count(20)) R.add("advance:" + srcName(F), exactLine(I), "delivers bytes read ahead without moving on", S.path()); if (!same(N.poly(get(V.Pos, S), S), N.poly(get(V.Read, S), S))) R.add("count:" + srcName(F), exactLine(I), "the count of bytes delivered is not the place reached in what was read ahead", S.path()); }
    if (mine && now == 0 && (ctx & 1) && S.flag.count(3) && !S.flag.count(2)) R.add("back:" + srcName(F), exactLine(I), "ends reading ahead without putting the stream behind the last byte delivered", S.path());
    if (now != 0) o.flag[1] = S.flag.count(1) ? S.flag[1] : -1; outs.insert(o); }
};
std::vector<const CallBase *> CacheProp::sites;
struct CacheSumm : Summarizer { CacheVars V; CacheSumm(Ctx &C) : Summarizer(C) {} SummProp *make(const Function *F, int ctx) override { return new CacheProp(C, V, F); }
  bool inlinesIn(const Function *G, const Function *F) override { return V.fills.count(G) && V.own.count(F); } };
CHECK(readahead) { auto &R = C.R; CacheSumm Z(C); auto &V = Z.V; auto gv = [&](const char *n) { auto *G = C.P.gv(n); if (!G) R.broken(std::string("variable not found: ") + n); return G; };
  V.Use = gv("UseCache"); V.Buf = gv("Cache"); V.Size = gv("CacheSize"); V.Start = gv("CacheStartPos"); V.Pos = gv("CachePos"); V.Read = gv("CacheBytesRead"); V.In = gv("iread"); V.file = C.P.fn("iReadFile"); if (!V.ok() || !V.file) return;
  for (auto *G : {V.Use, V.Buf, V.Size, V.Start, V.Pos, V.Read}) for (auto *U : G->users()) if (auto *I = dyn_cast<Instruction>(U)) { V.own.insert(I->getFunction()); if (auto *S = dyn_cast<StoreInst>(I)) if (G == V.Use && S->getPointerOperand() == G) if (auto *K = dyn_cast<ConstantInt>(S->getValueOperand())) if (!K->isZero()) V.fills.insert(I->getFunction()); }
  for (auto *F : V.own) R.items["readers"].insert(srcName(F)); for (auto *F : V.fills) R.items["fillers"].insert(srcName(F));
  std::set<std::string> said; std::set<int> off;
  auto ctxRun = [&](const Function *F, int c) -> const std::set<Outcome> & { return Z.get(F, c); };
  for (auto *F : V.own) { R.count["functions"]++; ctxRun(F, 1); ctxRun(F, 0); }
  for (auto &F : *C.P.M) if (!F.isDeclaration() && inDevIL(&F)) { auto &os = ctxRun(&F, 0); R.count["functions"]++; if (C.opt.count("only") && C.opt["only"] == srcName(&F)) for (auto &o : os) { errs() << srcName(&F) << " outcome " << o.cls << " " << o.val; for (auto &f : o.flag) errs() << " " << f.first << "=" << f.second; errs() << "\n"; }
    if (V.own.count(&F) || !C.isApi(&F)) continue; R.count["public_calls"]++; for (auto &o : os) { auto f = o.flag.find(1); if (f == o.flag.end()) continue; std::string at = f->second > 0 ? exactLine(CacheProp::sites[f->second - 1]) : "?", by = f->second > 0 ? srcName(CacheProp::sites[f->second - 1]->getFunction()) : srcName(&F); if (said.insert(by).second) R.add("ahead:" + by, at, "a public call (" + srcName(&F) + ") can return while the stream is still read through what " + by + " reads ahead here", ""); } }
  for (auto *CB : CacheProp::sites) R.items["read_ahead_sites"].insert(exactLine(CB));
}
}
