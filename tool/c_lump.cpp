#include "summ.h"
#include "zone.h"
#include "pe.h"
#include "llvm/IR/InstIterator.h"
using namespace llvm;
namespace dv {
// P19: memory sources and targets. The invariant Pos <= Size holds between calls; every access to the buffer lies inside it;
// every operation moves the position by what it transferred and reports the end.
enum Role { None_, Getc, Read, Seek, Tell, Eof, Putc, Write };
struct LumpProp : Prop {
  Ctx &C; const Function *F; Role role; bool wr; GlobalVariable *L[2], *P[2], *Z[2]; FieldRef oP, oZ; Namer N; Sym p0 = 0, z0 = 0, l0 = 0;
  std::map<const Value *, int> bid;
  LumpProp(Ctx &C, const Function *F, Role r, bool w) : C(C), F(F), role(r), wr(w), N(C) { const char *d[2] = {"Read", "Write"}; for (int i = 0; i < 2; ++i) { std::string s = d[i]; L[i] = C.P.gv(s + "Lump"); P[i] = C.P.gv(s + "LumpPos"); Z[i] = C.P.gv(s + "LumpSize"); }
    oP = fieldOf(C, "iOutput", "LumpPos"); oZ = fieldOf(C, "iOutput", "LumpSize"); }
  Sym g(GlobalVariable *G, unsigned w, State &S) { Sym r = E->load(E->eval(G, S), w, FieldClass{G, -1}, S, nullptr); return r; }
  void ordered(Sym pos, Sym size, State &S) { S.facts.insert_or_assign(E->T.get({K::Cmp, (uint8_t)CmpInst::ICMP_ULT, 1, nullptr, size, pos, 0}), ConstantRange(APInt(1, 0))); }
  void onEntry(State &S) override { N.E = E; for (int i = 0; i < 2; ++i) { Sym p = g(P[i], 32, S), z = g(Z[i], 32, S), l = g(L[i], 64, S); ordered(p, z, S); S.reg[10 * i + 1] = p; S.reg[10 * i + 2] = z; S.reg[10 * i + 3] = l; if (i == wr) p0 = p, z0 = z, l0 = l; } int k = 50; for (auto &A : E->F.args()) S.reg[k++] = E->eval(&A, S); }
  Sym arg(unsigned i, const State &S) { return S.reg.at(50 + i); }
  void onLoad(const LoadInst *I, Sym p, Sym v, State &S) override { N.sawLoad(I, p, v); sawValue(p, v); if (!oP) return; FieldClass c = classOfAccess(I); bool a = c == oP.cls(), b = c == oZ.cls(); if (!a && !b) return;
    Sym base = E->T.off(p, -(a ? oP.off : oZ.off)); Sym x = E->load(E->T.off(base, oP.off), 32, oP.cls(), S, I), y = E->load(E->T.off(base, oZ.off), 32, oZ.cls(), S, I); if (x && y) { ordered(x, y, S); S.reg[30] = x; S.reg[31] = y; } }
  void onBranch(const BranchInst *I, State &S, bool t) override { int &k = bid[I]; if (!k) k = 1000 + bid.size(); S.flag[k] = t; if (role == Read || role == Write) { Sym n = product(S); if (inside(S, n, wr)) keep(S, n, wr); } if (!S.flag.count(9) && Zone(*E, S).contradiction()) S.flag[9] = 1; }
  // relations kept where symbols are merged or renamed: j <= Size - Pos
  bool relational() const override { return true; }
  bool inside(const State &S, Sym j, int i) { auto x = S.reg.find(10 * i + 1), y = S.reg.find(10 * i + 2); if (x == S.reg.end() || y == S.reg.end()) return false; Zone Q(*E, S); return Q.le(ladd(Q.exact(x->second), Q.exact(j)), Q.exact(y->second)); }
  void keep(State &S, Sym j, int i) { Sym d = E->T.get({K::Bin, (uint8_t)Instruction::Sub, 32, nullptr, S.reg[10 * i + 2], S.reg[10 * i + 1], 0}); if (E->T[j].w == 64) d = E->T.get({K::Cast, (uint8_t)Instruction::ZExt, 64, nullptr, d, 0, 0}); ordered(j, d, S); }
  bool upto(const State &S, Sym j) { if (role != Read && role != Write) return false; Zone Q(*E, S); Lin x = Q.exact(j); Sym sn = product(S); return Q.le(x, Q.leaf(sn)) || Q.le(x, Q.exact(sn)); }
  void keepUpto(State &S, Sym j) { Sym n = product(S); if (E->T[j].w == 64) n = E->T.get({K::Cast, (uint8_t)Instruction::ZExt, 64, nullptr, n, 0, 0}); ordered(j, n, S); }
  bool counts(Sym s) { auto w = E->T[s].w; return w == 32 || w == 64; }
  void onJoin(const State &a, const State &b, State &r, const std::map<Sym, std::pair<Sym, Sym>> &made) override { for (auto &m : made) if (counts(m.first)) { for (int i = 0; i < 2; ++i) if (r.reg[10 * i + 1] && inside(a, m.second.first, i) && inside(b, m.second.second, i)) keep(r, m.first, i); if (r.reg.count(50) && upto(a, m.second.first) && upto(b, m.second.second)) keepUpto(r, m.first); } }
  void onRename(const State &before, State &S, const std::map<Sym, Sym> &sub) override { for (auto &m : sub) if (counts(m.first)) { for (int i = 0; i < 2; ++i) if (inside(before, m.first, i)) keep(S, m.second, i); if (upto(before, m.first)) keepUpto(S, m.second); } }
  int lumpOf(Sym r, State &S) { for (int i = 0; i < 2; ++i) { if (r == S.reg[10 * i + 3]) return i; const Node &n = E->T[r]; if (n.k == K::Load && E->T[n.a].k == K::Glob && E->T[n.a].p == L[i]) return i; } return -1; }
  // offset of an address from its root
  Lin offset(Zone &Q, Sym p) { Lin r; for (int i = 0; i < 40; ++i) { const Node n = E->T[p]; if (n.k == K::Off) { r.k += n.n; p = n.a; } else if (n.k == K::Var) { r = ladd(r, Q.exact(n.b), n.n); p = n.a; } else break; } return r; }
  Poly poff(Sym p, State &S) { Poly r; for (int i = 0; i < 40; ++i) { const Node n = E->T[p]; if (n.k == K::Off) { Poly k; if (n.n) k[{}] = n.n; r = padd(r, k); p = n.a; } else if (n.k == K::Var) { r = padd(r, N.poly(n.b, S), n.n); p = n.a; } else break; } return r; }
  void access(const Instruction *I, Sym ptr, State &S, bool st, Lin len, Sym srcOrDst) { if (S.flag.count(9)) return;
    Sym r = rootOf(E->T, ptr); int l = lumpOf(r, S); Zone Q(*E, S);
    if (l >= 0) { C.R.count["buffer_accesses"]++; C.R.items["access_sites"].insert(locOf(I));
      Lin o = offset(Q, ptr), z = Q.exact(g(Z[l], 32, S)); if (!Q.prove(o) || !Q.le(ladd(o, len), z)) C.R.add("bounds:" + srcName(F), exactLine(I), std::string(l ? "writes" : "reads") + " the caller's buffer at an offset not known to lie inside it", S.path());
      if (st && !l) C.R.add("writes-source:" + srcName(F), exactLine(I), "writes into the buffer the caller gave to read from", S.path());
      if (!st && l) C.R.add("reads-target:" + srcName(F), exactLine(I), "reads the buffer the caller gave to write to", S.path()); }
    // the transfer buffer of read and write
    if ((role == Read || role == Write) && r == arg(0, S)) { C.R.count["transfers"]++; Sym sn = product(S); Lin o = offset(Q, ptr);
      if (!Q.prove(o) || !sn || !Q.le(ladd(o, len), Q.leaf(sn))) { if (!sn || !Q.le(ladd(o, len), Q.exact(sn))) C.R.add("transfer:" + srcName(F), exactLine(I), "touches the transfer buffer outside the size asked for", S.path()); } }
  }
  Sym product(const State &S) { Sym a = arg(1, S), b = arg(2, S); if (a > b) std::swap(a, b); return E->T.get({K::Bin, (uint8_t)Instruction::Mul, 32, nullptr, a, b, 0}); }
  // the bytes transferred are those at the position
  void transfer(const Instruction *I, Sym dst, Sym src, State &S) {
    if (S.flag.count(9) || (role != Read && role != Write)) return; Sym b = role == Read ? dst : src, l = role == Read ? src : dst; bool mine = rootOf(E->T, b) == arg(0, S), lump = lumpOf(rootOf(E->T, l), S) == wr;
    if (mine != lump && (role == Read ? mine : lump)) { C.R.add("copy:" + srcName(F), exactLine(I), role == Read ? "fills the transfer buffer with something else than the bytes of the memory" : "writes something else than the bytes of the transfer buffer", S.path()); return; }
    if (!mine || !lump) return;
    C.R.count["copies"]++; if (padd(poff(l, S), padd(poff(b, S), N.poly(p0, S)), ~0ull).size()) C.R.add("copy:" + srcName(F), exactLine(I), "copies between the transfer buffer at " + polyStr(poff(b, S)) + " and the memory at " + polyStr(poff(l, S)), S.path()); }
  void onDeref(const Instruction *I, Sym ptr, State &S, bool st) override {
    Type *T = st ? cast<StoreInst>(I)->getValueOperand()->getType() : isa<LoadInst>(I) ? I->getType() : nullptr; if (!T) return; access(I, ptr, S, st, Zone::cst(C.P.M->getDataLayout().getTypeStoreSize(T)), 0); }
  std::map<Sym, Sym> from; // value -> address it was loaded from
  void onStore(const StoreInst *I, Sym ptr, Sym val, State &S) override { Sym v = val; while (E->T[v].k == K::Cast) v = E->T[v].a; const Node n = E->T[v];
    if (role == Read && rootOf(E->T, ptr) == arg(0, S)) { auto it = src.find(v); if (it != src.end()) transfer(I, ptr, it->second, S); else C.R.add("copy:" + srcName(F), exactLine(I), "stores something else than the bytes of the memory", S.path()); }
    if (role == Write && lumpOf(rootOf(E->T, ptr), S) == 1) { auto it = src.find(v); if (it != src.end()) transfer(I, ptr, it->second, S); else C.R.add("copy:" + srcName(F), exactLine(I), "stores something else than the bytes to be written", S.path()); }
    if (role == Putc && lumpOf(rootOf(E->T, ptr), S) == 1) { if (v != arg(0, S) || padd(poff(ptr, S), N.poly(p0, S), ~0ull).size()) C.R.add("copy:" + srcName(F), exactLine(I), "does not store the byte at the position", S.path()); S.flag[5] = 1; } (void)n; }
  std::map<Sym, Sym> src;
  void sawValue(Sym p, Sym v) { while (E->T[v].k == K::Cast) v = E->T[v].a; src[v] = p; }
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override {
    if (n == "ilSetError") { S.flag[1] = 1; return false; }
    bool mem = isa<MemIntrinsic>(CB) || n == "memcpy" || n == "memmove" || n == "memset";
    if (mem) { Sym d = E->eval(CB->getArgOperand(0), S), s = E->eval(CB->getArgOperand(1), S), len = E->eval(CB->getArgOperand(2), S); bool set = isa<MemSetInst>(CB) || n == "memset"; Zone Q(*E, S); Lin l = Q.exact(len);
      access(CB, d, S, true, l, 0); if (!set) { access(CB, s, S, false, l, 0); transfer(CB, d, s, S); } return false; }
    for (unsigned i = 0; i < CB->arg_size(); ++i) if (CB->getArgOperand(i)->getType()->isPointerTy()) { int l = lumpOf(rootOf(E->T, E->eval(CB->getArgOperand(i), S)), S); if (l >= 0 && !E->isNull(E->eval(CB->getArgOperand(i), S), S)) C.R.add("passed:" + srcName(F), exactLine(CB), "hands the caller's buffer to " + n + " without its size", S.path()); }
    return false; }
  void bad(const ReturnInst *I, const std::string &k, const std::string &w, State &S) { if (!S.flag.count(9)) C.R.add(k + ":" + srcName(F), exactLine(I), w, S.path()); }
  void onRet(const ReturnInst *I, State &S, Sym v) override { if (S.flag.count(9)) return;
    C.R.count["exits_checked"]++; Zone Q(*E, S);
    for (int i = 0; i < 2; ++i) { Sym p = g(P[i], 32, S), z = g(Z[i], 32, S); if (p == S.reg[10 * i + 1] && z == S.reg[10 * i + 2]) continue; if (!Q.le(Q.exact(p), Q.exact(z))) bad(I, "position", std::string("leaves the ") + (i ? "write" : "read") + " position not known to lie inside the buffer", S); }
    if (v && E->T[v].w == 64 && lumpOf(rootOf(E->T, v), S) >= 0 && (!F->use_empty())) bad(I, "returned", "returns the caller's buffer", S);
    if (role == None_) return;
    Sym p = g(P[wr], 32, S), z = g(Z[wr], 32, S); if (z != z0 || g(L[wr], 64, S) != l0) bad(I, "rebinds", "changes the memory it works on", S);
    Poly d = padd(N.poly(p, S), N.poly(p0, S), ~0ull), one; one[{}] = 1; Lin P0 = Q.exact(p0), Z0 = Q.exact(z0); int64_t c; bool err = S.flag.count(1);
    auto isM1 = [&] { return E->single(v, S, c) && (int32_t)c == -1; };
    switch (role) {
    case Tell: if (v != p0 || p != p0) bad(I, "tell", "does not answer the position", S); break;
    case Eof: for (int t = 0; t < 2; ++t) { State X = S; ConstantRange r = t ? ConstantRange(APInt(E->T[v].w, 0)).inverse() : ConstantRange(APInt(E->T[v].w, 0)); if (!E->assumeRange(v, r, X)) continue; Zone Y(*E, X); if (!(t ? Y.le(Y.exact(z0), Y.exact(p0)) : Y.lt(Y.exact(p0), Y.exact(z0)))) bad(I, "eof", t ? "reports the end before it" : "does not report the end", S); } if (p != p0) bad(I, "eof", "moves the position", S); break;
    case Getc: case Putc:
      if (Q.le(Z0, P0)) { if (!isM1() || p != p0) bad(I, "end", "does not report the end of the memory", S); if (role == Getc && !err) bad(I, "silent", "reaches the end without recording an error", S); }
      else if (Q.lt(P0, Z0)) { if (d != one) bad(I, "advance", "moves the position by " + polyStr(d) + " for one byte", S); if (role == Putc && !S.flag.count(5)) bad(I, "lost", "loses the byte", S);
        if (role == Getc) { Sym b = v; while (E->T[b].k == K::Cast && E->T[b].op == Instruction::ZExt) b = E->T[b].a; auto it = src.find(b); if (it == src.end() || E->T[b].w != 8 || lumpOf(rootOf(E->T, it->second), S) != 0 || padd(poff(it->second, S), N.poly(p0, S), ~0ull).size()) bad(I, "byte", "does not answer the byte at the position", S); }
        else if (isM1()) bad(I, "byte", "reports failure for a byte that fits", S); }
      else bad(I, "end", "does not look whether the position is at the end", S);
      break;
    case Read: case Write: {
      Sym sn = product(S); Poly SN = N.poly(sn, S); Lin D = ladd(Q.exact(p), P0, -1); Lin full = Q.exact(sn);
      bool all = d == SN || Q.eq(D, full) || Q.eq(D, Q.leaf(sn)), end = Q.le(Z0, Q.exact(p));
      if (!all && !end && !(Q.le(full, D) || Q.le(Q.leaf(sn), D))) bad(I, "short", "stops although neither the size asked for nor the end of the memory is reached", S);
      Sym num = arg(2, S); const Node n = E->T[v]; bool cnt = false; if (n.k == K::Bin && n.op == Instruction::UDiv && n.b == arg(1, S) && N.poly(n.a, S) == d) cnt = true;
      if (E->single(arg(1, S), S, c) && !c && N.poly(v, S) == d) cnt = true; if (v == num && all) cnt = true; if (E->single(v, S, c) && !c && d.empty()) cnt = true;
      if (!cnt) bad(I, "count", "answers " + N.str(v, S) + " after transferring " + polyStr(d) + " bytes", S);
      bool isNum = v == num; if (!isNum) { Lin a = Q.exact(v), b = Q.exact(num); isNum = Q.eq(a, b) || Q.eq(Q.leaf(v), b); }
      if (!isNum && !err) bad(I, "silent", "transfers less than asked for without recording an error", S);
      break; }
    case Seek: {
      Sym off = arg(0, S), mode = arg(1, S); Poly t = N.poly(off, S); int64_t m = -1; E->single(mode, S, m); if (m == 1) t = padd(t, N.poly(p0, S)); else if (m == 2) t = padd(t, N.poly(z0, S));
      bool ok = E->single(v, S, c) && !c, fail = E->nonNull(v, S); if (!ok && !fail) { bad(I, "seek", "answers neither success nor failure", S); break; }
      if (ok) { C.R.items["seeks"].insert(srcName(F) + ":" + std::to_string(m)); if (m < 0 || m > 2) bad(I, "seek", "accepts an unknown mode", S); else if (N.poly(p, S) != t) bad(I, "seek", "moves to " + N.str(p, S) + " instead of " + polyStr(t), S); }
      else { if (p != p0) bad(I, "seek", "moves the position although it reports failure", S); if (m < 0 || m > 2) break;
        for (int neg = 0; neg < 2; ++neg) { State X = S; ConstantRange r = neg ? ConstantRange::getNonEmpty(APInt::getSignedMinValue(32), APInt(32, 0)) : ConstantRange::getNonEmpty(APInt(32, 0), APInt::getSignedMinValue(32)); if (m == 2 && !neg) r = ConstantRange(APInt(32, 0)); if (!E->assumeRange(off, r, X)) continue; Zone Y(*E, X);
          Lin a = Y.exact(p0), b = Y.exact(z0), o = Y.exact(off); Sym ng = E->T.get({K::Bin, (uint8_t)Instruction::Sub, 32, nullptr, E->T.cst(0, 32), off, 0}); Lin u = Y.leaf(ng);
          if (m == 0 && neg) continue;
          // were the target inside, the path could not be taken
          if (m == 0) Y.add(ladd(b, o, -1)); else if (m == 1 && !neg) Y.add(ladd(b, ladd(a, o), -1)); else if (m == 1) Y.add(ladd(a, u, -1)); else Y.add(ladd(b, u, -1));
          bool contra = Y.contradiction();
          // sums that wrap only outside
          if (!contra && m == 1) for (auto &fc : X.facts) { const Node q = E->T[fc.first]; if (q.k != K::Cmp) continue; for (Sym e : {q.a, q.b}) { const Node en = E->T[e]; if (en.k != K::Bin || en.op != Instruction::Add) continue; if ((en.a == p0 && en.b == off) || (en.a == off && en.b == p0)) { Lin val = neg ? ladd(a, u, -1) : ladd(a, o); Y.add(ladd(val, Y.leaf(e), -1)); Y.add(ladd(Y.leaf(e), val, -1)); } } }
          if (!contra) contra = Y.contradiction();
          if (!contra) bad(I, "seek", "refuses a target inside the memory", S); } }
      break; }
    default: break; }
  }
};
CHECK(lump) {
  std::set<const GlobalVariable *> gs; for (auto n : {"ReadLump", "ReadLumpPos", "ReadLumpSize", "WriteLump", "WriteLumpPos", "WriteLumpSize"}) { auto *G = C.P.gv(n); if (!G) { C.R.broken(std::string("no ") + n); return; } gs.insert(G); }
  std::set<const Function *> use; for (auto *G : gs) for (auto *U : G->users()) { std::vector<const User *> w{U}; while (!w.empty()) { auto *x = w.back(); w.pop_back(); if (auto *I = dyn_cast<Instruction>(x)) use.insert(I->getFunction()); else for (auto *y : x->users()) w.push_back(y); } }
  // roles: what the setters install
  std::map<const Function *, Role> role; std::map<const Function *, bool> wr; auto roles = [&](const char *setter, bool w, std::map<std::string, Role> m) { Function *F = C.P.fn(setter); if (!F) { C.R.broken(std::string("no ") + setter); return; }
    for (auto &I : instructions(F)) if (auto *St = dyn_cast<StoreInst>(&I)) if (auto *G = dyn_cast<GlobalVariable>(St->getPointerOperand())) if (auto *H = dyn_cast<Function>(St->getValueOperand())) { auto it = m.find(G->getName().str()); if (it != m.end()) { role[H] = it->second; wr[H] = w; C.R.items["operations"].insert(srcName(H)); } } };
  roles("iSetInputLump", false, {{"igetc", Getc}, {"iread", Read}, {"iseek", Seek}, {"itell", Tell}, {"ieof", Eof}}); roles("iSetOutputLump", true, {{"iputc", Putc}, {"iwrite", Write}, {"iseekw", Seek}, {"itellw", Tell}});
  auto want = [&](const Function *G) { return !G->isDeclaration() && !role.count(G) && !C.isApi(G) && srcName(G) != "ilSetError" && G->getInstructionCount() < 400 && (use.count(G) || fileOf(G).find("il_files") != std::string::npos); };
  std::set<const Function *> roots; for (auto *F : use) if (role.count(F) || C.isApi(F) || C.addrTaken.count(F) || srcName(F).find("iSet") == 0) roots.insert(F); for (auto &r : role) roots.insert(r.first);
  for (auto *F : use) if (!roots.count(F)) { bool inl = true; for (auto *U : F->users()) if (auto *CB = dyn_cast<CallBase>(U)) { if (!want(F) || !roots.count(CB->getFunction())) inl = false; } if (!inl || F->use_empty()) roots.insert(F); }
  C.prepare = [&](Function *Fl) { affine(C.P, Fl); };
  for (auto *F : roots) { C.R.items["functions"].insert(srcName(F)); LumpProp p(C, F, role.count(F) ? role[F] : None_, wr.count(F) && wr[F]); runOn(C, const_cast<Function *>(F), p, want); }
  C.prepare = nullptr;
  // the buffers of the public calls go nowhere else
  std::set<std::pair<const Argument *, const Argument *>> done; std::vector<std::pair<const Argument *, const Argument *>> wl;
  auto lumpArgs = [&](const Function *F, unsigned &l, unsigned &s) { int a = -1, b = -1; for (auto &BB : *F) for (auto &I : BB) if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) { auto *V = D->getVariable(); if (V->getArg() == 0) continue; if (V->getName() == "Lump") a = V->getArg() - 1; else if (V->getName() == "Size") b = V->getArg() - 1; }
    if (auto *SP = F->getSubprogram()) for (auto *N : SP->getRetainedNodes()) if (auto *V = dyn_cast<DILocalVariable>(N)) { if (V->getName() == "Lump" && V->getArg()) a = V->getArg() - 1; if (V->getName() == "Size" && V->getArg()) b = V->getArg() - 1; }
    if (a < 0 || b < 0 || (unsigned)a >= F->arg_size() || (unsigned)b >= F->arg_size()) return false; l = a; s = b; return true; };
  for (auto &F : *C.P.M) if (!F.isDeclaration() && C.isApi(&F)) { unsigned l, s; if (lumpArgs(&F, l, s)) { C.R.items["calls"].insert(srcName(&F)); wl.push_back({F.getArg(l), F.getArg(s)}); } }
  while (!wl.empty()) { auto [A, Z] = wl.back(); wl.pop_back(); if (!done.insert({A, Z}).second) continue; const Function *F = A->getParent(); C.R.count["functions_followed"]++;
    std::vector<const Value *> vs{A}; std::set<const Value *> seen; while (!vs.empty()) { auto *v = vs.back(); vs.pop_back(); if (!seen.insert(v).second) continue;
      for (auto *U : v->users()) { auto *I = dyn_cast<Instruction>(U); if (!I || isa<ICmpInst>(I) || isa<DbgInfoIntrinsic>(I)) continue; if (isa<PHINode>(I) || isa<SelectInst>(I)) { vs.push_back(I); continue; }
        if (auto *CB = dyn_cast<CallBase>(I)) { int k = -1; for (unsigned i = 0; i < CB->arg_size(); ++i) if (CB->getArgOperand(i) == v) k = i; if (k < 0) continue; std::string n = calleeName(CB);
          auto T = targetsOf(C, CB); if (T.empty() && !CB->getCalledFunction()) { C.R.items["registered"].insert(srcName(F)); continue; } // user-registered codec
          for (auto *G : T) { if (G->isDeclaration()) { C.R.add("direct:" + srcName(F), exactLine(CB), "hands the caller's buffer to " + srcName(G)); continue; }
            const Value *z = (unsigned)k + 1 < CB->arg_size() ? CB->getArgOperand(k + 1) : nullptr; bool pass = z == Z; unsigned zi = k + 1;
            if (!pass) for (unsigned i = 0; i < CB->arg_size(); ++i) if (CB->getArgOperand(i) == Z) { pass = true; zi = i; }
            if (!pass) { C.R.add("size:" + srcName(F), exactLine(CB), "hands the caller's buffer to " + srcName(G) + " with another size than the caller gave"); continue; }
            if (srcName(G) == "iSetInputLump" || srcName(G) == "iSetOutputLump") { C.R.count["bindings"]++; if (zi != (unsigned)k + 1) C.R.add("size:" + srcName(F), exactLine(CB), "size in the wrong place"); continue; }
            if (zi < G->arg_size() && (unsigned)k < G->arg_size()) wl.push_back({G->getArg(k), G->getArg(zi)}); }
          continue; }
        C.R.add("direct:" + srcName(F), exactLine(I), srcName(F) + " uses the caller's buffer directly"); } } }
  // iSetInputLump, iSetOutputLump: buffer, size and position 0 are taken over
  for (int w = 0; w < 2; ++w) { Function *F = C.P.fn(w ? "iSetOutputLump" : "iSetInputLump"); if (!F) continue; std::string d = w ? "WriteLump" : "ReadLump"; auto r = peRun(C, F, PESpec{}); bool any = false;
    for (auto &o : r.outs) { if (!o.eff.count(d)) continue; any = true; auto is = [&](const std::string &k, const std::string &v) { auto it = o.eff.find(k); if (it == o.eff.end() || it->second != v) C.R.add("bind:" + srcName(F), o.where, srcName(F) + " stores " + (it == o.eff.end() ? "nothing" : it->second) + " as " + k); }; is(d, "arg0"); is(d + "Size", "arg1"); is(d + "Pos", "0"); C.R.count["setter_outcomes"]++; }
    if (!any) C.R.add("bind:" + srcName(F), "", srcName(F) + " does not take over the buffer"); }
}
}
