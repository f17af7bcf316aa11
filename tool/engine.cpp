#include "engine.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Support/raw_ostream.h"
#include <queue>
using namespace llvm;
namespace dv {

Sym SymTab::get(Node n) {
  auto it = tab.find(n); if (it != tab.end()) return it->second;
  Sym s = nodes.size(); nodes.push_back(n); tab[n] = s; return s;
}
Sym SymTab::cst(int64_t v, unsigned w) {
  if (w < 64) v = (int64_t)((uint64_t)v & ((1ull << w) - 1));
  return get({K::Const, 0, (uint16_t)w, nullptr, 0, 0, v});
}
Sym SymTab::off(Sym base, int64_t o) {
  if (!o) return base;
  const Node &n = nodes[base];
  if (n.k == K::Off) { Sym b = n.a; int64_t t = n.n + o; return t ? get({K::Off,0,64,nullptr,b,0,t}) : b; }
  if (n.k == K::Const) return cst(n.n + o, 64);
  return get({K::Off, 0, 64, nullptr, base, 0, o});
}
Sym rootOf(const SymTab &T, Sym s) { for (int i = 0; i < 40; ++i) { const Node &n = T[s]; if (n.k == K::Off || n.k == K::Var) s = n.a; else break; } return s; }
bool SymTab::mentions(Sym s, const std::set<Sym> &kill, std::map<Sym,bool> &memo) const {
  if (!s) return false;
  if (kill.count(s)) return true;
  const Node &n = nodes[s];
  if (!n.a && !n.b) return false;
  auto it = memo.find(s); if (it != memo.end()) return it->second;
  bool r = mentions(n.a, kill, memo) || mentions(n.b, kill, memo);
  memo[s] = r; return r;
}
std::string State::path(unsigned max) const {
  std::vector<std::string> v; for (auto t = tr.get(); t; t = t->up.get()) v.push_back(t->what);
  std::string r; unsigned n = 0;
  for (auto it = v.rbegin(); it != v.rend(); ++it) { if (n++ >= max) { r += " ..."; break; } if (!r.empty()) r += " -> "; r += *it; }
  return r;
}
static ConstantRange full(unsigned w) { return ConstantRange::getFull(w); }
static ConstantRange one(uint64_t v, unsigned w) { return ConstantRange(APInt(w, v)); }
static ConstantRange nz(unsigned w) { return one(0, w).inverse(); }

static bool isAllocName(const std::string &n) {
  static const std::set<std::string> s = {"ialloc","icalloc","malloc","calloc","strdup","_Znam","_Znwm","ilNewImage","ilNewImageFull","iluNewImage","*ialloc_ptr"};
  return s.count(n);
}
static bool isFreshAlloc(const Node &n) {
  if (n.k != K::Fresh || !n.p) return false;
  auto *V = (const Value *)n.p;
  if (auto *CB = dyn_cast<CallBase>(V)) return isAllocName(calleeName(CB));
  return false;
}
static bool isAlloca(const Node &n) { return n.k == K::Fresh && n.p && isa<AllocaInst>((const Value *)n.p); }

ConstantRange Engine::range(Sym s, const State &S, int d) const {
  const Node &n = T[s]; unsigned w = n.w ? n.w : 64;
  if (n.k == K::Const) return one((uint64_t)n.n, w);
  ConstantRange R = full(w);
  auto it = S.facts.find(s); if (it != S.facts.end()) R = it->second;
  if (d > 5) return R;
  switch (n.k) {
  case K::Glob: return nz(w);
  case K::Fresh: if (isAlloca(n)) return nz(w); break;
  case K::Off: { ConstantRange b = range(n.a, S, d + 1); if (!b.contains(APInt(64, 0)) || !b.isFullSet()) { if (!b.contains(APInt(64,0))) R = R.intersectWith(nz(64)); } 
     else if (n.n >= 0 && false) {} break; }
  case K::Var: { ConstantRange b = range(n.a, S, d + 1); if (!b.contains(APInt(64, 0))) R = R.intersectWith(nz(64)); break; }
  case K::Bin: {
    ConstantRange a = range(n.a, S, d + 1), b = range(n.b, S, d + 1);
    ConstantRange r = a.binaryOp((Instruction::BinaryOps)n.op, b);
    R = R.intersectWith(r); break; }
  case K::Cast: { ConstantRange a = range(n.a, S, d + 1); R = R.intersectWith(a.castOp((Instruction::CastOps)n.op, w)); break; }
  case K::Cmp: {
    if (R.isSingleElement()) return R;
    ConstantRange a = range(n.a, S, d + 1), b = range(n.b, S, d + 1);
    auto pr = (CmpInst::Predicate)n.op;
    if (a.isEmptySet() || b.isEmptySet()) return R;
    if (a.icmp(pr, b)) return one(1, 1);
    if (a.icmp(CmpInst::getInversePredicate(pr), b)) return one(0, 1);
    if (n.a == n.b) return one(CmpInst::isTrueWhenEqual(pr), 1);
    break; }
  case K::Not: { ConstantRange a = range(n.a, S, d + 1); if (a.isSingleElement()) return one(a.getSingleElement()->isZero(), 1); break; }
  case K::Sel: break;
  default: break;
  }
  return R;
}
bool Engine::single(Sym s, const State &S, int64_t &v) const {
  ConstantRange r = range(s, S); if (!r.isSingleElement()) return false; v = (int64_t)r.getSingleElement()->getZExtValue(); return true; }
bool Engine::isNull(Sym s, const State &S) const { int64_t v; return single(s, S, v) && v == 0; }
bool Engine::nonNull(Sym s, const State &S) const { ConstantRange r = range(s, S); return !r.contains(APInt(r.getBitWidth(), 0)); }

bool Engine::assumeRange(Sym s, const ConstantRange &R0, State &S, int d) {
  const Node n = T[s]; unsigned w = n.w;
  ConstantRange cur = range(s, S);
  ConstantRange R = cur.intersectWith(R0);
  if (R.isEmptySet()) return false;
  if (R == cur) return true;
  if (n.k == K::Const || n.k == K::Glob) return true;
  S.facts.insert_or_assign(s, R);
  if (d > 6) return true;
  switch (n.k) {
  case K::Cast:
    if (n.op == Instruction::ZExt || n.op == Instruction::SExt) {
      unsigned sw = T[n.a].w;
      // R ∩ image, truncated
      ConstantRange img = full(sw).castOp((Instruction::CastOps)n.op, w).intersectWith(R);
      if (img.isEmptySet()) return false;
      if (!assumeRange(n.a, img.truncate(sw), S, d + 1)) return false;
    } else if (n.op == Instruction::Trunc) {
      // if the source fits in the narrow width unsigned, push down
      unsigned sw = T[n.a].w; ConstantRange a = range(n.a, S);
      if (a.getUnsignedMax().getActiveBits() <= w) { if (!assumeRange(n.a, R.zeroExtend(sw), S, d + 1)) return false; }
    }
    break;
  case K::Bin:
    if (n.op == Instruction::Add && T[n.b].k == K::Const) { if (!assumeRange(n.a, R.sub(range(n.b, S)), S, d + 1)) return false; }
    else if (n.op == Instruction::Sub && T[n.b].k == K::Const) { if (!assumeRange(n.a, R.add(range(n.b, S)), S, d + 1)) return false; }
    else if (n.op == Instruction::And && w == 1) { if (R.isSingleElement() && R.getSingleElement()->isOne()) { if (!assume(n.a, true, S, d + 1) || !assume(n.b, true, S, d + 1)) return false; } }
    else if (n.op == Instruction::Or && w == 1) { if (R.isSingleElement() && R.getSingleElement()->isZero()) { if (!assume(n.a, false, S, d + 1) || !assume(n.b, false, S, d + 1)) return false; } }
    else if (n.op == Instruction::Xor && w == 1 && T[n.b].k == K::Const) { if (R.isSingleElement()) { if (!assume(n.a, R.getSingleElement()->isOne() ^ (T[n.b].n & 1), S, d + 1)) return false; } }
    break;
  case K::Cmp: case K::Not:
    if (R.isSingleElement()) return assume(s, R.getSingleElement()->isOne(), S, d + 1);
    break;
  case K::Off:
    if (!R.contains(APInt(64, 0)) ) {}
    break;
  default: break;
  }
  return true;
}
bool Engine::assume(Sym c, bool truth, State &S, int d) {
  const Node n = T[c];
  if (n.k == K::Const) return (n.n & 1) == (truth ? 1 : 0);
  ConstantRange cur = range(c, S);
  if (cur.isSingleElement()) { if (cur.getSingleElement()->isOne() != truth) return false; }
  if (n.k == K::Not) return assume(n.a, !truth, S, d + 1);
  S.facts.insert_or_assign(c, one(truth, 1));
  if (d > 8) return true;
  if (n.k == K::Cmp) {
    auto pr = (CmpInst::Predicate)n.op; if (!truth) pr = CmpInst::getInversePredicate(pr);
    ConstantRange a = range(n.a, S), b = range(n.b, S);
    if (!assumeRange(n.a, ConstantRange::makeAllowedICmpRegion(pr, b), S, d + 1)) return false;
    a = range(n.a, S);
    if (!assumeRange(n.b, ConstantRange::makeAllowedICmpRegion(CmpInst::getSwappedPredicate(pr), a), S, d + 1)) return false;
    return true;
  }
  if (n.k == K::Bin || n.k == K::Cast) { S.facts.erase(c); return assumeRange(c, one(truth, 1), S, d); }
  return true;
}

Sym Engine::eval(const Value *V, State &S) {
  const DataLayout &DL = P.M->getDataLayout();
  if (auto *CI = dyn_cast<ConstantInt>(V)) {
    if (CI->getBitWidth() > 64) return T.fresh(V, 128);
    return T.cst((int64_t)CI->getZExtValue(), CI->getBitWidth());
  }
  if (isa<ConstantPointerNull>(V)) return T.cst(0, 64);
  if (isa<Function>(V) || isa<GlobalVariable>(V)) return T.get({K::Glob, 0, 64, V, 0, 0, 0});
  if (auto *GEP = dyn_cast<GEPOperator>(V)) if (isa<Constant>(V)) {
    APInt o(64, 0); if (GEP->accumulateConstantOffset(DL, o)) return T.off(eval(GEP->getPointerOperand(), S), o.getSExtValue());
  }
  if (auto *CE = dyn_cast<ConstantExpr>(V)) if (CE->isCast() && CE->getType()->getScalarSizeInBits() == 0) return eval(CE->getOperand(0), S);
  unsigned w = V->getType()->isPointerTy() ? 64 : V->getType()->isIntegerTy() ? V->getType()->getIntegerBitWidth() : V->getType()->isVoidTy() ? 0 : 63;
  if (w > 64) w = 128;
  if (isa<Constant>(V)) return T.get({K::Misc, 0, (uint16_t)w, V, 0, 0, 0});
  auto it = S.env.find(V); if (it != S.env.end()) return it->second;
  return T.fresh(V, w);
}

// ---- memory
static bool mayAliasBase(const SymTab &T, Sym a, Sym b) {
  if (a == b) return true;
  const Node &x = T[a], &y = T[b];
  auto root = [&](Sym s) { Sym r = s; for (int i = 0; i < 20; ++i) { const Node &n = T[r]; if (n.k == K::Off || n.k == K::Var) r = n.a; else break; } return r; };
  Sym ra = root(a), rb = root(b);
  const Node &p = T[ra], &q = T[rb];
  auto ident = [&](const Node &n) { return n.k == K::Glob || isAlloca(n) || isFreshAlloc(n); };
  if (ra != rb) {
    if (T.unique.count(ra) && T.unique.count(rb)) return false;
    if (ident(p) && ident(q)) return false;
    if (isAlloca(p) || isAlloca(q)) return false;
    if (isFreshAlloc(p) || isFreshAlloc(q)) return false;
    if (p.k == K::Glob || q.k == K::Glob) return false;   // library globals are not pointed to by image fields
  }
  (void)x; (void)y;
  return true;
}
static bool trackable(const SymTab &T, Sym base, const FieldClass &c) {
  if (T[base].k == K::Var) base = rootOf(T, base);
  const Node &n = T[base];
  if (n.k == K::Glob || isAlloca(n)) return true;
  if (isFreshAlloc(n)) return true;
  return !c.raw();
}
Sym Engine::load(Sym ptr, unsigned w, FieldClass c, State &S, const void *site) {
  auto [b, o] = T.split(ptr);
  if (T[b].k == K::Glob && w && w <= 64 && w != 63) if (auto *G = dyn_cast<GlobalVariable>((const Value *)T[b].p)) if (G->isConstant() && G->hasInitializer() && o >= 0) { // constant tables
    const DataLayout &DL = P.M->getDataLayout(); Type *PT = PointerType::get(P.M->getContext(), 0);
    if ((uint64_t)o + w / 8 <= DL.getTypeAllocSize(G->getValueType())) { if (auto *CI = dyn_cast_or_null<ConstantInt>(ConstantFoldLoadFromConst(const_cast<Constant *>(G->getInitializer()), IntegerType::get(P.M->getContext(), w), APInt(64, o), DL))) return T.cst((int64_t)CI->getZExtValue(), w);
      if (w == 64) if (auto *K = ConstantFoldLoadFromConst(const_cast<Constant *>(G->getInitializer()), PT, APInt(64, o), DL)) if (isa<GlobalValue>(K) || isa<ConstantPointerNull>(K)) return eval(K, S); } }
  if ((!trackable(T, b, c) && !(c.raw() && prop.rawReload() && (T[b].k == K::Var || prop.rawReload() > 1))) || w > 64 || w == 63) { return 0; }
  Loc L{b, o};
  auto it = S.mem.find(L);
  if (it != S.mem.end()) { if (it->second.w == w) return it->second.v; 
    if (it->second.w > w && T[it->second.v].k == K::Const) return T.cst(T[it->second.v].n, w);
    return 0; }
  auto z = S.zero.find(b);
  Sym v;
  if (z != S.zero.end() && o >= 0 && o + (int64_t)w / 8 <= z->second.len && !z->second.except.count(c)) v = T.cst(0, w);
  else {
    const Node &n = T[b];
    if (n.k == K::Glob) { auto *G = dyn_cast<GlobalVariable>((const Value *)n.p);
      if (G && G->isConstant() && G->hasInitializer() && o == 0) if (auto *CI = dyn_cast<ConstantInt>(G->getInitializer())) if (CI->getBitWidth() == w) return T.cst((int64_t)CI->getZExtValue(), w); }
    auto h = S.havoc.find(c);
    v = T.get({K::Load, 0, (uint16_t)w, h == S.havoc.end() ? nullptr : h->second, b, 0, o});
  }
  S.mem[L] = {v, w, c};
  return v;
}
void Engine::store(Sym ptr, Sym v, unsigned w, FieldClass c, State &S, const void *site) {
  auto [b, o] = T.split(ptr); bool again = c.raw() && prop.rawReload() && !trackable(T, b, c);
  if (again) killRaw(S, site, w);
  // kill overlapping / aliasing
  for (auto it = S.mem.begin(); it != S.mem.end();) {
    bool same = it->first.base == b;
    if (same) {
      int64_t e1 = it->first.off + it->second.w / 8, e0 = o + w / 8;
      if (it->first.off < e0 && o < e1 && !(it->first.off == o)) { it = S.mem.erase(it); continue; }
    } else if ((!c.raw() && it->second.c == c && mayAliasBase(T, b, it->first.base)) ||
               ((T[b].k == K::Var || T[it->first.base].k == K::Var) && rootOf(T, b) == rootOf(T, it->first.base) && (c.raw() || it->second.c == c || it->second.c.raw())))
      it->second.v = T.get({K::Misc, 1, (uint16_t)it->second.w, site, it->first.base, 0, it->first.off});
    ++it;
  }
  if (again && (T[b].k == K::Var || prop.rawReload() > 1) && w <= 64 && w != 63) { S.mem[{b, o}] = {v, w, c}; return; }
  if (!trackable(T, b, c) || w > 64 || w == 63) { S.mem.erase({b, o}); if (w == 63 && trackable(T,b,c)) S.mem[{b,o}] = {T.get({K::Misc,2,63,site,b,0,o}), 63, c}; return; }
  S.mem[{b, o}] = {v, w, c};
}
// element loads of memory not tracked otherwise are remembered (for properties that ask for it) until such memory may be written
void Engine::killRaw(State &S, const void *site, unsigned w) { // w: the width of the one store, 0 for any; numbers and pointers do not share memory
  for (auto it = S.mem.begin(); it != S.mem.end();) if (it->second.c.raw() && !trackable(T, it->first.base, it->second.c) && !(w >= 32 && w <= 64 && it->second.w >= 32 && it->second.w != w)) it = S.mem.erase(it); else ++it;
  S.havoc[FieldClass()] = site; }
void Engine::havocClasses(const std::set<FieldClass> &cs, State &S, const void *site) {
  for (auto &kv : S.mem) if (!kv.second.c.raw() && cs.count(kv.second.c) && !isAlloca(T[kv.first.base]))
    kv.second.v = T.get({K::Misc, 3, (uint16_t)kv.second.w, site, kv.first.base, 0, kv.first.off});
  for (auto &c : cs) if (!c.raw()) S.havoc[c] = site;
  for (auto &z : S.zero) if (!isAlloca(T[z.first])) for (auto &c : cs) if (!c.raw()) z.second.except.insert(c);
}
void Engine::havocBase(Sym base, State &S, const void *site) {
  for (auto it = S.mem.begin(); it != S.mem.end();) if (it->first.base == base) {
    it->second.v = T.get({K::Misc, 4, (uint16_t)it->second.w, site, it->first.base, 0, it->first.off}); ++it; } else ++it;
  S.zero.erase(base);
}

void Engine::defaultCall(const CallBase *CB, State &S, Sym &ret) {
  const Function *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
  ret = 0;
  if (isa<DbgInfoIntrinsic>(CB)) return;
  if (prop.rawReload() && !CB->onlyReadsMemory()) { auto m = C ? P.mod.find(C) : P.mod.end(); if (!C || C->isDeclaration() || m == P.mod.end() || m->second.count(FieldClass())) killRaw(S, CB, 0); }
  if (auto *MS = dyn_cast<MemSetInst>(CB)) {
    Sym d = eval(MS->getDest(), S), len = eval(MS->getLength(), S); auto [b, o] = T.split(d);
    int64_t L = -1, v; bool lenk = single(len, S, L); Sym vs = eval(MS->getValue(), S); bool zero = single(vs, S, v) && v == 0;
    for (auto it = S.mem.begin(); it != S.mem.end();) if (it->first.base == b) it = S.mem.erase(it); else ++it;
    S.zero.erase(b);
    if (zero && o == 0) S.zero[b] = {lenk ? L : (int64_t)1 << 40, {}};
    else { // unknown contents: distinct epoch through havoc of nothing; entries erased
      if (isAlloca(T[b]) || isFreshAlloc(T[b])) {}
    }
    return;
  }
  if (auto *MT = dyn_cast<MemTransferInst>(CB)) {
    Sym d = eval(MT->getDest(), S), s = eval(MT->getSource(), S); auto [db, dofs] = T.split(d); auto [sb, sofs] = T.split(s);
    int64_t L; bool lenk = single(eval(MT->getLength(), S), S, L);
    havocBase(db, S, CB);
    if (lenk) { std::vector<std::pair<Loc, MemVal>> add;
      for (auto &kv : S.mem) if (kv.first.base == sb && kv.first.off >= sofs && kv.first.off < sofs + L) add.push_back({{db, kv.first.off - sofs + dofs}, kv.second});
      for (auto &a : add) S.mem[a.first] = a.second; }
    return;
  }
  auto change = [&](const Function *G) { auto m = P.mod.find(G); if (m == P.mod.end()) return; if (!P.keeps) return havocClasses(m->second, S, CB);
    std::set<FieldClass> cs; for (auto &c : m->second) if (!P.keeps(G, c)) cs.insert(c); havocClasses(cs, S, CB); };
  if (C) change(C);
  else {
    // dispatch pointers: union of possible targets
    const Value *V = CB->getCalledOperand()->stripPointerCasts();
    if (auto *LI = dyn_cast<LoadInst>(V)) if (auto *G = dyn_cast<GlobalVariable>(LI->getPointerOperand()->stripPointerCasts())) {
      for (auto *U : G->users()) if (auto *SI = dyn_cast<StoreInst>(U)) if (auto *F2 = dyn_cast<Function>(SI->getValueOperand()->stripPointerCasts())) {
        change(F2); }
    }
  }
  for (unsigned i = 0; i < CB->arg_size(); ++i) {
    if (!CB->getArgOperand(i)->getType()->isPointerTy()) continue;
    bool w = true;
    if (C && i < C->arg_size()) { auto pm = P.paramMod.find(C); w = pm != P.paramMod.end() && pm->second.count(i); }
    if (CB->paramHasAttr(i, Attribute::ReadOnly) || CB->paramHasAttr(i, Attribute::ReadNone)) w = false;
    if (!w) continue;
    auto [b, o] = T.split(eval(CB->getArgOperand(i), S));
    Sym r = b; while (T[r].k == K::Var || T[r].k == K::Off) r = T[r].a;
    if (isAlloca(T[r]) || isFreshAlloc(T[r])) { 
      std::vector<Sym> bs; for (auto &kv : S.mem) { Sym q = kv.first.base; while (T[q].k==K::Var||T[q].k==K::Off) q=T[q].a; if (q==r) bs.push_back(kv.first.base);} 
      bs.push_back(r); for (auto x : bs) havocBase(x, S, CB);
    }
  }
  // memory of an alloca not yet recorded becomes unknown: later loads give Load(base,off) - stable but unconstrained
  if (!CB->getType()->isVoidTy()) {
    unsigned w = CB->getType()->isPointerTy() ? 64 : CB->getType()->isIntegerTy() ? CB->getType()->getIntegerBitWidth() : 63;
    ret = T.fresh(CB, w > 64 ? 128 : w);
  }
}

// ---- staleness
void Engine::rename(State &S, const std::set<Sym> &kill, const void *site, const BasicBlock *BB) {
  std::map<Sym, bool> memo;
  auto hit = [&](Sym s) { return T.mentions(s, kill, memo); };
  std::map<Sym, ConstantRange> carry; State before; if (prop.relational()) before = S;
  std::vector<Sym> objs; for (auto &o : S.obj) if (hit(o.first)) objs.push_back(o.first);
  for (auto o : objs) { prop.onStale(o, S); S.obj.erase(o); }
  std::map<Sym, Sym> sub;
  auto repl = [&](Sym s, const void *p, Sym a, int64_t n) {
    // keep identity between equal stale values
    auto it = sub.find(s); if (it != sub.end()) return it->second;
    unsigned w = T[s].w; Sym r = T.get({K::Misc, 5, (uint16_t)w, p, a, 0, n});
    ConstantRange R = w && w <= 64 && w != 63 ? range(s, S) : full(w ? w : 1);
    if (!R.isFullSet()) carry.insert_or_assign(r, R);
    sub[s] = r; return r;
  };
  for (auto &kv : S.env) if (hit(kv.second)) kv.second = repl(kv.second, kv.first, 0, (int64_t)(intptr_t)site);
  for (auto it = S.mem.begin(); it != S.mem.end();) {
    if (hit(it->first.base)) { it = S.mem.erase(it); continue; }
    if (hit(it->second.v)) it->second.v = repl(it->second.v, site, it->first.base, it->first.off);
    ++it;
  }
  for (auto &kv : S.reg) if (hit(kv.second)) kv.second = repl(kv.second, site, 0, kv.first);
  for (auto it = S.zero.begin(); it != S.zero.end();) if (hit(it->first)) it = S.zero.erase(it); else ++it;
  std::map<Sym,bool> memo2;
  std::set<Sym> newSyms; for (auto &c : sub) newSyms.insert(c.second);
  // the same replacement names of an earlier round no longer mean the same thing
  objs.clear(); for (auto &o : S.obj) if (T.mentions(o.first, newSyms, memo2)) objs.push_back(o.first);
  for (auto o : objs) { prop.onStale(o, S); S.obj.erase(o); }
  for (auto it = S.mem.begin(); it != S.mem.end();) if (T.mentions(it->first.base, newSyms, memo2)) it = S.mem.erase(it); else ++it;
  for (auto it = S.facts.begin(); it != S.facts.end();) if (hit(it->first) || T.mentions(it->first, newSyms, memo2)) it = S.facts.erase(it); else ++it;
  for (auto &c : carry) S.facts.insert_or_assign(c.first, c.second);
  if (prop.relational()) prop.onRename(before, S, sub);
}

// ---- liveness
void Engine::liveness() {
  std::map<const BasicBlock *, std::set<const Value *>> use, def;
  for (auto &BB : F) for (auto &I : BB) {
    if (isa<DbgInfoIntrinsic>(I)) continue;
    if (!isa<PHINode>(I)) for (auto &U : I.operands()) { const Value *v = U.get(); if ((isa<Instruction>(v) || isa<Argument>(v)) && !def[&BB].count(v)) use[&BB].insert(v); }
    def[&BB].insert(&I);
  }
  bool ch = true;
  std::vector<const BasicBlock *> po; for (auto *BB : post_order(&F)) po.push_back(BB);
  while (ch) { ch = false;
    for (auto *BB : po) {
      std::set<const Value *> out;
      for (auto *Su : successors(BB)) {
        for (auto *v : liveIn[Su]) { if (auto *P = dyn_cast<PHINode>(v)) if (P->getParent() == Su) continue; out.insert(v); }
        for (auto &Ph : Su->phis()) { const Value *v = Ph.getIncomingValueForBlock(BB); if (isa<Instruction>(v) || isa<Argument>(v)) out.insert(v); }
      }
      auto &in = liveIn[BB]; size_t n = in.size();
      in.insert(use[BB].begin(), use[BB].end());
      for (auto *v : out) if (!def[BB].count(v)) in.insert(v);
      for (auto &Ph : BB->phis()) in.insert(&Ph);
      if (in.size() != n) ch = true;
    } }
  // retained: return feeders
  std::vector<const Value *> wl; for (auto &BB : F) if (auto *R = dyn_cast<ReturnInst>(BB.getTerminator())) if (R->getReturnValue()) wl.push_back(R->getReturnValue());
  while (!wl.empty()) { auto *v = wl.back(); wl.pop_back(); if (!retFeeders.insert(v).second) continue;
    if (auto *P = dyn_cast<PHINode>(v)) for (auto &u : P->incoming_values()) wl.push_back(u);
    if (auto *C = dyn_cast<CastInst>(v)) wl.push_back(C->getOperand(0));
    if (auto *C = dyn_cast<SelectInst>(v)) { wl.push_back(C->getTrueValue()); wl.push_back(C->getFalseValue()); } }
}
std::string Engine::key(const BasicBlock *BB, const State &S) const {
  std::string k; char buf[64];
  for (auto &f : S.flag) { snprintf(buf, 64, "%d=%d,", f.first, f.second); k += buf; } k += ";";
  for (auto &o : S.obj) { snprintf(buf, 64, "%u:%d,", o.first, o.second); k += buf; } k += ";";
  for (auto &o : S.reg) { snprintf(buf, 64, "%d:%u,", o.first, o.second); k += buf; } k += ";";
  for (auto &e : S.env) {
    Sym b = T.split(e.second).first;
    if (S.obj.count(b)) { snprintf(buf, 64, "%u@%u,", order.at(e.first), prop.keyOffsets() ? e.second : b); k += buf; }
    else if (prop.keyRet() && retFeeders.count(e.first) && T[e.second].k == K::Const && (uint64_t)T[e.second].n <= 1) { snprintf(buf, 64, "%u#%lld,", order.at(e.first), (long long)T[e.second].n); k += buf; }
  }
  for (auto &m : S.mem) if (S.obj.count(T.split(m.second.v).first)) { snprintf(buf, 64, "%u+%lld@%u,", m.first.base, (long long)m.first.off, m.second.v); k += buf; }
  return k;
}
bool Engine::leq(const State &a, const State &b) const {  // a described by b
  if (a.obj != b.obj || a.flag != b.flag || a.reg != b.reg) return false;
  if (a.env != b.env || !(a.mem == b.mem) || a.havoc != b.havoc || !(a.zero == b.zero)) return false;
  if (!std::includes(b.aux.begin(), b.aux.end(), a.aux.begin(), a.aux.end())) return false;
  for (auto &f : b.facts) if (!f.second.contains(range(f.first, a))) return false;
  return true;
}
State Engine::join(const State &a, const State &b, const BasicBlock *BB, bool widen) {
  merges++;
  State r; r.flag = a.flag; r.obj = a.obj; r.tr = a.tr; r.aux = a.aux; r.aux.insert(b.aux.begin(), b.aux.end());
  std::map<Sym, std::pair<Sym, Sym>> made; // new join sym -> (a sym, b sym)
  auto mk = [&](Sym x, Sym y, int64_t tag, Sym base, uint8_t sub) {
    if (x == y) return x;
    Sym j = T.get({K::Join, sub, T[x].w, BB, base, 0, tag});
    made[j] = {x, y}; return j;
  };
  for (auto &e : a.env) { auto it = b.env.find(e.first); if (it == b.env.end()) continue; r.env[e.first] = mk(e.second, it->second, (int64_t)order.at(e.first), 0, 0); }
  std::set<Loc> locs; for (auto &m : a.mem) locs.insert(m.first); for (auto &m : b.mem) locs.insert(m.first);
  State ca = a, cb = b;
  for (auto &L : locs) {
    auto x = a.mem.find(L), y = b.mem.find(L);
    MemVal mv; Sym vx, vy;
    if (x != a.mem.end()) mv = x->second; else mv = y->second;
    vx = x != a.mem.end() ? x->second.v : load(T.off(L.base, L.off), mv.w, mv.c, ca, BB);
    vy = y != b.mem.end() ? (y->second.w == mv.w ? y->second.v : 0) : load(T.off(L.base, L.off), mv.w, mv.c, cb, BB);
    if (!vx || !vy) { vx = T.get({K::Misc,6,(uint16_t)mv.w,BB,L.base,0,L.off}); vy = vx; }
    r.mem[L] = {mk(vx, vy, L.off, L.base, 1), mv.w, mv.c};
  }
  for (auto &h : a.havoc) { auto it = b.havoc.find(h.first); r.havoc[h.first] = it != b.havoc.end() && it->second == h.second ? h.second : (const void *)BB; }
  for (auto &h : b.havoc) if (!a.havoc.count(h.first)) r.havoc[h.first] = BB;
  for (auto &z : a.zero) { auto it = b.zero.find(z.first); if (it != b.zero.end()) { Zero q = z.second; q.len = std::min(q.len, it->second.len); q.except.insert(it->second.except.begin(), it->second.except.end()); r.zero[z.first] = q; } }
  for (auto &g : a.reg) { auto it = b.reg.find(g.first); if (it != b.reg.end()) r.reg[g.first] = mk(g.second, it->second, g.first, 0, 2); }
  auto put = [&](Sym s, const ConstantRange &x, const ConstantRange &y, const ConstantRange *old) {
    ConstantRange u = x.unionWith(y);
    if (u.isFullSet()) return;
    if (widen && old && !(u == *old) && (u.isSizeLargerThan(2) || u.contains(APInt(u.getBitWidth(), 0)))) {
      unsigned w = u.getBitWidth();
      ConstantRange wr = full(w);
      if (!u.contains(APInt(w, 0)) && w == 64 ) wr = nz(w);
      else if (u.getUnsignedMin() == old->getUnsignedMin() && !u.isWrappedSet() && !u.getUnsignedMin().isZero()) wr = ConstantRange(u.getUnsignedMin(), APInt(w, 0));
      else if (u.getSignedMin() == old->getSignedMin() && !u.isSignWrappedSet() && u.getSignedMin().isNonNegative()) wr = ConstantRange::getNonEmpty(u.getSignedMin(), APInt::getSignedMinValue(w));
      else if (u.getUnsignedMax() == old->getUnsignedMax() && !u.isWrappedSet()) wr = ConstantRange::getNonEmpty(APInt(w,0), u.getUnsignedMax()+1);
      u = wr; if (u.isFullSet()) return;
    }
    r.facts.insert_or_assign(s, u);
  };
  for (auto &m : made) { unsigned w = T[m.first].w; if (!w || w == 63 || w > 64) continue;
    ConstantRange x = range(m.second.first, a), y = range(m.second.second, b); put(m.first, x, y, &x); }
  for (auto &f : a.facts) if (!made.count(f.first)) { ConstantRange y = range(f.first, b); put(f.first, f.second, y, &f.second); }
  for (auto &f : b.facts) if (T[f.first].k == K::Cmp && !made.count(f.first) && !a.facts.count(f.first)) { ConstantRange x = range(f.first, a); if (x == f.second) put(f.first, x, f.second, nullptr); }
  prop.onJoin(a, b, r, made);
  return r;
}
void Engine::gc(State &S, const BasicBlock *BB) {
  auto &L = liveIn[BB];
  for (auto it = S.env.begin(); it != S.env.end();) if (!L.count(it->first)) it = S.env.erase(it); else ++it;
  prop.onKill(S);
  std::set<Sym> seen;
  std::function<void(Sym)> mark = [&](Sym s) { if (!s || !seen.insert(s).second) return; const Node &n = T[s]; mark(n.a); mark(n.b); };
  for (auto &e : S.env) mark(e.second);
  for (auto &o : S.obj) mark(o.first);
  for (auto &o : S.reg) mark(o.second);
  auto rooted = [&](Sym b) { for (int i = 0; i < 40; ++i) { const Node &n = T[b]; if (seen.count(b)) return true; if (n.k == K::Glob) return true; if (n.k == K::Fresh && n.p && (isa<Argument>((const Value *)n.p) || isa<AllocaInst>((const Value*)n.p))) return true; if (n.k == K::Load || n.k == K::Off || n.k == K::Var) { b = n.a; continue; } return false; } return false; };
  bool ch = true; std::set<Loc> done;
  while (ch) { ch = false; for (auto &m : S.mem) if (!done.count(m.first) && rooted(m.first.base)) { done.insert(m.first); mark(m.second.v); mark(m.first.base); ch = true; } }
  for (auto it = S.mem.begin(); it != S.mem.end();) if (!done.count(it->first)) it = S.mem.erase(it); else ++it;
  for (auto it = S.zero.begin(); it != S.zero.end();) if (!seen.count(it->first)) it = S.zero.erase(it); else ++it;
  std::map<Sym, bool> memo;
  std::function<bool(Sym)> leaves = [&](Sym s) -> bool { if (!s) return true; if (seen.count(s)) return true; auto it = memo.find(s); if (it != memo.end()) return it->second;
    const Node &n = T[s]; bool r;
    if (n.k == K::Const || n.k == K::Glob) r = true; else if (n.k == K::Load && !S.mem.count({n.a, n.n})) r = leaves(n.a); else if (n.k == K::Load) r = false; else if (n.k == K::Bin || n.k == K::Cast || n.k == K::Cmp || n.k == K::Not || n.k == K::Off || n.k == K::Var) r = leaves(n.a) && leaves(n.b); else r = false; memo[s] = r; return r; };
  for (auto it = S.facts.begin(); it != S.facts.end();) if (!leaves(it->first)) it = S.facts.erase(it); else ++it;
}

static bool canonCmp(CmpInst::Predicate &p, Sym &a, Sym &b, const SymTab &T) { // returns negate
  if (T[a].k == K::Const && T[b].k != K::Const) { std::swap(a, b); p = CmpInst::getSwappedPredicate(p); }
  switch (p) {
  case CmpInst::ICMP_NE: p = CmpInst::ICMP_EQ; if (T[b].k != K::Const && a > b) std::swap(a,b); return true;
  case CmpInst::ICMP_EQ: if (T[b].k != K::Const && a > b) std::swap(a,b); return false;
  case CmpInst::ICMP_UGE: p = CmpInst::ICMP_ULT; return true;
  case CmpInst::ICMP_SGE: p = CmpInst::ICMP_SLT; return true;
  case CmpInst::ICMP_ULE: p = CmpInst::ICMP_UGT; if (T[b].k != K::Const) { std::swap(a, b); p = CmpInst::ICMP_ULT; } return true;
  case CmpInst::ICMP_SLE: p = CmpInst::ICMP_SGT; if (T[b].k != K::Const) { std::swap(a, b); p = CmpInst::ICMP_SLT; } return true;
  case CmpInst::ICMP_UGT: if (T[b].k != K::Const) { std::swap(a, b); p = CmpInst::ICMP_ULT; } return false;
  case CmpInst::ICMP_SGT: if (T[b].k != K::Const) { std::swap(a, b); p = CmpInst::ICMP_SLT; } return false;
  default: return false;
  }
}

void Engine::edge(const BasicBlock *from, const BasicBlock *to, State S, std::vector<std::pair<const BasicBlock *, State>> &out) {
  std::vector<std::pair<const PHINode *, Sym>> nv;
  for (auto &Ph : to->phis()) nv.push_back({&Ph, eval(Ph.getIncomingValueForBlock(from), S)});
  for (auto &x : nv) S.env[x.first] = x.second;
  // staleness of join symbols of `to`
  std::set<Sym> kill;
  std::map<int64_t, const Value *> byOrd;
  auto look = [&](Sym s, auto &&self) -> void { if (!s) return; const Node &n = T[s];
    if (n.k == K::Join && n.p == to) {
      if (n.op == 0) { // env join: still current?
        bool cur = false; for (auto &e : S.env) if (e.second == s && (int64_t)order.at(e.first) == n.n) { cur = true; break; }
        if (!cur) kill.insert(s);
      } else if (n.op == 1) { auto it = S.mem.find({n.a, n.n}); if (it == S.mem.end() || it->second.v != s) kill.insert(s); }
    }
    self(n.a, self); self(n.b, self); };
  for (auto &e : S.env) look(e.second, look);
  for (auto &m : S.mem) { look(m.second.v, look); look(m.first.base, look); }
  for (auto &g : S.reg) look(g.second, look);
  for (auto &f : S.facts) look(f.first, look);
  gc(S, to);
  if (!kill.empty()) rename(S, kill, to, to);
  out.push_back({to, std::move(S)});
}

void Engine::execBlock(const BasicBlock *BB, State S0, std::vector<std::pair<const BasicBlock *, State>> &out) {
  const DataLayout &DL = P.M->getDataLayout();
  struct Item { State S; BasicBlock::const_iterator it; };
  std::vector<Item> wl; wl.push_back({std::move(S0), BB->begin()});
  auto wOf = [&](Type *Ty) -> unsigned { return Ty->isPointerTy() ? 64 : Ty->isIntegerTy() ? (Ty->getIntegerBitWidth() > 64 ? 128 : Ty->getIntegerBitWidth()) : 63; };
  auto refresh = [&](State &S, const Instruction *I) { // about to (re)define Fresh(I)
    unsigned w = I->getType()->isVoidTy() ? 0 : wOf(I->getType());
    Sym f = T.fresh(I, w);
    std::set<Sym> k{f}; std::map<Sym, bool> memo; bool m = false;
    for (auto &e : S.env) if (e.first != I && T.mentions(e.second, k, memo)) { m = true; break; }
    if (!m) for (auto &e : S.mem) if (T.mentions(e.second.v, k, memo) || T.mentions(e.first.base, k, memo)) { m = true; break; }
    if (!m) for (auto &e : S.facts) if (T.mentions(e.first, k, memo)) { m = true; break; }
    if (!m) for (auto &e : S.obj) if (T.mentions(e.first, k, memo)) { m = true; break; }
    if (!m) for (auto &e : S.reg) if (T.mentions(e.second, k, memo)) { m = true; break; }
    S.env.erase(I);
    if (m) rename(S, k, I);
    return f;
  };
  while (!wl.empty()) {
    Item cur = std::move(wl.back()); wl.pop_back();
    State &S = cur.S; bool stop = false;
    for (auto it = cur.it; it != BB->end() && !stop; ++it) {
      const Instruction *I = &*it;
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
      if (isa<AllocaInst>(I)) { S.env[I] = T.fresh(I, 64); continue; }
      if (auto *LI = dyn_cast<LoadInst>(I)) {
        Sym p = eval(LI->getPointerOperand(), S); prop.onDeref(I, p, S, false);
        FieldClass c = classOfAccess(LI); unsigned w = wOf(LI->getType());
        Sym v = load(p, w, c, S, I);
        if (!v) v = refresh(S, I);
        S.env[I] = v; prop.onLoad(LI, p, v, S); continue;
      }
      if (auto *SI = dyn_cast<StoreInst>(I)) {
        Sym p = eval(SI->getPointerOperand(), S), v = eval(SI->getValueOperand(), S);
        prop.onDeref(I, p, S, true);
        prop.onStore(SI, p, v, S);
        store(p, v, wOf(SI->getValueOperand()->getType()), classOfAccess(SI), S, I); continue;
      }
      if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
        Sym b = eval(G->getPointerOperand(), S); int64_t co = 0; 
        for (gep_type_iterator gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
          if (auto *ST = gi.getStructTypeOrNull()) { co += DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
          uint64_t sz = DL.getTypeAllocSize(gi.getIndexedType());
          Sym ix = eval(gi.getOperand(), S); int64_t v;
          if (single(ix, S, v)) { unsigned w = T[ix].w; if (w < 64 && (v >> (w - 1)) & 1) v |= ~0ull << w; co += v * (int64_t)sz; }
          else { Sym bb = T.off(b, co); co = 0; b = T.get({K::Var, 0, 64, nullptr, bb, ix, (int64_t)sz}); }
        }
        S.env[I] = T.off(b, co); continue;
      }
      if (auto *CI = dyn_cast<CastInst>(I)) {
        unsigned w = wOf(I->getType()), sw = wOf(CI->getSrcTy());
        if (CI->isNoopCast(DL) && w == sw) { S.env[I] = eval(CI->getOperand(0), S); continue; }
        if ((isa<ZExtInst>(I) || isa<SExtInst>(I) || isa<TruncInst>(I)) && w <= 64 && sw <= 64) {
          Sym a = eval(CI->getOperand(0), S); int64_t v;
          if (T[a].k == K::Const && single(a, S, v)) { ConstantRange r = range(a, S).castOp(CI->getOpcode(), w); S.env[I] = T.cst((int64_t)r.getSingleElement()->getZExtValue(), w); continue; }
          S.env[I] = T.get({K::Cast, (uint8_t)CI->getOpcode(), (uint16_t)w, nullptr, a, 0, 0}); continue;
        }
        S.env[I] = refresh(S, I); continue;
      }
      if (auto *BO = dyn_cast<BinaryOperator>(I)) {
        unsigned w = wOf(I->getType());
        if (w == 63 || w > 64) { continue; }
        Sym a = eval(BO->getOperand(0), S), b = eval(BO->getOperand(1), S);
        auto op = BO->getOpcode();
        if (BO->isCommutative() && T[a].k == K::Const && T[b].k != K::Const) std::swap(a, b);
        else if (BO->isCommutative() && T[b].k != K::Const && a > b) std::swap(a, b);
        ConstantRange ra = range(a, S), rb = range(b, S);
        if (ra.isSingleElement() && rb.isSingleElement()) {
          ConstantRange r = ra.binaryOp(op, rb); if (r.isSingleElement()) { S.env[I] = T.cst((int64_t)r.getSingleElement()->getZExtValue(), w); continue; } }
        if (w == 1 && op == Instruction::Xor && T[b].k == K::Const) { S.env[I] = (T[b].n & 1) ? (T[a].k == K::Not ? T[a].a : T.get({K::Not,0,1,nullptr,a,0,0})) : a; continue; }
        if ((op == Instruction::Add || op == Instruction::Sub || op == Instruction::Or || op == Instruction::Xor || op == Instruction::Shl || op == Instruction::LShr) && T[b].k == K::Const && T[b].n == 0) { S.env[I] = a; continue; }
        if (op == Instruction::Mul && T[b].k == K::Const && T[b].n == 1) { S.env[I] = a; continue; }
        if (op == Instruction::Sub && T[b].k == K::Const) { op = Instruction::Add; b = T.cst(-T[b].n, w); }
        if (op == Instruction::Add && T[b].k == K::Const && T[a].k == K::Bin && T[a].op == Instruction::Add && T[T[a].b].k == K::Const) { int64_t c = T[b].n + T[T[a].b].n; Sym base = T[a].a; Sym cc = T.cst(c, w); if (T[cc].n == 0) { S.env[I] = base; continue; } a = base; b = cc; }
        if (op == Instruction::Sub && a == b) { S.env[I] = T.cst(0, w); continue; }
        S.env[I] = T.get({K::Bin, (uint8_t)op, (uint16_t)w, nullptr, a, b, 0});
        // bound expression size
        { std::function<int(Sym)> depth = [&](Sym s) -> int { const Node &n = T[s]; if (!s || (n.k != K::Bin && n.k != K::Cast)) return 0; return 1 + std::max(depth(n.a), depth(n.b)); };
          if (depth(S.env[I]) > 8) { ConstantRange r = range(S.env[I], S); Sym f = refresh(S, I); S.env[I] = f; if (!r.isFullSet()) S.facts.insert_or_assign(f, r); } }
        continue;
      }
      if (auto *C = dyn_cast<ICmpInst>(I)) {
        Sym a = eval(C->getOperand(0), S), b = eval(C->getOperand(1), S);
        if (T[a].w > 64 || T[a].w == 63) { S.env[I] = refresh(S, I); continue; }
        auto p = C->getPredicate(); bool neg = canonCmp(p, a, b, T);
        Sym c = T.get({K::Cmp, (uint8_t)p, 1, nullptr, a, b, 0});
        // (zext i1 x) ==/!= 0
        if (p == CmpInst::ICMP_EQ && T[b].k == K::Const && T[a].k == K::Cast && T[a].op == Instruction::ZExt && T[T[a].a].w == 1) {
          c = T[a].a; if (T[b].n == 0) neg = !neg; else if (T[b].n != 1) { c = T.cst(0, 1); } }
        if (neg) c = T[c].k == K::Not ? T[c].a : T[c].k == K::Const ? T.cst(!T[c].n, 1) : T.get({K::Not, 0, 1, nullptr, c, 0, 0});
        ConstantRange r = range(c, S); if (r.isSingleElement()) c = T.cst(r.getSingleElement()->getZExtValue(), 1);
        S.env[I] = c; continue;
      }
      if (auto *SE = dyn_cast<SelectInst>(I)) {
        Sym c = eval(SE->getCondition(), S); int64_t v;
        if (!SE->getCondition()->getType()->isIntegerTy(1)) { S.env[I] = refresh(S, I); continue; }
        if (single(c, S, v)) { S.env[I] = eval(v ? SE->getTrueValue() : SE->getFalseValue(), S); continue; }
        State S2 = S; auto nx = std::next(it);
        if (assume(c, false, S2)) { S2.env[I] = eval(SE->getFalseValue(), S2); wl.push_back({std::move(S2), nx}); }
        if (!assume(c, true, S)) { stop = true; break; }
        S.env[I] = eval(SE->getTrueValue(), S); continue;
      }
      if (auto *CB = dyn_cast<CallBase>(I)) {
        std::string n = calleeName(CB);
        if (!CB->getCalledFunction() && !CB->isInlineAsm()) { auto &cn = T[eval(CB->getCalledOperand(), S)]; if (cn.k == K::Glob) if (auto *H = dyn_cast<Function>((const Value *)cn.p)) n = srcName(H); }
        if (auto *II = dyn_cast<IntrinsicInst>(I)) if (!isa<MemIntrinsic>(II)) { if (!I->getType()->isVoidTy()) S.env[I] = refresh(S, I); }
        else {}
        if (isa<IntrinsicInst>(I) && !isa<MemIntrinsic>(I)) { }
        else {
          refresh(S, I);
          std::vector<CallOut> outs;
          if (prop.onCall(CB, n, S, outs)) {
            auto nx = std::next(it);
            for (auto &o : outs) {
              if (!CB->getType()->isVoidTy()) o.S.env[I] = o.retSet ? o.ret : T.fresh(I, wOf(I->getType()));
              if (auto *IV = dyn_cast<InvokeInst>(I)) { edge(BB, IV->getNormalDest(), std::move(o.S), out); }
              else wl.push_back({std::move(o.S), nx});
            }
            stop = true; break;
          }
          Sym ret = 0; defaultCall(CB, S, ret); if (ret) S.env[I] = ret;
          prop.afterCall(CB, n, S, ret);
          if (n == "_setjmp" || n == "setjmp") { // second return: library state unknown
          }
          if (CB->doesNotReturn() || n == "longjmp" || n == "exit" || n == "abort") { stop = true; break; }
        }
        if (auto *IV = dyn_cast<InvokeInst>(I)) { edge(BB, IV->getNormalDest(), std::move(S), out); stop = true; break; }
        continue;
      }
      if (auto *R = dyn_cast<ReturnInst>(I)) { Sym v = R->getReturnValue() ? eval(R->getReturnValue(), S) : 0; prop.onRet(R, S, v); stop = true; break; }
      if (auto *B = dyn_cast<BranchInst>(I)) {
        if (!B->isConditional()) { edge(BB, B->getSuccessor(0), std::move(S), out); stop = true; break; }
        Sym c = eval(B->getCondition(), S);
        if (T[c].k == K::Fresh || true) {
          State S2 = S;
          if (assume(c, true, S2)) { prop.onBranch(B, S2, true); edge(BB, B->getSuccessor(0), std::move(S2), out); }
          if (assume(c, false, S)) { prop.onBranch(B, S, false); edge(BB, B->getSuccessor(1), std::move(S), out); }
        }
        stop = true; break;
      }
      if (auto *SW = dyn_cast<SwitchInst>(I)) {
        Sym c = eval(SW->getCondition(), S); unsigned w = T[c].w;
        std::map<const BasicBlock *, std::vector<APInt>> tg;
        State D = S; bool dOK = true;
        for (auto &cs : SW->cases()) {
          State S2 = S; const APInt &v = cs.getCaseValue()->getValue();
          if (w <= 64 && T[c].k != K::Const && SW->getNumCases() <= 16) for (auto &o : SW->cases()) if (o.getCaseValue() != cs.getCaseValue()) distinct(c, T.cst(o.getCaseValue()->getZExtValue(), w), S2);
          if (w <= 64 && assumeRange(c, ConstantRange(v), S2)) edge(BB, cs.getCaseSuccessor(), std::move(S2), out);
          if (dOK && w <= 64) { ConstantRange r = range(c, D).difference(ConstantRange(v)); if (r.isEmptySet()) dOK = false; else { D.facts.insert_or_assign(c, r); } }
        }
        if (dOK && w <= 64 && T[c].k != K::Const && SW->getNumCases() <= 16) for (auto &o : SW->cases()) distinct(c, T.cst(o.getCaseValue()->getZExtValue(), w), D);
        if (dOK && w<=64) dOK = assumeRange(c, range(c, D), D);
        if (dOK) edge(BB, SW->getDefaultDest(), std::move(D), out);
        stop = true; break;
      }
      if (I->isTerminator()) { stop = true; break; }
      if (!I->getType()->isVoidTy()) S.env[I] = refresh(S, I);
    }
  }
}

void Engine::run() {
  // state-splitting instructions end their block, so that states are merged there
  { std::vector<Instruction *> sp;
    for (auto &BB : F) for (auto &I : BB) if ((isa<CallInst>(I) && !isa<IntrinsicInst>(I)) || (isa<SelectInst>(I) && cast<SelectInst>(I).getCondition()->getType()->isIntegerTy(1))) {
      auto *N = I.getNextNode(); if (N && !(isa<BranchInst>(N) && cast<BranchInst>(N)->isUnconditional())) sp.push_back(N); }
    for (auto *I : sp) I->getParent()->splitBasicBlock(I); }
  unsigned n = 0; for (auto &A : F.args()) order[&A] = n++;
  for (auto &BB : F) for (auto &I : BB) order[&I] = n++;
  liveness();
  std::map<const BasicBlock *, unsigned> rpo; { ReversePostOrderTraversal<const Function *> R(&F); unsigned i = 0; for (auto *BB : R) rpo[BB] = i++; }
  for (auto &BB : F) for (auto *S : successors(&BB)) if (rpo.count(&BB) && rpo[S] <= rpo[&BB]) headers.insert(S);
  struct Slot { std::vector<State> st; std::vector<bool> dirty; unsigned merged = 0; };
  std::map<const BasicBlock *, std::map<std::string, Slot>> tab;
  std::set<std::pair<unsigned, const BasicBlock *>> wl;
  auto add = [&](const BasicBlock *BB, State S) {
    Slot &sl = tab[BB][key(BB, S)];
    for (auto &t : sl.st) if (leq(S, t)) return;
    unsigned cap = headers.count(BB) ? 2 : K;
    if (sl.st.size() < cap) { sl.st.push_back(std::move(S)); sl.dirty.push_back(true); }
    else {
      unsigned i = sl.st.size() - 1;
      sl.merged++;
      State J = join(sl.st[i], S, BB, sl.merged > 3);
      if (leq(J, sl.st[i])) return;
      // after merging everything beyond budget, collapse
      sl.st[i] = std::move(J); sl.dirty[i] = true;
      if (sl.merged > 400) { complete = false; sl.dirty[i] = false; }
    }
    wl.insert({rpo[BB], BB});
  };
  State S; for (auto &A : F.args()) { Sym a = eval(&A, S); S.env[&A] = a; } prop.onEntry(S);
  add(&F.getEntryBlock(), S);
  std::set<const BasicBlock *> visited;
  while (!wl.empty()) {
    auto [r, BB] = *wl.begin(); wl.erase(wl.begin());
    visited.insert(BB);
    std::vector<State> todo;
    for (auto &kv : tab[BB]) for (unsigned i = 0; i < kv.second.st.size(); ++i) if (kv.second.dirty[i]) { kv.second.dirty[i] = false; todo.push_back(kv.second.st[i]); }
    for (auto &s : todo) {
      if (++steps > maxSteps) { complete = false; break; }
      std::vector<std::pair<const BasicBlock *, State>> out;
      execBlock(BB, s, out);
      for (auto &o : out) add(o.first, std::move(o.second));
    }
    if (!complete && steps > maxSteps) break;
  }
  blocksSeen = visited.size();
  for (auto &t : tab) for (auto &k : t.second) states += k.second.st.size();
}

bool Engine::known(CmpInst::Predicate p, Sym a, Sym b, const State &S) const {
  if (!a || !b) return false; if (range(a, S).icmp(p, range(b, S))) return true; if (a == b) return CmpInst::isTrueWhenEqual(p);
  auto ask = [&](CmpInst::Predicate q, Sym x, Sym y, bool want) { bool neg = canonCmp(q, x, y, T); auto it = T.tab.find({K::Cmp, (uint8_t)q, 1, nullptr, x, y, 0}); if (it == T.tab.end()) return false; auto f = S.facts.find(it->second); return f != S.facts.end() && f->second.isSingleElement() && f->second.getSingleElement()->isOne() == (want != neg); };
  if (ask(p, a, b, true) || ask(CmpInst::getInversePredicate(p), a, b, false)) return true;
  if (p == CmpInst::ICMP_NE || p == CmpInst::ICMP_ULE) { if (ask(CmpInst::ICMP_ULT, a, b, true)) return true; if (p == CmpInst::ICMP_NE && ask(CmpInst::ICMP_ULT, b, a, true)) return true; if (p == CmpInst::ICMP_ULE && ask(CmpInst::ICMP_EQ, a, b, true)) return true; }
  return false; }
void Engine::distinct(Sym a, Sym b, State &S) { if (a == b) return; auto p = CmpInst::ICMP_EQ; bool neg = canonCmp(p, a, b, T); S.facts.insert_or_assign(T.get({K::Cmp, (uint8_t)p, 1, nullptr, a, b, 0}), ConstantRange(APInt(1, neg ? 1 : 0))); }

std::string Engine::show(Sym s, const State *S) const {
  const Node &n = T[s];
  auto nm = [&](const void *p) -> std::string { if (!p) return ""; auto *V = (const Value *)p; std::string r; if (auto *I = dyn_cast<Instruction>(V)) { if (auto *CB = dyn_cast<CallBase>(I)) r = calleeName(CB) + "()@" + exactLine(I); else r = V->getName().str() + "@" + exactLine(I); } else r = V->getName().str(); return r; };
  switch (n.k) {
  case K::Const: return std::to_string(n.w == 32 ? (int64_t)(int32_t)n.n : n.n);
  case K::Glob: return "&" + nm(n.p);
  case K::Fresh: return nm(n.p);
  case K::Load: return "*(" + show(n.a) + "+" + std::to_string(n.n) + ")";
  case K::Bin: return std::string("(") + show(n.a) + " " + Instruction::getOpcodeName(n.op) + " " + show(n.b) + ")";
  case K::Cast: return show(n.a);
  case K::Off: return show(n.a) + "+" + std::to_string(n.n);
  case K::Var: return show(n.a) + "[" + show(n.b) + "]";
  case K::Cmp: return std::string("(") + show(n.a) + CmpInst::getPredicateName((CmpInst::Predicate)n.op).str() + show(n.b) + ")";
  case K::Not: return "!" + show(n.a);
  case K::Join: return "join";
  default: return "?";
  }
}
} // namespace dv
