#include "llvm/BinaryFormat/Dwarf.h"
#include "poly.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DataLayout.h"
using namespace llvm;
namespace dv {
std::string fieldName(Ctx &C, const FieldClass &c) {
  if (!c.p) return "";
  if (c.idx < 0) { auto *G = dyn_cast<GlobalVariable>((const Value *)c.p); return G ? G->getName().str() : ""; }
  static std::map<FieldClass, std::string> memo; auto it = memo.find(c); if (it != memo.end()) return it->second;
  auto *S = (StructType *)c.p; std::string r = "f" + std::to_string(c.idx); if (S->isLiteral()) return memo[c] = r;
  std::string n = S->getName().str(); auto p = n.find('.'); if (p != std::string::npos) n = n.substr(p + 1); p = n.find('.'); if (p != std::string::npos) n = n.substr(0, p);
  static DebugInfoFinder *DF = nullptr; if (!DF) { DF = new DebugInfoFinder; DF->processModule(*C.P.M); }
  const DataLayout &DL = C.P.M->getDataLayout();
  for (auto *T : DF->types()) if (auto *CT = dyn_cast<DICompositeType>(T)) if (CT->getName() == n && !CT->isForwardDecl() && S->isSized()) {
    uint64_t off = DL.getStructLayout(S)->getElementOffset(c.idx);
    for (auto *E : CT->getElements()) if (auto *D = dyn_cast_or_null<DIDerivedType>(E)) if (D->getTag() == dwarf::DW_TAG_member && !D->isBitField() && D->getOffsetInBits() / 8 == off) return memo[c] = D->getName().str(); }
  return memo[c] = r;
}
void Namer::sawLoad(const LoadInst *I, Sym p, Sym v) { if (E->T[v].k == K::Load && !cls.count(v)) cls[v] = classOfAccess(I); }
std::string Namer::base(Sym s, const State &S) {
  auto f = fixed.find(s); if (f != fixed.end()) return f->second;
  const Node n = E->T[s];
  if (n.k == K::Glob) return ((const Value *)n.p)->getName().str();
  if (n.k == K::Var) return base(n.a, S) + "[" + str(n.b, S) + "]";
  if (n.k == K::Off) return base(n.a, S) + "+" + std::to_string(n.n);
  return leaf(s, S);
}
std::pair<std::string, int64_t> Namer::elem(Sym p, const State &S) {
  int64_t o = 0, stride = 0; Poly ix; Sym b = p; bool plain = true;
  for (int i = 0; i < 40; ++i) { const Node n = E->T[b]; if (fixed.count(b)) { if (b != p) plain = plain && !stride; break; }
    if (n.k == K::Off) { o += n.n; b = n.a; } else if (n.k == K::Var && n.n > 0 && (!stride || stride == n.n)) { stride = n.n; ix = padd(ix, poly(n.b, S)); b = n.a; } else break; }
  if (!stride || !plain || E->T[b].k == K::Var) { auto [b2, o2] = E->T.split(p); return {base(b2, S), o2}; }
  int64_t q = o / stride; if (o % stride < 0) --q; Poly k; if (q) k[{}] = (uint64_t)q; return {base(b, S) + "[" + polyStr(padd(ix, k)) + "]", o - q * stride};
}
std::string Namer::place(Sym p, const FieldClass &c, const State &S) {
  auto [b, o] = E->T.split(p); std::string f = fieldName(C, c);
  if (c.p && c.idx < 0 && E->T[b].k == K::Glob && !o) return f;
  auto el = elem(p, S);
  return el.first + "." + (f.empty() || c.idx < 0 ? std::to_string(el.second) : f); // nested structures: innermost member name
}
std::string Namer::leaf(Sym s, const State &S) {
  auto f = fixed.find(s); if (f != fixed.end()) return f->second;
  const Node n = E->T[s];
  switch (n.k) {
  case K::Glob: return "&" + ((const Value *)n.p)->getName().str();
  case K::Load: { auto it = cls.find(s); if (it != cls.end()) return place(E->T.off(n.a, n.n), it->second, S); return "*(" + base(n.a, S) + "+" + std::to_string(n.n) + ")"; }
  case K::Fresh: if (n.p) { auto *V = (const Value *)n.p; if (auto *A = dyn_cast<Argument>(V)) return "arg" + std::to_string(A->getArgNo()); if (auto *CB = dyn_cast<CallBase>(V)) return calleeName(CB) + "()"; } return "#" + std::to_string(s);
  case K::Off: case K::Var: return "&" + base(s, S);
  default: return "#" + std::to_string(s);
  }
}
Poly padd(const Poly &a, const Poly &b, uint64_t k) { Poly r = a; for (auto &m : b) { r[m.first] += m.second * k; if (!r[m.first]) r.erase(m.first); } return r; }
Poly pmul(const Poly &a, const Poly &b) { Poly r; for (auto &x : a) for (auto &y : b) { auto v = x.first; v.insert(v.end(), y.first.begin(), y.first.end()); std::sort(v.begin(), v.end()); r[v] += x.second * y.second; if (!r[v]) r.erase(v); } return r; }
Poly Namer::poly(Sym s, const State &S, int d) {
  auto f = fixed.find(s); if (f != fixed.end()) return {{{f->second}, 1}};
  int64_t c; const Node n = E->T[s]; unsigned w = n.w;
  if (w && w <= 64 && w != 63 && E->single(s, S, c)) { if (w < 64 && w > 1 && (c >> (w - 1)) & 1) c |= ~0ull << w; Poly r; if (c) r[{}] = (uint64_t)c; return r; }
  if (d < 30) switch (n.k) {
  case K::Cast: if (n.op == Instruction::ZExt || n.op == Instruction::SExt || n.op == Instruction::Trunc) return poly(n.a, S, d + 1); break;
  case K::Bin:
    if (n.op == Instruction::Add) return padd(poly(n.a, S, d + 1), poly(n.b, S, d + 1));
    if (n.op == Instruction::Sub) return padd(poly(n.a, S, d + 1), poly(n.b, S, d + 1), ~0ull);
    if (n.op == Instruction::Mul) return pmul(poly(n.a, S, d + 1), poly(n.b, S, d + 1));
    if (n.op == Instruction::Shl && E->T[n.b].k == K::Const && E->T[n.b].n < 32) { Poly k; k[{}] = 1ull << E->T[n.b].n; return pmul(poly(n.a, S, d + 1), k); }
    { Poly r; std::string nm = std::string(Instruction::getOpcodeName(n.op)) + "(" + polyStr(poly(n.a, S, d + 1)) + "," + polyStr(poly(n.b, S, d + 1)) + ")"; r[{nm}] = 1; return r; }
  case K::Cmp: case K::Not: { Poly r; std::string nm = n.k == K::Not ? "!(" + polyStr(poly(n.a, S, d + 1)) + ")" : "(" + polyStr(poly(n.a, S, d + 1)) + CmpInst::getPredicateName((CmpInst::Predicate)n.op).str() + polyStr(poly(n.b, S, d + 1)) + ")"; r[{nm}] = 1; return r; }
  default: break; }
  Poly r; r[{leaf(s, S)}] = 1; return r;
}
std::string polyStr(const Poly &p) {
  if (p.empty()) return "0"; std::string r;
  for (auto &m : p) { int64_t k = (int64_t)m.second; if (!r.empty()) r += k < 0 ? "-" : "+"; else if (k < 0) r += "-"; uint64_t a = k < 0 ? -(uint64_t)k : k; if (m.first.empty()) r += std::to_string(a); else { if (a != 1) r += std::to_string(a) + "*"; for (size_t i = 0; i < m.first.size(); ++i) r += (i ? "*" : "") + m.first[i]; } }
  return r;
}
std::string Namer::str(Sym s, const State &S) { return polyStr(poly(s, S)); }
}
