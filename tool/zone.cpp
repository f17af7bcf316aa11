#include "zone.h"
using namespace llvm;
namespace dv {
Lin ladd(const Lin &a, const Lin &b, I128 f) { Lin r = a; r.k += f * b.k; for (auto &x : b.c) { r.c[x.first] += f * x.second; if (!r.c[x.first]) r.c.erase(x.first); } return r; }
static I128 maxOf(unsigned w) { return (((I128)1) << w) - 1; }
Zone::Zone(Engine &E, const State &S) : E(E), S(S) { for (int r = 0; r < 3; ++r) { memo.clear(); gather(); } memo.clear(); }
void Zone::gather() {
  for (auto &f : S.facts) {
    const Node n = E.T[f.first]; if (n.k != K::Cmp || !f.second.isSingleElement()) continue; bool t = f.second.getSingleElement()->getBoolValue();
    unsigned w = E.T[n.a].w; if (w > 64 || w == 63 || !w) continue;
    auto p = (CmpInst::Predicate)n.op; if (!t) p = CmpInst::getInversePredicate(p);
    if (CmpInst::isSigned(p)) { ConstantRange a = E.range(n.a, S), b = E.range(n.b, S); if (a.isAllNonNegative() && b.isAllNonNegative()) p = ICmpInst::getUnsignedPredicate(p); else continue; }
    Lin a = exact(n.a), b = exact(n.b); std::vector<std::pair<Lin, Lin>> ab = {{a, b}}; Lin la = leaf(n.a), lb = leaf(n.b);
    if (E.T[n.a].k != K::Const) ab.push_back({la, b}); if (E.T[n.b].k != K::Const) ab.push_back({a, lb});
    for (auto &x : ab) { Lin d = ladd(x.second, x.first, -1), e = ladd(x.first, x.second, -1); // b-a, a-b
      switch (p) {
      case CmpInst::ICMP_ULT: d.k -= 1; add(d); break; case CmpInst::ICMP_ULE: add(d); break;
      case CmpInst::ICMP_UGT: e.k -= 1; add(e); break; case CmpInst::ICMP_UGE: add(e); break;
      case CmpInst::ICMP_EQ: add(d); add(e); break;
      case CmpInst::ICMP_NE: if (prove(d, 2)) { d.k -= 1; add(d); } else if (prove(e, 2)) { e.k -= 1; add(e); } break;
      default: break; } }
  }
  // drop trivial and repeated facts
  std::vector<Lin> u; for (auto &f : facts) { if (f.c.empty()) { if (f.k < 0) u.push_back(f); continue; } bool dup = false; for (auto &g : u) if (g.c == f.c) { dup = true; if (f.k < g.k) g.k = f.k; break; } if (!dup) u.push_back(f); } facts = u;
}
Lin Zone::exact(Sym s, int d) { auto it = memo.find(s); if (it != memo.end()) return it->second; if (!busy.insert(s).second || d > 24) return leaf(s); Lin r = compute(s, d); busy.erase(s);
  int64_t v; const Node n = E.T[s]; if (n.w && n.w <= 64 && n.w != 63 && n.k != K::Const && E.single(s, S, v)) { Lin c = cst((I128)(uint64_t)(n.w < 64 ? v & (int64_t)((1ull << n.w) - 1) : v)); if (!r.c.empty()) { facts.push_back(ladd(r, c, -1)); facts.push_back(ladd(c, r, -1)); } r = c; }
  return memo[s] = r; }
Lin Zone::compute(Sym s, int d) {
  const Node n = E.T[s]; int64_t v; unsigned w = n.w; if (!w || w > 64 || w == 63) return leaf(s);
  if (n.k == K::Const && E.single(s, S, v)) return cst((I128)(uint64_t)(w < 64 ? v & (int64_t)((1ull << w) - 1) : v));
  if (n.k == K::Cast) { if (n.op == Instruction::ZExt) return exact(n.a, d + 1); if (n.op == Instruction::SExt && E.range(n.a, S).isAllNonNegative()) return exact(n.a, d + 1);
    if (n.op == Instruction::Trunc) { Lin a = exact(n.a, d + 1); if (prove(ladd(cst(maxOf(w)), a, -1), 2)) return a; } return leaf(s); }
  if (n.k != K::Bin) return leaf(s);
  auto fits = [&](const Lin &l) { return prove(l, 4) && prove(ladd(cst(maxOf(w)), l, -1), 4); };
  if (n.op == Instruction::Add) {
    Lin a = exact(n.a, d + 1), b = exact(n.b, d + 1); Lin l = ladd(a, b); if (fits(l)) return l;
    for (int side = 0; side < 2; ++side) { Sym x = side ? n.b : n.a; Lin o = side ? a : b; const Node xn = E.T[x]; int64_t c;
      if (E.single(x, S, c)) { int64_t sc = w < 64 ? (int64_t)((uint64_t)c << (64 - w)) >> (64 - w) : c; if (sc < 0) { Lin m = o; m.k += sc; if (fits(m)) return m; } }
      Sym ng = E.T.get({K::Bin, (uint8_t)Instruction::Sub, (uint16_t)w, nullptr, E.T.cst(0, w), x, 0}); Lin m = ladd(o, leaf(ng), -1); if (fits(m)) return m; } // x + y read as y - (-x)
    return leaf(s); }
  if (n.op == Instruction::Sub) { Lin l = ladd(exact(n.a, d + 1), exact(n.b, d + 1), -1); return fits(l) ? l : leaf(s); }
  int64_t c; if ((n.op == Instruction::Mul || n.op == Instruction::Shl) && E.single(n.b, S, c) && c >= 0 && c < (1 << 20)) { I128 k = n.op == Instruction::Shl ? (c < 32 ? ((I128)1) << c : 0) : c; Lin a = exact(n.a, d + 1), l; if (k) { l = ladd(l, a, k); if (fits(l)) return l; } return leaf(s); }
  if ((n.op == Instruction::UDiv || n.op == Instruction::LShr) && E.single(n.b, S, c) && c > 0) { I128 k = n.op == Instruction::LShr ? (c < 63 ? ((I128)1) << c : 0) : c; if (k) { Lin a = exact(n.a, d + 1); facts.push_back(ladd(a, leaf(s), -k)); } return leaf(s); }
  if (n.op == Instruction::URem) { Lin b = exact(n.b, d + 1); Lin x = ladd(b, leaf(s), -1); x.k -= 1; facts.push_back(x); return leaf(s); }
  if (n.op == Instruction::And) { facts.push_back(ladd(exact(n.b, d + 1), leaf(s), -1)); facts.push_back(ladd(exact(n.a, d + 1), leaf(s), -1)); return leaf(s); }
  return leaf(s);
}
bool Zone::prove(const Lin &l, int depth) const {
  I128 lo = l.k; for (auto &x : l.c) { const Node &n = E.T[x.first]; ConstantRange r = n.w && n.w <= 64 && n.w != 63 ? E.range(x.first, S) : ConstantRange::getFull(64);
    if (r.isEmptySet()) return true; lo += x.second > 0 ? x.second * (I128)r.getUnsignedMin().getZExtValue() : x.second * (I128)r.getUnsignedMax().getZExtValue(); }
  if (lo >= 0) return true; if (!depth) return false;
  for (auto &f : facts) { if (f.c.empty()) { if (f.k < 0) return true; continue; }
    for (auto &x : f.c) { auto it = l.c.find(x.first); if (it == l.c.end()) continue; // cancel a negative term of l (or a positive one whose partner is negative)
      if ((x.second > 0) == (it->second > 0)) { I128 q = it->second / x.second; if (q >= 1 && it->second % x.second == 0) if (prove(ladd(l, f, -q), depth - 1)) return true; } } }
  return false;
}
}
