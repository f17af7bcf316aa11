#pragma once
#include "check.h"
namespace dv {
// Order reasoning over unsigned machine integers: difference facts gathered
// from branches, exact integer readings of machine expressions (an operation is
// read as exact only when it provably does not wrap).
typedef __int128 I128;
struct Lin { std::map<Sym, I128> c; I128 k = 0; };
Lin ladd(const Lin &a, const Lin &b, I128 f = 1);
struct Zone {
  Engine &E; const State &S; std::vector<Lin> facts; std::map<Sym, Lin> memo; std::set<Sym> busy;
  Zone(Engine &E, const State &S);
  Lin exact(Sym s, int d = 0);
  bool prove(const Lin &l, int depth = 5) const;     // l >= 0
  bool le(const Lin &a, const Lin &b) const { return prove(ladd(b, a, -1)); }
  bool lt(const Lin &a, const Lin &b) const { Lin x = ladd(b, a, -1); x.k -= 1; return prove(x); }
  bool eq(const Lin &a, const Lin &b) const { return le(a, b) && le(b, a); }
  bool contradiction() const { for (auto &f : facts) { Lin x = ladd(cst(-1), f, -1); if (prove(x, 4)) return true; } return false; }
  void add(const Lin &l) { facts.push_back(l); }
  static Lin cst(I128 k) { Lin l; l.k = k; return l; }
  Lin leaf(Sym s) const { Lin l; l.c[s] = 1; return l; }
private:
  Lin compute(Sym s, int d); void gather();
};
}
