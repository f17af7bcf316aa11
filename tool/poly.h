#pragma once
#include "check.h"
namespace dv {
// member name of a field class, from debug information ("" if unknown)
std::string fieldName(Ctx &C, const FieldClass &c);
// Polynomials over named leaves (modulo 2^64, width changes ignored): a normal
// form for comparing how values are computed.
typedef std::map<std::vector<std::string>, uint64_t> Poly;
struct Namer {
  Ctx &C; Engine *E = nullptr; std::map<Sym, FieldClass> cls; // classes of Load symbols
  std::map<Sym, std::string> fixed;                              // names given by the property
  Namer(Ctx &C) : C(C) {}
  void sawLoad(const LoadInst *I, Sym p, Sym v);
  std::string base(Sym s, const State &S);
  std::pair<std::string, int64_t> elem(Sym p, const State &S); // the element an address lies in, and the offset in it
  std::string place(Sym p, const FieldClass &c, const State &S);  // name of a location
  std::string leaf(Sym s, const State &S);
  Poly poly(Sym s, const State &S, int d = 0);
  std::string str(Sym s, const State &S);
};
std::string polyStr(const Poly &p);
Poly padd(const Poly &a, const Poly &b, uint64_t k = 1); Poly pmul(const Poly &a, const Poly &b);
}
