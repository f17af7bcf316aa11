#pragma once
#include "poly.h"
#include "summ.h"
namespace dv {
// Partial evaluation of a function with some arguments fixed: the effects
// (last value written per named place), the error raised, the value returned
// and the range of one argument, per path.
struct PEOut {
  std::map<std::string, std::string> eff; int64_t err = 0; std::string ret; std::vector<std::string> calls; std::string where;
  bool operator<(const PEOut &o) const { return std::tie(eff, err, ret, calls) < std::tie(o.eff, o.err, o.ret, o.calls); }
};
struct PESpec {
  std::map<unsigned, int64_t> args;                       // fixed arguments
  int param = -1;                                        // argument whose range is recorded at stores
  std::map<std::string, int64_t> place;                   // assumed values of named places
  std::map<std::string, int64_t> atMost;                  // assumed upper bounds
  std::set<std::string> nonnull;                         // named pointer places assumed set
  std::set<std::string> keep;                            // functions recorded as calls, not entered
  bool failAlloc = false;                                // allocations may also return NULL
};
struct PEResult { std::set<PEOut> outs; std::map<std::string, std::vector<std::pair<llvm::ConstantRange, std::string>>> accepted; std::map<std::string, llvm::ConstantRange> stored; bool complete = true; };
PEResult peRun(Ctx &C, llvm::Function *F, const PESpec &s);
// "dup"/"clip" when the function returns a copy of its first argument, else ""
std::string copies(Ctx &C, llvm::Function *F);
}
