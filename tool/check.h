#pragma once
#include "engine.h"
#include "llvm/Support/JSON.h"
namespace dv {
struct Finding { std::string key, where, what, path; };
struct Report {
  std::vector<Finding> findings; std::set<std::string> seen;
  std::map<std::string, int64_t> count; std::map<std::string, std::set<std::string>> items;
  std::vector<std::string> errors, notes;
  void add(const std::string &key, const std::string &where, const std::string &what, const std::string &path = "") {
    std::string id = key + "|" + where + "|" + what; if (!seen.insert(id).second) return; findings.push_back({key, where, what, path}); }
  void broken(const std::string &e) { errors.push_back(e); }
};
struct Ctx {
  Prog P; Report R; std::set<std::string> api; std::map<std::string, std::string> opt;
  std::set<const Function *> addrTaken;
  std::function<void(Function *)> prepare; // rewrites a flattened function before it is analysed
  // functions from which an event function can be reached
  std::set<const Function *> reaching(const std::function<bool(const Function *)> &isEvent) const;
  std::set<const Function *> reachingCalls(const std::set<std::string> &names) const; // names incl. "*ptr"
  std::vector<Function *> rootsOf(const std::set<const Function *> &set) const;
  bool isApi(const Function *F) const { return api.count(srcName(F)); }
};
typedef void (*CheckFn)(Ctx &);
struct Reg { Reg(const char *n, CheckFn f); };
std::map<std::string, CheckFn> &registry();
#define CHECK(NAME) static void chk_##NAME(Ctx &); static Reg reg_##NAME(#NAME, chk_##NAME); static void chk_##NAME(Ctx &C)
struct RunStats { unsigned steps=0, blocks=0, states=0, roots=0, insts=0; };
struct FieldRef { StructType *ST = nullptr; int idx = -1; int64_t off = 0; unsigned w = 0; explicit operator bool() const { return ST; } FieldClass cls() const { return {ST, idx}; } };
// field of a struct by source names
FieldRef fieldOf(Ctx &C, const std::string &st, const std::string &member);
void affine(Prog &P, Function *F); void unrollTables(Function *F); // loops in terms of the number of rounds
// flatten+run helper
bool runOn(Ctx &C, Function *Root, Prop &p, const std::function<bool(const Function *)> &want, const std::function<void(Function*, Engine&)> &pre = nullptr);
}
