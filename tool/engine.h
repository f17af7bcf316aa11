// Path-sensitive abstract interpreter over LLVM IR ("property simulation"):
// one flat function at a time, disjunctive states keyed by the property's
// typestate, interval facts (ConstantRange) on symbolic values, a small
// field-sensitive store with type-class based havoc at calls.
#pragma once
#include "llvm/IR/ConstantRange.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <functional>

namespace dv {
using namespace llvm;

// ---------------------------------------------------------------- program
struct FieldClass {           // a "class" of memory: global, struct field, or raw
  const void *p = nullptr;    // GlobalVariable*, StructType*, or null (raw)
  int idx = -1;               // field index for struct types
  bool operator<(const FieldClass &o) const { return p != o.p ? p < o.p : idx < o.idx; }
  bool operator==(const FieldClass &o) const { return p == o.p && idx == o.idx; }
  bool raw() const { return !p; }
};

struct Prog {
  std::unique_ptr<Module> M;
  std::map<std::string, std::vector<Function *>> byName;   // source name -> functions
  std::map<const Function *, std::set<FieldClass>> mod;    // transitive MOD
  std::map<const Function *, std::set<const Function *>> callees, callers; // direct (incl. resolved dispatch)
  std::map<const Function *, std::set<const Function *>> reach;  // transitive callees
  std::map<const Function *, std::set<unsigned>> paramMod; // params through which memory is written (transitively)
  std::set<const Function *> givesFresh; // what they return, if not null, is newly allocated
  std::map<const Function *, std::set<unsigned>> paramEsc; // params that may be stored away
  std::function<bool(const Function *, const FieldClass &)> keeps; // an analysis may know that a function leaves a variable as it found it
  Function *fn(const std::string &n) const;                // unique or null
  GlobalVariable *gv(const std::string &n) const;
  void build();
};
std::string srcName(const Function *F);
std::string fileOf(const Function *F);
std::string locOf(const Instruction *I);
std::string exactLine(const Instruction *I);
// callee description: "name" for direct, "*global" for call through a global function pointer
std::string calleeName(const CallBase *CB);
// name of the source-level variable(s) of a value, best effort
std::string fnOfInst(const Instruction *I);

// inline into a clone of F every callee for which want(callee) holds; returns clone
struct InlineStats { unsigned sites = 0; unsigned blocked = 0; };
Function *flatten(Prog &P, Function *F, const std::function<bool(const Function *)> &want,
                  InlineStats *st = nullptr, unsigned maxInsts = 60000);
void cleanup(Function *F, bool sccp = true);
FieldClass classOfPtr(const Value *Ptr);
FieldClass classOfAccess(const Instruction *I);
void markAccesses(Module &M);


// ---------------------------------------------------------------- symbols
using Sym = uint32_t;
enum class K : uint8_t { None, Const, Glob, Fresh, Load, Join, Bin, Cast, Cmp, Not, Off, Var, Sel, Misc };
struct Node {
  K k; uint8_t op; uint16_t w; // width in bits (pointers 64)
  const void *p; Sym a, b; int64_t n;
  bool operator<(const Node &o) const {
    return std::tie(k, op, w, p, a, b, n) < std::tie(o.k, o.op, o.w, o.p, o.a, o.b, o.n);
  }
};

struct SymTab {
  std::vector<Node> nodes; std::map<Node, Sym> tab;
  std::set<Sym> unique;  // objects an analysis knows to share no memory
  SymTab() { nodes.push_back({K::None,0,0,nullptr,0,0,0}); }
  Sym get(Node n);
  const Node &operator[](Sym s) const { return nodes[s]; }
  Sym cst(int64_t v, unsigned w);
  Sym fresh(const void *p, unsigned w, int64_t tag = 0) { return get({K::Fresh,0,(uint16_t)w,p,0,0,tag}); }
  Sym off(Sym base, int64_t o);
  std::pair<Sym,int64_t> split(Sym s) const { // base, offset
    const Node &n = nodes[s]; if (n.k == K::Off) return {n.a, n.n}; return {s, 0}; }
  bool mentions(Sym s, const std::set<Sym> &kill, std::map<Sym,bool> &memo) const;
};

Sym rootOf(const SymTab &T, Sym s); // base of an Off/Var chain
// ---------------------------------------------------------------- state
struct Loc { Sym base; int64_t off; bool operator<(const Loc &o) const { return base != o.base ? base < o.base : off < o.off; }
             bool operator==(const Loc &o) const { return base==o.base&&off==o.off; } };
struct MemVal { Sym v; unsigned w; FieldClass c; bool operator==(const MemVal &o) const { return v==o.v && w==o.w; } };
struct Zero { int64_t len; std::set<FieldClass> except; bool operator==(const Zero&o) const {return len==o.len&&except==o.except;} };

struct Trace { std::string what; std::shared_ptr<Trace> up; };

struct State {
  std::map<const Value *, Sym> env;
  std::map<Loc, MemVal> mem;
  std::map<FieldClass, const void *> havoc;   // last havoc of class (absent locs)
  std::map<Sym, Zero> zero;
  std::map<Sym, ConstantRange> facts;
  // property state
  std::map<int, int> flag;
  std::map<Sym, int> obj;
  std::map<int, Sym> reg;                      // property registers holding symbols
  std::set<int> aux;                           // what may have happened: united at joins, keeps no states apart
  std::shared_ptr<Trace> tr;
  void note(const std::string &s) { tr = std::make_shared<Trace>(Trace{s, tr}); }
  std::string path(unsigned max = 14) const;
};

struct Engine;
// what a property may do at a call
struct CallOut { State S; Sym ret = 0; bool retSet = false; };

struct Prop {
  virtual ~Prop() {}
  Engine *E = nullptr;
  // returns true when it handled the call and appended outcomes
  virtual bool onCall(const CallBase *CB, const std::string &name, State &S, std::vector<CallOut> &outs) { return false; }
  // after the default treatment of a call (S already updated, ret assigned)
  virtual void afterCall(const CallBase *CB, const std::string &name, State &S, Sym ret) {}
  virtual void onDeref(const Instruction *I, Sym ptr, State &S, bool isStore) {}
  virtual void onStore(const StoreInst *I, Sym ptr, Sym val, State &S) {}
  virtual void onRet(const ReturnInst *I, State &S, Sym val) {}
  virtual void onEntry(State &S) {}
  virtual void onLoad(const LoadInst *I, Sym ptr, Sym val, State &S) {}
  // extra key material
  virtual bool keyRet() const { return true; }  // distinguish constant values of return-feeding phis
  virtual bool keyOffsets() const { return true; } // keep states apart by where into an object their variables point
  virtual void onStale(Sym o, State &S) {}      // object symbol re-created in a loop
  virtual void onBranch(const BranchInst *I, State &S, bool taken) {}
  virtual void onJoin(const State &a, const State &b, State &r, const std::map<Sym, std::pair<Sym, Sym>> &made) {} // new join symbol -> what it stands for in a and b
  virtual int rawReload() const { return 0; } // two loads of one array element give one value while no such memory is written
  virtual bool relational() const { return false; }
  virtual void onRename(const State &before, State &S, const std::map<Sym, Sym> &sub) {} // stale symbol -> its replacement
  virtual void onKill(State &S) {}              // before property-irrelevant GC
};

struct Engine {
  Prog &P; Function &F; Prop &prop; SymTab T;
  unsigned K = 6;            // disjuncts per block and key before merging
  unsigned maxSteps = 400000; // block executions
  bool complete = true;      // false if the budget ran out
  unsigned steps = 0, merges = 0, blocksSeen = 0, states = 0;
  Engine(Prog &P, Function &F, Prop &p) : P(P), F(F), prop(p) { prop.E = this; }
  void run();

  // queries
  ConstantRange range(Sym s, const State &S, int depth = 0) const;
  bool isNull(Sym s, const State &S) const;
  bool nonNull(Sym s, const State &S) const;
  bool single(Sym s, const State &S, int64_t &v) const; // unsigned value
  Sym eval(const Value *V, State &S);
  bool assume(Sym c, bool truth, State &S, int depth = 0);  // false: infeasible
  void distinct(Sym a, Sym b, State &S);                    // two pointers known to differ
  bool assumeRange(Sym s, const ConstantRange &R, State &S, int depth = 0);
  Sym load(Sym ptr, unsigned w, FieldClass c, State &S, const void *site);
  void store(Sym ptr, Sym v, unsigned w, FieldClass c, State &S, const void *site);
  void havocClasses(const std::set<FieldClass> &cs, State &S, const void *site);
  void killRaw(State &S, const void *site, unsigned w);
  bool known(CmpInst::Predicate p, Sym a, Sym b, const State &S) const; // the comparison holds on every run the state stands for
  void havocBase(Sym base, State &S, const void *site);
  void defaultCall(const CallBase *CB, State &S, Sym &ret);
  std::string show(Sym s, const State *S = nullptr) const;
  void rename(State &S, const std::set<Sym> &kill, const void *site, const BasicBlock *BB = nullptr);

private:
  std::map<const Value *, unsigned> order;
  std::map<const BasicBlock *, std::set<const Value *>> liveIn;
  std::set<const BasicBlock *> headers;
  std::set<const Value *> retFeeders;
  void liveness();
  std::string key(const BasicBlock *BB, const State &S) const;
  bool leq(const State &a, const State &b) const;
  State join(const State &a, const State &b, const BasicBlock *BB, bool widen);
  void gc(State &S, const BasicBlock *BB);
  void execBlock(const BasicBlock *BB, State S, std::vector<std::pair<const BasicBlock *, State>> &out);
  void edge(const BasicBlock *from, const BasicBlock *to, State S, std::vector<std::pair<const BasicBlock *, State>> &out);
};

} // namespace dv
