#include "summ.h"
#include "llvm/IR/InstIterator.h"
using namespace llvm;
namespace dv {
// Partial evaluation of the dispatchers: the format constant (or the file
// name extension) is fixed, everything else is unknown; which codec entry
// points are called on each path, and what is returned?
struct DispOut { std::vector<std::string> calls; std::string ret; bool operator<(const DispOut &o) const { return std::tie(calls, ret) < std::tie(o.calls, o.ret); } };
static std::string constStr(const Value *V) { auto *G = dyn_cast<GlobalVariable>(V->stripPointerCasts()); if (!G || !G->hasInitializer()) return ""; auto *D = dyn_cast<ConstantDataSequential>(G->getInitializer()); if (!D || !D->isString()) return ""; auto s = D->getAsString().str(); while (!s.empty() && !s.back()) s.pop_back(); return s; }
struct PEProp : Prop {
  Ctx &C; int64_t type = -1; bool useExt = false; std::string ext; std::set<DispOut> outs; std::vector<std::vector<std::string>> seqs;
  std::set<std::string> stop; // dispatchers, kept as calls
  PEProp(Ctx &C) : C(C) { seqs.push_back({}); }
  int intern(const std::vector<std::string> &s) { for (unsigned i = 0; i < seqs.size(); ++i) if (seqs[i] == s) return i; seqs.push_back(s); return seqs.size() - 1; }
  void onEntry(State &S) override { if (type >= 0) S.env[E->F.getArg(0)] = E->T.cst(type, 32); S.flag[1] = 0; }
  static bool codec(const std::string &n) { return StringRef(n).starts_with("ilLoad") || StringRef(n).starts_with("ilSave") || StringRef(n).starts_with("ilIsValid") || StringRef(n).starts_with("ilDetermine") || n == "iTargaSize"; }
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs2) override {
    if ((n == "iStrCmp" || n == "iCheckExtension" || n == "strcasecmp" || n == "strcmp" || n == "stricmp") && useExt) { auto str = [&](const Value *a) { std::string k = constStr(a); if (k.empty()) { auto &x = E->T[E->eval(a, S)]; if (x.k == K::Glob && x.p) k = constStr((const Value *)x.p); } return k; }; std::string k = str(CB->getArgOperand(1)), k0 = str(CB->getArgOperand(0)); if (k.empty()) k = k0; if (k.empty()) return false;
      bool eq = StringRef(k).equals_insensitive(ext); CallOut o; o.S = S; o.retSet = true; unsigned w = CB->getType()->getIntegerBitWidth(); bool z = n == "iCheckExtension" ? !eq : eq; o.ret = z ? E->T.cst(0, w) : E->T.cst(1, w); outs2.push_back(o); return true; }
    auto *F = CB->getCalledFunction(); if (!F) F = C.P.fn(n.c_str()); if (!F || F->isDeclaration() || !codec(n)) return false;
    State B = S; Sym r = 0; E->defaultCall(CB, B, r); if (!CB->getType()->isIntegerTy()) return false; unsigned w = CB->getType()->getIntegerBitWidth();
    for (int k = 0; k < 2; ++k) { auto s = seqs[S.flag[1]]; s.push_back(n + (k ? "+" : "-")); CallOut o; o.S = B; o.S.flag[1] = intern(s); o.retSet = true; if (k) { o.ret = E->T.fresh(CB, w, 5); o.S.facts.insert_or_assign(o.ret, ConstantRange(APInt(w, 0)).inverse()); } else o.ret = E->T.cst(0, w); outs2.push_back(o); }
    return true; }
  void onRet(const ReturnInst *I, State &S, Sym v) override { DispOut o; o.calls = seqs[S.flag[1]]; int64_t c; if (!v) o.ret = "void"; else if (E->single(v, S, c)) o.ret = std::to_string(c); else o.ret = E->nonNull(v, S) ? "nz" : "?"; outs.insert(o); }
};
static std::set<DispOut> pe(Ctx &C, Function *F, int64_t type, const std::string *ext) {
  PEProp p(C); p.type = type; if (ext) { p.useExt = true; p.ext = *ext; }
  // small helpers of the dispatchers that hold the comparisons or calls are part of them
  auto interesting = C.reaching([&](const Function *G) { return PEProp::codec(srcName(G)) && !G->isDeclaration(); });
  auto compares = C.reaching([&](const Function *G) { auto n = srcName(G); return n == "iStrCmp" || n == "iCheckExtension" || n == "strcasecmp"; });
  auto was = C.prepare; C.prepare = unrollTables;
  runOn(C, F, p, [&](const Function *G) { return !G->isDeclaration() && !PEProp::codec(srcName(G)) && G->hasLocalLinkage() && G->getInstructionCount() < 1500 && (interesting.count(G) || compares.count(G)); });
  C.prepare = was; return p.outs; }
// the short strings a function (and the helpers of its file that it calls) refers to, directly or in tables
static void strs(Function *F, std::set<std::string> &out) {
  std::set<const Value *> seen; std::vector<const Value *> w; auto add = [&](const Value *v) { if (seen.insert(v).second) w.push_back(v); };
  std::set<Function *> fs; std::vector<Function *> fw{F}; fs.insert(F);
  while (!fw.empty()) { auto *G = fw.back(); fw.pop_back(); for (auto &I : instructions(*G)) { for (auto &o : I.operands()) if (isa<Constant>(o) && !isa<Function>(o)) add(o); if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *H = CB->getCalledFunction()) if (!H->isDeclaration() && H->hasLocalLinkage() && fs.insert(H).second) fw.push_back(H); } }
  while (!w.empty()) { auto *v = w.back(); w.pop_back(); auto s = constStr(v); if (!s.empty() && s.size() < 8) { bool ok = true; for (char c : s) ok = ok && isalnum((unsigned char)c); if (ok) out.insert(s); continue; }
    if (auto *G = dyn_cast<GlobalVariable>(v)) { if (G->isConstant() && G->hasInitializer()) add(G->getInitializer()); } else if (auto *U = dyn_cast<User>(v)) for (auto &o : U->operands()) if (isa<Constant>(o) && !isa<Function>(o)) add(o); } }
static std::set<std::string> callset(const std::set<DispOut> &o) { std::set<std::string> r; for (auto &x : o) for (auto c : x.calls) { c.pop_back(); r.insert(c); } return r; }
static std::string join(const std::set<std::string> &s) { std::string r; for (auto &x : s) r += (r.empty() ? "" : ",") + x; return r.empty() ? "nothing" : r; }
static void consts(Function *F, unsigned arg, std::set<int64_t> &out) { for (auto &I : instructions(*F)) { if (auto *S = dyn_cast<SwitchInst>(&I)) { for (auto &c : S->cases()) out.insert(c.getCaseValue()->getSExtValue()); } if (auto *IC = dyn_cast<ICmpInst>(&I)) if (IC->getOperand(0) == F->getArg(arg)) if (auto *CI = dyn_cast<ConstantInt>(IC->getOperand(1))) out.insert(CI->getSExtValue()); if (auto *R = dyn_cast<ReturnInst>(&I)) if (R->getReturnValue()) if (auto *CI = dyn_cast<ConstantInt>(R->getReturnValue())) out.insert(CI->getSExtValue()); if (auto *PN = dyn_cast<PHINode>(&I)) for (auto &v : PN->incoming_values()) if (auto *CI = dyn_cast<ConstantInt>(v)) out.insert(CI->getSExtValue()); } }
static std::string hex(int64_t t) { char b[20]; snprintf(b, 20, "0x%llx", (long long)t); return b; }
CHECK(dispatch) {
  auto &R = C.R; auto fn = [&](const char *n) { return C.P.fn(n); };
  auto exists = [&](const std::string &n) { auto *F = C.P.fn(n); return F && !F->isDeclaration(); };
  std::set<int64_t> types; for (auto n : {"ilLoad", "ilLoadF", "ilLoadL", "ilIsValid", "ilIsValidF", "ilIsValidL", "ilSave", "ilSaveF", "ilSaveL", "ilDetermineSize", "ilTypeFromExt", "ilDetermineTypeF", "ilDetermineTypeL"}) if (auto *F = fn(n)) consts(F, 0, types);
  for (auto it = types.begin(); it != types.end();) if (*it < 0x400 || *it > 0x4ff) it = types.erase(it); else ++it;
  std::map<std::string, std::map<int64_t, std::set<std::string>>> tab;
  for (auto n : {"ilLoad", "ilLoadF", "ilLoadL", "ilIsValid", "ilIsValidF", "ilIsValidL", "ilSave", "ilSaveF", "ilSaveL", "ilDetermineSize"}) { Function *F = fn(n); if (!F) continue; R.items["dispatchers"].insert(n);
    for (auto t : types) { auto o = pe(C, F, t, nullptr); auto cs = callset(o); if (StringRef(n) == "ilSaveL") cs.erase("ilDetermineSize"); tab[n][t] = cs; if (!cs.empty()) R.items["routes"].insert(std::string(n) + ":" + hex(t));
      for (auto &x : o) if (!x.calls.empty()) { R.count["outcomes_checked"]++; char last = x.calls.back().back(); bool det = StringRef(n) == "ilDetermineSize"; if (!det && last == '-' && x.ret != "0") R.add("result:" + std::string(n) + ":" + hex(t), locOf(&*inst_begin(F)), std::string(n) + "(" + hex(t) + ") does not report the failure of " + x.calls.back()); if (!det && last == '+' && (x.ret == "0" || x.ret == "?")) R.add("result:" + std::string(n) + ":" + hex(t), locOf(&*inst_begin(F)), std::string(n) + "(" + hex(t) + ") does not report the success of " + x.calls.back()); } } }
  auto compare = [&](const char *base, const char *F, const char *suf) { if (!tab.count(base) || !tab.count(F)) return;
    for (auto t : types) { auto &b = tab[base][t], &f = tab[F][t]; std::set<std::string> want; for (auto &x : b) if (exists(x + suf)) want.insert(x + suf); R.count["routes_compared"]++;
      if (b.empty() && f.empty()) continue;
      if (want != f) R.add("route:" + std::string(F) + ":" + hex(t), locOf(&*inst_begin(fn(F))), std::string(F) + "(" + hex(t) + ") goes to " + join(f) + ", but " + base + "(" + hex(t) + ") goes to " + join(b) + (want.empty() ? "" : " (counterpart " + join(want) + ")")); } };
  compare("ilLoad", "ilLoadF", "F"); compare("ilLoad", "ilLoadL", "L"); compare("ilIsValid", "ilIsValidF", "F"); compare("ilIsValid", "ilIsValidL", "L"); compare("ilSave", "ilSaveF", "F"); compare("ilSave", "ilSaveL", "L"); compare("ilSaveL", "ilDetermineSize", "");
  // the validity test of a format belongs to the codec that loads it
  for (auto t : types) { auto &v = tab["ilIsValidL"][t], &l = tab["ilLoadL"][t]; if (v.size() != 1 || l.size() != 1) continue; R.count["routes_compared"]++; auto al = [](std::string s) { return StringRef(s).starts_with("Targa") ? "Tga" + s.substr(5) : s; }; if (al(v.begin()->substr(9)) != al(l.begin()->substr(6))) R.add("probe:" + hex(t), locOf(&*inst_begin(fn("ilIsValidL"))), "format " + hex(t) + " is probed by " + *v.begin() + " but loaded by " + *l.begin()); }
  // extensions
  std::set<std::string> exts; Function *LI = fn("ilLoadImage"), *SI = fn("ilSaveImage"), *TE = fn("ilTypeFromExt");
  for (auto *F : {LI, SI, TE}) if (F) strs(F, exts);
  auto listOf = [&](const char *g) { std::set<std::string> r; auto *G = C.P.gv(g); if (!G || !G->hasInitializer()) return r; std::string s = constStr(G->getInitializer()); std::string w; for (char c : s + " ") if (c == ' ') { if (!w.empty()) r.insert(w); w.clear(); } else w += c; return r; };
  auto loadList = listOf("_ilLoadExt"), saveList = listOf("_ilSaveExt"); for (auto &e : loadList) exts.insert(e); for (auto &e : saveList) exts.insert(e);
  for (auto &e : exts) { R.items["extensions"].insert(e); std::set<int64_t> ty; if (TE) for (auto &x : pe(C, TE, -1, &e)) { int64_t t = atoll(x.ret.c_str()); if (t) ty.insert(t); }
    auto strip = [&](std::set<std::string> s) { s.erase("ilLoad"); s.erase("ilDetermineType"); s.erase("ilSave"); s.erase("ilLoadImage"); return s; };
    auto l = LI ? strip(callset(pe(C, LI, -1, &e))) : std::set<std::string>(), s = SI ? strip(callset(pe(C, SI, -1, &e))) : std::set<std::string>();
    if (ty.size() == 1) { auto t = *ty.begin(); R.count["routes_compared"] += 2;
      if (!l.empty() && tab["ilLoad"][t] != l) R.add("ext-load:" + e, locOf(&*inst_begin(LI)), "extension " + e + " is loaded by " + join(l) + " but its type " + hex(t) + " by " + join(tab["ilLoad"][t]));
      if (!s.empty() && tab["ilSave"][t] != s) R.add("ext-save:" + e, locOf(&*inst_begin(SI)), "extension " + e + " is saved by " + join(s) + " but its type " + hex(t) + " by " + join(tab["ilSave"][t])); }
    else if (ty.empty() && !l.empty()) R.add("ext-type:" + e, locOf(&*inst_begin(TE)), "extension " + e + " is loaded by " + join(l) + " but has no type");
    if (LI && l.empty() && loadList.count(e)) R.add("ext-list:" + e, locOf(&*inst_begin(LI)), "extension " + e + " is listed as loadable but no codec is chosen for it");
    if (SI && s.empty() && saveList.count(e)) R.add("ext-savelist:" + e, locOf(&*inst_begin(SI)), "extension " + e + " is listed as savable but no codec is chosen for it"); }
  // type detection
  std::map<std::string, std::vector<std::pair<std::string, std::string>>> det;
  for (auto n : {"ilDetermineTypeF", "ilDetermineTypeL"}) { Function *F = fn(n); if (!F) continue; R.items["dispatchers"].insert(n); char sf = n[15]; std::map<size_t, std::pair<std::string, std::string>> hits;
    for (auto &x : pe(C, F, -1, nullptr)) { R.count["outcomes_checked"]++; if (x.calls.empty()) continue; auto &last = x.calls.back(); if (last.back() == '+') { auto p = last.substr(0, last.size() - 1); hits[x.calls.size()] = {p, x.ret}; int64_t t = atoll(x.ret.c_str()); auto &v = tab[std::string("ilIsValid") + sf][t]; if (v != std::set<std::string>{p}) R.add("detect:" + std::string(n) + ":" + p, locOf(&*inst_begin(F)), std::string(n) + " answers type " + hex(t) + " when " + p + " succeeds, but that type is probed by " + join(v)); }
      else if (x.ret != "0") R.add("detect:" + std::string(n), locOf(&*inst_begin(F)), std::string(n) + " answers type " + x.ret + " although every probe failed"); }
    for (auto &h : hits) { auto p = h.second; p.first.pop_back(); det[n].push_back(p); R.items["detected_types"].insert(p.first); } }
  auto &a = det["ilDetermineTypeF"], &b = det["ilDetermineTypeL"];
  for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) if (i >= a.size() || i >= b.size() || a[i] != b[i]) { R.add("detect-order", locOf(&*inst_begin(fn("ilDetermineTypeL"))), "streams and lumps are not probed for the same formats in the same order: " + (i < a.size() ? a[i].first : "end") + " / " + (i < b.size() ? b[i].first : "end")); break; }
}
}
