#include "pe.h"
#include "il_consts.h"
#include "llvm/IR/InstIterator.h"
using namespace llvm;
namespace dv {
static std::string hex(int64_t t) { char b[24]; snprintf(b, 24, "0x%llx", (long long)t & 0xffffffffffll); return b; }
static std::string show(const PEOut &o) { std::string r; for (auto &e : o.eff) r += e.first + "=" + e.second + "; "; for (auto &c : o.calls) r += c + "; "; if (o.err) r += "error " + hex(o.err) + "; "; return r + "returns " + o.ret; }
CHECK(pe) { // exploratory: --opt fn=NAME --opt a0=.. --opt param=..
  PESpec s; for (int i = 0; i < 6; ++i) { auto k = "a" + std::to_string(i); if (C.opt.count(k)) s.args[i] = strtoll(C.opt[k].c_str(), 0, 0); } if (C.opt.count("param")) s.param = atoi(C.opt["param"].c_str());
  auto r = peRun(C, C.P.fn(C.opt["fn"]), s); for (auto &o : r.outs) C.R.notes.push_back(show(o)); for (auto &a : r.accepted) { std::string t = "accepted " + a.first + ":"; for (auto &c : a.second) { std::string q; raw_string_ostream os(q); c.first.print(os); t += " " + os.str(); } C.R.notes.push_back(t); } }

typedef std::vector<std::pair<int64_t, int64_t>> Ivs; // closed intervals
static Ivs norm(Ivs v) { std::sort(v.begin(), v.end()); Ivs r; for (auto &x : v) if (!r.empty() && x.first <= r.back().second + 1) r.back().second = std::max(r.back().second, x.second); else r.push_back(x); return r; }
static std::string ivs(const Ivs &v) { std::string r; for (auto &x : v) r += (r.empty() ? "" : ",") + (x.first == x.second ? std::to_string(x.first) : std::to_string(x.first) + ".." + std::to_string(x.second)); return r.empty() ? "nothing" : r; }
static const int64_t MIN = INT32_MIN, MAX = INT32_MAX;
static Ivs all() { return {{MIN, MAX}}; } static Ivs boolean() { return {{0, 1}}; } static Ivs in(int64_t a, int64_t b) { return {{a, b}}; }
static Ivs set(std::initializer_list<int64_t> l) { Ivs r; for (auto x : l) r.push_back({x, x}); return norm(r); }
// constants a function (with its inlined helpers) distinguishes in argument 0
static void constsOf(Ctx &C, Function *F, std::set<int64_t> &out) {
  std::set<Function *> seen; std::vector<Function *> w{F}; std::string file = fileOf(F);
  while (!w.empty()) { auto *G = w.back(); w.pop_back(); if (!seen.insert(G).second) continue;
    for (auto &I : instructions(*G)) { if (auto *S = dyn_cast<SwitchInst>(&I)) for (auto &c : S->cases()) out.insert(c.getCaseValue()->getSExtValue());
      if (auto *IC = dyn_cast<ICmpInst>(&I)) for (unsigned k = 0; k < 2; ++k) if (auto *CI = dyn_cast<ConstantInt>(IC->getOperand(k))) if (CI->getSExtValue() > 0x80) out.insert(CI->getSExtValue());
      if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *H = CB->getCalledFunction()) if (!H->isDeclaration() && fileOf(H) == file) w.push_back(H); } } }
struct SetSpec { const char *fn; int64_t mode; bool hasMode; Ivs ok; }; // how a documented setting is set
static std::string where(Function *F) { return F ? fileOf(F) + "(" + srcName(F) + ")" : "?"; }
struct StateChk {
  Ctx &C; Report &R; StateChk(Ctx &C) : C(C), R(C.R) {}
  Function *fn(const std::string &n) { auto *F = C.P.fn(n); if (!F || F->isDeclaration()) { R.add("missing:" + n, n, "this documented function does not exist"); return nullptr; } return F; }
  // setter with a mode: what it accepts and where it goes
  std::string setter(const std::string &f, bool hasMode, int64_t mode, const Ivs *doc) {
    Function *F = fn(f); if (!F) return ""; PESpec s; if (hasMode) s.args[0] = mode; int pa = hasMode ? 1 : 0; s.param = pa; std::string id = f + (hasMode ? ":" + hex(mode) : ""), call = f + (hasMode ? "(" + hex(mode) + ")" : "");
    auto r = peRun(C, F, s); R.items["settings"].insert(id); std::string field; Ivs acc; std::string arg = "arg" + std::to_string(pa);
    for (auto &o : r.outs) { R.count["outcomes_checked"]++;
      if (o.err && !o.eff.empty()) R.add("error-effect:" + id, where(F), call + " changes " + o.eff.begin()->first + " although it reports an error", show(o));
      if (!o.err && o.eff.empty()) R.add("silent:" + id, where(F), call + " can return without changing anything and without recording an error", show(o));
      if (!o.err && o.eff.size() > 1) R.add("more:" + id, where(F), call + " changes more than one thing", show(o));
      if (!o.err && o.eff.size() == 1) { if (field.empty()) field = o.eff.begin()->first; else if (field != o.eff.begin()->first) R.add("fields:" + id, where(F), call + " changes " + field + " or " + o.eff.begin()->first + " depending on the value", show(o)); }
      if (F->getReturnType()->isIntegerTy(8) && o.ret != (o.err ? "0" : "1")) R.add("result:" + id, where(F), call + (o.err ? " does not return IL_FALSE with an error" : " does not return IL_TRUE when the setting is made"), show(o)); }
    for (auto &a : r.accepted) for (auto &x : a.second) { if (a.first.find("CurError") != std::string::npos) continue; int64_t lo = x.first.getSignedMin().getSExtValue(), hi = x.first.getSignedMax().getSExtValue(); acc.push_back({lo, hi});
      if (x.second != arg && !(lo == hi && (x.second == std::to_string(lo) || x.second == std::to_string((uint32_t)lo)))) R.add("value:" + id, where(F), call + " stores " + x.second + " instead of the value given", a.first); }
    acc = norm(acc);
    if (doc) { Ivs d = norm(*doc); if (acc != d) R.add("range:" + id, where(F), call + " accepts " + ivs(acc) + ", documented: " + ivs(d));
      std::set<std::pair<int64_t, bool>> pts; for (auto &x : d) { pts.insert({x.first, true}); pts.insert({x.second, true}); if (x.first > MIN) pts.insert({x.first - 1, false}); if (x.second < MAX) pts.insert({x.second + 1, false}); } for (auto &x : d) for (auto it = pts.begin(); it != pts.end();) if (!it->second && it->first >= x.first && it->first <= x.second) it = pts.erase(it); else ++it;
      for (auto &pt : pts) { PESpec q; if (hasMode) q.args[0] = mode; q.args[pa] = pt.first; for (auto &o : peRun(C, F, q).outs) { R.count["values_tried"]++; bool done = !o.err && o.eff.size() == 1; if (field.find("iCurImage.") == 0 && o.err) continue; if (done != pt.second) R.add("point:" + id, where(F), call + (pt.second ? " rejects the documented value " : " accepts the value ") + std::to_string(pt.first), show(o)); } } }
    return field; }
  // getter: what it returns
  std::set<PEOut> get(const std::string &f, int64_t mode) { Function *F = fn(f); if (!F) return {}; PESpec s; s.args[0] = mode; return peRun(C, F, s).outs; }
  bool known(const std::set<PEOut> &o) { for (auto &x : o) if (!x.err) return true; return false; }
  void getter(const std::string &f, int64_t mode, const std::string &field, const std::string &as) {
    Function *F = fn(f); if (!F || field.empty()) return; std::string id = f + ":" + hex(mode); bool img = field.find("iCurImage.") == 0; R.items["queries"].insert(id); bool any = false;
    for (auto &o : get(f, mode)) { R.count["outcomes_checked"]++; if (o.err && img && o.ret == "0") continue; any = true; if (o.err || !o.eff.empty() || o.ret != field) R.add("get:" + id, where(F), f + "(" + hex(mode) + ") does not give back what " + as + " stored in " + field, show(o)); }
    if (!any) R.add("get:" + id, where(F), f + "(" + hex(mode) + ") gives nothing"); }
  void getterv(const std::string &f, int64_t mode, const std::string &field) { // through the pointer; a null pointer may be an error
    Function *F = fn(f); if (!F || field.empty()) return; std::string id = f + ":" + hex(mode); bool img = field.find("iCurImage.") == 0; R.items["queries"].insert(id); bool any = false; PESpec s; s.args[0] = mode; 
    for (auto &o : peRun(C, F, s).outs) { R.count["outcomes_checked"]++; if (o.err && o.eff.empty()) continue; if (o.err && img) continue; any = true; bool ok = !o.err && o.eff.size() == 1 && o.eff.begin()->first.find("arg1") == 0 && o.eff.begin()->second == field; if (!ok) R.add("get:" + id, where(F), f + "(" + hex(mode) + ") does not store " + field + " where its second argument points", show(o)); }
    if (!any) R.add("get:" + id, where(F), f + "(" + hex(mode) + ") gives nothing"); }
  // Enable/Disable family
  void able(const std::string &pre, const std::set<int64_t> &modes, const std::set<int64_t> &doc, std::map<int64_t, std::string> &field) {
    Function *En = fn(pre + "Enable"), *Di = fn(pre + "Disable"), *Is = fn(pre + "IsEnabled"), *No = fn(pre + "IsDisabled"); if (!En || !Di || !Is || !No) return;
    for (auto m : modes) { PESpec s; s.args[0] = m; std::string f; bool ok = true;
      for (int k = 1; k >= 0; --k) { Function *F = k ? En : Di; R.items["settings"].insert(srcName(F) + ":" + hex(m)); bool done = false;
        for (auto &o : peRun(C, F, s).outs) { R.count["outcomes_checked"]++; if (o.err) { ok = false; if (!o.eff.empty() || o.ret != "0") R.add("error-effect:" + srcName(F) + ":" + hex(m), where(F), srcName(F) + "(" + hex(m) + ") reports an error but changes something or returns success", show(o)); continue; }
          done = true; if (o.eff.size() != 1 || o.ret != "1" || o.eff.begin()->second != std::to_string(k)) { R.add("able:" + srcName(F) + ":" + hex(m), where(F), srcName(F) + "(" + hex(m) + ") does not just set one switch to " + std::to_string(k), show(o)); continue; }
          if (f.empty()) f = o.eff.begin()->first; else if (f != o.eff.begin()->first) R.add("able:" + srcName(F) + ":" + hex(m), where(F), "enabling changes " + f + ", disabling " + o.eff.begin()->first, show(o)); }
        if (!done && doc.count(m)) R.add("able:" + srcName(F) + ":" + hex(m), where(F), srcName(F) + "(" + hex(m) + ") does not know this documented mode"); }
      if (f.empty()) { for (auto *F : {Is}) for (auto &o : peRun(C, F, s).outs) if (!o.err || o.ret != "0" || !o.eff.empty()) R.add("isenabled:" + hex(m), where(F), srcName(F) + "(" + hex(m) + ") answers for a mode that cannot be enabled", show(o)); continue; }
      field[m] = f;
      for (int k = 0; k < 2; ++k) for (auto *F : {Is, No}) { PESpec q = s; q.place[f] = k; std::string want = std::to_string(F == Is ? k : !k); R.items["queries"].insert(srcName(F) + ":" + hex(m));
        for (auto &o : peRun(C, F, q).outs) { R.count["outcomes_checked"]++; if (o.err || !o.eff.empty() || o.ret != want) R.add("isenabled:" + srcName(F) + ":" + hex(m), where(F), srcName(F) + "(" + hex(m) + ") does not answer " + want + " when " + f + " is " + std::to_string(k), show(o)); } } } }
  void distinct(const std::map<std::string, std::vector<int64_t>> &byField, const std::vector<std::set<int64_t>> &alias) {
    for (auto &x : byField) { std::set<int64_t> m(x.second.begin(), x.second.end()); if (m.size() < 2) continue; bool ok = false; for (auto &a : alias) { bool all = true; for (auto y : m) if (!a.count(y)) all = false; if (all) ok = true; }
      if (!ok) { std::string l; for (auto y : m) l += " " + hex(y); R.add("shared:" + x.first, x.first, "different settings share one field:" + l); } } }
};
CHECK(states) {
  StateChk K(C); auto &R = C.R; std::map<std::string, std::vector<int64_t>> by;
  // --- IL: switches
  std::set<int64_t> docSw = {IL_ORIGIN_SET, IL_FORMAT_SET, IL_TYPE_SET, IL_FILE_OVERWRITE, IL_CONV_PAL, IL_DEFAULT_ON_FAIL, IL_USE_KEY_COLOUR, IL_BLIT_BLEND, IL_SAVE_INTERLACED, IL_JPG_PROGRESSIVE, IL_NVIDIA_COMPRESS, IL_SQUISH_COMPRESS};
  std::set<int64_t> modes = docSw; for (auto f : {"ilEnable", "ilIsEnabled"}) if (auto *F = K.fn(f)) constsOf(C, F, modes); modes.insert(0x7abc);
  std::map<int64_t, std::string> sw; K.able("il", modes, docSw, sw);
  for (auto &x : sw) { by[x.second].push_back(x.first); if (K.known(K.get("ilGetInteger", x.first))) K.getter("ilGetInteger", x.first, x.second, "ilEnable"), K.getter("ilGetBoolean", x.first, x.second, "ilEnable"), K.getterv("ilGetIntegerv", x.first, x.second), K.getterv("ilGetBooleanv", x.first, x.second); else if (docSw.count(x.first) && x.first != IL_SAVE_INTERLACED && x.first != IL_FILE_OVERWRITE) R.add("get:ilGetInteger:" + hex(x.first), "ilGetInteger", "the documented mode " + hex(x.first) + " cannot be queried"); }
  if (sw.count(IL_SAVE_INTERLACED)) K.getter("ilGetInteger", IL_INTERLACE_MODE, sw[IL_SAVE_INTERLACED], "ilEnable(IL_SAVE_INTERLACED)"), by[sw[IL_SAVE_INTERLACED]].push_back(IL_INTERLACE_MODE);
  if (sw.count(IL_FILE_OVERWRITE)) K.getter("ilGetInteger", IL_FILE_MODE, sw[IL_FILE_OVERWRITE], "ilEnable(IL_FILE_OVERWRITE)"), K.getter("ilGetBoolean", IL_FILE_MODE, sw[IL_FILE_OVERWRITE], "ilEnable(IL_FILE_OVERWRITE)"), by[sw[IL_FILE_OVERWRITE]].push_back(IL_FILE_MODE);
  // --- IL: values
  Ivs fmt = set({IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA}), typ = set({IL_BYTE, IL_UNSIGNED_BYTE, IL_SHORT, IL_UNSIGNED_SHORT, IL_INT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE}), org = set({IL_ORIGIN_LOWER_LEFT, IL_ORIGIN_UPPER_LEFT});
  std::map<int64_t, Ivs> il = {{IL_FORMAT_MODE, fmt}, {IL_TYPE_MODE, typ}, {IL_ORIGIN_MODE, org}, {IL_KEEP_DXTC_DATA, boolean()}, {IL_MAX_QUANT_INDICES, in(2, 256)}, {IL_NEU_QUANT_SAMPLE, in(1, 30)}, {IL_QUANTIZATION_MODE, set({IL_WU_QUANT, IL_NEU_QUANT})},
    {IL_IMAGE_DURATION, all()}, {IL_IMAGE_OFFX, all()}, {IL_IMAGE_OFFY, all()}, {IL_IMAGE_CUBEFLAGS, all()}, {IL_BMP_RLE, boolean()}, {IL_SGI_RLE, boolean()}, {IL_TGA_RLE, boolean()}, {IL_TGA_CREATE_STAMP, boolean()}, {IL_PNG_INTERLACE, boolean()},
    {IL_DXTC_FORMAT, set({IL_DXT1, IL_DXT2, IL_DXT3, IL_DXT4, IL_DXT5, IL_3DC, IL_RXGB, IL_ATI1N, IL_DXT1A})}, {IL_JPG_SAVE_FORMAT, set({IL_JFIF, IL_EXIF})}, {IL_JPG_QUALITY, in(0, 99)}, {IL_PCD_PICNUM, in(0, 2)}, {IL_PNG_ALPHA_INDEX, in(-1, 255)}, {IL_VTF_COMP, set({IL_DXT1, IL_DXT3, IL_DXT5, IL_DXT1A, IL_DXT_NO_COMP})}};
  std::set<int64_t> vm; for (auto &x : il) vm.insert(x.first); if (auto *F = K.fn("ilSetInteger")) { std::set<int64_t> k; for (auto &I : instructions(*F)) if (auto *S = dyn_cast<SwitchInst>(&I)) for (auto &c : S->cases()) k.insert(c.getCaseValue()->getSExtValue()); for (auto x : k) vm.insert(x); } vm.insert(0x7abc);
  for (auto m : vm) { auto it = il.find(m); if (it == il.end()) { PESpec s; s.args[0] = m; bool kn = false; for (auto &o : peRun(C, C.P.fn("ilSetInteger"), s).outs) { R.count["outcomes_checked"]++; if (!o.err) kn = true; else if (!o.eff.empty()) R.add("error-effect:ilSetInteger:" + hex(m), where(C.P.fn("ilSetInteger")), "an unknown mode changes something", show(o)); } if (!kn) continue; }
    auto f = K.setter("ilSetInteger", true, m, it == il.end() ? nullptr : &it->second); if (f.empty()) { if (it != il.end()) R.add("set:" + hex(m), where(C.P.fn("ilSetInteger")), "ilSetInteger(" + hex(m) + ") never makes the setting"); continue; } by[f].push_back(m); K.getter("ilGetInteger", m, f, "ilSetInteger"); K.getterv("ilGetIntegerv", m, f); }
  struct { const char *f; int64_t m; Ivs ok; } fun[] = {{"ilOriginFunc", IL_ORIGIN_MODE, org}, {"ilFormatFunc", IL_FORMAT_MODE, fmt}, {"ilTypeFunc", IL_TYPE_MODE, typ}, {"ilCompressFunc", IL_COMPRESS_MODE, set({IL_COMPRESS_NONE, IL_COMPRESS_RLE, IL_COMPRESS_ZLIB})}};
  for (auto &x : fun) { auto f = K.setter(x.f, false, 0, &x.ok); if (!f.empty()) by[f].push_back(x.m), K.getter("ilGetInteger", x.m, f, x.f); }
  // --- hints
  std::map<int64_t, std::set<int64_t>> hints = {{IL_MEM_SPEED_HINT, {IL_FASTEST, IL_LESS_MEM}}, {IL_COMPRESSION_HINT, {IL_USE_COMPRESSION, IL_NO_COMPRESSION}}};
  if (auto *F = K.fn("ilHint")) for (auto &h : hints) { std::string field; auto vals = h.second; vals.insert(IL_DONT_CARE); std::set<int64_t> tryv = {IL_FASTEST, IL_LESS_MEM, IL_USE_COMPRESSION, IL_NO_COMPRESSION, IL_DONT_CARE, 0, 0x7abc};
    for (auto v : tryv) { PESpec s; s.args[0] = h.first; s.args[1] = v; R.items["settings"].insert("ilHint:" + hex(h.first)); for (auto &o : peRun(C, F, s).outs) { R.count["outcomes_checked"]++; bool valid = vals.count(v); std::string id = "hint:" + hex(h.first) + ":" + hex(v);
        if (!valid) { if (!o.err || !o.eff.empty()) R.add(id, where(F), "an invalid hint value is accepted", show(o)); continue; }
        bool ok = !o.err && o.eff.size() == 1; if (ok) { auto &e = *o.eff.begin(); if (field.empty()) field = e.first; ok = field == e.first; if (v == IL_DONT_CARE) { bool m = false; for (auto w : h.second) if (e.second == std::to_string(w)) m = true; ok = ok && m; } else ok = ok && e.second == std::to_string(v); }
        if (!ok) R.add(id, where(F), "the hint is not stored as given", show(o)); } }
    if (!field.empty()) by[field].push_back(h.first), K.getter("iGetHint", h.first, field, "ilHint"); }
  // --- strings
  std::map<int64_t, int> strs = {{IL_TGA_ID_STRING, 254}, {IL_TGA_AUTHNAME_STRING, 40}, {IL_TGA_AUTHCOMMENT_STRING, 80}, {IL_PNG_AUTHNAME_STRING, 255}, {IL_PNG_TITLE_STRING, 255}, {IL_PNG_DESCRIPTION_STRING, 255}, {IL_TIF_DESCRIPTION_STRING, 255}, {IL_TIF_HOSTCOMPUTER_STRING, 255}, {IL_TIF_DOCUMENTNAME_STRING, 255}, {IL_TIF_AUTHNAME_STRING, 255}, {IL_CHEAD_HEADER_STRING, 32}};
  std::set<int64_t> sm; for (auto &x : strs) sm.insert(x.first); if (auto *F = K.fn("ilSetString")) constsOf(C, F, sm); sm.insert(0x7abc);
  if (auto *F = K.fn("ilSetString")) for (auto m : sm) { PESpec s; s.args[0] = m; std::string field, id = hex(m); R.items["settings"].insert("ilSetString:" + id);
    for (auto &o : peRun(C, F, s).outs) { R.count["outcomes_checked"]++; if (o.err) { if (!o.eff.empty()) R.add("error-effect:ilSetString:" + id, where(F), "ilSetString reports an error but changes something", show(o)); continue; }
      if (o.eff.size() != 1 || (o.eff.begin()->second != "dup(arg1)" && o.eff.begin()->second != "copy(arg1)")) { R.add("string:" + id, where(F), "ilSetString(" + id + ") does not store just a copy of the string", show(o)); continue; }
      if (field.empty()) field = o.eff.begin()->first; else if (field != o.eff.begin()->first) R.add("string:" + id, where(F), "two different strings are set", show(o)); 
      for (auto &c : o.calls) if (c != "free(" + field + ")" && c != "free(0)") R.add("string:" + id, where(F), "ilSetString(" + id + ") frees " + c + ", not the string it replaces", show(o)); }
    if (field.empty()) { if (strs.count(m)) R.add("string:" + id, where(F), "ilSetString(" + id + ") never stores the string"); continue; }
    by[field].push_back(m); K.getter("ilGetString", m, field, "ilSetString");
    if (auto *G = K.fn("iGetString")) for (auto &o : K.get("iGetString", m)) { R.count["outcomes_checked"]++; std::string pre = "clip(" + field + ","; int64_t n = StringRef(o.ret).starts_with(pre) ? atoll(o.ret.c_str() + pre.size()) : -1; if (o.err || !o.eff.empty() || n < 1) R.add("iGetString:" + id, where(G), "savers do not get a clipped copy of the string set", show(o)); } }
  K.distinct(by, {{IL_SAVE_INTERLACED, IL_INTERLACE_MODE}, {IL_FILE_OVERWRITE, IL_FILE_MODE}});
  // --- version and vendor
  for (auto &x : {std::make_pair("ilGetInteger", (int64_t)IL_VERSION), std::make_pair("iluGetInteger", (int64_t)ILU_VERSION), std::make_pair("ilutGetInteger", (int64_t)ILUT_VERSION)}) for (auto &o : K.get(x.first, IL_VERSION_NUM)) { R.count["outcomes_checked"]++; if (o.err || o.ret != std::to_string(x.second)) R.add(std::string("version:") + x.first, x.first, "the version number is not " + std::to_string(x.second), show(o)); }
  // --- ILU
  by.clear(); std::map<int64_t, Ivs> ilu = {{ILU_FILTER, set({ILU_NEAREST, ILU_LINEAR, ILU_BILINEAR, ILU_SCALE_BOX, ILU_SCALE_TRIANGLE, ILU_SCALE_BELL, ILU_SCALE_BSPLINE, ILU_SCALE_LANCZOS3, ILU_SCALE_MITCHELL})}, {ILU_PLACEMENT, set({ILU_LOWER_LEFT, ILU_LOWER_RIGHT, ILU_UPPER_LEFT, ILU_UPPER_RIGHT, ILU_CENTER})}};
  for (auto &x : ilu) { auto f = K.setter("iluImageParameter", true, x.first, &x.second); if (f.empty()) { R.add("set:" + hex(x.first), "iluImageParameter", "iluImageParameter never makes the setting"); continue; } by[f].push_back(x.first); K.getter("iluGetInteger", x.first, f, "iluImageParameter"); K.getterv("iluGetIntegerv", x.first, f); }
  for (auto &o : K.get("iluImageParameter", 0x7abc)) if (!o.err || !o.eff.empty()) R.add("unknown:iluImageParameter", "iluImageParameter", "an unknown parameter is accepted", show(o));
  K.distinct(by, {});
  // --- ILUT
  by.clear(); std::set<int64_t> utSw = {ILUT_PALETTE_MODE, ILUT_FORCE_INTEGER_FORMAT, ILUT_OPENGL_CONV, ILUT_GL_USE_S3TC, ILUT_GL_GEN_S3TC, ILUT_GL_AUTODETECT_TEXTURE_TARGET}, um = utSw; for (auto f : {"ilutEnable", "ilutIsEnabled"}) if (auto *F = K.fn(f)) constsOf(C, F, um); um.insert(0x7abc);
  std::map<int64_t, std::string> us; K.able("ilut", um, utSw, us); for (auto &x : us) { by[x.second].push_back(x.first); K.getter("ilutGetInteger", x.first, x.second, "ilutEnable"); K.getter("ilutGetBoolean", x.first, x.second, "ilutEnable"); K.getterv("ilutGetIntegerv", x.first, x.second); K.getterv("ilutGetBooleanv", x.first, x.second); }
  std::map<int64_t, Ivs> ut = {{ILUT_S3TC_FORMAT, in(IL_DXT1, IL_DXT5)}, {ILUT_MAXTEX_WIDTH, in(1, MAX)}, {ILUT_MAXTEX_HEIGHT, in(1, MAX)}, {ILUT_MAXTEX_DEPTH, in(1, MAX)}, {ILUT_GL_USE_S3TC, boolean()}, {ILUT_GL_GEN_S3TC, boolean()}, {ILUT_GL_AUTODETECT_TEXTURE_TARGET, boolean()}, {ILUT_D3D_MIPLEVELS, in(0, MAX)}, {ILUT_D3D_ALPHA_KEY_COLOR, all()}, {ILUT_D3D_POOL, in(0, 2)}};
  for (auto &x : ut) { auto f = K.setter("ilutSetInteger", true, x.first, &x.second); if (f.empty()) { R.add("set:" + hex(x.first), "ilutSetInteger", "ilutSetInteger never makes the setting"); continue; } by[f].push_back(x.first); K.getter("ilutGetInteger", x.first, f, "ilutSetInteger"); K.getterv("ilutGetIntegerv", x.first, f); }
  for (auto &o : K.get("ilutSetInteger", 0x7abc)) if (!o.err || !o.eff.empty()) R.add("unknown:ilutSetInteger", "ilutSetInteger", "an unknown mode is accepted", show(o));
  K.distinct(by, {});
  for (auto f : {"ilGetInteger", "ilGetString", "iluGetInteger", "iluGetString", "ilutGetInteger", "ilutGetString", "ilGetBoolean", "ilutGetBoolean"}) for (auto &o : K.get(f, 0x7abc)) { R.count["outcomes_checked"]++; if (!o.err || !o.eff.empty() || o.ret != "0") R.add("unknown:" + std::string(f), f, "an unknown mode is answered without an error", show(o)); }
}
}
