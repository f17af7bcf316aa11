#include "pe.h"
#include "il_consts.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Operator.h"
using namespace llvm;
namespace dv {
static std::string hex(int64_t t) { char b[24]; snprintf(b, 24, "0x%llx", (long long)t & 0xffffffffffll); return b; }
static std::string show(const PEOut &o) { std::string r; for (auto &e : o.eff) r += e.first + "=" + e.second + "; "; for (auto &c : o.calls) r += c + "; "; if (o.err) r += "error " + hex(o.err) + "; "; r += "returns " + o.ret; if (r.size() > 500) r.resize(500); return r; }
static std::string where(Function *F) { return F ? fileOf(F) + "(" + srcName(F) + ")" : "?"; }
static Function *need(Ctx &C, const std::string &n) { auto *F = C.P.fn(n); if (!F || F->isDeclaration()) { C.R.add("missing:" + n, n, "this documented function does not exist"); return nullptr; } return F; }
// the functions that write a global directly
static std::set<Function *> writersOf(Ctx &C, const std::set<const GlobalVariable *> &gs) {
  std::set<Function *> r; for (auto &F : *C.P.M) for (auto &I : instructions(F)) { const Value *p = nullptr; if (auto *S = dyn_cast<StoreInst>(&I)) p = S->getPointerOperand(); else if (auto *M = dyn_cast<MemIntrinsic>(&I)) p = M->getRawDest(); if (!p) continue;
    for (int i = 0; i < 20 && p; ++i) { p = p->stripPointerCasts(); if (auto *G = dyn_cast<GEPOperator>(p)) p = G->getPointerOperand(); else break; } if (auto *G = dyn_cast_or_null<GlobalVariable>(p)) if (gs.count(G)) r.insert(&F); }
  return r; }
// every writer is one of the roots or a helper only they (or each other) call
static void onlyVia(Ctx &C, const std::set<Function *> &ws, const std::set<std::string> &roots, const std::string &key, const std::string &what) {
  for (auto *W : ws) { C.R.items["writers"].insert(srcName(W)); if (roots.count(srcName(W))) continue; std::set<const Function *> seen; std::vector<const Function *> st{W}; bool bad = C.addrTaken.count(W);
    while (!st.empty() && !bad) { auto *F = st.back(); st.pop_back(); if (!seen.insert(F).second || roots.count(srcName(F))) continue; auto it = C.P.callers.find(F); bool any = false; if (it != C.P.callers.end()) for (auto *c : it->second) if (c != F) any = true, st.push_back(c); if (!any || C.isApi(F)) bad = true; }
    if (bad) C.R.add(key + ":" + srcName(W), where(W), what); } }
struct Setting { int64_t mode; char kind; int bit; const char *def; }; // kind: s switch, i integer, t string, h hint
struct Stack { const char *pre; const char *push, *pop, *defaults, *en, *get, *str; std::vector<Setting> set; std::vector<int64_t> bits; int64_t all; std::string extra; };
static std::string fieldOfPlace(const std::string &p) { auto d = p.rfind('.'); return d == std::string::npos ? p : p.substr(d + 1); }
CHECK(attrib) {
  auto &R = C.R;
  std::vector<Stack> stacks = {
    {"il", "ilPushAttrib", "ilPopAttrib", "ilDefaultStates", "ilIsEnabled", "ilGetInteger", "ilGetString", {
      {IL_ORIGIN_SET,'s',IL_ORIGIN_BIT,"0"},{IL_ORIGIN_MODE,'i',IL_ORIGIN_BIT,"1537"},{IL_FORMAT_SET,'s',IL_FORMAT_BIT,"0"},{IL_FORMAT_MODE,'i',IL_FORMAT_BIT,"32993"},{IL_TYPE_SET,'s',IL_TYPE_BIT,"0"},{IL_TYPE_MODE,'i',IL_TYPE_BIT,"5121"},
      {IL_FILE_OVERWRITE,'s',IL_FILE_BIT,"0"},{IL_CONV_PAL,'s',IL_PAL_BIT,"0"},{IL_DEFAULT_ON_FAIL,'s',IL_LOADFAIL_BIT,"0"},{IL_COMPRESS_MODE,'i',IL_COMPRESS_BIT,"1796"},{IL_USE_KEY_COLOUR,'s',0,"0"},{IL_BLIT_BLEND,'s',0,"1"},{IL_INTERLACE_MODE,'i',0,"0"},
      {IL_QUANTIZATION_MODE,'i',0,"1601"},{IL_NEU_QUANT_SAMPLE,'i',0,"15"},{IL_MAX_QUANT_INDICES,'i',0,"256"},{IL_KEEP_DXTC_DATA,'i',0,"0"},{IL_NVIDIA_COMPRESS,'s',0,"0"},{IL_SQUISH_COMPRESS,'s',0,"0"},
      {IL_TGA_CREATE_STAMP,'i',IL_FORMAT_SPECIFIC_BIT,"0"},{IL_JPG_QUALITY,'i',IL_FORMAT_SPECIFIC_BIT,"99"},{IL_PNG_INTERLACE,'i',IL_FORMAT_SPECIFIC_BIT,"0"},{IL_TGA_RLE,'i',IL_FORMAT_SPECIFIC_BIT,"0"},{IL_BMP_RLE,'i',IL_FORMAT_SPECIFIC_BIT,"0"},{IL_SGI_RLE,'i',IL_FORMAT_SPECIFIC_BIT,"0"},
      {IL_JPG_SAVE_FORMAT,'i',IL_FORMAT_SPECIFIC_BIT,"1061"},{IL_JPG_PROGRESSIVE,'s',IL_FORMAT_SPECIFIC_BIT,"0"},{IL_VTF_COMP,'i',IL_FORMAT_SPECIFIC_BIT,"1803"},{IL_DXTC_FORMAT,'i',IL_FORMAT_SPECIFIC_BIT,"1798"},{IL_PCD_PICNUM,'i',IL_FORMAT_SPECIFIC_BIT,"2"},{IL_PNG_ALPHA_INDEX,'i',IL_FORMAT_SPECIFIC_BIT,"-1"},
      {IL_TGA_ID_STRING,'t',IL_FORMAT_SPECIFIC_BIT,"0"},{IL_TGA_AUTHNAME_STRING,'t',IL_FORMAT_SPECIFIC_BIT,"0"},{IL_TGA_AUTHCOMMENT_STRING,'t',IL_FORMAT_SPECIFIC_BIT,"0"},{IL_PNG_AUTHNAME_STRING,'t',IL_FORMAT_SPECIFIC_BIT,"0"},{IL_PNG_TITLE_STRING,'t',IL_FORMAT_SPECIFIC_BIT,"0"},{IL_PNG_DESCRIPTION_STRING,'t',IL_FORMAT_SPECIFIC_BIT,"0"},
      {IL_TIF_DESCRIPTION_STRING,'t',IL_FORMAT_SPECIFIC_BIT,"0"},{IL_TIF_HOSTCOMPUTER_STRING,'t',IL_FORMAT_SPECIFIC_BIT,"0"},{IL_TIF_DOCUMENTNAME_STRING,'t',IL_FORMAT_SPECIFIC_BIT,"0"},{IL_TIF_AUTHNAME_STRING,'t',IL_FORMAT_SPECIFIC_BIT,"0"},{IL_CHEAD_HEADER_STRING,'t',IL_FORMAT_SPECIFIC_BIT,"0"}},
      {IL_ORIGIN_BIT, IL_FILE_BIT, IL_PAL_BIT, IL_FORMAT_BIT, IL_TYPE_BIT, IL_COMPRESS_BIT, IL_LOADFAIL_BIT, IL_FORMAT_SPECIFIC_BIT}, IL_ALL_ATTRIB_BITS, ""},
    {"ilut", "ilutPushAttrib", "ilutPopAttrib", "ilutDefaultStates", "ilutIsEnabled", "ilutGetInteger", "", {
      {ILUT_PALETTE_MODE,'s',ILUT_OPENGL_BIT,"0"},{ILUT_OPENGL_CONV,'s',ILUT_OPENGL_BIT,"0"},{ILUT_D3D_MIPLEVELS,'i',ILUT_D3D_BIT,"0"},{ILUT_D3D_ALPHA_KEY_COLOR,'i',ILUT_D3D_BIT,"-1"},{ILUT_FORCE_INTEGER_FORMAT,'s',0,"0"},{ILUT_GL_USE_S3TC,'s',0,"0"},{ILUT_GL_GEN_S3TC,'s',0,"0"},{ILUT_GL_AUTODETECT_TEXTURE_TARGET,'s',0,"0"},
      {ILUT_S3TC_FORMAT,'i',0,"0"},{ILUT_MAXTEX_WIDTH,'i',0,"256"},{ILUT_MAXTEX_HEIGHT,'i',0,"256"},{ILUT_MAXTEX_DEPTH,'i',0,"1"},{ILUT_D3D_POOL,'i',0,"0"}},
      {ILUT_OPENGL_BIT, ILUT_D3D_BIT}, ILUT_ALL_ATTRIB_BITS, ""}};
  for (auto &st : stacks) {
    Function *Pu = need(C, st.push), *Po = need(C, st.pop), *De = need(C, st.defaults); if (!Pu || !Po || !De) continue;
    std::map<std::string, Setting> byField; std::string old; std::set<std::string> strFields;
    for (auto &s : st.set) { const char *g = s.kind == 's' ? st.en : s.kind == 'i' ? st.get : st.str; Function *G = need(C, g); if (!G) continue; PESpec q; q.args[0] = s.mode; std::string pl; for (auto &o : peRun(C, G, q).outs) if (!o.err) pl = o.ret; if (pl.find('[') == std::string::npos || pl.find('.') == std::string::npos) { R.add("query:" + hex(s.mode), where(G), "the state " + hex(s.mode) + " is not read from the state stack", pl); continue; }
      old = pl.substr(0, pl.rfind('.')); byField[fieldOfPlace(pl)] = s; if (s.kind == 't') strFields.insert(fieldOfPlace(pl)); R.items["states"].insert(std::string(st.pre) + ":" + hex(s.mode)); }
    if (old.empty()) continue; std::string arr = old.substr(0, old.find('[')), idx = old.substr(old.find('[') + 1); idx.pop_back();
    auto *GA = C.P.gv(arr), *GI = C.P.gv(idx); if (!GA || !GI) { R.broken("state stack globals not recognised: " + arr + " " + idx); continue; }
    auto *AT = dyn_cast<ArrayType>(GA->getValueType()); int64_t N = AT ? AT->getNumElements() : 0; auto *ST = AT ? dyn_cast<StructType>(AT->getElementType()) : nullptr; if (!ST) { R.broken("state stack is not an array of structures"); continue; }
    // defaults
    { std::map<std::string, std::string> d; for (auto &o : peRun(C, De, {}).outs) { R.count["outcomes_checked"]++; for (auto &f : byField) { auto it = o.eff.find(old + "." + f.first); R.count["defaults_checked"]++; if (it == o.eff.end() || (it->second != f.second.def && it->second != std::to_string((uint32_t)atoll(f.second.def)))) R.add("default:" + std::string(st.pre) + ":" + hex(f.second.mode), where(De), "the initial value of state " + hex(f.second.mode) + " is " + (it == o.eff.end() ? std::string("not set") : it->second) + ", documented: " + f.second.def); } } }
    // push
    std::set<int64_t> tries = {0, st.all, -1}; for (auto b : st.bits) tries.insert(b), tries.insert(st.all & ~b); for (auto a : st.bits) for (auto b : st.bits) tries.insert(a | b);
    for (auto bits : tries) { PESpec q; q.args[0] = bits; q.atMost[idx] = N - 1; auto r = peRun(C, Pu, q); bool ok = false; std::string id = std::string(st.push) + ":" + hex((uint32_t)bits); R.items["pushes"].insert(id);
      for (auto &o : r.outs) { R.count["outcomes_checked"]++;
        if (o.err) { for (auto &e : o.eff) if (e.first != idx || e.second != std::to_string(N - 1)) R.add("overflow:" + id, where(Pu), "a push that overflows changes " + e.first, show(o)); if (o.err != IL_STACK_OVERFLOW) R.add("overflow:" + id, where(Pu), "an overflowing push records error " + hex(o.err), show(o)); continue; }
        ok = true; auto ie = o.eff.find(idx); if (ie == o.eff.end() || ie->second != "1+" + idx) { R.add("push:" + id, where(Pu), "a push does not move to the next level", show(o)); continue; }
        std::string nw = arr + "[" + ie->second + "]"; std::set<std::string> done; 
        for (auto &e : o.eff) { if (e.first == idx) continue; if (e.first.find(nw + ".") != 0) { if (e.first.find(arr) == 0) R.add("push-writes:" + id, where(Pu), "a push changes " + e.first + ", outside the new level", show(o)); continue; } done.insert(fieldOfPlace(e.first)); auto f = byField.find(fieldOfPlace(e.first)); if (f == byField.end()) continue; auto &s = f->second; R.count["fields_checked"]++; std::string was = old + "." + f->first; bool in = s.bit & bits;
          bool good = in ? (s.kind == 't' ? e.second == "dup(" + was + ")" || e.second == "copy(" + was + ")" : e.second == was) : (e.second == s.def || e.second == std::to_string((uint32_t)atoll(s.def)));
          if (!good) R.add("push:" + id + ":" + hex(s.mode), where(Pu), std::string(st.push) + "(" + hex((uint32_t)bits) + ") gives state " + hex(s.mode) + " the value " + e.second + (in ? " instead of keeping the old one" : " instead of its default"), e.first); }
        for (unsigned i = 0; i < ST->getNumElements(); ++i) { std::string f = fieldName(C, {ST, (int)i}); if (f.size() > 1 && f[0] == 'f' && isdigit(f[1])) continue; if (!done.count(f)) R.add("leftover:" + std::string(st.push) + ":" + f, where(Pu), "after a push the new level still has an older value of " + f, show(o)); } }
      if (!ok) R.add("push:" + id, where(Pu), "a push never succeeds");
      auto sr = r.stored.find(idx); if (sr != r.stored.end() && sr->second.getUnsignedMax().getZExtValue() >= (uint64_t)N) R.add("index:" + id, where(Pu), "the stack level can leave the " + std::to_string(N) + " levels that exist"); }
    // pop
    { PESpec q; q.atMost[idx] = N - 1; auto r = peRun(C, Po, q); bool ok = false; std::string id = st.pop; R.items["pops"].insert(id);
      for (auto &o : r.outs) { R.count["outcomes_checked"]++;
        if (o.err) { for (auto &e : o.eff) if (e.first != idx || e.second != "0") R.add("underflow:" + id, where(Po), "a pop that underflows changes " + e.first, show(o)); if (o.err != IL_STACK_UNDERFLOW) R.add("underflow:" + id, where(Po), "an underflowing pop records error " + hex(o.err), show(o)); continue; }
        ok = true; auto ie = o.eff.find(idx); if (ie == o.eff.end() || ie->second != "-1+" + idx) R.add("pop:" + id, where(Po), "a pop does not return to the level below", show(o));
        for (auto &e : o.eff) if (e.first != idx && e.first.find(old + ".") != 0) R.add("pop-writes:" + id, where(Po), "a pop changes " + e.first, show(o));
        for (auto &f : strFields) { std::string w = "free(" + old + "." + f + ")"; if (!std::count(o.calls.begin(), o.calls.end(), w)) R.add("pop-string:" + f, where(Po), "the string " + f + " of the level left is not freed", show(o)); }
        for (auto &c : o.calls) if (c.find("free(") == 0 && c.find("free(" + old + ".") != 0 && c != "free(0)") R.add("pop-string:" + id, where(Po), "a pop frees " + c, show(o)); }
      if (!ok) R.add("pop:" + id, where(Po), "a pop never succeeds");
      auto sr = r.stored.find(idx); if (sr != r.stored.end() && sr->second.getUnsignedMax().getZExtValue() >= (uint64_t)N) R.add("index:" + id, where(Po), "the stack level can leave the levels that exist"); }
    std::set<std::string> roots = {st.push, st.pop}; onlyVia(C, writersOf(C, {GI}), roots, "index-writer", "writes the level of the state stack, which only push and pop may do");
    if (auto *In = need(C, std::string(st.pre) + "Init")) { auto it = C.P.reach.find(In); if (it == C.P.reach.end() || !it->second.count(De)) R.add("init:" + std::string(st.pre), where(In), "initialisation does not set the states to their defaults"); }
  }
}
void removals(Ctx &C);
CHECK(errqueue) {
  removals(C);
  auto &R = C.R; Function *Se = need(C, "ilSetError"), *Ge = need(C, "ilGetError"); if (!Se || !Ge) return;
  auto r0 = peRun(C, Ge, {}); std::string idx, arr; for (auto &o : r0.outs) for (auto &e : o.eff) if (e.second == "-1+" + e.first) idx = e.first; for (auto &o : r0.outs) if (o.ret.find('[') != std::string::npos) arr = o.ret.substr(0, o.ret.find('['));
  auto *GA = C.P.gv(arr), *GI = C.P.gv(idx); auto *AT = GA ? dyn_cast<ArrayType>(GA->getValueType()) : nullptr; if (!AT || !GI) { R.broken("error queue not recognised"); return; } int64_t N = AT->getNumElements();
  if (auto *CI = dyn_cast_or_null<ConstantInt>(GI->hasInitializer() ? GI->getInitializer() : nullptr)) if (CI->getSExtValue() != -1) R.add("initial", idx, "the error queue does not start out empty");
  auto el = [&](int64_t k) -> std::set<std::string> { std::set<std::string> r = {arr + (k ? "." + std::to_string(4 * k) : ""), arr + "." + std::to_string(4 * k)}; return r; };
  for (int64_t k = -1; k < N; ++k) {
    PESpec q; q.place[idx] = k; std::set<std::string> at = {std::to_string(k), std::to_string((uint32_t)k)}; R.items["depths"].insert(std::to_string(k + 1));
    auto isEl = [&](std::string nm, int64_t j) { // element j of the array, written with a constant or the index
      if (el(j).count(nm)) return true; int64_t d = j - k; std::string ix = d == 0 ? idx : std::to_string(d) + "+" + idx; return nm == arr + "[" + ix + "].0" || nm == arr + "[" + std::to_string(j) + "].0"; };
    for (auto &o : peRun(C, Ge, q).outs) { R.count["outcomes_checked"]++; auto ie = o.eff.find(idx); bool ok;
      if (k < 0) ok = o.eff.empty() && o.ret == "0"; else ok = o.eff.size() == 1 && ie != o.eff.end() && (ie->second == std::to_string(k - 1) || ie->second == std::to_string((uint32_t)(k - 1)) || ie->second == "-1+" + idx) && isEl(o.ret, k);
      if (!ok) R.add("get:" + std::to_string(k + 1), where(Ge), k < 0 ? "with no error recorded ilGetError does not just return IL_NO_ERROR" : "with " + std::to_string(k + 1) + " errors recorded ilGetError does not return and remove the latest", show(o)); }
    for (auto &o : peRun(C, Se, q).outs) { R.count["outcomes_checked"]++; auto ie = o.eff.find(idx); bool ok = true; int64_t n = std::min(k + 1, N - 1);
      if (k + 1 < N) { ok = ie != o.eff.end() && (ie->second == std::to_string(n) || ie->second == "1+" + idx); for (auto &e : o.eff) if (e.first != idx && !isEl(e.first, n)) ok = false; }
      else ok = ie == o.eff.end() || ie->second == std::to_string(n) || ie->second == std::to_string((uint32_t)n);
      bool put = false; std::set<int64_t> shifted; for (auto &e : o.eff) { if (e.first == idx) continue; if (isEl(e.first, n)) { put = e.second == "arg0"; continue; } bool sh = false; if (k + 1 == N) for (int64_t j = 0; j + 1 < N; ++j) if (isEl(e.first, j) && isEl(e.second, j + 1)) sh = true, shifted.insert(j); if (!sh) ok = false; }
      if (k + 1 == N && (int64_t)shifted.size() != N - 1) ok = false;
      if (!ok || !put) R.add("set:" + std::to_string(k + 1), where(Se), k + 1 < N ? "with " + std::to_string(k + 1) + " errors recorded ilSetError does not just add one" : "a full error queue does not drop just its oldest error", show(o)); } }
  onlyVia(C, writersOf(C, {GA, GI}), {"ilSetError", "ilGetError"}, "writer", "writes the error queue, which only ilSetError and ilGetError may do");
  // descriptions
  Function *SL = need(C, "iluSetLanguage"), *ES = need(C, "iluErrorString"); if (!SL || !ES) return; auto &DL = C.P.M->getDataLayout();
  auto elem = [&](const std::string &pl) -> Constant * { auto d = pl.rfind('.'); std::string g = d == std::string::npos ? pl : pl.substr(0, d); int64_t o = d == std::string::npos ? 0 : atoll(pl.c_str() + d + 1); auto *G = C.P.gv(g); if (!G || !G->hasInitializer() || !writersOf(C, {G}).empty()) return nullptr; auto *I = G->getInitializer(); return o % 8 == 0 ? I->getAggregateElement(o / 8) : nullptr; };
  auto text = [&](Constant *K) -> std::string { auto *G = dyn_cast_or_null<GlobalVariable>(K ? K->stripPointerCasts() : nullptr); auto *D = G && G->hasInitializer() ? dyn_cast<ConstantDataSequential>(G->getInitializer()) : nullptr; return D && D->isString() ? D->getAsString().str() : ""; };
  std::vector<std::pair<int64_t, std::string>> langs = {{ILU_ENGLISH, "english"}, {ILU_ARABIC, "arabic"}, {ILU_DUTCH, "dutch"}, {ILU_JAPANESE, "japanese"}, {ILU_SPANISH, "spanish"}, {ILU_GERMAN, "german"}, {ILU_FRENCH, "french"}, {ILU_ITALIAN, "italian"}};
  std::vector<std::pair<int64_t, std::string>> codes = {{IL_NO_ERROR, "no error"}, {IL_UNKNOWN_ERROR, "unknown"}, {IL_INVALID_ENUM, "enum"}, {IL_OUT_OF_MEMORY, "memory"}, {IL_FORMAT_NOT_SUPPORTED, "format"}, {IL_INTERNAL_ERROR, "internal"}, {IL_INVALID_VALUE, "value"}, {IL_ILLEGAL_OPERATION, "operation"}, {IL_ILLEGAL_FILE_VALUE, "file value"}, {IL_INVALID_FILE_HEADER, "header"}, {IL_INVALID_PARAM, "param"}, {IL_COULD_NOT_OPEN_FILE, "open"}, {IL_INVALID_EXTENSION, "extension"}, {IL_FILE_ALREADY_EXISTS, "exists"}, {IL_OUT_FORMAT_SAME, "format"}, {IL_STACK_OVERFLOW, "overflow"}, {IL_STACK_UNDERFLOW, "underflow"}, {IL_INVALID_CONVERSION, "conversion"}, {IL_BAD_DIMENSIONS, "dimension"}, {IL_FILE_READ_ERROR, "file"}, {IL_LIB_GIF_ERROR, "gif"}, {IL_LIB_JPEG_ERROR, "jpeg"}, {IL_LIB_PNG_ERROR, "png"}, {IL_LIB_TIFF_ERROR, "tiff"}, {IL_LIB_MNG_ERROR, "mng"}, {IL_LIB_JP2_ERROR, "jp2"}, {IL_LIB_EXR_ERROR, "exr"}};
  std::map<int64_t, std::string> ret; for (auto &c : codes) { PESpec q; q.args[0] = c.first; for (auto &o : peRun(C, ES, q).outs) { R.count["outcomes_checked"]++; ret[c.first] = o.ret; if (!o.eff.empty() || o.err) R.add("string:" + hex(c.first), where(ES), "describing an error changes something", show(o)); } }
  for (auto &l : langs) { PESpec q; q.args[0] = l.first; std::map<std::string, std::string> tabs; for (auto &o : peRun(C, SL, q).outs) { R.count["outcomes_checked"]++; if (o.err || o.ret != "1") R.add("language:" + l.second, where(SL), "the documented language is refused", show(o)); tabs = o.eff; } R.items["languages"].insert(l.second);
    std::map<std::string, int64_t> seen; for (auto &c : codes) { auto &rt = ret[c.first]; auto d = rt.rfind('.'); std::string g = d == std::string::npos ? rt : rt.substr(0, d), off = d == std::string::npos ? "" : rt.substr(d); std::string id = l.second + ":" + hex(c.first); R.count["texts_checked"]++;
      auto t = tabs.find(g); if (t == tabs.end()) { R.add("text:" + id, where(ES), "the text of error " + hex(c.first) + " does not depend on the language", rt); continue; }
      std::string src = t->second; Constant *K = elem(src); std::string tn; auto *TG = dyn_cast_or_null<GlobalVariable>(K ? K->stripPointerCasts() : nullptr); if (!TG) TG = C.P.gv(src[0] == '&' ? src.substr(1) : src); if (!TG) { R.add("text:" + id, where(SL), "no table of texts is selected", src); continue; }
      tn = TG->getName().lower(); if (tn.find(l.second) == std::string::npos) R.add("language:" + l.second, where(SL), "selecting " + l.second + " selects " + TG->getName().str());
      std::string x = text(elem(TG->getName().str() + off)); for (auto &ch : x) ch = tolower(ch); if (x.size() < 2) { R.add("text:" + id, where(ES), "error " + hex(c.first) + " has no text in " + l.second, TG->getName().str() + off); continue; }
      if (l.second == "english" && x.find(c.second) == std::string::npos) R.add("text:" + id, where(ES), "error " + hex(c.first) + " is described as \"" + x + "\""); 
      std::string slot = TG->getName().str() + off; if (seen.count(slot)) R.add("text:" + id, where(ES), "errors " + hex(c.first) + " and " + hex(seen[slot]) + " share a text"); seen[slot] = c.first; } }
  { PESpec q; q.args[0] = 0x7abc; for (auto &o : peRun(C, SL, q).outs) if (!o.err || o.ret != "0" || !o.eff.empty()) R.add("language:unknown", where(SL), "an unknown language is accepted", show(o)); }
}
CHECK(imgquery) {
  auto &R = C.R; Function *G = need(C, "ilGetInteger"), *V = need(C, "ilGetIntegerv"); if (!G || !V) return; std::string I = "iCurImage.";
  auto poly = [&](std::vector<std::string> f, int64_t k) { std::sort(f.begin(), f.end()); Poly p; std::vector<std::string> m; for (auto &x : f) m.push_back(I + x); p[m] = k; return polyStr(p); };
  std::map<int64_t, std::set<std::string>> want = {{IL_IMAGE_WIDTH, {I + "Width"}}, {IL_IMAGE_HEIGHT, {I + "Height"}}, {IL_IMAGE_DEPTH, {I + "Depth"}}, {IL_IMAGE_SIZE_OF_DATA, {I + "SizeOfData"}}, {IL_IMAGE_PLANESIZE, {I + "SizeOfPlane"}}, {IL_IMAGE_FORMAT, {I + "Format"}}, {IL_IMAGE_TYPE, {I + "Type"}}, {IL_IMAGE_ORIGIN, {I + "Origin"}}, {IL_IMAGE_BPC, {I + "Bpc"}}, {IL_IMAGE_CHANNELS, {I + "Bpp"}}, {IL_IMAGE_OFFX, {I + "OffX"}}, {IL_IMAGE_OFFY, {I + "OffY"}}, {IL_IMAGE_DURATION, {I + "Duration"}}, {IL_IMAGE_CUBEFLAGS, {I + "CubeFlags"}},
    {IL_IMAGE_BYTES_PER_PIXEL, {poly({"Bpp", "Bpc"}, 1)}}, {IL_IMAGE_BITS_PER_PIXEL, {poly({"Bpp", "Bpc"}, 8)}}, {IL_PALETTE_TYPE, {I + "PalType"}}};
  auto ask = [&](int64_t m, PESpec q, const std::set<std::string> &w, const std::string &desc, bool count = false) { q.args[0] = m; R.items["queries"].insert(desc);
    for (int v = 0; v < 2; ++v) { Function *F = v ? V : G; bool any = false; for (auto &o : peRun(C, F, q).outs) { R.count["outcomes_checked"]++; if (o.err && (v ? o.eff.empty() || (o.eff.size() == 1 && o.eff.begin()->second == "0") : o.eff.empty() && o.ret == "0") && !q.nonnull.count("iCurImage")) continue; if (v && o.err && o.eff.empty()) continue; any = true;
        bool ok = !o.err; if (v) ok = ok && o.eff.size() == 1 && o.eff.begin()->first.find("arg1") == 0 && (count || w.count(o.eff.begin()->second)); else ok = ok && o.eff.empty() && w.count(o.ret);
        if (!ok) R.add("query:" + desc, where(F), srcName(F) + "(" + hex(m) + ") does not answer " + *w.begin() + " of the bound image", show(o)); }
      if (!any) R.add("query:" + desc, where(F), srcName(F) + "(" + hex(m) + ") never answers"); } };
  for (auto &x : want) { PESpec q; q.nonnull = {"iCurImage"}; ask(x.first, q, x.second, hex(x.first)); PESpec n; n.place["iCurImage"] = 0; n.args[0] = x.first; for (auto &o : peRun(C, G, n).outs) { R.count["outcomes_checked"]++; if (!o.err || o.ret != "0" || !o.eff.empty()) R.add("none:" + hex(x.first), where(G), "without a bound image the query does not fail", show(o)); } }
  // numbers of sub-images: the length of one chain of links
  std::map<int64_t, std::string> chain = {{IL_NUM_IMAGES, "Next"}, {IL_NUM_MIPMAPS, "Mipmaps"}, {IL_NUM_LAYERS, "Layers"}, {IL_NUM_FACES, "Faces"}};
  for (auto &x : chain) for (int n = 0; n < 4; ++n) { PESpec q; q.nonnull = {"iCurImage"}; std::string p = "iCurImage"; for (int k = 0; k < n; ++k) { p += "." + x.second; q.nonnull.insert(p); } q.place[p + "." + x.second] = 0; ask(x.first, q, {std::to_string(n)}, hex(x.first) + ":" + std::to_string(n), true); }
  // palettes
  std::map<int64_t, std::pair<int64_t, int64_t>> pal = {{IL_PAL_RGB24, {3, IL_RGB}}, {IL_PAL_RGB32, {4, IL_RGBA}}, {IL_PAL_RGBA32, {4, IL_RGBA}}, {IL_PAL_BGR24, {3, IL_BGR}}, {IL_PAL_BGR32, {4, IL_BGRA}}, {IL_PAL_BGRA32, {4, IL_BGRA}}, {IL_PAL_NONE, {0, 0}}};
  for (auto &x : pal) { PESpec q; q.nonnull = {"iCurImage", I + "Palette"}; q.place[I + "PalType"] = x.first; std::string d = ":" + hex(x.first);
    ask(IL_PALETTE_BPP, q, {std::to_string(x.second.first)}, hex(IL_PALETTE_BPP) + d); ask(IL_PALETTE_BASE_TYPE, q, {std::to_string(x.second.second)}, hex(IL_PALETTE_BASE_TYPE) + d);
    for (int64_t cols : {1, 7, 256}) { if (!x.second.first) continue; PESpec r = q; r.place[I + "PalSize"] = cols * x.second.first; ask(IL_PALETTE_NUM_COLS, r, {std::to_string(cols)}, hex(IL_PALETTE_NUM_COLS) + d + ":" + std::to_string(cols)); }
    PESpec z = q; z.place[I + "PalSize"] = 0; ask(IL_PALETTE_NUM_COLS, z, {"0"}, hex(IL_PALETTE_NUM_COLS) + d + ":none"); }
  // pointers to the data of the bound image
  for (auto &x : {std::make_pair("ilGetData", "Data"), std::make_pair("ilGetPalette", "Palette")}) if (auto *F = need(C, x.first)) for (int n = 0; n < 2; ++n) { PESpec q; if (n) q.place["iCurImage"] = 0; else q.nonnull = {"iCurImage"}; for (auto &o : peRun(C, F, q).outs) { R.count["outcomes_checked"]++; bool ok = o.eff.empty() && (n ? o.err && o.ret == "0" : !o.err && o.ret == I + x.second); if (!ok) R.add(std::string("pointer:") + x.first, where(F), std::string(x.first) + (n ? " without a bound image does not fail" : " does not return the pointer of the bound image"), show(o)); } }
  R.items["queries"].insert("ilGetData"); R.items["queries"].insert("ilGetPalette");
}
}
namespace dv {
// P16: errors of earlier calls stay. A function may remove only errors recorded since it began.
struct RemoveProp : Prop {
  Ctx &C; const Function *F; std::set<const Function *> &push; RemoveProp(Ctx &C, const Function *F, std::set<const Function *> &p) : C(C), F(F), push(p) {}
  bool may(const CallBase *CB) { auto T = targetsOf(C, CB); if (!CB->getCalledFunction()) return true; for (auto *H : T) if (push.count(H) || (H->isDeclaration() && !H->getName().starts_with("llvm."))) return true; return false; }
  bool wideNE(State &S) { auto z = [&](Sym x) -> Sym { int64_t c; if (E->single(x, S, c)) return E->T.cst((uint32_t)c, 64); return E->T.get({K::Cast, (uint8_t)Instruction::ZExt, 64, nullptr, x, 0, 0}); }; return E->known(CmpInst::ICMP_NE, z(S.reg[1]), z(S.reg[2]), S); }
  // flag 1: the last call that may have recorded one (1 some call, 2 a read)
  bool onCall(const CallBase *CB, const std::string &n, State &S, std::vector<CallOut> &outs) override { if (isa<IntrinsicInst>(CB)) return false;
    if (n == "ilGetError") { C.R.count["removals_checked"]++; int l = S.flag.count(1) ? S.flag[1] : 0; S.flag[1] = 0; std::string id = "removes:" + srcName(F);
      if (!l) C.R.add(id, exactLine(CB), srcName(F) + " removes an error that was recorded before it began", S.path());
      else if (l == 2 && !E->known(CmpInst::ICMP_NE, S.reg[1], S.reg[2], S) && !wideNE(S)) C.R.add(id, exactLine(CB), srcName(F) + " removes an error also when the read before did not fail", S.path());
      return false; }
    if (n == "*iread" && CB->arg_size() == 3 && CB->getType()->isIntegerTy(32)) { CallOut o; o.S = S; Sym r = 0; Sym num = E->eval(CB->getArgOperand(2), S); E->defaultCall(CB, o.S, r); r = E->T.fresh(CB, 32, 11); o.retSet = true; o.ret = r; o.S.reg[1] = r; o.S.reg[2] = num; o.S.flag[1] = 2; outs.push_back(o); return true; }
    if (may(CB)) S.flag[1] = 1; return false; } };
void removals(Ctx &C) {
  auto push = C.reachingCalls({"ilSetError"}); if (auto *Se = C.P.fn("ilSetError")) push.insert(Se); auto *In = C.P.fn("ilInit"), *Ge = C.P.fn("ilGetError");
  for (auto &F : *C.P.M) { if (F.isDeclaration() || &F == In || &F == Ge) continue; bool has = false; unsigned calls = 0; for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) { if (isa<IntrinsicInst>(CB)) continue; ++calls; if (calleeName(CB) == "ilGetError") has = true; }
    if (!has) continue; std::string n = srcName(&F); if (calls == 1 && (n == "iluGetError" || n == "ilutGetError")) continue;
    C.R.items["error_removers"].insert(n); RemoveProp p(C, &F, push); runOn(C, const_cast<Function *>(&F), p, [](const Function *) { return false; }); }
}
}
