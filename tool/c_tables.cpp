#include "pe.h"
#include "il_consts.h"
using namespace llvm;
namespace dv {
static std::string hx(int64_t t) { char b[24]; snprintf(b, 24, "0x%llx", (long long)t & 0xffffffffll); return b; }
// The tables that relate formats, types, palettes and sizes: every documented
// value, and no answer for any other value (decided for all of them at once by
// splitting the argument into the documented values and the rest).
CHECK(formats) {
  auto &R = C.R;
  struct Tab { const char *fn; std::map<int64_t, int64_t> t; unsigned bits; };
  std::vector<Tab> tabs = {
    {"ilGetBppFormat", {{IL_COLOUR_INDEX, 1}, {IL_LUMINANCE, 1}, {IL_ALPHA, 1}, {IL_LUMINANCE_ALPHA, 2}, {IL_RGB, 3}, {IL_BGR, 3}, {IL_RGBA, 4}, {IL_BGRA, 4}}, 32},
    {"ilGetFormatBpp", {{1, IL_LUMINANCE}, {2, IL_LUMINANCE_ALPHA}, {3, IL_RGB}, {4, IL_RGBA}}, 8},
    {"ilGetBpcType", {{IL_BYTE, 1}, {IL_UNSIGNED_BYTE, 1}, {IL_SHORT, 2}, {IL_UNSIGNED_SHORT, 2}, {IL_HALF, 2}, {IL_INT, 4}, {IL_UNSIGNED_INT, 4}, {IL_FLOAT, 4}, {IL_DOUBLE, 8}}, 32},
    {"ilGetTypeBpc", {{1, IL_UNSIGNED_BYTE}, {2, IL_UNSIGNED_SHORT}, {4, IL_UNSIGNED_INT}, {8, IL_DOUBLE}}, 8},
    {"ilGetBppPal", {{IL_PAL_RGB24, 3}, {IL_PAL_BGR24, 3}, {IL_PAL_RGB32, 4}, {IL_PAL_RGBA32, 4}, {IL_PAL_BGR32, 4}, {IL_PAL_BGRA32, 4}}, 32},
    {"ilGetPalBaseType", {{IL_PAL_RGB24, IL_RGB}, {IL_PAL_RGB32, IL_RGBA}, {IL_PAL_RGBA32, IL_RGBA}, {IL_PAL_BGR24, IL_BGR}, {IL_PAL_BGR32, IL_BGRA}, {IL_PAL_BGRA32, IL_BGRA}}, 32}};
  for (auto &t : tabs) {
    auto *F = C.P.fn(t.fn); if (!F || F->isDeclaration()) { R.add(std::string("missing:") + t.fn, t.fn, "this function does not exist"); continue; }
    std::string w = fileOf(F) + "(" + t.fn + ")"; R.items["tables"].insert(t.fn);
    for (auto &x : t.t) { PESpec q; q.args[0] = x.first; auto r = peRun(C, F, q); R.items["entries"].insert(std::string(t.fn) + ":" + hx(x.first)); if (r.outs.empty()) R.add(std::string("entry:") + t.fn + ":" + hx(x.first), w, "never returns");
      for (auto &o : r.outs) { R.count["outcomes_checked"]++; if (o.ret != std::to_string(x.second) || o.err || !o.eff.empty()) R.add(std::string("entry:") + t.fn + ":" + hx(x.first), w, std::string(t.fn) + "(" + hx(x.first) + ") answers " + o.ret + ", not " + hx(x.second)); } }
    std::set<int64_t> other; if (t.bits == 8) for (int i = 0; i < 256; ++i) other.insert(i); else { for (int64_t i = 0; i < 16; ++i) other.insert(i); for (int64_t v = 0x400; v < 0x420; ++v) other.insert(v); for (int64_t v = 0x1400; v <= 0x1410; ++v) other.insert(v); for (int64_t v = 0x1900; v <= 0x1910; ++v) other.insert(v); for (int64_t v = 0x80d0; v < 0x80f0; ++v) other.insert(v); other.insert(-1); }
    for (auto v : other) { if (t.t.count(v)) continue; PESpec q; q.args[0] = v; R.count["other_values"]++; for (auto &o : peRun(C, F, q).outs) { R.count["outcomes_checked"]++; if (o.ret != "0" || !o.eff.empty()) R.add(std::string("other:") + t.fn + ":" + hx(v), w, std::string(t.fn) + "(" + hx(v) + ") answers " + o.ret + " instead of 0"); } }
  }
}
}
