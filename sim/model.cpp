#include "model.h"
#include <algorithm>
#include <signal.h>
#include <sys/wait.h>

static const Str ROOT = "/w/p";
static uint64_t mix(uint64_t a, const char *tag, int i = 0, int j = 0) { uint64_t h = fnv(0xcbf29ce484222325ull, &a, 8); h = fnv(h, tag, strlen(tag)); h = fnv(h, &i, 4); h = fnv(h, &j, 4); return h; }
static Str dirOf(const Str &p) { size_t i = p.rfind('/'); return i == Str::npos ? "" : i == 0 ? "/" : p.substr(0, i); }
static bool isList(const Str &s) { return !s.empty() && s[0] == '\1'; }
static Strs items(const Str &raw) { Strs r; if (!isList(raw)) { if (!raw.empty()) r.push_back(raw); return r; } size_t i = 0; while (i < raw.size()) { size_t j = raw.find('\1', i); if (j == Str::npos) j = raw.size(); if (j > i) r.push_back(raw.substr(i, j - i)); i = j + 1; } return r; }
Str splitVals(const Str &v) {   // words separated by blanks, quotes group
  if (isList(v)) return v; Str o; size_t i = 0; auto sp = [](char c) { return strchr(" \t\n\r\v\f", c) != nullptr && c; };
  while (i < v.size()) { while (i < v.size() && sp(v[i])) ++i; if (i >= v.size()) break; Str w; char q = 0;
    while (i < v.size() && (q || !sp(v[i]))) { if (v[i] == '\\') { ++i; if (i < v.size()) w += v[i++]; } else if (q) { if (v[i] == q) { q = 0; ++i; } else w += v[i++]; } else if (v[i] == '\'' || v[i] == '"') q = v[i++]; else w += v[i++]; }
    o += "\1" + w; }
  return o;
}
static Str noExt(const Str &s) { size_t i = s.rfind('.'); return i == Str::npos ? s : s.substr(0, i); }
static Str normAbs(const Str &p) { Strs seg; size_t i = 0; while (i < p.size()) { size_t j = p.find('/', i); if (j == Str::npos) j = p.size(); Str s = p.substr(i, j - i); if (s == "..") { if (!seg.empty()) seg.pop_back(); } else if (!s.empty() && s != ".") seg.push_back(s); i = j + 1; } Str o; for (auto &s : seg) o += "/" + s; return o.empty() ? "/" : o; }

Prof profileFor(const Str &id) {
  Prof p; p.prop = id;
  if (id == "C01") { p.wToggle = 9; p.pCond = 25; p.pFail = 4; p.wRevert = 8; p.wAdd = p.wDel = 4; }
  else if (id == "C24") { p.pCond = 75; p.pAlt = 35; p.pCondT = 75; p.pCondVar = 60; p.pCondUnit = 50; p.pCondVal = 30; p.pErr = 10; p.pEcho = 40; p.wToggle = 22; p.wD = 12; p.wEnv = 10; p.wCheck = 10; p.pCheck = 55; p.pUnits = 65; p.wFor = 2; p.wCc = 4; p.pVarUse = 75; p.pNoop = 30; p.wRevert = 3; p.wSrc = 4; p.rules1 = 6; }
  else if (id == "C02") { p.pFail = 10; p.pCheck = 45; p.wCheck = 8; p.wBoth = 6; p.pNoop = 40; p.wRevert = 6; p.wTouch = 5; p.wStray = 4; p.wInc = 6; }
  else if (id == "C03") { p.fault = 1; p.pCheck = 45; p.pCout = 15; p.wRevert = 8; p.nested = 15; p.pFail = 3; p.builds1 = 5; p.pInstall = 15; p.wInst = 1; }
  else if (id == "C04") { p.pFail = 45; p.pTool = 15; p.pBreak = 10; p.pBadCmd = 8; p.pMissing = 6; p.pCheck = 45; p.pOut = 15; p.pCout = 15; p.wCc = 6; p.pNoop = 35; }
  else if (id == "C05") { p.rules0 = 5; p.rules1 = 11; p.pUnits = 75; p.wOrder = 10; p.wCc = 5; p.pInSrc = 15; p.pMacro = 20; p.pGenSrc = 60; p.pGenHdr = 60; p.pFail = 8; p.wRun = 12; }
  else if (id == "C06") { p.wBoth = 8; p.wCc = 14; p.wRun = 4; p.wFor = 1; p.wConf = 1; p.pFail = 40; p.pTool = 6; p.pBreak = 15; p.pSlow = 70; p.wInc = 10; p.rules1 = 5; p.pNoop = 35; p.wList = 8; }
  else if (id == "C07") { p.pBulk = 65; p.bigBulk = 35; p.pOut = 25; p.pCout = 20; p.pFail = 20; p.pTool = 6; p.pSlow = 80; p.wCc = 2; p.rules1 = 5; p.builds1 = 4; p.pCheck = 35; p.pBadCmd = 12; }
  else if (id == "C08") { p.pInstall = 35; p.wInst = 4; p.pClean = 20; p.pUnits = 60; p.fault = 2; p.nested = 10; p.rules1 = 6; p.builds1 = 4; p.pInSrc = 3; p.pPlace = 25; }
  else if (id == "C09") { p.fault = 2; p.nested = 20; p.pCheck = 45; p.pOut = 10; p.pCout = 12; p.pBulk = 25; p.wConf = 5; p.wCc = 5; p.rules1 = 6; p.builds1 = 4; p.pInstall = 20; p.wInst = 2; }
  else if (id == "C10") { p.pCheck = 100; p.wCheck = 25; p.wEnv = 8; p.wCc = 1; p.wFor = 1; p.pHostile = 35; p.pFail = 12; p.pTool = 4; p.pCond = 35; p.pVarUse = 85; p.rules1 = 5; p.pNoop = 30; }
  else if (id == "C11") { p.wConf = 22; p.wRun = 4; p.wCc = 1; p.wFor = 1; p.wD = 14; p.wEnv = 8; p.wVar = 8; p.pHostile = 30; p.pCheck = 40; p.wMode = 6; p.wSrc = 14; p.rules1 = 5; p.wList = 8; p.pPlace = 18; }
  else if (id == "C12") { p.pInstall = 75; p.wInst = 14; p.pTamper = 45; p.wRun = 8; p.wMode = 6; p.wCc = 3; p.wConf = 4; p.pFail = 6; p.fault = 4; p.builds1 = 5; }
  else if (id == "C13") { p.pFail = 20; p.pTool = 6; p.pSlow = 60; p.pBulk = 25; p.fault = 2; p.rules1 = 5; p.builds1 = 3; p.nested = 10; }
  else if (id == "C14") { p.pMissHdr = 25; p.pPlace = 18; p.wBoth = 4; p.wCc = 16; p.wRun = 6; p.wFor = 1; p.wConf = 2; p.wInc = 20; p.pGenSrc = 65; p.pGenHdr = 70; p.wSrc = 14; p.pLink = 40; p.pUnits = 45; p.rules1 = 8; }
  else if (id == "C15") { p.wToggle = 8; p.wD = 22; p.wVar = 8; p.wEnv = 10; p.wList = 22; p.wSrc = 2; p.wRevert = 1; p.pHostile = 30; p.pVarUse = 90; p.wFor = 6; p.wCc = 6; p.pCheck = 40; p.wCheck = 8; }
  else if (id == "C16") { p.fault = 3; p.nested = 15; p.rules1 = 5; p.builds1 = 4; p.pCheck = 40; p.pInstall = 20; p.wInst = 2; p.pCout = 12; }
  else if (id == "C17") { p.rules0 = 3; p.rules1 = 9; p.pUnits = 60; p.pCheck = 40; p.pOut = 15; p.pCout = 15; p.pFail = 20; p.pTool = 6; p.wCc = 5; p.pBulk = 20; }
  else if (id == "C18") { p.pOut = 35; p.pCout = 75; p.wRun = 14; p.wCc = 1; p.wFor = 2; p.fault = 5; p.pFail = 20; p.pTool = 5; p.pNoop = 30; p.wRevert = 6; p.wD = 14; p.rules1 = 5; p.pBulk = 25; }
  else if (id == "C25") { p.pMacro = 20; p.pMacro2 = 75; p.pCond = 25; p.wCc = 3; p.wFor = 6; p.pUnits = 60; p.wD = 10; p.wVar = 8; p.wToggle = 8; p.wEnv = 6; p.wOrder = 4; p.wAdd = p.wDel = 5; p.pVarUse = 85; }
  else if (id == "C26") { p.wFor = 26; p.wRun = 6; p.wCc = 3; p.wConf = 2; p.rules0 = 3; p.rules1 = 8; p.wList = 22; p.wSrc = 12; p.wAdd = p.wDel = 5; p.wD = 8; p.wVar = 6; p.wToggle = 6; p.wOrder = 4; p.pInSrc = 15; p.pAlways = 10; p.pMacro2 = 10; p.pFail = 8; p.pUnits = 50; p.pVarUse = 75; }
  else if (id == "C27") { p.pCond = 20; p.pCondVar = 30; p.pUnits = 85; p.wVar = 16; p.wD = 14; p.wEnv = 12; p.wToggle = 8; p.wOrder = 8; p.pVarUse = 95; p.pMeta = 25; p.pCheck = 40; p.wCheck = 8; p.wCc = 3; p.wFor = 5; p.pEcho = 25; }
  else if (id == "C28") { p.fault = 4; p.nested = 20; p.pForeign = 45; p.pUnits = 75; p.pCheck = 40; p.pInstall = 45; p.wCheck = 8; }
  else if (id == "C22" || id == "C23") { p.fault = 4; p.nested = 45; }
  return p;
}

// ---------------------------------------------------------------- the model

struct CmdF { Str key; Str f; bool always = false; };       // a command and the fingerprint of what it depends on
struct KState { bool known = false; bool failed = false; Str f; };
struct CoutSt { bool known = false; Str args; std::map<Str, Str> byArgs; Str lastArgs; bool failed = false; };
struct SrcF { Str path; int ver = 0; Strs incs; bool err = false; Str kind; std::vector<std::pair<Str, Str>> hist; unsigned mode = 0644; };

struct World {
  const Prof &pf; uint64_t seed; const Masks &mk; ScnResult &R;
  std::vector<Unit> units; std::vector<VarDef> vars; std::vector<Rule> rules; std::vector<Check> checks; std::vector<ErrDef> errs; std::vector<EchoDef> echoes;
  std::map<Str, Str> D, E; std::map<Str, bool> dList, dHost; Strs dNames, eNames;
  std::map<Str, SrcF> src; std::map<int, Strs> hdrs, txts; std::map<Str, Str> written;
  Str cacheDir = ROOT + "/autark-cache", prefix = "/w/inst"; bool prefixGiven = true;
  struct IDir { const char *var, *opt, *dflt; }; static constexpr IDir IDIRS[6] = { { "INSTALL_DATA_DIR", "--datadir=", "share" }, { "INSTALL_BIN_DIR", "--bindir=", "bin" }, { "INSTALL_LIB_DIR", "--libdir=", "lib64" }, { "INSTALL_INCLUDE_DIR", "--includedir=", "include" }, { "INSTALL_PKGCONFIG_DIR", "--pkgconfdir=", "lib/pkgconfig" }, { "INSTALL_MAN_DIR", "--mandir=", "share/man" } };
  Str idir[6] = { "share", "bin", "lib64", "include", "lib/pkgconfig", "share/man" }; bool instVars = false;
  Str instDir(const Rule &x) { return x.pm == 0 ? idir[x.idv] + strf("/i%d", x.id) : x.dir; }
  std::map<Str, std::pair<int, int>> prod;      // product -> (rule, idx)
  std::map<Str, std::optional<Str>> memo; std::map<Str, Str> memoVal; std::set<Str> evalStack;
  std::map<Str, KState> ks; std::map<Str, CoutSt> couts;
  std::map<int, std::map<Str, Str>> checkVals;   // unit -> values its checks set now
  std::map<Str, int> chkIdx; std::set<Str> everInst; int curBuild = 0; bool installOn = false;
  std::map<Str, Str> outVal;

  World(const Prof &p, uint64_t s, const Masks &m, ScnResult &r) : pf(p), seed(s), mk(m), R(r) {}
  void viol(const Str &k, const Str &d, const Str &key = "") { R.viols.push_back({ k, d, key, curBuild }); if (S->traceOn) S->log("VIOLATED %s: %s", k.c_str(), d.c_str()); }
  void note(const Str &s) { R.desc.push_back(s); if (S->traceOn) S->log("# %s", s.c_str()); S->hash = fnvs(S->hash, s); }
  void feat(const char *f, long n = 1) { R.feat[f] += n; }

  // ---- generation
  Str udir(int u) { return units[u].dir; }
  bool odd = false;   // odd names of directories
  Str linkUnit, linkReal, cacheLnk; bool rootLnk = false;   // a directory of the project, the cache directory and the project itself reached by symbolic links
  Str realp(const Str &p) { return !linkUnit.empty() && (p == linkUnit || p.compare(0, linkUnit.size() + 1, linkUnit + "/") == 0) ? linkReal + p.substr(linkUnit.size()) : p; }
  static Str relPath(const Str &from, const Str &to) { size_t c = 0, i = 0; while (true) { size_t a = from.find('/', i + 1), b = to.find('/', i + 1); if (a == Str::npos) a = from.size(); if (b == Str::npos) b = to.size(); if (i >= from.size() || i >= to.size() || a != b || from.compare(0, a, to, 0, a)) { c = i; break; } i = a; } Str r; for (size_t k = c; k < from.size(); ++k) if (from[k] == '/') r += "../"; return r + (c < to.size() ? to.substr(c + 1) : ""); }
  // where autark puts a file made from the source file `s`, relative to the cache directory of the unit
  Str outRel(int u, const Str &s) { if (s.compare(0, cacheDir.size() + 1, cacheDir + "/") == 0) return relPath(ucache(u), s); Str r = relPath(udir(u), s); Str a = normAbs(ucache(u) + "/" + r); if (a.compare(0, cacheDir.size() + 1, cacheDir + "/")) for (size_t i = 0; r.compare(i, 3, "../") == 0; i += 3) r[i] = r[i + 1] = '_'; return r; }
  // a location of a source file: beside the script, in other directories of the project or outside of it
  Str place(Rng q, int u, const Str &nm, int pct) { if (!q.chance(pct)) return nm; feat("source elsewhere"); switch (q.below(5)) { case 0: return "sd/" + nm; case 1: return "sd/../s2/x/" + nm; case 2: return relPath(udir(u), "/w/ext") + "/" + nm; case 3: return "/w/ext/e2/" + nm; default: return udir(u) == ROOT ? "../" + nm : "../" + nm; } }
  Str ucache(int u) { return cacheDir + units[u].dir.substr(ROOT.size()); }
  bool inChain(int u, int anc) { for (int x = u; x >= 0; x = units[x].parent) if (x == anc) return true; return false; }
  Str tok(Rng &r) { static const char *w[] = { "alpha", "beta", "x1", "y-2", "v.3", "opt_a", "k=9", "q/w", "zed", "n0", "mm", "7", "a+b" }; return Str(w[r.below(13)]) + (r.chance(40) ? strf("%d", (int) r.below(90)) : ""); }
  Str scalar(Rng &r, bool hostile) {
    if (!hostile) return tok(r);
    switch (r.below(12)) {
      case 0: return "two words"; case 1: return "qu'ote\"s"; case 2: return "a\\b"; case 3: return "br{a}ce"; case 4: return "$HOME `x`"; case 5: return "tab\there";
      case 6: { Str s = "long" + strf("%d-", (int) r.below(9)); size_t n = r.chance(50) ? 300 + r.below(3000) : 4080 + r.below(60); while (s.size() < n) s += char('a' + s.size() % 26); return s; }
      case 7: return "\xd0\xb6\xc3\xa9"; case 8: return "=eq=ual"; case 9: return "#hash;semi&amp|"; case 10: return "*?[x]"; default: return "  lead";
    }
  }
  Str nl(Rng &r, const Str &s) { return r.chance(20) ? s + "\nline2 " + tok(r) : s; }
  Expr lit(const Str &s) { Expr e; e.k = E_LIT; e.s = s; return e; }
  // names usable from a unit
  std::vector<int> visible(int u, bool wantScalar, bool noHost, int upto = 1 << 30) { std::vector<int> v; for (int i = 0; i < (int) vars.size() && i < upto; ++i) { auto &d = vars[i]; int at = d.kind == VK_PARENT ? std::max(0, units[d.unit].parent) : d.kind == VK_ROOT ? 0 : d.unit; if (d.kind == VK_ENV) continue; if (!inChain(u, at)) continue; if (wantScalar && d.list) continue; if (noHost && d.hostile) continue; v.push_back(i); } return v; }
  Str pickVar(Rng &r, int u, bool scalarOnly, bool noHost, int upto, bool *list, bool *host) {
    // choose among sets, options, environment and check variables
    struct C { Str n; bool l, h; }; std::vector<C> c;
    for (int i : visible(u, scalarOnly, noHost, upto)) c.push_back({ vars[i].name, vars[i].list, vars[i].hostile });
    for (auto &d : dNames) { if (d[1] == 'C' || d[1] == 'S' || d[1] == 'X' || d[1] == 'K') continue; if (dHost[d] && noHost) continue; c.push_back({ d, false, dHost[d] }); }
    for (auto &d : eNames) { if (dHost[d] && noHost) continue; c.push_back({ d, false, dHost[d] }); }
    for (auto &k : checks) if (inChain(u, k.unit)) for (auto &a : k.acts) if (a.k != 4 && !(noHost && (a.k <= 2 || a.k == 5 || a.k == 6) && a.n)) { c.push_back({ a.var, false, a.n != 0 }); c.push_back({ a.var, false, a.n != 0 }); }
    if (instVars) { c.push_back({ "INSTALL_PREFIX", false, true }); if (noHost) c.pop_back(); for (auto &d : IDIRS) c.push_back({ d.var, false, true }); if (noHost) c.resize(c.size() - 6); }
    if (c.empty()) return ""; auto &x = c[r.below(c.size())]; if (list) *list = x.l; if (host) *host = x.h; return x.n;
  }
  Expr plainArg(Rng &r, int u, int upto) { if (r.chance(45)) { Str v = pickVar(r, u, true, true, upto, nullptr, nullptr); if (!v.empty()) { Expr e; e.k = E_VAR; e.s = v; return e; } } return lit(tok(r)); }
  // %{PATH .ext}, S{..}, SS{..}, C{..}, CC{..} of several arguments
  Expr pathWord(Rng &r, int u, int upto) {
    Expr e; if (r.chance(50)) { e.k = E_BASE; static const char *b[] = { "main.o", "a/b.c/noext", "../up", "x.tar.gz", ".hid", "dir.d/f.c", "plain", "./p" }; if (r.chance(60)) e.a.push_back(lit(b[r.below(8)])); else { e.a.push_back(plainArg(r, u, upto)); if (e.a[0].k == E_VAR) { e.a[0].hasDef = true; e.a[0].def = "d.e"; } } static const char *x[] = { "", ".c", ".o.x", "ext", "" }; e.s = x[r.below(5)]; feat("basename"); return e; }
    e.k = E_DIR; static const char *d[] = { "S", "SS", "C", "CC" }; e.s = d[r.below(4)]; for (int n = r.range(1, 3); n; --n) { static const char *w[] = { "foo", "bar/", "/baz", "..", "./q" }; e.a.push_back(r.chance(40) ? lit(w[r.below(5)]) : plainArg(r, u, upto)); } for (auto &x : e.a) if (x.s.back() == '/') { e.a.push_back(lit("end")); break; } feat("path words"); return e;
  }
  Expr word(Rng &r, int u, bool noHost, int upto = 1 << 30, bool scalarOnly = false) {
    if (pf.pPath && r.chance(pf.pPath)) return pathWord(r, u, upto);
    if (!r.chance(pf.pVarUse)) return lit(tok(r));
    if (r.chance(20)) { Expr e; e.k = E_JOIN; e.a.push_back(lit("j" + tok(r))); bool l; Str v = pickVar(r, u, true, noHost, upto, &l, nullptr); if (v.empty()) return lit(tok(r)); Expr x; x.k = E_VAR; x.s = v; e.a.push_back(x); if (r.chance(40)) e.a.push_back(lit(".t")); return e; }
    Str v = pickVar(r, u, scalarOnly, noHost, upto, nullptr, nullptr); if (v.empty()) return lit(tok(r));
    Expr e; e.k = E_VAR; e.s = v; if (r.chance(20)) { e.hasDef = true; e.def = "def" + tok(r); } return e;
  }
  Str listOpt(Rng &r, const Str &pfx) { Str s; int n = r.below(4); for (int i = 0; i < n; ++i) { s += (s.empty() ? "" : r.chance(20) ? "  " : " "); Str w = strf("%s%d", pfx.c_str(), (int) (i * 3 + r.below(3))); if (r.chance(20)) switch (r.below(5)) { case 0: w = "'" + w + " q'"; break; case 1: w += "\\ z"; break; case 2: w = "\"" + w + "'d\""; break; case 3: w += "'in ner't"; break; default: w += "\\\\"; } s += w; } return s; }

  void genSrc(const Str &p, const Str &kind) { SrcF f; f.path = p; f.kind = kind; src[p] = f; }
  Str srcText(const SrcF &f) {
    Str b = baseName(f.path);
    if (f.kind == "c" || f.kind == "h") { Str s = strf("// %s v%d\n", b.c_str(), f.ver); for (auto &i : f.incs) s += "#include \"" + i + "\"\n"; if (f.err) s += "#error broken\n"; return s + "int x;\n"; }
    if (f.kind == "tmpl") return tmplText(f);
    if (f.kind == "tool") return strf("!STUB gen T%llx.%d\n", (unsigned long long) (fnvs(7, f.path) & 0xffff), f.ver);
    return strf("text %s v%d\n%s", b.c_str(), f.ver, f.ver % 3 == 2 ? "more\n" : "");
  }
  Str tmplText(const SrcF &f) {
    Rng r(mix(seed, f.path.c_str(), f.ver)); Str s; int u = tmplUnit[f.path]; int n = r.range(2, 7);
    for (int i = 0; i < n; ++i) {
      bool l, h; Str v = r.chance(20) ? "UNDEF" + strf("%d", (int) r.below(3)) : pickVar(r, u, false, false, 1 << 30, &l, &h); if (v.empty()) v = "UNDEF1";
      switch (r.below(11)) {
        case 8: { static const char *num[] = { " 0", "\t0x1F tail", " 9 // \"n\"", "   27" }; s += "//autarkdef " + v + num[r.below(4)] + "\n"; } break; case 9: s += r.chance(50) ? " //autarkdef " + v + " 1\n" : "//autarkdef_ " + v + "\n"; break;
        case 0: s += "plain line " + tok(r) + "\n"; break; case 1: s += "a=@" + v + "@\n"; break; case 2: s += "@" + v + "@ and @UNDEF2@ tail\n"; break;
        case 3: s += "//autarkdef " + v + " \"\"\n"; break; case 4: s += "//autarkdef " + v + " 1\n"; break; case 5: s += "//autarkdef " + v + "\n"; break;
        case 6: s += "pre@" + v + "@post" + (r.chance(50) ? " mail at the end @\n" : "\n"); break; case 7: s += "//autarkdef  " + v + "  \"x\"\n"; break; default: s += "#define KEEP " + tok(r) + "\n";
      }
    }
    if (r.chance(pf.prop == "C11" ? 6 : 1)) { Str lng = "L"; while (lng.size() < 16300 + r.below(200)) lng += char('a' + lng.size() % 26); bool l, h; Str v = pickVar(r, u, true, false, 1 << 30, &l, &h); s += lng + (v.empty() ? "" : "@" + v + "@") + " end\n"; }
    if (r.chance(20)) s += "last line without newline"; else if (r.chance(6)) s += "tail @UNDEF0"; 
    return s;
  }
  std::map<Str, int> tmplUnit;
  void putSrc(const Str &p) { auto &f = src[p]; Str t = srcText(f); S->hostWrite(p, t); written[p] = t; }
  Str newTxt(Rng &r, int u) { auto &v = txts[u]; if (!v.empty() && (v.size() >= 3 || r.chance(40))) return v[r.below(v.size())]; Str p = udir(u) + strf("/s%d_%d.txt", u, (int) v.size()); genSrc(p, "txt"); v.push_back(p); return p; }
  void regProd(const Str &p, int rule, int idx) { prod[p] = { rule, idx }; }
  Str outAbs(const Rule &r, const Str &o) { return normAbs((r.inSrc ? udir(r.unit) : ucache(r.unit)) + "/" + o); }

  void gen() {
    Rng r(mix(seed, "gen"));
    units.push_back({ ROOT, "Autark", "Autark", -1, true, {} }); instVars = Rng(mix(seed, "instVars")).chance(pf.pInstall ? 25 : 5);
    static const char *on[] = { "/u %d", "/u#%d", "/u.%d.x", "/u@%d", "/u=%d+", "/'u'%d", "/u%d$V", "/u{%d}", "/u%%%d;&" }; odd = Rng(mix(seed, "oddNames")).chance(10);
    if (r.chance(pf.pUnits)) { int n = r.range(1, 3); for (int i = 0; i < n; ++i) { Unit u; int par = r.chance(30) && units.size() > 1 ? (int) r.below(units.size()) : 0; u.parent = par; if (r.chance(20)) { u.dir = units[par].dir; u.file = strf("ext%d.autark", i); } else { u.dir = units[par].dir + strf(odd ? on[Rng(mix(seed, "odd", i)).below(9)] : "/u%d", i); u.file = "Autark"; } u.rel = (u.dir.size() > ROOT.size() ? u.dir.substr(ROOT.size() + 1) + "/" : "") + u.file; units.push_back(u); } }
    { Rng lq(mix(seed, "dirlink")); if (lq.chance(12)) for (auto &u : units) if (u.dir != ROOT) { linkUnit = u.dir; linkReal = "/w/lk/real"; feat("directory by link"); break; } }
    // options and environment
    for (int i = 0; i < 3; ++i) { Str n = strf("D%d", i); bool h = r.chance(pf.pHostile); dNames.push_back(n); dHost[n] = h; if (r.chance(70)) D[n] = r.chance(15) ? "" : scalar(r, h); }
    dNames.push_back("DL0"); dList["DL0"] = true; dHost["DL0"] = true; if (r.chance(70)) D["DL0"] = listOpt(r, "d");
    dNames.push_back("DF0"); dList["DF0"] = true; dHost["DF0"] = true; if (r.chance(50)) D["DF0"] = listOpt(r, "-f");
    for (int i = 0; i < 2; ++i) { Str n = strf("DC%d", i); dNames.push_back(n); if (r.chance(60)) D[n] = r.chance(30) ? "0" : r.chance(20) ? "" : "on"; }
    for (int i = 0; i < 2; ++i) { Str n = strf("EV%d", i); eNames.push_back(n); bool h = r.chance(pf.pHostile); dHost[n] = h; if (r.chance(60)) E[n] = r.chance(15) ? "" : h ? nl(r, scalar(r, h)) : scalar(r, h); }
    if (r.chance(10)) { D["CC"] = "clang"; }
    // checks
    if (r.chance(pf.pCheck)) { int n = r.range(1, pf.prop == "C10" ? 3 : 2); for (int i = 0; i < n; ++i) genCheck(i); }
    // variables
    for (int u = 0; u < (int) units.size(); ++u) {
      Rng q(mix(seed, "vars", u)); int n = u == 0 ? q.range(1, 4) : q.range(0, 2);
      for (int i = 0; i < n; ++i) {
        VarDef d; d.name = strf("V%d_%d", u, i); d.unit = u; int upto = vars.size();
        if (u > 0 && q.chance(15)) { d.kind = q.chance(50) ? VK_PARENT : VK_ROOT; d.name = strf("P%d_%d", u, i); }
        else if (q.chance(12)) { d.kind = VK_ENV; d.name = strf("NV%d_%d", u, i); }
        else if (u > 0 && q.chance(20)) { auto v = visible(u, true, true, upto); if (!v.empty()) { auto &o = vars[v[q.below(v.size())]]; if (o.kind == VK_SET) { d.name = o.name; bool dup = false; for (auto &x : vars) if (x.unit == u && x.name == d.name) dup = true; if (!dup) { d.vals.push_back(q.chance(40) ? selfJoin(d.name, q) : lit(tok(q))); vars.push_back(d); } continue; } } }
        int k = q.below(10); auto mkw = [&] { Expr e = word(q, u, false, upto, true); return e; };
        auto hostileOf = [&](const Expr &e) { std::function<bool(const Expr&)> f = [&](const Expr &x) { if (x.k == E_VAR || x.k == E_SPREAD) { if (dHost.count(x.s) && dHost[x.s]) return true; for (auto &v : vars) if (v.name == x.s && v.hostile) return true; for (auto &c : checks) for (auto &a : c.acts) if (a.var == x.s && a.n) return true; } for (auto &y : x.a) if (f(y)) return true; return false; }; return f(e); };
        if (k < 5 || d.kind == VK_ENV) d.vals.push_back(mkw());
        else if (k < 6) ;            // empty
        else { int m = q.range(2, 3); for (int j = 0; j < m; ++j) d.vals.push_back(q.chance(60) ? lit(tok(q)) : mkw()); if (q.chance(50)) { Expr s; s.k = E_SPREAD; s.s = "DL0"; d.vals.push_back(s); } d.list = true; }
        for (auto &e : d.vals) if (hostileOf(e)) d.hostile = true;
        if (d.kind != VK_ENV) { Rng cq(mix(seed, "condvals", vars.size())); condVals(cq, d.vals, u); if (hasIf(d.vals)) d.list = true; }
        vars.push_back(d);
        if (q.chance(8) && d.kind == VK_SET && !d.list) { VarDef e = d; e.vals = { selfJoin(d.name, q) }; vars.push_back(e); }
      }
    }
    // variables made of the output of programs
    for (int u = 0; u < (int) units.size(); ++u) { Rng q(mix(seed, "progvars", u)); if (!q.chance(pf.pProgVar)) continue; VarDef d; d.unit = u; d.kind = VK_SET; int no = 9000 + u; d.name = strf("PV%d", u); Expr e = prog(q, u, no, q.chance(50) ? E_OUT : E_COUT, vars.size()); e.n = 0; e.spread = q.chance(60); int n = q.below(3); for (int i = 0; i < n; ++i) d.vals.push_back(lit(tok(q))); d.vals.insert(d.vals.begin() + q.below(d.vals.size() + 1), e); d.list = true; d.hostile = true; vars.push_back(d); feat("program variable"); }
    // variables of the project: known while scripts are read, hence made of options, environment and checks
    for (int u = 0; u < (int) units.size(); ++u) { Rng q(mix(seed, "meta", u)); if (!q.chance(pf.pMeta)) continue; int n = q.range(1, 2); for (int i = 0; i < n; ++i) { VarDef d; d.unit = u; d.kind = q.chance(60) ? VK_META : VK_METALET; d.name = strf(d.kind == VK_META ? "META_M%d_%d" : "ML%d_%d", u, i); int m = d.kind == VK_METALET ? 1 : q.range(0, 3); for (int j = 0; j < m; ++j) { if (q.chance(50)) d.vals.push_back(lit(tok(q))); else { Str v = condVarName(q, u); if (q.chance(50)) v = q.chance(60) ? strf("D%d", (int) q.below(3)) : strf("EV%d", (int) q.below(2)); Expr e; e.k = E_VAR; e.s = v; d.vals.push_back(e); d.hostile = true; } } vars.push_back(d); feat("meta variable"); } }
    { Rng q(mix(seed, "errors")); if (q.chance(pf.pErr)) { ErrDef e; e.unit = q.below(units.size()); e.ct = genCondT(q, e.unit, 1); errs.push_back(e); feat("error rule"); } }
    { Rng q(mix(seed, "echoes")); int n = q.chance(pf.pEcho) ? q.range(1, 3) : 0; for (int i = 0; i < n; ++i) { EchoDef e; e.id = i; e.unit = q.below(units.size()); e.phase = q.below(5); if (e.phase == 4) e.phase = 0; if (q.chance(70)) e.ct = genCondT(q, e.unit, 1); int m = q.range(0, 4); for (int j = 0; j < m; ++j) if (e.phase < 2 && q.chance(50)) { Expr v; v.k = E_VAR; v.s = dNames[q.below(dNames.size())]; e.w.push_back(v); } else e.w.push_back(lit("y" + tok(q))); condVals(q, e.w, e.unit); if (q.chance(30)) condVals(q, e.w, e.unit); echoes.push_back(e); feat("echo"); } }
    { Rng q(mix(seed, "condvars")); for (auto &d : vars) if (q.chance(pf.pCondVar)) { d.ct = genCondT(q, d.unit, 1); if ((d.hasElse = q.chance(45))) { int m = q.range(1, d.list ? 3 : 1); if (d.kind == VK_METALET) m = 1; for (int j = 0; j < m; ++j) d.alt.push_back(lit("e" + tok(q))); } feat("conditional variable"); }
      for (int u = 1; u < (int) units.size(); ++u) if (q.chance(pf.pCondUnit)) { units[u].ct = genCondT(q, units[u].parent, 1); feat("conditional include"); } }
    int n = r.range(pf.rules0, pf.rules1);
    for (int i = 0; i < n; ++i) genRule((int) rules.size());
    // render order
    for (int u = 0; u < (int) units.size(); ++u) { auto &o = units[u].order; std::vector<std::pair<int, int>> vs, rs; for (int i = 0; i < (int) vars.size(); ++i) if (vars[i].unit == u) vs.push_back({ 0, i }); for (auto &x : rules) if (x.unit == u) rs.push_back({ 1, x.id }); for (int v = 1; v < (int) units.size(); ++v) if (units[v].parent == u) rs.push_back({ 2, v }); for (int v = 0; v < (int) errs.size(); ++v) if (errs[v].unit == u) rs.push_back({ 4, v }); for (int v = 0; v < (int) echoes.size(); ++v) if (echoes[v].unit == u) rs.push_back({ 5, v }); Rng q(mix(seed, "order", u)); for (int i = rs.size() - 1; i > 0; --i) std::swap(rs[i], rs[q.below(i + 1)]); if (q.chance(40)) { // sets may come late
          o = rs; size_t at = 0; for (auto &v : vs) { at = at + q.below(o.size() - at + 1); o.insert(o.begin() + at, v); ++at; } } else { o = vs; o.insert(o.end(), rs.begin(), rs.end()); } }
    for (int id : mk.rules) if (id < (int) rules.size()) rules[id].masked = true;
  }
  Expr selfJoin(const Str &n, Rng &q) { Expr e; e.k = E_JOIN; Expr v; v.k = E_VAR; v.s = n; if (q.chance(40)) { v.hasDef = true; v.def = "Rel"; } e.a.push_back(v); if (q.chance(85)) e.a.push_back(lit("s" + tok(q))); return e; }

  void genCheck(int i) {
    Rng q(mix(seed, "check", i)); Check c; c.id = i; c.unit = q.below(units.size()); c.inRoot = q.chance(40); c.script = (c.inRoot ? ROOT : udir(c.unit)) + strf("/.autark/k%d.sh", i);
    if (q.chance(40)) { Expr a; if (q.chance(60)) { a.k = E_VAR; a.s = q.chance(70) ? strf("D%d", (int) q.below(3)) : strf("EV%d", (int) q.below(2)); } else a = lit(tok(q)); c.args.push_back(a); }
    int n = q.range(1, 4);
    for (int j = 0; j < n; ++j) {
      CheckAct a; a.var = strf("K%d_%d", i, j); a.k = q.below(7); a.bg = q.chance(25);
      if (a.k == 5 && c.args.empty()) a.k = 0; if (a.k == 4 && !q.chance(pf.pBulk + 20)) a.k = 1;
      a.val = scalar(q, false);
      if (a.k == 0 && q.chance(pf.pHostile)) { a.val = scalar(q, true); for (auto &ch : a.val) if (ch == '\'' || ch == '\n') ch = '_'; a.n = 1; }
      if (a.k == 1 || a.k == 3) { a.file = ROOT + strf("/kin%d_%d.txt", i, j); genSrc(a.file, "kin"); src[a.file].ver = q.below(3); if (a.k == 1) a.n = 1; }
      if (a.k == 2 || a.k == 6) { a.env = strf("EV%d", (int) q.below(2)); if (a.k == 2) a.n = dHost[a.env]; else a.n = dHost[a.env]; }
      if (a.k == 5) a.n = 1;
      if (a.k == 4) { a.n = q.chance(pf.bigBulk) ? 60000 + q.below(90000) : 100 + q.below(3000); a.var = ""; a.bg = false; }
      c.acts.push_back(a);
    }
    if (q.chance(pf.pCondCheck)) { c.ct = genCondT(q, c.unit, 1, true); if (c.ct.form & 4) plainForm(c.ct); feat("conditional check"); }
    checks.push_back(c);
  }
  Str kinText(const SrcF &f) { Rng q(mix(seed, f.path.c_str(), f.ver)); if (f.ver % 5 == 4) return ""; Str s = q.chance(40) ? scalar(q, true) : "val" + tok(q); if (q.chance(50)) s += " yes"; return s + "\n"; }
  void putLnk(const Str &p) { auto &f = src[p]; S->hostUnlink(p); S->hostSymlink(strf("target%d", f.ver), p); S->hostWrite(dirOf(p) + strf("/target%d", f.ver), "target\n"); }
  void putAny(const Str &p) { auto &f = src[p]; if (f.kind == "lnk") { putLnk(p); return; } Str t = f.kind == "kin" ? kinText(f) : srcText(f); S->hostWrite(p, t); written[p] = t; S->hostGet(p)->mode = f.mode; }

  bool condReach(int u, int v) { for (int k = v; k >= 0; k = units[k].parent) if (units[k].ct.k && !inChain(u, k)) return false; return true; }   // v is there whenever u is
  Ref pickIn(Rng &q, int u, bool sameUnitPlain) {
    Ref r; std::vector<std::pair<int, int>> c;
    for (auto &x : rules) { if ((x.cond && !x.alt) || x.kind == R_FW || x.kind == R_FC || x.kind == R_INSTALL || x.kind == R_CC) continue; if (!condReach(u, x.unit)) continue; if (sameUnitPlain && (x.unit != u || x.kind != R_RUN || x.inSrc || !x.simpleName)) continue; for (int k = 0; k < (int) x.outs.size(); ++k) if (x.kind != R_CONF || x.ins[k].cu < 0) c.push_back({ x.id, k }); }
    if (!c.empty() && (sameUnitPlain || q.chance(65))) { auto &p = c[q.below(c.size())]; r.rule = p.first; r.idx = p.second; rules[p.first].leaf = false; return r; }
    if (sameUnitPlain) return r;
    r.src = newTxt(q, q.chance(70) ? u : (int) q.below(units.size())); return r;
  }
  int genGenerator(Rng &q, int u, const Str &ext, const Strs &incs) {
    Rule g; g.id = rules.size(); g.kind = R_RUN; g.unit = u; g.outs = { strf("r%d.%s", g.id, ext.c_str()) }; for (auto &i : incs) g.lines.push_back("#include \"" + i + "\""); g.lineIncs = incs;
    int n = q.range(0, 2); for (int i = 0; i < n; ++i) g.words.push_back(word(q, u, false)); n = q.range(0, 2); for (int i = 0; i < n; ++i) { Ref r = pickIn(q, u, false); g.ins.push_back(r); }
    rules.push_back(g); regProd(outAbs(g, g.outs[0]), g.id, 0); return g.id;
  }
  Str condVarName(Rng &q, int u, bool plain = false) { if (!plain && !checks.empty() && q.chance(50)) { std::vector<Str> c; for (auto &y : checks) if (inChain(u, y.unit)) for (auto &a : y.acts) if (a.k != 4) c.push_back(a.var); if (!c.empty()) return c[q.below(c.size())]; } return q.chance(80) ? strf("DC%d", (int) q.below(2)) : strf("EV%d", (int) q.below(2)); }
  int nCondList = 0;
  CondT genCondT(Rng &q, int u, int depth, bool plain = false) {
    CondT c; c.neg = q.chance(30); c.form = q.below(8);
    if (depth < 2 && q.chance(depth ? 35 : 60)) { c.k = q.chance(50) ? 6 : 7; int n = q.range(1, 3); for (int i = 0; i < n; ++i) c.sub.push_back(genCondT(q, u, depth + 1, plain)); return c; }
    if (q.chance(20)) { c.k = 8; c.id = nCondList++; Str n = strf("DK%d", c.id); c.vars = { n }; dNames.push_back(n); if (q.chance(80)) D[n] = dkVal(q); return c; }
    c.k = 1 + q.below(5); c.vars.push_back(condVarName(q, u, plain)); if (c.k == 2) { int n = q.range(0, 2); for (int i = 0; i < n; ++i) c.vars.push_back(q.chance(30) ? strf("UNDEF%d", (int) q.below(3)) : condVarName(q, u, plain)); }
    c.val = q.chance(60) ? "on" : "o"; if (c.k == 3) { if (q.chance(25)) { c.valVar = true; c.val = condVarName(q, u, plain); } c.join = q.chance(25); } return c;
  }
  Str dkVal(Rng &q) { static const char *v[] = { "", "0", "0 0", "1", "0 1", "1 0", "a b", "'' 0", "'0 0'", "\\ " }; return v[q.below(10)]; }
  void condVars(const CondT &c, Strs *v) { for (auto &n : c.vars) v->push_back(n); for (auto &y : c.sub) condVars(y, v); }
  void genCond(Rng &q, Rule &x, int u) { x.cond = 1 + q.below(5); x.condVar = condVarName(q, u); x.condVal = q.chance(60) ? "on" : "o"; x.condNeg = q.chance(35); if (q.chance(pf.pCondT)) { x.cond = 9; x.ct = genCondT(q, u, 0); Strs v; condVars(x.ct, &v); x.condVar = v[q.below(v.size())]; feat("condition tree"); } }
  void genRule(int id) {
    Rng q(mix(seed, "rule", id)); int tot = pf.wRun + pf.wFor + pf.wCc + pf.wConf + pf.wInst, k = q.below(tot); int u = q.below(units.size());
    if ((k -= pf.wRun) < 0) {
      Rule x; x.id = id; x.unit = u; x.kind = R_RUN; bool sub = q.chance(15); x.inSrc = q.chance(pf.pInSrc) && realp(udir(u)) == udir(u); if (x.inSrc) sub = false; x.simpleName = !sub; x.outs.push_back((sub ? strf("g%d/", id) : "") + strf("r%d.out", id)); if (q.chance(30)) { x.outs.push_back(strf("r%d.2.out", id)); x.twoCmds = q.chance(50); }
      int n = q.range(0, 3); for (int i = 0; i < n; ++i) { Ref f = pickIn(q, u, false); bool dup = false; for (auto &y : x.ins) if (y.rule == f.rule && y.idx == f.idx && y.src == f.src) dup = true; if (!dup) x.ins.push_back(f); }
      x.shell = q.chance(pf.pShell) && !x.twoCmds && !odd; n = q.range(0, 3); for (int i = 0; i < n; ++i) x.words.push_back(word(q, u, x.shell));
      x.always = q.chance(pf.pAlways); if (!x.shell && !x.inSrc && q.chance(pf.pMacro) && x.outs.size() == 1) x.macro = true; if (!x.macro) condVals(q, x.words, u);
      if (!x.shell && q.chance(pf.pOut)) x.words.push_back(prog(q, u, id, E_OUT)); if (!x.shell && q.chance(pf.pCout)) x.words.push_back(prog(q, u, id, E_COUT));
      if (q.chance(pf.pBulk)) { x.so = q.chance(pf.bigBulk) ? 40000 + q.below(160000) : 1 + q.below(6000); if (q.chance(50)) x.se = q.chance(pf.bigBulk) ? 40000 + q.below(160000) : 1 + q.below(4000); }
      if (q.chance(pf.pCond) && !x.macro) { genCond(q, x, u); if (q.chance(pf.pAlt)) { x.alt = true; int m = q.range(0, 2); for (int i = 0; i < m; ++i) x.altWords.push_back(word(q, u, x.shell)); x.altWords.push_back(lit("other")); } }
      if (!x.macro) { Rng cq(mix(seed, "condref", id)); condRefs(cq, x.ins, u); }
      if (!x.macro && !x.twoCmds) { Rng tq(mix(seed, "tool", id)); if (tq.chance(pf.pToolRef)) toolRef(tq, x, u); }
      rules.push_back(x); for (int i = 0; i < (int) x.outs.size(); ++i) regProd(outAbs(x, x.outs[i]), x.id, i);
    } else if ((k -= pf.wFor) < 0) {
      Rule x; x.id = id; x.unit = u; x.loopVar = strf("I%d", id);
      if (q.chance(45)) { x.kind = R_FC; int n = q.range(1, 3); for (int i = 0; i < n; ++i) { Ref f = pickIn(q, u, true); if (f.rule < 0) break; bool dup = false; for (auto &y : x.gens) if (y.rule == f.rule && y.idx == f.idx) dup = true; if (!dup) x.gens.push_back(f); } if (x.gens.empty()) x.kind = R_FW; } else x.kind = R_FW;
      if (x.kind == R_FW) { int n = q.range(1, 3); for (int i = 0; i < n; ++i) x.list.push_back(lit(strf("w%d", i))); if (q.chance(60)) { Expr s; s.k = E_SPREAD; s.s = "DX" + strf("%d", id); dNames.push_back(s.s); dList[s.s] = true; D[s.s] = listOpt(q, "e"); x.list.push_back(s); } if (q.chance(40)) x.listVar = strf("LV%d", id); }
      int n = q.range(0, 2); for (int i = 0; i < n; ++i) x.words.push_back(word(q, u, false)); n = q.range(0, 2); for (int i = 0; i < n; ++i) { Ref f = pickIn(q, u, false); bool dup = false; for (auto &y : x.ins) if (y.rule == f.rule && y.idx == f.idx && y.src == f.src) dup = true; for (auto &y : x.gens) if (y.rule == f.rule && y.idx == f.idx) dup = true; if (!dup) x.ins.push_back(f); }
      { Rng cq(mix(seed, "condref", id)); condRefs(cq, x.ins, u); } rules.push_back(x);
      if (x.kind == R_FW && realp(udir(u)) == udir(u) && Rng(mix(seed, "loopsrc", id)).chance(pf.pInSrc)) { rules.back().inSrc = true; feat("loop in sources"); }
      for (int m = q.chance(30) && !rules.back().inSrc ? q.range(1, 2) : 0; m > 0; --m) { Rule z; z.id = rules.size(); z.unit = u; z.kind = R_FC; z.ofCc = z.id - 1; z.loopVar = q.chance(30) ? x.loopVar : strf("I%d", z.id); rules[z.ofCc].leaf = false; z.idv = q.below(8); if (loopRoot(rules[z.ofCc]).kind == R_FC && q.chance(30)) z.pm = 1; if (q.chance(40)) z.words.push_back(word(q, u, false)); if (q.chance(30)) { Ref f = pickIn(q, u, false); bool dup = false; for (auto &y : loopRoot(rules[z.ofCc]).gens) if (y.rule == f.rule && y.idx == f.idx) dup = true; if (!dup) z.ins.push_back(f); } z.always = q.chance(pf.pAlways); rules.push_back(z); feat("loop chain"); }
    } else if ((k -= pf.wCc) < 0) {
      // headers of the unit
      auto &hs = hdrs[u]; if (hs.empty()) { static const char *ext[] = { "h", "hpp", "inc", "def", "cfg", "m4", "h", "c.inc", "tcc", "Cpp" }; int n = q.range(1, 4); for (int i = 0; i < n; ++i) { static const char *odd[] = { "_", "_", "_", "_", "_", " ", "#", "$", " a b#", "+-" }; Str p = udir(u) + strf("/h%d%s%d.", u, odd[q.below(10)], i) + ext[q.below(10)]; genSrc(p, "h"); hs.push_back(p); } for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (q.chance(25)) src[hs[i]].incs.push_back(baseName(hs[j])); }
      Strs hb; for (auto &h : hs) hb.push_back(baseName(h));
      std::vector<Ref> gsrc, ghdr; bool needInc = false;
      if (q.chance(pf.pGenHdr)) { Strs inc; if (q.chance(25)) { inc.push_back(hb[q.below(hb.size())]); needInc = true; } int g = genGenerator(q, u, q.chance(70) ? "h" : q.chance(50) ? "inc" : "cfg", inc); rules[g].leaf = false; Ref r; r.rule = g; ghdr.push_back(r); }
      if (q.chance(pf.pGenSrc)) { Strs inc; if (q.chance(40)) { inc.push_back(hb[q.below(hb.size())]); needInc = true; } if (!ghdr.empty() && q.chance(50)) inc.push_back(rules[ghdr[0].rule].outs[0]); int g = genGenerator(q, u, "c", inc); rules[g].leaf = false; Ref r; r.rule = g; gsrc.push_back(r); }
      std::vector<Ref> specs; { Rng sq(mix(seed, "specs", rules.size())); if (sq.chance(12)) for (int n = sq.range(1, 2), k = 0; k < n; ++k) { Ref r; if (sq.chance(40)) { r.rule = genGenerator(sq, u, "spec", {}); rules[r.rule].leaf = false; } else { r.src = udir(u) + strf("/s%d_%d.spec", (int) rules.size(), k); genSrc(r.src, "txt"); } specs.push_back(r); feat("file read by a compiler as an option"); } }
      Rule x; x.id = rules.size(); x.kind = R_CC; x.unit = u; x.gens = gsrc; x.gcons = ghdr; for (auto &r : specs) x.gcons.push_back(r); x.cxx = q.chance(20); x.objsVar = strf("OB%d", x.id);
      int n = q.range(1, 5); for (int i = 0; i < n; ++i) { Str nm = place(Rng(mix(seed, "place", x.id * 100 + i)), u, strf("c%d_%d.%s", x.id, i, x.cxx ? "cpp" : "c"), pf.pPlace); x.list.push_back(lit(nm)); Str p = normAbs(nm[0] == '/' ? nm : udir(u) + "/" + nm); genSrc(p, "c"); for (auto &h : hb) if (q.chance(45)) src[p].incs.push_back(relPath(dirOf(p), udir(u) + "/" + h)); for (auto &g : ghdr) if (q.chance(60)) src[p].incs.push_back(rules[g.rule].outs[0]);
        Rng sq(mix(seed, "samename", x.id * 100 + i)); if (sq.chance(8)) { Str h = dirOf(p) + "/same/" + baseName(p); genSrc(h, "h"); src[p].incs.insert(src[p].incs.begin() + sq.below(src[p].incs.size() + 1), "same/" + baseName(p)); feat("included file named as the source"); } }
      if (q.chance(45)) { Expr s; s.k = E_SPREAD; s.s = strf("DS%d", x.id); x.list.push_back(s); dNames.push_back(s.s); for (int i = 0; i < 3; ++i) { Str p = udir(u) + strf("/x%d_%d.c", x.id, i); genSrc(p, "c"); if (q.chance(40)) src[p].incs.push_back(hb[q.below(hb.size())]); } D[s.s] = dsVal(q, x.id); }
      if (q.chance(35)) x.srcVar = strf("SV%d", x.id);
      if (needInc || q.chance(75)) { x.hasFlags = true; int m = q.range(0, 2); for (int i = 0; i < m; ++i) x.flags.push_back(q.chance(50) ? lit("-O" + strf("%d", (int) q.below(4))) : word(q, u, false)); if (q.chance(40)) { Expr s; s.k = E_SPREAD; s.s = "DF0"; x.flags.push_back(s); } for (auto &d : vars) if (d.name[0] == 'P' && d.name[1] == 'V' && inChain(u, d.unit) && q.chance(40)) { Expr s; s.k = q.chance(70) ? E_SPREAD : E_VAR; s.s = d.name; x.flags.push_back(s); } if (needInc) { x.flags.push_back(lit("-I" + udir(u))); x.incDirs.push_back(udir(u)); } condVals(q, x.flags, u); if (x.flags.empty() || (odd && x.flags.size() == 1)) x.flags.push_back(lit("-g")); }
      if (!specs.empty()) { x.hasFlags = true; for (auto &r : specs) { Rng sq(mix(seed, "specsp", x.id)); x.flags.insert(x.flags.begin() + sq.below(x.flags.size() + 1), lit("-specs=" + refPath(r))); } if (x.flags.size() == 1) x.flags.push_back(lit("-g")); }
      if (x.hasFlags && q.chance(pf.pCond) && q.chance(pf.pAlt * 2)) { genCond(q, x, u); x.alt = true; x.altFlags = x.flags; x.altFlags.push_back(lit("-DALT")); }
      if (x.hasFlags && q.chance(30)) { x.hasCc = true; if (q.chance(50)) x.cc = lit("clang"); else { x.cc.k = E_VAR; x.cc.s = "DCC"; x.cc.hasDef = true; x.cc.def = q.chance(50) ? "cc" : "clang"; } }
      { Rng cq(mix(seed, "condref", x.id)); condRefs(cq, x.gens, u); } rules.push_back(x); int cid = x.id;
      if (q.chance(pf.pLink)) { Rule l; l.id = rules.size(); l.kind = R_LINK; l.unit = u; l.ofCc = cid; l.outs = { strf("app%d", l.id) }; if (q.chance(50)) l.words.push_back(lit("-s")); rules.push_back(l); regProd(outAbs(l, l.outs[0]), l.id, 0); }
    } else if ((k -= pf.wConf) < 0) {
      Rule x; x.id = id; x.kind = R_CONF; x.unit = u; int n = q.range(1, q.chance(50) ? 3 : 1);
      for (int i = 0; i < n; ++i) { Rng tl(mix(seed, "tplace", id * 100 + i)); Str nm = place(tl, u, strf(Rng(mix(seed, "tname", id * 100 + i)).chance(10) ? "t%d_%d.in.txt" : "t%d_%d.txt", id, i), pf.pPlace); bool noIn = tl.chance(10); Str ts = nm + (noIn ? "" : ".in"), p = normAbs(nm[0] == '/' ? ts : udir(u) + "/" + ts); nm = outRel(u, p); if (!noIn) nm.resize(nm.size() - 3); genSrc(p, "tmpl"); tmplUnit[p] = u; x.tmplText.push_back(ts); src[p].mode = q.chance(60) ? 0644 : q.chance(50) ? 0755 : 0600; x.templates.push_back(p); x.outs.push_back(nm); }
      if (n > 1 && q.chance(30)) x.listVar = strf("TV%d", id);
      for (auto &t : x.templates) { Ref r; r.src = t; x.ins.push_back(r); }
      { Rng cq(mix(seed, "condtmpl", id)); if (cq.chance(25)) { Strs us; std::vector<int> gu; for (int k = 0; k < (int) units.size(); ++k) if (k != u && condReach(u, k)) gu.push_back(k); int v = gu.empty() || cq.chance(65) ? u : gu[cq.below(gu.size())];
          int g = genGenerator(cq, v, "txt.in", {}); Rule &G = rules[g]; G.leaf = false; x.id = rules.size(); int m = cq.range(1, 3); for (int k = 0; k < m; ++k) { bool l, h; Str nm = cq.chance(15) ? "UNDEF1" : pickVar(cq, u, false, false, 1 << 30, &l, &h); if (nm.empty()) nm = "UNDEF2"; G.lines.push_back(cq.chance(50) ? "k=@" + nm + "@;" : "//autarkdef " + nm + (cq.chance(50) ? " 1" : "")); }
          Str abs = outAbs(G, G.outs[0]); Ref r; r.rule = g; size_t at = cq.below(x.ins.size() + 1); x.ins.insert(x.ins.begin() + at, r); x.templates.insert(x.templates.begin() + at, abs); x.tmplText.insert(x.tmplText.begin() + at, v == u && cq.chance(40) ? "CC{" + G.outs[0] + "}" : "C{" + q1(abs.substr(cacheDir.size() + 1)) + "}"); Str o = relPath(ucache(u), abs); o.resize(o.size() - 3); x.outs.insert(x.outs.begin() + at, o); feat("generated template"); }
        condRefs(cq, x.ins, u); }
      rules.push_back(x); for (int i = 0; i < (int) x.outs.size(); ++i) regProd(outAbs(x, x.outs[i]), x.id, i);
    } else {
      Rule x; x.id = id; x.kind = R_INSTALL; x.unit = u; x.pm = q.below(3); x.idv = Rng(mix(seed, "idir", id)).below(6); x.dir = strf("share/i%d", id); int n = q.range(1, 3);
      for (int i = 0; i < n; ++i) { Ref f = pickIn(q, u, false); bool dup = false; for (auto &y : x.ins) if ((y.rule == f.rule && y.idx == f.idx && y.src == f.src)) dup = true; if (!dup) x.ins.push_back(f); }
      if (q.chance(30)) { Ref f; f.src = udir(u) + strf("/lnk%d", id); f.idx = 7; genSrc(f.src, "lnk"); x.ins.push_back(f); }
      { Rng cq(mix(seed, "condref", id)); condRefs(cq, x.ins, u, 1); } rules.push_back(x);
    }
  }
  Str dsVal(Rng &q, int id) { Str s; for (int i = 0; i < 3; ++i) if (q.chance(45)) s += (s.empty() ? "" : " ") + strf("x%d_%d.c", id, i); return s; }
  Expr prog(Rng &q, int u, int id, int k, int upto = 1 << 30) {
    Expr e; e.k = k; e.s = strf("%s%d", k == E_OUT ? "o" : "c", id); int n = q.range(1, 2); e.a.clear(); e.a.push_back(lit("p" + tok(q))); for (int i = 0; i < n; ++i) e.a.push_back(word(q, u, false, upto));
    if (k == E_COUT && q.chance(60)) { e.file = ROOT + strf("/cf%d.txt", id); genSrc(e.file, "txt"); } if (k == E_OUT && q.chance(50)) { e.file = ROOT + strf("/of%d.txt", id); genSrc(e.file, "txt"); }
    if (q.chance(pf.pBulk)) e.n = q.chance(pf.bigBulk) ? 20000 + q.below(100000) : 1 + q.below(5000); else if (q.chance(35)) e.quiet = true; { Rng tq(mix(seed, "progtool", id * 2 + (k == E_OUT))); if (tq.chance(20)) { e.tv = strf("DT%d", id); dNames.push_back(e.tv); if (tq.chance(50)) setD(tq, e.tv); feat("program named by an option"); } } return e;
  }

  // ---- evaluation
  bool active(const Rule &x) { if (!x.alive || x.masked || !unitAlive(x.unit)) return false; if (x.ofCc >= 0 && !active(rules[x.ofCc])) return false; if (x.kind == R_INSTALL && !installOn) return false; if (x.cond && !x.alt) { return condTrue(x); } return true; }
  bool present(const Rule &x) { if (!x.alive || x.masked) return false; if (x.ofCc >= 0 && !present(rules[x.ofCc])) return false; return true; }
  bool refDecl(const Ref &r) { return r.rule < 0 || present(rules[r.rule]); }
  bool refOk(const Ref &r) { return refDecl(r) && (r.cu < 0 || condT(r.ct, r.cu)); }
  Str refIf(const Ref &r, const Str &t) { return r.cu < 0 ? " " + t : " if { " + condTextT(r.ct) + " " + t + " }"; }
  // the command of a rule is a program of the project: a file of its script's directory, or built by another rule
  void srcTool(const Str &p) { if (src.count(p)) return; genSrc(p, "tool"); src[p].mode = 0755; }
  void toolRef(Rng &q, Rule &x, int u) {
    Ref r; r.tool = true;
    if (q.chance(50)) { r.src = udir(u) + "/gq"; srcTool(r.src); for (int k = 0; k < (int) units.size(); ++k) if (udir(k) != udir(u) && q.chance(60)) srcTool(udir(k) + "/gq"); feat("tool in sources"); }
    else {
      int v = q.chance(70) || !condReach(u, 0) ? u : 0; Rule g; g.id = rules.size(); g.kind = R_RUN; g.unit = v; g.copy = true; g.leaf = false; Str nm = strf("gt%d", g.id); g.outs = { nm }; Ref s; s.src = udir(v) + strf("/gt%d.src", g.id); srcTool(s.src); g.ins = { s };
      if (ucache(v) == ucache(u) && q.chance(40)) srcTool(udir(u) + "/" + nm); else if (q.chance(40)) { if (q.chance(50)) decoyDirs.push_back(udir(u) + "/" + nm); else { genSrc(udir(u) + "/" + nm, "txt"); noExec.insert(udir(u) + "/" + nm); } }
      rules.push_back(g); regProd(outAbs(g, nm), g.id, 0); r.rule = g.id; x.id = rules.size(); feat("tool built");
    }
    x.ins.insert(x.ins.begin() + q.below(x.ins.size() + 1), r);
  }
  Strs decoyDirs; std::set<Str> noExec;
  Str toolOf(const Rule &x) { for (auto &r : x.ins) if (r.tool && refDecl(r)) return baseName(refPath(r)); return ""; }
  Strs toolWords(const Rule &x, Strs w) { for (auto &r : x.ins) { Str d; if (r.tool && refDecl(r) && contentOf(refPath(r), &d) && d.size() > 11) w.push_back("by " + d.substr(10, d.size() - 11)); } return w; }
  void condRefs(Rng &q, std::vector<Ref> &v, int u, size_t from = 0) { if (!q.chance(pf.pCondRef)) return; for (size_t i = from; i < v.size(); ++i) if (q.chance(60)) { v[i].ct = genCondT(q, u, 1); plainForm(v[i].ct); v[i].cu = u; feat("conditional input"); } }
  bool condT(const CondT &c, int u) {
    auto val = [&](const Str &n) { auto v = lookup(n, u); return v ? *v : Str(); }; bool t = false;
    switch (c.k) {
      case 1: { Str s = val(c.vars[0]); t = !s.empty() && s != "0"; break; }
      case 2: for (auto &n : c.vars) t |= (bool) lookup(n, u); break;
      case 3: t = val(c.vars[0]) == (c.valVar ? val(c.val) : c.val); break;
      case 4: t = val(c.vars[0]).compare(0, c.val.size(), c.val) == 0; break;
      case 5: t = val(c.vars[0]).find(c.val) != Str::npos; break;
      case 6: for (auto &y : c.sub) t |= condT(y, u); break;
      case 7: t = true; for (auto &y : c.sub) t &= condT(y, u); break;
      case 8: { Strs v = items(splitVals(val(c.vars[0]))); t = v.size() > 1 || (v.size() == 1 && v[0] != "0"); break; } }
    return t != c.neg;
  }
  Str condSets(const CondT &c) { Str s; if (c.k == 8 && (c.form & 1)) s = strf("set { CL%d ..${DK%d} }\n", c.id, c.id); for (auto &y : c.sub) s += condSets(y); return s; }
  Str condTextT(const CondT &c, bool flip = false) {
    static const char *op[] = { "", "", "defined", "eq", "prefix", "contains", "or", "and" }; Str s = c.neg != flip ? "!" : ""; if (c.k == 1) return s + "${" + c.vars[0] + "}";
    if (c.k == 8) return c.form & 1 ? s + strf("${CL%d}", c.id) : (c.neg != flip) ? strf("!or { set { _ ..${DK%d} } }", c.id) : strf("set { _ ..${DK%d} }", c.id);
    s += Str(op[c.k]) + " {"; if (c.k >= 6) { for (auto &y : c.sub) s += " " + condTextT(y); return s + " }"; }
    if (c.k == 2) { for (auto &n : c.vars) s += " " + n; return s + " }"; }
    Str a = "${" + c.vars[0] + "}", b = c.valVar ? "${" + c.val + "}" : q1(c.val); if (c.join) { a = "^{" + a + " -j}"; b = "^{" + b + " -j}"; } return s + " " + a + " " + b + " }";
  }
  // text under a condition
  Str under(const CondT &c, const Str &body, const Str *els = nullptr) {
    Str s = condSets(c); if (els) return s + (c.form & 2 ? "if { " + condTextT(c, true) + "\n" + *els + "} else {\n" + body + "}\n" : "if { " + condTextT(c) + "\n" + body + "} else {\n" + *els + "}\n");
    if (c.k == 7 && !c.neg && (c.form & 2)) { Str e; for (auto &y : c.sub) { s += "if { " + condTextT(y) + "\n"; e += "}\n"; } return s + body + e; }
    if (c.form == 5) return s + "if { " + condTextT(c, true) + "\nset { PADIF x }\n} else {\n" + body + "}\n";
    return s + "if { " + condTextT(c) + "\n" + body + "}\n";
  }
  bool varOn(const VarDef &d) { return d.alive && unitAlive(d.unit) && (!d.ct.k || d.hasElse || condT(d.ct, d.unit)); }
  bool condTrue(const Rule &x) {
    if (x.cond == 9) return condT(x.ct, x.unit);
    auto v = lookup(x.condVar, x.unit); Str s = v ? *v : ""; bool t = false;
    switch (x.cond) { case 1: t = !s.empty() && s != "0"; break; case 2: t = (bool) v; break; case 3: t = s == x.condVal; break; case 4: t = s.compare(0, x.condVal.size(), x.condVal) == 0; break; case 5: t = s.find(x.condVal) != Str::npos; break; }
    return x.condNeg ? !t : t;
  }
  std::optional<Str> lookup(const Str &n, int u, int skipDef = -1) {
    for (int x = u; x >= 0; x = units[x].parent) {
      int best = -1; for (int i = 0; i < (int) vars.size(); ++i) { auto &d = vars[i]; if (d.name != n || d.kind == VK_ENV || !varOn(d)) continue; int at = d.kind == VK_PARENT ? std::max(0, units[d.unit].parent) : d.kind == VK_ROOT ? 0 : d.unit; if (at != x) continue; if (skipDef >= 0 && vars[skipDef].unit == x && i >= skipDef) continue; best = i; }
      if (best >= 0) return evalDef(best);
      auto c = checkVals.find(x); if (c != checkVals.end()) { auto k = c->second.find(n); if (k != c->second.end()) return k->second; }
      for (auto &rl : rules) if (present(rl) && rl.unit == x) {
          if (rl.kind == R_CC && rl.objsVar == n) { Str s; for (auto &o : ccObjs(rl)) s += "\1" + o; return s.empty() ? Str("\1") : s; }
          if (rl.kind == R_CC && rl.srcVar == n) return evalSet(ccList(rl), rl.unit); if (rl.kind == R_FW && rl.listVar == n) return evalSet(rl.list, rl.unit);
        }
      if (x == 0) { auto d = D.find(n); if (d != D.end()) return d->second;
        if (n == "INSTALL_ENABLED") { if (installOn) return Str("1"); } else if (n == "INSTALL_PREFIX") return installOn ? prefix : Str("/home/u/.local"); else for (int i = 0; i < 6; ++i) if (n == IDIRS[i].var) return idir[i]; }
    }
    auto e = E.find(n); if (e != E.end()) return e->second; if (n == "HOME") return Str("/home/u"); return std::nullopt;
  }
  int defGuard = 0;
  // conditional values: the branch which is in effect
  std::vector<Expr> flat(const std::vector<Expr> &v, int u) { std::vector<Expr> o; for (auto &e : v) if (e.k != E_IF) o.push_back(e); else for (auto &y : flat(condT(e.ct, u) ? e.a : e.b, u)) o.push_back(y); return o; }
  static bool hasIf(const std::vector<Expr> &v) { for (auto &e : v) if (e.k == E_IF) return true; return false; }
  static void plainForm(CondT &c) { c.form &= ~1; for (auto &y : c.sub) plainForm(y); }
  // turns some of the values into conditional ones
  void condVals(Rng &q, std::vector<Expr> &v, int u) {
    if (!q.chance(pf.pCondVal)) return; Expr e; e.k = E_IF; e.ct = genCondT(q, u, 1); plainForm(e.ct); size_t at = q.below(v.size() + 1); int n = q.below(3); for (int i = 0; i < n; ++i) if (at < v.size() && v[at].k < E_IF) { e.a.push_back(v[at]); v.erase(v.begin() + at); } else e.a.push_back(lit("t" + tok(q)));
    n = q.below(3); for (int i = 0; i < n; ++i) e.b.push_back(lit("f" + tok(q))); if (q.chance(20)) { Expr i; i.k = E_IF; i.ct = genCondT(q, u, 2); plainForm(i.ct); i.a.push_back(lit("n" + tok(q))); (q.chance(50) ? e.a : e.b).push_back(i); } if (q.chance(25)) { // the same text in both branches: several words in one, a single one in the other
      bool ok = e.a.size() > 0; for (auto &y : e.a) ok = ok && y.k == E_LIT; if (ok) { if (e.a.size() == 1) e.a.push_back(lit("s" + tok(q))); Str j; for (auto &y : e.a) j += (j.empty() ? "" : " ") + y.s; e.b = { lit(j) }; if (q.chance(50)) std::swap(e.a, e.b); feat("branches with equal text"); } }
    v.insert(v.begin() + at, e); feat("conditional value");
  }
  Str evalDef(int i) { auto &d = vars[i]; if (d.kind >= VK_META) { Str o; bool f = true; for (auto &e : d.ct.k && !condT(d.ct, d.unit) ? d.alt : d.vals) { o += (f ? "" : " ") + eval(e, d.unit); f = false; } return o; } return evalSet(d.ct.k && !condT(d.ct, d.unit) ? d.alt : d.vals, d.unit, i); }
  static bool isSpread(const Expr &e) { return e.k == E_SPREAD || e.spread; }
  Str evalSet(const std::vector<Expr> &v, int u, int def = -1) {
    if (hasIf(v)) return evalSet(flat(v, u), u, def);
    if (v.empty()) return ""; if (v.size() == 1 && !isSpread(v[0])) return eval(v[0], u, def);
    Str o; for (auto &e : v) { Str s = eval(e, u, def); if (isSpread(e)) o += splitVals(s); else { if (!isList(s)) o += "\1"; o += s; } } return o;
  }
  Str eval(const Expr &e, int u, int def = -1) {
    switch (e.k) {
      case E_LIT: return e.s;
      case E_VAR: case E_SPREAD: { std::optional<Str> v; if (def >= 0 && vars[def].name == e.s) v = lookup(e.s, u, def); else v = lookup(e.s, u); if (v) return *v; return e.hasDef ? e.def : ""; }
      case E_JOIN: { Str s; for (auto &x : e.a) s += eval(x, u, def); return s; }
      case E_BASE: { Str v = eval(e.a[0], u, def); size_t d = v.rfind('.'); if (d != Str::npos && v.find('/', d) == Str::npos) v.resize(d); return v + e.s; }
      case E_DIR: { Str p; for (auto &x : e.a) for (auto &i : items(eval(x, u, def))) { if (!p.empty() && i[0] != '/' && p.back() != '/') p += '/'; p += i; } Str b = e.s == "S" ? ROOT : e.s == "SS" ? udir(u) : e.s == "C" ? cacheDir : ucache(u); return normAbs(!p.empty() && p[0] == '/' ? p : b + "/" + p); }
      case E_OUT: return progOut(e, u);
      case E_COUT: { auto &c = couts[e.s]; Str a = progArgs(e, u); auto it = c.byArgs.find(a); return it == c.byArgs.end() ? progOut(e, u) : it->second; }
    }
    return "";
  }
  Str progArgs(const Expr &e, int u) { Str s = e.tv.empty() ? Str() : progTool(e) + "\2"; for (auto &x : e.a) s += eval(x, u) + "\2"; return s; }
  Str progTool(const Expr &e) { auto d = D.find(e.tv); return e.tv.empty() || d == D.end() ? Str("say") : d->second; }
  Str progOut(const Expr &e, int u) {
    Strs w; for (auto &x : e.a) for (auto &i : items(eval(x, u))) w.push_back(i); Str o; for (size_t i = 0; i < w.size(); ++i) o += (i ? " " : "") + w[i];
    if (e.quiet && saysNothing(o)) return "";
    if (!o.empty() && baseName(progTool(e)) == "tell") o = "told " + o;
    if (!e.file.empty()) { Str d; S->hostRead(e.file, &d); o += (o.empty() ? "" : " ") + d; } if (e.n) { if (!o.empty()) o += " "; o += bulkText("s" + e.s, e.n); }
    while (!o.empty() && strchr(" \t\n\r\v\f", o.back())) o.pop_back(); return o;
  }
  const std::vector<Expr>& curWords(const Rule &x) { return x.alt && x.kind == R_RUN && !condTrue(x) ? x.altWords : x.words; }
  const std::vector<Expr>& curFlags(const Rule &x) { return x.alt && x.kind == R_CC && !condTrue(x) ? x.altFlags : x.flags; }
  Str altF(const Rule &x) { return x.alt ? (condTrue(x) ? "alt1" : "alt0") : ""; }
  Strs wordsOf(const Rule &x) { Strs w; for (auto &e : flat(curWords(x), x.unit)) { Str raw = eval(e, x.unit); if (x.shell) { for (auto &i : items(raw)) for (auto &t : items(splitBlank(i))) w.push_back(t); } else for (auto &i : items(raw)) w.push_back(i); } return w; }
  static Str splitBlank(const Str &s) { Str o; size_t i = 0; while (i < s.size()) { while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) ++i; size_t j = i; while (j < s.size() && s[j] != ' ' && s[j] != '\t') ++j; if (j > i) o += "\1" + s.substr(i, j - i); i = j; } return o; }
  std::vector<Expr> ccList(const Rule &x) { std::vector<Expr> v = x.list; for (auto &g : x.gens) if (refOk(g)) v.push_back(lit(outAbs(rules[g.rule], rules[g.rule].outs[g.idx]))); return v; }
  Strs ccSources(const Rule &x) { Strs r; for (auto &s : items(evalSet(ccList(x), x.unit))) r.push_back(normAbs(s[0] == '/' ? s : udir(x.unit) + "/" + s)); return r; }
  Str objOf(const Rule &x, const Str &s) { return noExt(outRel(x.unit, s)) + ".o"; }
  Strs ccObjs(const Rule &x) { Strs r; for (auto &s : ccSources(x)) r.push_back(objOf(x, s)); return r; }
  Strs ccFlags(const Rule &x) { if (!x.hasFlags) return {}; Str raw = evalSet(curFlags(x), x.unit); return items(splitVals(raw)); }
  Str ccName(const Rule &x) { Str c; if (x.hasCc) c = eval(x.cc, x.unit); if (c.empty()) { auto v = lookup(x.cxx ? "CXX" : "CC", x.unit); if (v) c = *v; } if (c.empty()) c = x.cxx ? "c++" : "cc"; return c; }
  Str refPath(const Ref &r) { return r.rule < 0 ? r.src : outAbs(rules[r.rule], rules[r.rule].outs[r.idx]); }
  // a loop over the items of another loop (ofCc), which consumes the products of that one: %{${I}}, ^{pre_ ${I} .ext}
  const Rule &loopRoot(const Rule &x) { const Rule *r = &x; while (r->kind == R_FC && r->ofCc >= 0) r = &rules[r->ofCc]; return *r; }
  Strs loopRaw(const Rule &x) { const Rule &r = loopRoot(x); if (r.kind == R_FW) return items(evalSet(r.list, r.unit)); Strs v; for (auto &g : r.gens) if (refOk(g)) v.push_back(rules[g.rule].outs[g.idx]); return v; }
  const char *loopExt(const Rule &x) { return x.kind == R_FW ? ".fw" : x.ofCc >= 0 ? ".fg" : ".fc"; }
  Str loopProd(const Rule &x, const Str &item) { return strf("f%d_", x.id) + (loopRoot(x).kind == R_FW ? item : noExt(item)) + loopExt(x); }
  Str loopExpr(const Rule &x, const Str &v) { return strf("^{f%d_ ", x.id) + (loopRoot(x).kind == R_FW ? v : "%{" + v + "}") + " " + loopExt(x) + "}"; }
  std::vector<std::pair<Str, Str>> loopItems(const Rule &x) { // (item, product name)
    std::vector<std::pair<Str, Str>> v; if (x.kind == R_FC && x.ofCc >= 0) { for (auto &i : loopRaw(x)) v.push_back({ loopProd(rules[x.ofCc], i), loopProd(x, i) }); return v; } if (x.kind == R_FW) { for (auto &i : items(evalSet(x.list, x.unit))) v.push_back({ i, strf("f%d_", x.id) + i + ".fw" }); } else for (auto &g : x.gens) if (refOk(g)) { Str i = rules[g.rule].outs[g.idx]; v.push_back({ i, strf("f%d_", x.id) + noExt(i) + ".fc" }); } return v;
  }
  bool contentOf(const Str &p, Str *out) { auto it = prod.find(p); if (it != prod.end() && active(rules[it->second.first])) { auto e = expect(p); if (!e) return false; *out = *e; return true; } if (p.compare(0, cacheDir.size(), cacheDir) == 0) return false; return S->hostRead(p, out); }
  std::optional<Str> expect(const Str &p) {
    auto m = memo.find(p); if (m != memo.end()) return m->second; if (evalStack.count(p)) return std::nullopt; evalStack.insert(p); auto r = expect1(p); evalStack.erase(p); memo[p] = r; return r;
  }
  bool gather(const std::vector<Ref> &refs, std::vector<std::pair<Str, Str>> *in) { for (auto &r : refs) { if (!refOk(r)) continue; Str p = refPath(r), d; if (!contentOf(p, &d)) return false; if (!r.tool) in->push_back({ baseName(p), d }); } return true; }
  struct Scan { Strs dirs; std::vector<std::pair<Str, Str>> incs; Strs paths; std::set<Str> seen; };
  bool scan(Scan &c, const Str &path, const Str &data) {
    for (auto &inc : includesOf(data)) { bool ok = false; Strs cand{ dirOf(path) + "/" + inc }; for (auto &d : c.dirs) cand.push_back(d + "/" + inc);
      for (auto &n0 : cand) { Str n = normAbs(n0), d; if (!contentOf(n, &d)) continue; ok = true; if (!c.seen.insert(n).second) break; c.incs.push_back({ baseName(n), d }); c.paths.push_back(n); if (!scan(c, n, d)) return false; break; }
      if (!ok) return false; }
    return true;
  }
  std::optional<Str> ccExpect(const Rule &x, const Str &srcPath, Strs *paths = nullptr) {
    Str d; if (!contentOf(srcPath, &d)) return std::nullopt; if (d.find("#error") != Str::npos) { if (paths) *paths = {}; return std::nullopt; }
    Scan c; Strs fl = ccFlags(x), rec; for (auto &f : fl) { if (f.compare(0, 2, "-I") == 0) { c.dirs.push_back(f.substr(2)); rec.push_back("-I" + baseName(f)); } else if (f.compare(0, 7, "-specs=") == 0) { Str t; if (!contentOf(f.substr(7), &t)) return std::nullopt; rec.push_back("-specs=" + baseName(f) + ":" + contentHash(t)); } else rec.push_back(f); } c.dirs.push_back(ucache(x.unit));
    bool ok = scan(c, srcPath, d); if (paths) *paths = c.paths; if (!ok) return std::nullopt;
    return objContent(baseName(objOf(x, srcPath)), baseName(ccName(x)), rec, baseName(srcPath), d, c.incs);
  }
  std::optional<Str> expect1(const Str &p) {
    auto it = prod.find(p); if (it == prod.end()) return std::nullopt; const Rule &x = rules[it->second.first]; int idx = it->second.second; if (!active(x) || x.badCmd) return std::nullopt;
    if (x.kind == R_RUN) {
      std::vector<std::pair<Str, Str>> in; if (!gather(x.ins, &in)) return std::nullopt;
      if (x.twoCmds && idx == 1) { auto f = expect(outAbs(x, x.outs[0])); if (!f) return std::nullopt; return genContent(baseName(x.outs[1]), {}, wordsOf(x), { { baseName(x.outs[0]), *f } }); }
      if (x.copy) return in[0].second;
      return genContent(baseName(x.outs[idx]), x.lines, x.twoCmds ? Strs{} : toolWords(x, wordsOf(x)), in);
    }
    if (x.kind == R_LINK) { std::vector<std::pair<Str, Str>> in; const Rule &c = rules[x.ofCc]; for (auto &s : ccSources(c)) { auto o = ccExpect(c, s); if (!o) return std::nullopt; in.push_back({ baseName(objOf(c, s)), *o }); } Strs w; for (auto &e : x.words) for (auto &i : items(eval(e, x.unit))) w.push_back(i); return ldContent(x.outs[0], w, in); }
    if (x.kind == R_CONF) { Str t; if (!refOk(x.ins[idx]) || !contentOf(x.templates[idx], &t)) return std::nullopt; return confText(t, x.unit); }
    return std::nullopt;
  }
  static Str squeeze(const Str &s) { Str o; for (char c : s) if (strchr(" \t\r\n\1", c) == nullptr || c == 0) o += c; else if (!o.empty() && o.back() != ' ') o += ' '; return o; }
  static Str spaced(Str s) { if (isList(s)) { s = s.substr(1); for (auto &ch : s) if (ch == '\1') ch = ' '; } return s; }
  Str confText(const Str &t, int u) {
    Str o; size_t i = 0;
    while (i < t.size()) {
      size_t j = t.find('\n', i); bool nlEnd = j != Str::npos; Str l = t.substr(i, nlEnd ? j - i + 1 : Str::npos); i = nlEnd ? j + 1 : t.size();
      if (l.compare(0, 12, "//autarkdef ") == 0) {
        size_t a = 12; while (a < l.size() && l[a] == ' ') ++a; size_t b = a; while (b < l.size() && !strchr(" \t\n", l[b])) ++b; Str key = l.substr(a, b - a); size_t c = b; while (c < l.size() && strchr(" \t\n", l[c])) ++c; auto v = lookup(key, u);
        if (c < l.size() && l[c] == '"') { if (v) o += "#define " + key + " \"" + spaced(*v) + "\"\n"; else o += l; } else if (c < l.size() && isdigit(l[c])) { if (v) o += "#define " + key + " " + l.substr(c); else o += "#define " + key + " 0\n"; } else { if (v) o += "#define " + key + "\n"; else o += l; }
        continue;
      }
      size_t k = 0; for (;;) { size_t a = l.find('@', k); if (a == Str::npos) { o += l.substr(k); break; } size_t b = l.find('@', a + 1); if (b == Str::npos) { o += l.substr(k); break; } o += l.substr(k, a - k); auto v = lookup(l.substr(a + 1, b - a - 1), u); if (v) o += spaced(*v); k = b + 1; }
    }
    return o;
  }
  bool checkOn(const Check &c) { return c.alive && unitAlive(c.unit) && (!c.ct.k || condT(c.ct, c.unit)); }
  void evalChecks() {
    checkVals.clear(); for (int cu = 0; cu < (int) units.size(); ++cu) for (auto &c : checks) if (c.unit == cu && checkOn(c)) { auto &m = checkVals[c.unit]; Str arg; Strs args; for (auto &a : c.args) for (auto &i : items(argEval(a))) args.push_back(i);
        for (auto &a : c.acts) { if (!a.on) continue; Str t; auto fl = [&] { Str d; S->hostRead(a.file, &d); while (!d.empty() && d.back() == '\n') d.pop_back(); for (auto &ch : d) if (ch == '\n') ch = ' '; return d; }; auto ev = [&] { auto e = E.find(a.env); return e == E.end() ? Str() : e->second; };
          switch (a.k) { case 0: m[a.var] = a.val; break; case 1: m[a.var] = fl(); break; case 2: m[a.var] = ev(); break; case 3: if (fl().find("yes") != Str::npos) m[a.var] = a.val; break; case 5: m[a.var] = args.empty() ? "" : args[0]; break; case 6: if (!ev().empty()) m[a.var] = a.val; break; } } }
  }
  Str argEval(const Expr &a) { if (a.k == E_LIT) return a.s; auto d = D.find(a.s); if (d != D.end()) return d->second; auto e = E.find(a.s); return e == E.end() ? "" : e->second; }

  // ---- rendering
  static Str q1(const Str &s) { bool plain = !s.empty(); for (char c : s) if (!isalnum((unsigned char) c) && !strchr("_./-+=,:", c)) plain = false; if (plain) return s; return s.find('\'') == Str::npos ? "'" + s + "'" : "\"" + s + "\""; }
  Str rend(const Expr &e) {
    switch (e.k) { case E_LIT: return q1(e.s); case E_VAR: return "${" + e.s + (e.hasDef ? " " + q1(e.def) : "") + "}"; case E_SPREAD: return "..${" + e.s + "}";
      case E_IF: { Str s = "if { " + condTextT(e.ct); for (auto &x : e.a) s += " " + rend(x); s += " }"; if (e.b.empty()) return s; s += " else {"; for (auto &x : e.b) s += " " + rend(x); return s + " }"; }
      case E_BASE: return "%{" + rend(e.a[0]) + (e.s.empty() ? "" : " " + e.s) + "}"; case E_DIR: { Str s = e.s + "{"; for (auto &x : e.a) s += (s.back() == '{' ? "" : " ") + rend(x); return s + "}"; }
      case E_JOIN: { Str s = "^{"; for (auto &x : e.a) s += (s.size() > 2 ? " " : "") + rend(x); return s + "}"; }
      default: { Str s = Str(e.spread ? ".." : "") + (e.k == E_OUT ? "@" : "@@") + (e.tv.empty() ? Str("{say") : "{${" + e.tv + " say}") + " -n " + e.s; if (!e.file.empty()) s += " -f " + e.file; if (e.n) s += strf(" -s %ld", e.n); if (e.quiet) s += " -q"; for (auto &x : e.a) s += " " + rend(x); return s + "}"; } }
  }
  Str relRoot(const Str &p) { return p.substr(ROOT.size() + 1); }
  Str refExec(const Ref &r, const Rule &x) {
    if (r.rule < 0) { if (dirOf(r.src) == udir(x.unit) && (r.src.size() & 1)) return "SS{" + q1(baseName(r.src)) + "}"; return "S{" + q1(relRoot(r.src)) + "}"; }
    const Rule &p = rules[r.rule]; Str abs = refPath(r); if (p.inSrc) return "S{" + q1(relRoot(abs)) + "}"; if (ucache(p.unit) == ucache(x.unit) && !x.inSrc) return q1(p.outs[r.idx]); return "C{" + q1(abs.substr(cacheDir.size() + 1)) + "}";
  }
  static Str oddPath(const char *var, const Str &rel, unsigned k) { static const char *mid[] = { "//", "/./", "/../" }; const char *m = mid[k % 2]; size_t sl = rel.find('/'); if (k % 3 == 2 && sl != Str::npos) return Str("^{${") + var + "} / " + q1(rel.substr(0, sl)) + " '" + m + "' " + q1(rel.substr(sl + 1)) + "}"; return Str("^{${") + var + "} '" + m + "' " + q1(rel) + "}"; }
  Str refCons(const Ref &r, const Rule &x) {
    { Str abs = refPath(r); unsigned k = (unsigned) (abs.size() * 7 + x.id * 5); bool gen = r.rule >= 0 && !rules[r.rule].inSrc; if (k % 9 == 0 && abs.compare(0, (gen ? cacheDir : ROOT).size() + 1, (gen ? cacheDir : ROOT) + "/") == 0) return gen ? oddPath("AUTARK_CACHE_DIR", abs.substr(cacheDir.size() + 1), k / 9) : oddPath("AUTARK_ROOT_DIR", relRoot(abs), k / 9); }
    if (r.rule < 0) { if (dirOf(r.src) == udir(x.unit)) return baseName(r.src); return "S{" + q1(relRoot(r.src)) + "}"; }
    const Rule &p = rules[r.rule]; Str abs = refPath(r); if (p.inSrc) return "S{" + q1(relRoot(abs)) + "}"; if (ucache(p.unit) == ucache(x.unit)) return q1(p.outs[r.idx]); return "C{" + q1(abs.substr(cacheDir.size() + 1)) + "}";
  }
  Str condText(const Rule &x) { static const char *op[] = { "", "", "defined", "eq", "prefix", "contains" }; return x.cond == 1 ? Str(x.condNeg ? "!" : "") + "${" + x.condVar + "}" : Str(x.condNeg ? "!" : "") + op[x.cond] + " { " + (x.cond == 2 ? x.condVar : "${" + x.condVar + "} " + q1(x.condVal)) + " }"; }
  Str renderRule(const Rule &x, bool macroDef = false) {
    if (x.alt) { Rule a = x; a.alt = false; a.cond = 0; Rule b = a; if (x.kind == R_RUN) b.words = x.altWords; else b.flags = x.altFlags; Str sv; if (!x.srcVar.empty()) { sv = renderRule(a); sv = sv.substr(0, sv.find('\n') + 1); } if (x.cond == 9) { Str eb = renderRule(b).substr(sv.size()); return sv + under(x.ct, renderRule(a).substr(sv.size()), &eb); } return sv + "if { " + condText(x) + "\n" + renderRule(a).substr(sv.size()) + "} else {\n" + renderRule(b).substr(sv.size()) + "}\n"; }
    Str s; Str o0 = macroDef ? "&{1}" : x.outs.empty() ? "" : x.outs[0];
    if (x.kind == R_RUN) {
      Str body; static const char *badTool[] = { "nosuchtool", "/usr/bin/nosuchtool", "plainfile", "/w/p" }; Str tl = toolOf(x), cmd = x.badCmd ? badTool[x.badKind] : tl.empty() ? "gen" : tl; Str ex = cmd + " -o " + o0; if (!x.twoCmds && x.outs.size() > 1) ex += " -o " + x.outs[1]; for (auto &r : x.ins) if (refDecl(r) && !r.tool) ex += refIf(r, Str(x.copy ? "-c " : "-i ") + refExec(r, x)); for (auto &l : x.lines) ex += " -l '" + l + "'"; if (x.so) ex += strf(" -s %ld", x.so); if (x.se) ex += strf(" -e %ld", x.se);
      Str w; for (auto &e : x.words) w += " " + rend(e);
      if (x.twoCmds) body = "exec { " + ex + " } exec { gen -o " + x.outs[1] + " -i " + x.outs[0] + w + " }"; else body = Str(x.shell ? "shell" : "exec") + " { " + ex + w + " }";
      Str c; for (auto &r : x.ins) if (refDecl(r)) c += refIf(r, refCons(r, x)); s = "run {\n  " + Str(x.always ? "always " : "") + body + "\n"; if (!c.empty()) s += "  consumes {" + c + " }\n"; s += "  produces { " + o0 + (x.outs.size() > 1 ? " " + x.outs[1] : "") + " }\n}";
      if (x.inSrc) s = "in-sources {\n" + s + "\n}";
    } else if (x.kind == R_FW || x.kind == R_FC) {
      Str v = "${" + x.loopVar + "}", pn = loopExpr(x, v); Str l; const Rule &lr = loopRoot(x);
      if (lr.kind == R_FW) { Str sv; for (auto &e : lr.list) sv += " " + rend(e); if (!x.listVar.empty()) { s += "set { " + x.listVar + sv + " }\n"; l = "${" + x.listVar + "}"; } else l = "set { _" + sv + " }"; } else { Str sv; for (auto &g : lr.gens) if (refOk(g)) sv += " " + rules[g.rule].outs[g.idx]; l = "set { _" + sv + " }"; }
      Str w; for (auto &e : x.words) w += " " + rend(e); Str in, c; for (auto &r : x.ins) if (refDecl(r)) { in += refIf(r, "-i " + refExec(r, x)); c += refIf(r, refCons(r, x)); }
      if (x.kind == R_FC && x.ofCc >= 0) { Str ce = loopExpr(rules[x.ofCc], v); in = " -i " + ce + (x.pm == 1 ? " -i " + v : "") + in; Str cc = x.idv & 1 ? "set { _ " + ce + " }" : ce; c = x.idv & 2 ? " " + cc + c : c + " " + cc; if (x.pm == 1) c = x.idv & 4 ? c + " " + v : " " + v + c; }
      else if (x.kind == R_FC) { in = " -i " + v + in; c = c + " " + v; } else w += " " + v;
      Str h = x.inSrc ? "in-sources {\n" : "";
      s += h + "foreach { " + x.loopVar + " " + l + "\nrun {\n  " + (x.always ? "always " : "") + "exec { gen -o " + pn + in + w + " }\n" + (c.empty() ? "" : "  consumes {" + c + " }\n") + "  produces { " + pn + " }\n}\n}" + (x.inSrc ? "\n}" : "");
    } else if (x.kind == R_CC) {
      Str sv; for (auto &e : x.list) sv += " " + rend(e); for (auto &g : x.gens) if (refDecl(g)) sv += refIf(g, "CC{" + rules[g.rule].outs[g.idx] + "}"); if (!x.srcVar.empty()) s += "set { " + x.srcVar + sv + " }\n";
      s += Str(x.cxx ? "cxx" : "cc") + " {\n  " + (x.srcVar.empty() ? "set { _" + sv + " }" : "${" + x.srcVar + "}") + "\n"; if (x.hasFlags) { Str f; for (auto &e : x.flags) f += " " + rend(e); s += x.flags.size() == 1 && x.flags[0].k != E_SPREAD && x.flags[0].k != E_IF ? "  " + rend(x.flags[0]) + "\n" : "  set { _" + f + " }\n"; } if (x.hasCc) s += "  " + rend(x.cc) + "\n";
      Str c; for (auto &g : x.gcons) if (refDecl(g)) c += refIf(g, g.rule < 0 ? refCons(g, x) : rules[g.rule].outs[g.idx]); if (!c.empty()) s += "  consumes {" + c + " }\n"; s += "  objects { " + x.objsVar + " }\n}";
    } else if (x.kind == R_LINK) { Str w; for (auto &e : x.words) w += " " + rend(e); const Str &ov = rules[x.ofCc].objsVar; s = "run {\n  exec { ld -o " + x.outs[0] + w + " ${" + ov + "} }\n  consumes { ${" + ov + "} }\n  produces { " + x.outs[0] + " }\n}"; }
    else if (x.kind == R_CONF) { Str t; for (size_t i = 0; i < x.ins.size(); ++i) if (refDecl(x.ins[i])) t += refIf(x.ins[i], x.ins[i].rule < 0 ? q1(x.tmplText[i]) : x.tmplText[i]); s = "configure {" + (x.listVar.empty() ? t : " set { _" + t + " }") + " }"; }
    else { Str f; for (auto &r : x.ins) if (refDecl(r)) f += refIf(r, refCons(r, x)); if (f.empty()) return ""; s = "install { " + (x.pm == 0 ? Str("^{${") + IDIRS[x.idv].var + strf("} /i%d}", x.id) : x.pm == 1 && x.id % 3 == 0 ? "^{${INSTALL_PREFIX} /" + q1(x.dir) + "}" : x.dir) + f + " }"; }
    if (x.cond == 9) return under(x.ct, s + "\n");
    if (x.cond) s = "if { " + condText(x) + "\n" + s + "\n}";
    return s + "\n";
  }
  // Macros: the text of a rule is divided into its nodes, some of them become arguments of a call.
  struct TN { Str head; bool gap = false, br = false; std::vector<TN> ch; };
  static bool parseTN(const Str &t, size_t &i, std::vector<TN> &o) {
    for (;;) { while (i < t.size() && isspace((unsigned char) t[i])) ++i; if (i >= t.size() || t[i] == '}') return true; if (t[i] == '{') return false; TN n; size_t b = i;
      if (t[i] == '\'' || t[i] == '"') { char q = t[i++]; while (i < t.size() && t[i] != q) i += t[i] == '\\' ? 2 : 1; if (i >= t.size()) return false; ++i; if (i < t.size() && !isspace((unsigned char) t[i]) && t[i] != '}') return false; }
      else { while (i < t.size() && !isspace((unsigned char) t[i]) && t[i] != '{' && t[i] != '}') { if (t[i] == '\\' || t[i] == '\'' || t[i] == '"') return false; ++i; } }
      n.head = t.substr(b, i - b); if (n.head.empty() || n.head.find('&') != Str::npos || n.head[0] == '#') return false; size_t j = i; while (j < t.size() && isspace((unsigned char) t[j])) ++j;
      if (j < t.size() && t[j] == '{' && t[b] != '\'' && t[b] != '"') { n.br = true; n.gap = j > i; i = j + 1; if (!parseTN(t, i, n.ch) || i >= t.size() || t[i] != '}') return false; ++i; }
      o.push_back(n); }
  }
  static Str textTN(const std::vector<TN> &v, const char *sep = " ") { Str s; for (auto &n : v) { if (!s.empty()) s += sep; s += n.head; if (n.br) s += (n.gap ? " { " : "{") + textTN(n.ch) + (n.gap ? " }" : "}"); } return s; }
  struct MacArgs { Strs a, b; int cur = 0; };
  static TN argTN(Rng &q, MacArgs &m, const TN &x, const TN *y) {
    Str t = textTN({ x }), t2 = y ? textTN({ *y }) : t; int k = -1; if (q.chance(70)) for (size_t i = 0; i < m.a.size(); ++i) if (m.a[i] == t && m.b[i] == t2) { k = i; break; }
    if (k < 0) { k = m.a.size(); m.a.push_back(t); m.b.push_back(t2); } TN r; r.head = "&"; if (k == m.cur && q.chance(60)) r.br = q.chance(40); else { r.br = true; TN c; c.head = strf("%d", k + 1); r.ch.push_back(c); } m.cur = k + 1; return r;
  }
  static std::vector<TN> absTN(Rng &q, MacArgs &m, const std::vector<TN> &v, int lvl) { std::vector<TN> o; for (auto &n : v) { bool e = n.head == "else"; if (!e && m.a.size() < 55 && q.chance(n.br ? lvl ? 5 : 2 : lvl > 1 ? 18 : 6)) { o.push_back(argTN(q, m, n, nullptr)); continue; } TN r = n; r.ch = absTN(q, m, n.ch, lvl + 1); o.push_back(r); } return o; }
  static bool diffTN(Rng &q, MacArgs &m, const std::vector<TN> &a, const std::vector<TN> &b, std::vector<TN> &o) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { const TN &x = a[i], &y = b[i]; if (x.head == y.head && x.br == y.br) { TN r = x; r.ch.clear(); MacArgs s = m; if (diffTN(q, m, x.ch, y.ch, r.ch)) { o.push_back(r); continue; } m = s; } if (x.head == "else" || y.head == "else" || m.a.size() >= 55) return false; o.push_back(argTN(q, m, x, &y)); } return true; }
  std::map<int, Str> hoist;   // definitions of macros, per unit they are placed in
  void macroText(const Rule &x, const Rule *y, std::map<int, Str> &calls, int u, const Rule *z = nullptr) {
    Rng q(mix(seed, "macrot", x.id)); Str t = renderRule(x) + (z ? renderRule(*z) : Str()), t2 = y ? renderRule(*y) : Str(); if (t.empty()) return; std::vector<TN> v, w, o; size_t i = 0; if (!parseTN(t, i, v) || i < t.size() || v.empty()) return; i = 0; if (y && (t2.empty() || !parseTN(t2, i, w) || i < t2.size())) return;
    Str pre, post; if (!y && !z && v.size() == 1 && v[0].head == "if" && v[0].ch.size() > 1 && q.chance(40)) { pre = "if { " + textTN({ v[0].ch[0] }) + "\n"; post = "}\n"; std::vector<TN> z(v[0].ch.begin() + 1, v[0].ch.end()); v = z; feat("call under a condition"); }
    MacArgs m; if (y) { if (!diffTN(q, m, v, w, o)) return; } else o = absTN(q, m, v, 0); for (auto &n : o) if (n.head == "&" && n.br == false && &n == &o[0]) return;
    Str nm = strf("MT%d", x.id), def = "macro { " + nm + "\n" + textTN(o, "\n") + "\n}\n"; auto args = [](const Strs &a) { Str r; for (auto &z : a) r += " " + z; return r; };
    if (!y && q.chance(20)) { // through another macro, which passes the arguments
      Str f, n2 = strf("MN%d", x.id); for (size_t k = 0; k < m.a.size(); ++k) f += q.chance(50) ? Str(" &") : strf(" &{%d}", (int) k + 1); def += "macro { " + n2 + "\ncall { " + nm + f + " }\n}\n"; nm = n2; feat("nested macro"); }
    hoist[u] += def; if (q.chance(15)) m.a.push_back("unused");
    calls[x.id] = pre + "call { " + nm + args(m.a) + " }\n" + post; feat("rule by a macro"); if (z) { calls[z->id] = ""; feat("two rules by a macro"); } if (y) { calls[y->id] = "call { " + nm + args(m.b) + " }\n"; feat("macro called twice"); }
  }
  // any other statement
  Str macroStmt(char kind, int id, const Str &t, int u) {
    Rng q(mix(seed, "macros", kind * 100000 + id)); if (t.empty() || !q.chance(pf.pMacro2 / 2)) return t; std::vector<TN> v, o; size_t i = 0; if (!parseTN(t, i, v) || i < t.size() || v.empty()) return t; MacArgs m; o = absTN(q, m, v, 0); if (o[0].head == "&" && !o[0].br) return t;
    Str nm = strf("MS%c%d", kind, id), def = "macro { " + nm + "\n" + textTN(o, "\n") + "\n}\n", a; for (auto &z : m.a) a += " " + z; if (q.chance(20)) { Str f, n2 = nm + "n"; for (size_t k = 0; k < m.a.size(); ++k) f += q.chance(50) ? Str(" &") : strf(" &{%d}", (int) k + 1); def += "macro { " + n2 + "\ncall { " + nm + f + " }\n}\n"; nm = n2; }
    hoist[u] += def; feat("other statement by a macro"); return "call { " + nm + a + " }\n";
  }
  Str scriptText(int u) {
    std::map<int, Str> calls; { std::vector<const Rule*> v; std::vector<int> pos; int at = 0; for (auto &o : units[u].order) { ++at; if (o.first == 1) { auto &x = rules[o.second]; if (present(x) && !x.macro && Rng(mix(seed, "macror", x.id)).chance(pf.pMacro2)) { v.push_back(&x); pos.push_back(at); } } }
      for (size_t i = 0; i < v.size(); ++i) { if (i + 1 < v.size() && pos[i + 1] == pos[i] + 1 && Rng(mix(seed, "macrom", v[i]->id)).chance(30)) { macroText(*v[i], nullptr, calls, u, v[i + 1]); if (calls.count(v[i]->id)) { ++i; continue; } } if (i + 1 < v.size() && v[i]->kind == v[i + 1]->kind && Rng(mix(seed, "macrop", v[i]->id)).chance(60)) { macroText(*v[i], v[i + 1], calls, u); if (calls.count(v[i]->id)) { ++i; continue; } } macroText(*v[i], nullptr, calls, u); } }
    Str s = "# generated\n"; for (auto &c : checks) if (c.alive && c.unit == u) { Str a; for (auto &e : c.args) a += " " + rend(e); Str t = baseName(c.script) + (a.empty() ? "" : " {" + a + " }"); Str ck; if (!c.ct.k) ck = "check { " + t + " }\n"; else if (c.ct.form & 4) ck = "check { if { " + condTextT(c.ct) + " " + t + " } }\n"; else ck = under(c.ct, "check { " + t + " }\n"); s += macroStmt('c', c.id, ck, u); }
    for (auto &x : rules) if (x.unit == u && x.macro && present(x)) s += strf("macro { M%d\n", x.id) + renderRule(x, true) + "}\n";
    for (auto &o : units[u].order) {
      if (o.first == 0 && vars[o.second].kind >= VK_META) { auto &d = vars[o.second]; if (!d.alive) continue; auto one = [&](const std::vector<Expr> &v) { Str nm = d.name, t; if (d.kind == VK_META) { nm = nm.substr(5); for (auto &c : nm) c = tolower(c); t = "meta { " + nm + " {"; } else t = "meta { let { " + nm; for (auto &e : v) t += " " + rend(e); return t + " } }\n"; }; Str el = one(d.alt); s += macroStmt('m', o.second, d.ct.k ? under(d.ct, one(d.vals), d.hasElse ? &el : nullptr) : one(d.vals), u); }
      else if (o.first == 0) { auto &d = vars[o.second]; if (!d.alive) continue; Str s0 = s; s.clear(); Str n = d.kind == VK_PARENT ? "parent { " + d.name + " }" : d.kind == VK_ROOT ? "root { " + d.name + " }" : d.name; s += Str(d.kind == VK_ENV ? "env { " : "set { ") + n; Str hd = s, el = s; for (auto &e : d.vals) s += " " + rend(e); s += " }\n"; for (auto &e : d.alt) el += " " + rend(e); el += " }\n"; s = s0 + macroStmt('v', o.second, d.ct.k ? under(d.ct, s, d.hasElse ? &el : nullptr) : s, u); }
      else if (o.first == 1) { auto &x = rules[o.second]; if (!present(x)) continue; if (x.macro) s += strf("call { M%d %s }\n", x.id, x.outs[0].c_str()); else if (calls.count(x.id)) s += calls[x.id]; else s += renderRule(x); }
      else if (o.first == 5) { auto &e = echoes[o.second]; Str t = strf("EB%d.", e.id); for (auto &x : e.w) t += " " + rend(x); t += strf(" EE%d.", e.id); static const char *ph[] = { "", "build", "setup", "init" }; t = e.phase ? Str("echo { ") + ph[e.phase] + " { " + t + " } }\n" : "echo { " + t + " }\n"; s += macroStmt('e', o.second, e.ct.k ? under(e.ct, t) : t, u); }
      else if (o.first == 4) { auto &e = errs[o.second]; s += macroStmt('r', o.second, under(e.ct, "error { refused ${D0} }\n"), u); }
      else if (o.first == 2) { if (units[o.second].alive) { Str in = "include { " + q1(Str(units[o.second].dir == units[u].dir ? "" : units[o.second].dir.substr(units[u].dir.size() + 1) + "/") + units[o.second].file) + " }\n"; s += macroStmt('i', o.second, units[o.second].ct.k ? under(units[o.second].ct, in) : in, u); } }
      else s += strf("set { PAD%d x }\n", o.second);
    }
    return s;
  }
  Str checkText(const Check &c) {
    Str s = "#!/bin/sh\nset -e\n"; bool bg = false;
    for (auto &a : c.acts) { if (!a.on) { s += "# off\n"; continue; } Str e = a.bg ? " &\n" : "\n"; bg |= a.bg;
      switch (a.k) {
        case 0: s += "autark set '" + a.var + "=" + a.val + "'" + e; break; case 1: s += "readf T " + a.file + "\nautark dep " + a.file + e + "autark set \"" + a.var + "=${T}\"" + e; break; case 2: s += "autark env " + a.env + e + "autark set \"" + a.var + "=${" + a.env + "}\"" + e; break;
        case 3: s += "autark dep " + a.file + "\nhas " + a.file + " yes && autark set " + a.var + "=" + a.val + "\n"; break; case 4: s += strf("say -n k%d -s %ld\n", c.id, a.n); break; case 5: s += "autark set \"" + a.var + "=${1}\"" + e; break; case 6: s += "autark env " + a.env + "\nnonempty \"${" + a.env + "}\" && autark set " + a.var + "=" + a.val + "\n"; break; } }
    return s + "wait\nexit 0\n";
  }
  void put(const Str &p, const Str &t, unsigned mode = 0644) { auto it = written.find(p); if (it != written.end() && it->second == t && S->hostGet(p)) return; S->hostWrite(p, t, mode); written[p] = t; }
  void writeScripts() { hoist.clear(); Strs tx; for (int u = 0; u < (int) units.size(); ++u) tx.push_back(scriptText(u)); for (int u = 0; u < (int) units.size(); ++u) put(units[u].dir + "/" + units[u].file, hoist[u] + tx[u]); for (auto &c : checks) { put(c.script, checkText(c), 0755);
      Rng q(mix(seed, "decoy", c.id)); if (!q.chance(35)) continue; Str d; // a script of the same name where it must not be found: farther than the right one, or in a directory which is not searched
      if (!c.inRoot) { int a = c.unit; while (a && q.chance(70)) a = units[a].parent; d = units[a].dir; }
      else { int a = q.below(units.size()); bool anc = false; for (int k = c.unit; ; k = units[k].parent) { if (units[k].dir == units[a].dir) anc = true; if (!k) break; } if (!anc) d = units[a].dir; }
      if (d.empty() || d == dirOf(dirOf(c.script)) || !S->hostGet(d)) continue; Str t = "#!/bin/sh\nset -e\n"; for (auto &a : c.acts) if (!a.var.empty()) t += "autark set '" + a.var + "=decoy'\n"; put(d + "/.autark/" + baseName(c.script), t + "exit 0\n", 0755); } }
  void writeAll() { S->hostMkdirs(ROOT); S->hostMkdirs("/w"); { Rng dq(mix(seed, "decoytool")); if (dq.chance(10)) { static const char *nm[] = { "gen", "say", "cc", "ld", "autark" }; Str d = udir(dq.below(units.size())) + "/" + nm[dq.below(5)]; if (dq.chance(50)) decoyDirs.push_back(d); else { genSrc(d, "txt"); noExec.insert(d); } feat("named like a command"); } } for (auto &d : decoyDirs) S->hostMkdirs(d); if (rootLnk) S->hostSymlink("p", "/w/ln"); if (!cacheLnk.empty()) { S->hostMkdirs(cacheDir); S->hostMkdirs(dirOf(cacheLnk)); S->hostSymlink(cacheLnk.size() & 1 ? cacheDir : relPath(dirOf(cacheLnk), cacheDir), cacheLnk); } if (!linkUnit.empty()) { S->hostMkdirs(linkReal); S->hostMkdirs(dirOf(linkUnit)); S->hostSymlink(linkReal, linkUnit); } for (auto &kv : src) { putAny(kv.first); } writeScripts(); }

  // ---- fingerprints
  Str mt(const Str &p) { InodeP i = S->hostGet(p); return p + strf("@%lld;", i ? (long long) (i->mtime / 1000) : -1LL); }
  Str unitF(int u) { Str s; for (int x = u; x >= 0; x = units[x].parent) s += mt(units[x].dir + "/" + units[x].file); return s; }
  Str ifTrace(const std::vector<Expr> &w, int u) { Str s; for (auto &e : w) if (e.k == E_IF) { s += condT(e.ct, u) ? "T" : "F"; s += ifTrace(condT(e.ct, u) ? e.a : e.b, u); } return s; } // which branches are in effect
  Str wordsF(const std::vector<Expr> &w, int u) { Str s; for (auto &e : w) if (e.k == E_IF) { s += condT(e.ct, u) ? "T" : "F"; s += wordsF(condT(e.ct, u) ? e.a : e.b, u); } else if (e.k != E_LIT) s += eval(e, u) + "\3"; return s; }
  Str refsF(const std::vector<Ref> &v) { Str s; for (auto &r : v) if (refOk(r)) s += mt(refPath(r)); for (auto &r : v) if (r.cu >= 0) s += refOk(r) ? "T" : "F"; return s; }
  std::map<Str, CmdF> cmds; std::map<Str, int> keyRule; std::map<Str, Str> keySrc;
  std::set<Str> progIdle;   // programs no rule in effect is known to need
  std::map<Str, const Expr*> progExpr; std::map<Str, int> progUnit;
  void fingerprints() {
    cmds.clear(); keyRule.clear(); keySrc.clear(); progExpr.clear(); progIdle.clear();
    auto add = [&](int rule, const Str &key, const Str &f, bool al = false) { CmdF c; c.key = key; c.f = f; c.always = al; cmds[key] = c; keyRule[key] = rule; };
    for (auto &x : rules) { if (!active(x)) continue; Str base = unitF(x.unit) + altF(x);
      if (x.kind == R_RUN) { Str f = base + wordsF(curWords(x), x.unit) + refsF(x.ins); add(x.id, "gen:" + outAbs(x, x.outs[0]), f, x.always); if (x.twoCmds) add(x.id, "gen:" + outAbs(x, x.outs[1]), f, x.always); for (auto &e : curWords(x)) if (e.k >= E_OUT) { progExpr[e.s] = &e; progUnit[e.s] = x.unit; } }
      else if (x.kind == R_FW || x.kind == R_FC) { Str f = base + wordsF(x.words, x.unit) + refsF(x.ins); if (loopRoot(x).kind == R_FW) f += evalSet(loopRoot(x).list, x.unit); auto li = loopItems(x); Strs raw = x.pm == 1 ? loopRaw(x) : Strs(); for (size_t n = 0; n < li.size(); ++n) { auto &i = li[n]; Str g = f + (x.kind == R_FC ? mt(normAbs(ucache(x.unit) + "/" + i.first)) : ""); if (x.pm == 1) g += mt(normAbs(ucache(x.unit) + "/" + raw[n])); add(x.id, "gen:" + outAbs(x, i.second), g, x.always); } }
      else if (x.kind == R_CC) { Str f = base + evalSet(ccList(x), x.unit) + "\3"; if (x.hasFlags) f += evalSet(curFlags(x), x.unit) + ifTrace(curFlags(x), x.unit); f += "\3" + ccName(x) + "\3" + refsF(x.gcons); { auto cv = lookup(x.cxx ? "CXX" : "CC", x.unit); f += cv ? "D" + *cv : Str("U"); } for (auto &s : ccSources(x)) { Strs inc; ccExpect(x, s, &inc); Str g = f + mt(s); std::sort(inc.begin(), inc.end()); for (auto &i : inc) g += mt(i); Str k = "cc:" + normAbs(ucache(x.unit) + "/" + objOf(x, s)); add(x.id, k, g); keySrc[k] = s; } }
      else if (x.kind == R_LINK) { Str f = base; const Rule &c = rules[x.ofCc]; for (auto &o : ccObjs(c)) f += mt(normAbs(ucache(x.unit) + "/" + o)); add(x.id, "ld:" + outAbs(x, x.outs[0]), f); }
      else if (x.kind == R_CONF) { Str f = base + refsF(x.ins), vals; for (size_t i = 0; i < x.ins.size(); ++i) if (refOk(x.ins[i])) vals += confKeys(x.templates[i], x.unit); for (size_t i = 0; i < x.outs.size(); ++i) if (refOk(x.ins[i])) add(x.id, "conf:" + outAbs(x, x.outs[i]), f + vals); }
    }
    for (auto &c : checks) if (checkOn(c)) { Str f = unitF(c.unit) + mt(c.script); for (auto &a : c.args) f += argEval(a) + "\3"; for (auto &a : c.acts) if (a.on) { if (a.k == 1 || a.k == 3) f += mt(a.file); if (a.k == 2 || a.k == 6) { auto e = E.find(a.env); f += e == E.end() ? Str("U") : "D" + e->second; f += "\3"; } } add(-1 - c.id, "check:" + c.script, f); }
    for (auto &d : vars) if (varOn(d)) for (auto &e : d.vals) if (e.k >= E_OUT && !progExpr.count(e.s)) { bool used = false; auto uses = [&](const std::vector<Expr> &v, int u) { for (auto &y : flat(v, u)) if ((y.k == E_VAR || y.k == E_SPREAD) && y.s == d.name && inChain(u, d.unit)) used = true; }; for (auto &x : rules) if (active(x)) { if (x.kind == R_RUN) uses(curWords(x), x.unit); else if (x.kind == R_CC && x.hasFlags) uses(curFlags(x), x.unit); } progExpr[e.s] = &e; progUnit[e.s] = d.unit; if (!used) progIdle.insert(e.s); }
    for (auto &kv : progExpr) { Str f = unitF(progUnit[kv.first]) + progArgs(*kv.second, progUnit[kv.first]); add(-100, "say:" + kv.first, f, kv.second->k == E_OUT); }
  }
  bool unitAlive(int u) { for (int x = u; x >= 0; x = units[x].parent) if (!units[x].alive || (units[x].ct.k && !condT(units[x].ct, units[x].parent))) return false; return true; }
  Str confKeys(const Str &t, int u) { Str d, s; contentOf(t, &d); size_t i = 0; while (i < d.size()) { size_t j = d.find('\n', i); if (j == Str::npos) j = d.size(); Str l = d.substr(i, j - i); i = j + 1; auto one = [&](const Str &k) { auto v = lookup(k, u); s += k + "=" + (v ? "D" + *v : Str("U")) + "\3"; }; if (l.compare(0, 12, "//autarkdef ") == 0) { size_t a = 12; while (a < l.size() && l[a] == ' ') ++a; size_t b = a; while (b < l.size() && l[b] != ' ' && l[b] != '\t') ++b; one(l.substr(a, b - a)); } else { size_t k = 0; for (;;) { size_t a = l.find('@', k); if (a == Str::npos) break; size_t b = l.find('@', a + 1); if (b == Str::npos) break; one(l.substr(a + 1, b - a - 1)); k = b + 1; } } } return s; }

  // ---- validity
  Str invalid() {     // reason why a build of the current tree has to fail
    for (auto &e : errs) if (unitAlive(e.unit) && condT(e.ct, e.unit)) return "error rule in effect";
    for (auto &x : rules) { if (!active(x)) continue; if (x.badCmd) return strf("rule %d has no such command", x.id);
      for (auto *v : { &x.ins, &x.gcons }) for (auto &r : *v) if (r.rule < 0 && refOk(r) && !S->hostGet(r.src, false)) return "missing source " + r.src; if (x.kind == R_CONF) for (auto &r : x.ins) if (r.rule < 0 && refOk(r) && !S->hostGet(r.src)) return "missing template " + r.src;
      for (auto &e : curWords(x)) if (e.k >= E_OUT && !e.file.empty() && !S->hostGet(e.file)) return "missing " + e.file;
      if (x.kind == R_CC) for (auto &s : ccSources(x)) { if (!ccExpect(x, s)) return "source does not compile: " + s; } }
    return "";
  }

  // ---- operations between builds
  // The clock of the machine may be set back and corrected later. Times of different eras never meet.
  int era = -1; long ticks = 0;
  void clockJump() { if (era < 0) era = Rng(mix(seed, "clock")).chance(12) ? 1 : 0; if (!era) return; Rng c(mix(seed, "clockat", ++ticks)); if (!c.chance(15)) return; if (S->wall && c.chance(50)) { S->wall = 0; feat("clock corrected"); note("clock corrected"); } else if (era < 6) { S->wall = -(S->now - 1700000000ll * 1000000000ll) - era * 86400ll * 400 * 1000000000ll; ++era; feat("clock set back"); note("clock set back"); } }
  void tick(Rng &q) { clockJump(); S->now += 2000000 + (int64_t) q.below(q.chance(30) ? 4000000000ll : 9000000); }
  Str pickPath(Rng &q, const char *k1, const char *k2 = "") { Strs v; for (auto &kv : src) if (kv.second.kind == k1 || kv.second.kind == k2) v.push_back(kv.first); if (v.empty()) return ""; return v[q.below(v.size())]; }
  std::vector<std::function<void()>> undo;
  void op(int build, int k) {
    int id = build * 16 + k; Rng q(mix(seed, "op", build, k)); tick(q); R.opIds.push_back(id); if (mk.ops.count(id)) return;
    struct W { const char *n; int w; }; W ws[] = { { "src", pf.wSrc }, { "revert", pf.wRevert }, { "var", pf.wVar }, { "D", pf.wD }, { "env", pf.wEnv }, { "inc", pf.wInc }, { "list", pf.wList }, { "add", pf.wAdd }, { "del", pf.wDel }, { "order", pf.wOrder }, { "check", checks.empty() ? 0 : pf.wCheck }, { "words", pf.wWords }, { "touch", pf.wTouch }, { "stray", pf.wStray }, { "mode", pf.wMode }, { "both", pf.wBoth }, { "toggle", pf.wToggle } };
    int tot = 0; for (auto &w : ws) tot += w.w; int x = q.below(tot); Str n; for (auto &w : ws) if ((x -= w.w) < 0) { n = w.n; break; }
    Str d;
    if (n == "src" && q.chance(12)) for (auto &kv : src) if (kv.second.kind == "lnk" && S->hostGet(kv.first, false)) { auto &f = kv.second; f.hist.push_back({ strf("%d", f.ver), "" }); ++f.ver; putLnk(kv.first); n = "lnk"; d = "link " + kv.first + strf(" -> target%d", f.ver); feat("retargeted link"); break; }
    if (n == "lnk") ; else if (n == "src") { Strs v; for (auto &kv : src) if (kv.second.kind != "lnk" && S->hostGet(kv.first)) v.push_back(kv.first); if (v.empty()) return; Str p = v[q.below(v.size())]; auto &f = src[p]; f.hist.push_back({ strf("%d", f.ver), "" }); ++f.ver; f.err = false; putAny(p); d = "edit " + p + strf(" -> v%d", f.ver); if (Rng(mix(seed, "older", id)).chance(8)) { if (auto i = S->hostGet(p)) { i->mtime = (900000000ll + id) * 1000000000ll; d += " (an older file)"; feat("replaced by an older file"); } } }
    else if (n == "revert") { Strs v; for (auto &kv : src) if (!kv.second.hist.empty()) v.push_back(kv.first); if (v.empty()) { auto it = D.begin(); if (it == D.end()) return; return; } Str p = v[q.below(v.size())]; auto &f = src[p]; f.ver = atoi(f.hist.back().first.c_str()); f.hist.pop_back(); putAny(p); d = "revert " + p + strf(" -> v%d", f.ver); }
    else if (n == "both") { // a source and a file it includes at once
      Strs v; for (auto &kv : src) if (kv.second.kind == "c") for (auto &i : kv.second.incs) if (src.count(dirOf(kv.first) + "/" + i)) { v.push_back(kv.first); break; } if (v.empty()) return; Str p = v[q.below(v.size())]; Strs hs; for (auto &i : src[p].incs) if (src.count(dirOf(p) + "/" + i)) hs.push_back(dirOf(p) + "/" + i);
      Str h = hs[q.below(hs.size())]; ++src[h].ver; putAny(h); if (q.chance(50)) tick(q); ++src[p].ver; src[p].err = false; putAny(p); d = "edit " + p + " and " + h; }
    else if (n == "toggle") { std::vector<int> v; for (auto &x : rules) if (present(x) && x.cond) v.push_back(x.id); if (v.empty()) return; auto &x = rules[v[q.below(v.size())]]; Str c = x.condVar; if (c[0] == 'E') { if (E.count(c) && E[c] == "on") { if (q.chance(50)) E.erase(c); else E[c] = "x1"; } else E[c] = "on"; } else { if (c[0] == 'K') c = "DC0"; if (D.count(c) && D[c] == "on") { if (q.chance(50)) D.erase(c); else D[c] = q.chance(50) ? "" : "0"; } else D[c] = "on"; } d = "toggle " + c; }
    else if (n == "touch") { Str p = pickPath(q, "txt", "h"); if (p.empty()) return; S->hostTouch(p); d = "touch " + p; }
    else if (n == "stray") { Str p = ROOT + strf("/stray%d.txt", (int) q.below(3)); S->hostWrite(p, strf("stray %d", build)); d = "unrelated file " + p; }
    else if (n == "mode") { Str p = pickPath(q, "tmpl", "txt"); if (p.empty()) return; auto &f = src[p]; static unsigned m[] = { 0644, 0755, 0600, 0640 }; f.mode = m[q.below(4)]; if (noExec.count(p)) f.mode &= ~0111u; ++f.ver; putAny(p); d = "edit and chmod " + p + strf(" %o", f.mode); }
    else if (n == "D") { Strs v = dNames; v.push_back("DCC"); if (q.chance(30)) v.push_back("CC"); Str nm = v[q.below(v.size())]; Str old = D.count(nm) ? "'" + D[nm] + "'" : "unset"; if (undoD.count(nm) && q.chance(30)) { auto o = undoD[nm]; if (o) { std::optional<Str> c; if (D.count(nm)) c = D[nm]; D[nm] = *o; undoD[nm] = c; } else { std::optional<Str> c; if (D.count(nm)) c = D[nm]; D.erase(nm); undoD[nm] = c; } }
      else { std::optional<Str> c; if (D.count(nm)) c = D[nm]; undoD[nm] = c; setD(q, nm); } d = "option " + nm + " " + old.substr(0, 60) + " -> " + (D.count(nm) ? "'" + D[nm].substr(0, 60) + "'" : "unset"); }
    else if (n == "env") { Str nm = eNames[q.below(eNames.size())]; if (q.chance(25)) E.erase(nm); else if (q.chance(15)) E[nm] = ""; else E[nm] = dHost[nm] ? nl(q, scalar(q, true)) : scalar(q, false); d = "environment " + nm + (E.count(nm) ? "='" + E[nm].substr(0, 60) + "'" : " unset"); }
    else if (n == "var") { std::vector<int> v; for (int i = 0; i < (int) vars.size(); ++i) if (vars[i].alive) v.push_back(i); if (v.empty()) return; auto &vd = vars[v[q.below(v.size())]]; std::vector<int> li; for (int i = 0; i < (int) vd.vals.size(); ++i) if (vd.vals[i].k == E_LIT) li.push_back(i); if (!li.empty()) vd.vals[li[q.below(li.size())]].s = tok(q) + "x"; else if (vd.list) vd.vals.push_back(lit(tok(q))); else return; d = "set " + vd.name; }
    else if (n == "list") { std::vector<int> v; for (auto &x : rules) if (present(x) && (x.kind == R_FW || x.kind == R_FC || x.kind == R_CC)) v.push_back(x.id); if (v.empty()) { for (auto &vd : vars) if (vd.alive && vd.list && q.chance(50)) { if (q.chance(50) || vd.vals.size() < 3) vd.vals.push_back(lit(tok(q))); else { for (size_t i = 0; i < vd.vals.size(); ++i) if (vd.vals[i].k == E_LIT) { vd.vals.erase(vd.vals.begin() + i); break; } } d = "list " + vd.name; break; } if (d.empty()) return; }
      else { auto &x = rules[v[q.below(v.size())]]; Str dyn; for (auto &e : x.list) if (e.k == E_SPREAD) dyn = e.s; if (!dyn.empty() && q.chance(65)) { setD(q, dyn); d = "option " + dyn + "='" + (D.count(dyn) ? D[dyn] : "unset") + "'"; }
        else if (x.kind == R_FW) { if (x.list.size() > 2 && q.chance(50) && x.list[0].k == E_LIT) { x.list.erase(x.list.begin()); d = strf("rule %d: item removed", x.id); } else { x.list.insert(x.list.begin(), lit(strf("n%d_%d", build, k))); d = strf("rule %d: item added", x.id); } }
        else if (x.kind == R_FC) { if (x.gens.size() > 1) { x.gens.erase(x.gens.begin() + q.below(x.gens.size())); d = strf("rule %d: item removed", x.id); } else return; }
        else { if (x.list.size() > 1 && x.list[0].k == E_LIT && q.chance(50)) { x.list.erase(x.list.begin()); d = strf("rule %d: source removed", x.id); } else { Str nm = strf("c%d_n%d_%d.%s", x.id, build, k, x.cxx ? "cpp" : "c"); Str p = udir(x.unit) + "/" + nm; genSrc(p, "c"); putAny(p); x.list.insert(x.list.begin(), lit(nm)); d = strf("rule %d: source %s added", x.id, nm.c_str()); } } } }
    else if (n == "inc") { Strs v; for (auto &kv : src) if (kv.second.kind == "c" || kv.second.kind == "h") v.push_back(kv.first); if (v.empty()) return; Str p = v[q.below(v.size())]; auto &f = src[p]; int u = 0; for (int i = 0; i < (int) units.size(); ++i) if (units[i].dir == dirOf(p)) u = i;
      Strs cand; for (auto &h : hdrs[u]) { if (!S->hostGet(h)) continue; if (f.kind == "h" && !(baseName(h) > baseName(p))) continue; bool has = false; for (auto &i : f.incs) if (i == baseName(h)) has = true; if (!has) cand.push_back(baseName(h)); }
      int w = q.below(4);
      if (w == 0 && f.kind == "h" && baseName(dirOf(p)) != "same") { // delete the header everywhere
        Str b = baseName(p); int users = 0; for (auto &x : rules) for (auto &i : x.lineIncs) if (i == b) return; for (auto &kv : src) { auto &g = kv.second; auto it = std::find(g.incs.begin(), g.incs.end(), b); if (it != g.incs.end()) { g.incs.erase(it); ++g.ver; g.hist.clear(); putAny(kv.first); ++users; } } S->hostUnlink(p); for (auto &kv : hdrs) kv.second.erase(std::remove(kv.second.begin(), kv.second.end(), p), kv.second.end()); src.erase(p); written.erase(p); d = "header " + b + strf(" removed from %d files and deleted", users); }
      else if (w == 1 && !f.incs.empty()) { int i = q.below(f.incs.size()); d = "include " + f.incs[i] + " removed from " + p; f.incs.erase(f.incs.begin() + i); putAny(p); }
      else if (!cand.empty()) { Str c = cand[q.below(cand.size())]; f.incs.insert(f.incs.begin() + q.below(f.incs.size() + 1), c); putAny(p); d = "include " + c + " added to " + p; }
      else { ++f.ver; putAny(p); d = "edit " + p; } }
    else if (n == "add") { std::vector<int> v; for (auto &x : rules) if (!x.alive && !x.masked) v.push_back(x.id); if (v.empty()) return; int i = v[q.below(v.size())]; rules[i].alive = true; d = strf("rule %d added", i); }
    else if (n == "del") { std::vector<int> v; for (auto &x : rules) if (x.alive && x.leaf && !x.masked && x.kind != R_CC) v.push_back(x.id); if (v.size() < 2) return; int i = v[q.below(v.size())]; rules[i].alive = false; d = strf("rule %d removed", i); }
    else if (n == "order") { int u = q.below(units.size()); auto &o = units[u].order; std::vector<size_t> nv; for (size_t i = 0; i < o.size(); ++i) if (o[i].first != 0) nv.push_back(i); if (q.chance(40) || nv.size() < 2) { o.insert(o.begin() + q.below(o.size() + 1), { 3, build * 16 + k }); } else { size_t a = nv[q.below(nv.size())], b = nv[q.below(nv.size())]; std::swap(o[a], o[b]); } d = strf("script of unit %d rearranged", u); }
    else if (n == "check") { auto &c = checks[q.below(checks.size())]; auto &a = c.acts[q.below(c.acts.size())]; int w = q.below(5);
      if (w == 0) { a.on = !a.on; d = strf("check %d: act %s ", c.id, a.var.c_str()) + (a.on ? "on" : "off"); } else if (w == 1) { S->hostTouch(c.script); d = "touch " + c.script; } else if ((a.k == 1 || a.k == 3)) { auto &f = src[a.file]; f.hist.push_back({ strf("%d", f.ver), "" }); ++f.ver; putAny(a.file); d = "edit " + a.file; } else if (a.k == 2 || a.k == 6) { if (q.chance(30)) E.erase(a.env); else if (q.chance(20)) E[a.env] = ""; else E[a.env] = dHost[a.env] ? nl(q, scalar(q, true)) : scalar(q, false); d = "environment " + a.env; } else if (a.k == 0) { a.val = scalar(q, false); d = "check script value " + a.var; } else if (a.k == 5) { setD(q, "D0"); d = "option D0"; } else return; }
    else if (n == "words") { std::vector<int> v; for (auto &x : rules) if (present(x) && (x.kind == R_RUN || x.kind == R_FW || x.kind == R_FC)) v.push_back(x.id); if (v.empty()) return; auto &x = rules[v[q.below(v.size())]]; bool done = false; for (auto &e : x.words) if (e.k == E_LIT) { e.s = tok(q) + "z"; done = true; break; } if (!done) x.words.insert(x.words.begin(), lit(tok(q))); d = strf("rule %d: words changed", x.id); }
    if (!d.empty()) { feat(("op." + n).c_str()); note(strf("build %d op %d: ", build, id) + d); }
  }
  std::map<Str, std::optional<Str>> undoD;
  void setD(Rng &q, const Str &nm) {
    if (nm.compare(0, 2, "DT") == 0) { if (D.count(nm) && q.chance(50)) { D.erase(nm); return; } static const char *t[] = { "say", "tell", "/usr/bin/tell", "/usr/bin/say" }; D[nm] = t[q.below(4)]; return; }
    if (nm == "CC" || nm == "DCC") { if (D.count(nm)) D.erase(nm); else D[nm] = q.chance(70) ? "clang" : "cc"; return; }
    if (q.chance(18)) { D.erase(nm); return; }
    if (nm == "DL0") D[nm] = listOpt(q, "d"); else if (nm == "DF0") D[nm] = listOpt(q, "-f"); else if (nm.compare(0, 2, "DK") == 0) D[nm] = dkVal(q); else if (nm.compare(0, 2, "DX") == 0) D[nm] = listOpt(q, "e"); else if (nm.compare(0, 2, "DS") == 0) D[nm] = dsVal(q, atoi(nm.c_str() + 2)); else if (nm.compare(0, 2, "DC") == 0) D[nm] = D.count(nm) && D[nm] == "on" ? (q.chance(50) ? "0" : "off") : q.chance(20) ? "" : "on"; else D[nm] = q.chance(15) ? "" : scalar(q, dHost[nm]);
  }
  // ---- products of the project now: path -> rule
  std::map<Str, int> products() {
    std::map<Str, int> m; for (auto &x : rules) { if (!active(x)) continue; if (x.kind == R_CC) { for (auto &s : ccSources(x)) m[normAbs(ucache(x.unit) + "/" + objOf(x, s))] = x.id; } else if (x.kind == R_FW || x.kind == R_FC) { for (auto &i : loopItems(x)) m[outAbs(x, i.second)] = x.id; } else if (x.kind != R_INSTALL) for (size_t i = 0; i < x.outs.size(); ++i) if (x.kind != R_CONF || refOk(x.ins[i])) m[outAbs(x, x.outs[i])] = x.id; }
    return m;
  }
  std::optional<Str> expectAny(const Str &p, int id) {
    Rule &x = rules[id];
    if (x.kind == R_CC) { for (auto &s : ccSources(x)) if (normAbs(ucache(x.unit) + "/" + objOf(x, s)) == p) return ccExpect(x, s); return std::nullopt; }
    if (x.kind == R_FW || x.kind == R_FC) { std::vector<std::pair<Str, Str>> in; if (!gather(x.ins, &in)) return std::nullopt; for (auto &i : loopItems(x)) if (outAbs(x, i.second) == p) { Strs w = wordsOf(x); if (x.kind == R_FW) { w.push_back(i.first); return genContent(i.second, {}, w, in); } Str d; if (x.ofCc >= 0) { auto e = expect(normAbs(ucache(x.unit) + "/" + i.first)); if (!e) return std::nullopt; d = *e; } else if (!contentOf(normAbs(ucache(x.unit) + "/" + i.first), &d)) return std::nullopt; if (x.pm == 1) { Str e, rp; for (auto &y : loopRaw(x)) if (loopProd(x, y) == i.second) rp = y; if (!contentOf(normAbs(ucache(x.unit) + "/" + rp), &e)) return std::nullopt; in.insert(in.begin(), { baseName(rp), e }); } in.insert(in.begin(), { baseName(i.first), d }); return genContent(i.second, {}, w, in); } return std::nullopt; }
    return expect(p);
  }

  // ---- one build
  bool lastFaulted = false; bool prevOk = false;
  struct Plan { int jobs = 4, how = 0; bool verbose = false, clean = false, install = false, list = false; std::map<Str, int> fail; Str noTool; };
  Str cacheText(int how) { if (!cacheLnk.empty()) { Str l = cacheLnk; switch (how) { case 1: return l; case 2: return "./" + relPath(ROOT, l); case 3: return relPath(ROOT, l) + "/"; case 4: return l + "/."; } return relPath(ROOT, l); } Str rel = cacheDir.compare(0, ROOT.size() + 1, ROOT + "/") == 0 ? cacheDir.substr(ROOT.size() + 1) : "../" + cacheDir.substr(3); switch (how) { case 1: return cacheDir; case 2: return "./" + rel; case 3: return rel + "/"; case 4: return cacheDir + "/."; } return rel; }
  Str prefixR() { return prefix == "/w/il" ? Str("/w/inst3") : prefix; }
  // a relative prefix is taken from the directory autark is started in
  Str prefixText(int how) { Str tail = prefix.substr(3); switch (how) { case 0: return "../" + tail; case 1: return "w/./" + tail; case 2: return tail + "/"; default: return prefix; } }
  void command(const Plan &pl, Strs *argv, Strs *env, Str *cwd); void listOptions(int b, Plan pl); void foreignBuild(int b, Plan pl, Rng &q);
  void build(int b, const Plan &pl, std::vector<Fault*> faults, bool lastNoop);
};

static int occurrences(const Str &h, const Str &n) { int c = 0; size_t i = 0; while ((i = h.find(n, i)) != Str::npos) { ++c; i += n.size(); } return c; }
static Str clip(const Str &s, size_t n = 160) { Str o; for (char c : s.substr(0, n)) o += c == '\n' ? '~' : c < ' ' ? '^' : c; return s.size() > n ? o + "..." : o; }

void World::command(const Plan &pl, Strs *av, Strs *ev, Str *cw) {
  Strs &argv = *av, &env = *ev; Str &cwd = *cw; std::vector<Strs> opts; Rng oq(mix(seed, "option forms", curBuild)); bool plainForms = !oq.chance(pf.pInvoke); auto form = [&](int n) { int k = oq.below(n); return plainForms ? 0 : k; };
  auto with = [&](const char *sh, const char *lg, const Str &v) { switch (form(4)) { case 1: opts.push_back({ sh, v }); break; case 2: opts.push_back({ Str(lg) + "=" + v }); break; case 3: opts.push_back({ lg, v }); break; default: opts.push_back({ sh + v }); } };
  auto flag = [&](const char *sh, const char *lg) { opts.push_back({ form(2) ? lg : sh }); };
  with("-J", "--jobs", strf("%d", pl.jobs)); int vf = form(3); if (pl.verbose && vf < 2) opts.push_back({ vf ? "--verbose" : "-V" }); if (pl.clean) flag("-c", "--clean"); if (pl.install) { if (!prefixGiven || !form(3)) flag("-I", "--install"); if (prefixGiven) with("-R", "--prefix", prefixText(pl.how)); } for (int i = 0; i < 6; ++i) if (idir[i] != IDIRS[i].dflt) { Str o = IDIRS[i].opt; if (form(2)) { o.pop_back(); opts.push_back({ o, idir[i] }); } else opts.push_back({ o + idir[i] }); }
  if ((cacheLnk.empty() ? cacheDir : cacheLnk) != ROOT + "/autark-cache") with("-H", "--cache", cacheText(pl.how)); else if (pl.how == 3) opts.push_back({ "--cache=./autark-cache/" });
  for (auto &kv : D) { Str v = kv.first + (kv.second.empty() && (kv.first.size() & 1) ? "" : "=" + kv.second); if (form(3) == 1) opts.push_back({ "-D", v }); else opts.push_back({ "-D" + v }); }
  if (pl.list) flag("-l", "--options"); if (form(3)) for (int i = opts.size() - 1; i > 0; --i) std::swap(opts[i], opts[oq.below(i + 1)]); // in any order
  argv = { "/opt/ak/autark" }; for (auto &o : opts) for (auto &w : o) argv.push_back(w);
  cwd = ROOT; switch (pl.how) { case 1: cwd = "/"; argv.push_back(rootLnk ? "/w/ln" : ROOT); break; case 2: cwd = "/w"; argv.push_back(rootLnk ? "./ln/" : "p"); break; case 3: if (rootLnk) cwd = "/w/ln"; argv.push_back("."); break; case 4: for (auto &u : units) if (u.dir != ROOT && S->hostGet(u.dir) && realp(u.dir) == u.dir) { cwd = u.dir; Str up = ".."; for (char c : u.dir.substr(ROOT.size() + 1)) if (c == '/') up += "/.."; if (rootLnk) { cwd = "/w/ln" + u.dir.substr(ROOT.size()); } argv.push_back(up); break; } break; }
  Str path = "PATH=/usr/bin:/bin"; env.clear(); switch (form(5)) { case 1: path += ":/opt/ak"; argv[0] = "autark"; break; case 2: argv[0] = "autark"; env.push_back("AUTARK_HOME=/opt/ak"); break; case 3: if (cwd.compare(0, 5, "/w/ln")) argv[0] = relPath(cwd, "/opt/ak/autark"); break; }
  if (plainForms) argv[0] = "/opt/ak/autark"; env.push_back(path); env.push_back("HOME=/home/u"); if (pl.verbose && vf == 2) env.push_back("AUTARK_VERBOSE=1"); for (auto &kv : E) env.push_back(kv.first + "=" + kv.second); Rng q(mix(seed, "odd environment")); if (q.chance(4)) env.insert(env.begin() + q.below(env.size() + 1), "NOVALUE"); // an entry without `='
}
// `autark -l`: lists options of the project, which evaluates the scripts and executes check scripts but no rule
void World::listOptions(int b, Plan pl) {
  curBuild = b; TW.fail.clear(); pl.list = true; pl.clean = false; bool was = installOn; installOn = pl.install; Str cwd; Strs argv, env; command(pl, &argv, &env, &cwd); note(strf("build %d: options listed before", b));
  size_t e0 = S->execs.size(), m0 = S->muts.size(); auto res = S->runBuild(b, argv, env, cwd, {}); feat("option listing");
  if (res.cap || res.deadlock) viol("hang", strf("build %d: listing options did not end", b)); if (res.crashed || !res.exited) { viol("crash", strf("build %d: listing options crashed: ", b) + res.why); return; }
  memo.clear(); evalChecks(); memo.clear(); fingerprints();
  if (res.code != 0) { size_t i = res.err.size() > 300 ? res.err.size() - 300 : 0; viol("refused", strf("build %d: listing options ended with code %d: ", b, res.code) + res.err.substr(i)); }
  if (res.orphans) viol("orphan", "command left running after listing options");
  for (size_t i = m0; i < S->muts.size(); ++i) { auto &m = S->muts[i]; if (!m.autark || m.path.compare(0, 9, "(deleted)") == 0) continue; if (m.path != cacheDir && m.path.compare(0, cacheDir.size() + 1, cacheDir + "/") && cacheDir.compare(0, m.path.size() + 1, m.path + "/")) { viol("outside", strf("build %d: listing options: %s of %s", b, m.op, m.path.c_str())); break; } }
  for (size_t i = e0; i < S->execs.size(); ++i) { auto &x = S->execs[i]; Str t = x.tag.substr(0, x.tag.find(':')); if (t == "gen" || t == "cc" || t == "ld") viol("extra.run", strf("build %d: listing options executed %s", b, x.tag.c_str()), x.tag); if (t == "check") { bool args = false; for (auto &c : checks) if ("check:" + c.script == x.tag) args = !c.args.empty(); auto it = cmds.find(x.tag); KState &st = ks[x.tag]; if (it == cmds.end() || args || !WIFEXITED(x.status) || WEXITSTATUS(x.status)) st = KState(); else { if (st.known && !st.failed && st.f == it->second.f) viol("extra.check", strf("build %d: listing options executed %s although nothing it depends on changed", b, x.tag.c_str()), x.tag); st.known = true; st.failed = false; st.f = it->second.f; } } if (t == "say" && !(x.tag[4] == 'k' && x.tag.size() > 5 && isdigit(x.tag[5]))) viol("extra.cout", "listing options executed " + x.tag, x.tag); }
  installOn = was;
}
void World::build(int b, const Plan &pl, std::vector<Fault*> faults, bool lastNoop) {
  curBuild = b; installOn = pl.install; TW.fail = pl.fail;
  Str cwd; Strs argv, env; command(pl, &argv, &env, &cwd);
  { Str f; for (auto &kv : pl.fail) f += " " + kv.first + strf("=%d", kv.second); note(strf("build %d: J=%d%s%s%s%s", b, pl.jobs, pl.clean ? " clean" : "", pl.install ? " install" : "", pl.fail.empty() ? "" : " failing:", f.c_str())); }
  Strs planted; auto coutsWas = couts; if (pl.clean) { S->hostMkdirs(cacheDir); S->hostWrite(cacheDir + "/old/x.txt", "old"); S->hostWrite(cacheDir + "/.autark-dist/keep", "keep"); S->hostSymlink(ROOT, cacheDir + "/old/link"); S->hostSymlink("/w", cacheDir + "/link2"); planted = { cacheDir + "/old/x.txt", cacheDir + "/old/link", cacheDir + "/link2" }; for (auto &kv : ks) kv.second = KState(); for (auto &kv : couts) kv.second = CoutSt(); }
  std::map<Str, Str> before; std::set<Str> inSrcProd; for (auto &kv : prod) if (rules[kv.second.first].inSrc) inSrcProd.insert(realp(kv.first)); auto loopSrc = [&](const Str &p) { for (auto &x : rules) if (x.kind == R_FW && x.inSrc && p.compare(0, 1, "/") == 0 && dirOf(p) == udir(x.unit) && baseName(p).compare(0, strf("f%d_", x.id).size(), strf("f%d_", x.id)) == 0) return true; return false; }; { Strs v; S->walk("/w", v); for (auto &p : v) if (loopSrc(p)) inSrcProd.insert(p); }
  { Strs v; S->walk("/w", v); for (auto &p : v) if (p.compare(0, cacheDir.size() + 1, cacheDir + "/") && p.compare(0, prefixR().size() + 1, prefixR() + "/") && !inSrcProd.count(p)) { InodeP i = S->hostGet(p, false); before[p] = i->data + strf("#%o#%lld", i->mode, (long long) i->mtime); } }
  size_t e0 = S->execs.size(), m0 = S->muts.size();
  auto res = S->runBuild(b, argv, env, cwd, faults);
  bool fired = false, killed = false; for (auto *f : faults) if (f->fired) { fired = true; ++R.faultsFired; if (f->act == FA_KILL_MAIN || f->act == FA_KILL_GROUP) killed = true; }
  bool anyFault = fired; R.builds++; if (res.code == 0 && res.exited) R.okBuilds++; else R.failBuilds++;
  S->log("[%ld] build %d ended: code %d", S->steps, b, res.code);

  // hygiene, valid for every build
  if (res.cap) viol("hang", strf("build %d did not end within the step limit", b));
  if (res.deadlock) viol("hang", strf("build %d is deadlocked", b));
  if (res.crashed) viol("crash", strf("build %d crashed: ", b) + res.why);
  else if (!res.exited && !killed && !res.cap && !res.deadlock) viol("crash", strf("build %d died from signal %d", b, WTERMSIG(res.wstatus)));
  for (size_t i = e0; i < S->execs.size(); ++i) { auto &x = S->execs[i]; if (x.prog == "/opt/ak/autark" && x.done && WIFSIGNALED(x.status) && !killed && WTERMSIG(x.status) != SIGPIPE) viol("crash", strf("build %d: autark %s died from signal %d", b, x.argv.size() > 1 ? x.argv[1].c_str() : "", WTERMSIG(x.status))); }
  if (res.cap || res.deadlock || res.crashed) { lastFaulted = true; for (auto &kv : ks) kv.second = KState(); for (auto &kv : couts) { kv.second.known = false; } return; }
  int maxRuleJobs = pl.jobs <= 0 ? 4 : pl.jobs; if (res.maxFd > 40) viol("fd", strf("build %d held %d descriptors", b, res.maxFd));
  bool ccFatal = res.code != 0; if (!killed && res.orphans > 0 && !(ccFatal && anyFault)) { bool onlyCc = ccFatal; if (!onlyCc) viol("orphan", strf("build %d ended while %d commands were running", b, res.orphans)); else { bool run = false; for (size_t i = e0; i < S->execs.size(); ++i) { auto &x = S->execs[i]; if (x.ppid == res.pid && x.tag.compare(0, 3, "cc:") != 0 && x.tEnd > 0 && false) run = true; } if (run) viol("orphan", "command left running"); if (!anyFault) viol("orphan", strf("build %d failed while %d commands were still running", b, res.orphans)); } }
  if (!killed && res.code == 0 && res.zombies > 0) viol("zombie", strf("build %d left %d unreaped processes", b, res.zombies));

  // who ran
  memo.clear(); evalChecks();
  std::vector<ExecRec*> ex; for (size_t i = e0; i < S->execs.size(); ++i) ex.push_back(&S->execs[i]); R.execs += ex.size();
  // remembered program output: the last complete execution for given arguments
  memo.clear(); fingerprints();
  auto okRun = [](ExecRec *x) { return x->done && WIFEXITED(x->status) && WEXITSTATUS(x->status) == 0; };
  for (auto *x : ex) if (x->tag.compare(0, 4, "say:") == 0) { Str tg = x->tag.substr(4); auto it = progExpr.find(tg); if (it == progExpr.end() || it->second->k != E_COUT) continue; auto &c = couts[tg]; Str a = progArgs(*it->second, progUnit[tg]); if (okRun(x)) { c.byArgs[a] = progOut(*it->second, progUnit[tg]); c.failed = false; } else c.failed = true; }
  if (pl.clean && (killed || res.code != 0)) for (auto &kv : coutsWas) for (auto &v : kv.second.byArgs) couts[kv.first].byArgs.insert(v); // the cleanup may be incomplete
  memo.clear(); fingerprints();

  std::map<Str, std::vector<ExecRec*>> runs; for (auto *x : ex) if (!x->tag.empty()) runs[x->tag].push_back(x);
  std::map<Str, bool> rewritten; std::map<Str, Str> confKey; for (auto &kv : cmds) if (kv.first.compare(0, 5, "conf:") == 0) confKey[kv.first.substr(5)] = kv.first;
  for (size_t i = m0; i < S->muts.size(); ++i) { auto &m = S->muts[i]; if (!m.autark) continue; auto it = confKey.find(m.path); if (it != confKey.end() && (!strcmp(m.op, "create") || !strcmp(m.op, "openw") || !strcmp(m.op, "trunc") || !strcmp(m.op, "rename-to"))) rewritten[it->second] = true; }

  // confinement
  for (size_t i = m0; i < S->muts.size(); ++i) { auto &m = S->muts[i]; if (!m.autark) continue; const Str &p = m.path; bool in = p == cacheDir || p.compare(0, cacheDir.size() + 1, cacheDir + "/") == 0; bool ins = pl.install && (p == prefixR() || p.compare(0, prefixR().size() + 1, prefixR() + "/") == 0); if (p.compare(0, 9, "(deleted)") == 0) in = true; bool mkParent = !strcmp(m.op, "mkdir") && (cacheDir.compare(0, p.size() + 1, p + "/") == 0 || (pl.install && prefixR().compare(0, p.size() + 1, p + "/") == 0)); bool tty = p == "/dev/null"; if (!in && !ins && !mkParent && !tty) { viol("outside", strf("build %d: autark %s of %s", b, m.op, p.c_str())); break; } }
  { Strs v; S->walk("/w", v); std::set<Str> now(v.begin(), v.end()); for (auto &kv : before) { InodeP i = S->hostGet(kv.first, false); if (!i) { viol("outside", strf("build %d: %s disappeared", b, kv.first.c_str())); break; } if (i->data + strf("#%o#%lld", i->mode, (long long) i->mtime) != kv.second) { viol("outside", strf("build %d: %s was changed", b, kv.first.c_str())); break; } }
    for (auto &p : v) if (!before.count(p) && p.compare(0, cacheDir.size() + 1, cacheDir + "/") && !inSrcProd.count(p) && !loopSrc(p) && !(pl.install && p.compare(0, prefixR().size() + 1, prefixR() + "/") == 0) && p.compare(0, prefixR().size() + 1, prefixR() + "/")) { viol("outside", strf("build %d: unexpected file %s", b, p.c_str())); break; } }
  if (pl.clean && !anyFault) { for (auto &p : planted) if (S->hostGet(p, false)) viol("clean", "left after cleaning: " + p); if (!S->hostGet(cacheDir + "/.autark-dist/keep")) viol("clean", "cleaning removed the embedded distribution"); }
  if (!pl.install) for (size_t i = m0; i < S->muts.size(); ++i) if (S->muts[i].path.compare(0, prefixR().size() + 1, prefixR() + "/") == 0) { viol("outside", "prefix touched without installation"); break; }

  // order, once, place
  for (auto &kv : runs) {
    const Str &k = kv.first; auto it = keyRule.find(k); if (it == keyRule.end() || (k.compare(0, 4, "say:") == 0)) continue;
    if (kv.second.size() > 1) viol("twice", strf("build %d: %s executed %d times", b, k.c_str(), (int) kv.second.size()), k);
    int rid = it->second; if (rid < 0) continue; Rule &x = rules[rid]; ExecRec *e = kv.second[0];
    Str wd = x.inSrc ? udir(x.unit) : ucache(x.unit); if (e->cwd != realp(wd)) viol("cwd", strf("build %d: %s ran in %s instead of %s", b, k.c_str(), e->cwd.c_str(), wd.c_str()), k);
    if (e->env["AUTARK_UNIT"] != units[x.unit].rel) viol("cwd", strf("build %d: %s ran for unit '%s' instead of '%s'", b, k.c_str(), e->env["AUTARK_UNIT"].c_str(), units[x.unit].rel.c_str()), k);
    if (e->env["AUTARK_ROOT_DIR"] != ROOT || e->env["AUTARK_CACHE_DIR"] != cacheDir) viol("cwd", strf("build %d: %s has wrong directories in its environment", b, k.c_str()), k);
    for (auto &d : vars) if (d.kind == VK_ENV && varOn(d)) { Str v = evalDef(&d - &vars[0]); if (!isList(v)) { auto f = e->env.find(d.name); if (f == e->env.end() ? !v.empty() : f->second != v) viol("cwd", strf("build %d: %s has %s='%s' instead of '%s'", b, k.c_str(), d.name.c_str(), clip(f == e->env.end() ? "(none)" : f->second, 40).c_str(), clip(v, 40).c_str()), k); } }
    // producers
    std::vector<Str> need; auto addProd = [&](const Ref &r) { if (r.rule < 0 || !refOk(r)) return; for (auto &kr : keyRule) if (kr.second == r.rule) need.push_back(kr.first); }; for (auto &r : x.ins) addProd(r); for (auto &r : x.gcons) addProd(r); if (x.kind == R_CC) { Str sp = keySrc[k]; for (auto &g : x.gens) if (refPath(g) == sp) addProd(g); } else for (auto &r : x.gens) addProd(r); if (x.ofCc >= 0) for (auto &kr : keyRule) if (kr.second == x.ofCc) need.push_back(kr.first); if (x.twoCmds && k == "gen:" + outAbs(x, x.outs[1])) need.push_back("gen:" + outAbs(x, x.outs[0]));
    for (auto &nk : need) { auto r = runs.find(nk); if (r == runs.end()) continue; for (auto *pe : r->second) { if (!okRun(pe)) { viol("order", strf("build %d: %s executed although %s failed", b, k.c_str(), nk.c_str()), k); break; } if (pe->tEnd > e->tStart || pe->tEnd < 0) { viol("order", strf("build %d: %s started before %s ended", b, k.c_str(), nk.c_str()), k); break; } } }
  }
  // concurrency of compilers, per rule
  { std::map<int, std::vector<ExecRec*>> by; for (auto &kv : runs) if (kv.first.compare(0, 3, "cc:") == 0) { auto it = keyRule.find(kv.first); for (auto *e : kv.second) by[it == keyRule.end() ? -1 : it->second].push_back(e); }
    for (auto &kv : by) { int mx = 0; for (auto *e : kv.second) { int c = 0; for (auto *f : kv.second) if (f->tStart <= e->tStart && (f->tEnd < 0 || f->tEnd > e->tStart)) ++c; mx = std::max(mx, c); } if (mx > maxRuleJobs) viol("jobs", strf("build %d: %d compilers at once with -J %d", b, mx, maxRuleJobs)); if (mx > 1) feat("parallel"); } }

  // output delivered
  if (!killed && !(anyFault && res.code != 0)) for (auto *x : ex) {
      if (!x->done || (!WIFEXITED(x->status))) continue; auto av = [&](const char *o) { for (size_t i = 1; i + 1 < x->argv.size(); ++i) if (x->argv[i] == o) return x->argv[i + 1]; return Str(); };
      bool gen = x->tag.compare(0, 4, "gen:") == 0, say = x->tag.compare(0, 4, "say:") == 0; if (!gen && !say) continue;
      auto wrote = [&](ExecRec *y) { return okRun(y) || (gen && y->done && WIFEXITED(y->status) && WEXITSTATUS(y->status) == 6 && !anyFault); };   // status 6: failed after everything was written
      if (!wrote(x)) continue; bool bad = false;
      for (int st = 1; st < 3 && !bad; ++st) { long len = atol(av(st == 1 ? "-s" : "-e").c_str()); if (!len) continue; Str want = bulkText((st == 2 ? "e" : gen ? "o" : "s") + (gen ? baseName(x->tag.substr(4)) : x->tag.substr(4)), len);
        feat(st == 1 ? "output" : "error output"); int c = occurrences(st == 1 ? res.out : res.err, want), n = 0; for (auto *y : ex) if (y->tag == x->tag && wrote(y) && y->argv == x->argv) ++n;
        if (want.size() < 24) continue; const char *nm = st == 1 ? "output" : "error output"; if (c < n) { viol("output", strf("build %d: %s of %s (%d bytes) was not delivered completely", b, nm, x->tag.c_str(), (int) want.size()), x->tag); bad = true; } else if (c > n && gen) { viol("output", strf("build %d: %s of %s was delivered %d times", b, nm, x->tag.c_str(), c), x->tag); bad = true; } }
      if (bad) break;
    }

  // messages of the scripts
  if (!killed && !anyFault && res.exited && res.code == 0 && !echoes.empty()) { Str o = squeeze(res.out + "\n" + res.err);
    for (auto &e : echoes) { bool on = unitAlive(e.unit) && (!e.ct.k || condT(e.ct, e.unit)); Str b0 = strf("EB%d.", e.id), e0 = strf("EE%d.", e.id), want = b0; for (auto &x : flat(e.w, e.unit)) want += " " + spaced(eval(x, e.unit)); want = squeeze(want + " " + e0); int n = occurrences(o, b0 + " ");
      if (n != (on ? 1 : 0)) { viol("echo", strf("build %d: a message %s was printed %d times", b, on ? "in effect" : "not in effect", n), b0); break; }
      if (on && o.find(want) == Str::npos) { size_t i = o.find(b0 + " "); viol("echo", strf("build %d: message ", b) + o.substr(i, 200) + " instead of " + want, b0); break; } if (on) feat("echo in effect"); } }

  // outcome
  ExecRec *bad = nullptr; for (auto *x : ex) if (x->ppid == res.pid && x->done && !okRun(x)) { bad = x; break; }
  Str inv = invalid();
  if (!killed && res.exited) {
    if (bad && res.code == 0) viol("ignored", strf("build %d succeeded although '%s' failed (status %x)", b, bad->tag.c_str(), bad->status), bad->tag);
    if (!bad && !inv.empty() && res.code == 0) viol("ignored", strf("build %d succeeded although ", b) + inv);
    if (!bad && inv.empty() && res.code != 0 && !anyFault && pl.noTool.empty()) { Str l = res.err; size_t i = l.size() > 400 ? l.size() - 400 : 0; viol("refused", strf("build %d of a valid project ended with code %d: ", b, res.code) + clip(l.substr(i), 400)); }
  }
  bool success = res.exited && res.code == 0 && !killed;
  // products
  if (success && inv.empty()) {
    feat("checked"); auto ps = products(); int badN = 0;
    for (auto &kv : ps) {
      auto want = expectAny(kv.first, kv.second); Str got; bool have = S->hostRead(kv.first, &got); if (!want) continue; feat("products"); const char *kn[] = { "run", "foreach", "foreach", "cc", "link", "conf", "install" }; Str kind = Str("stale.") + kn[rules[kv.second].kind];
      if (!have) viol(kind, strf("build %d: product %s does not exist", b, kv.first.c_str()), kv.first); else if (got != *want) { size_t d = 0; while (d < got.size() && d < want->size() && got[d] == (*want)[d]) ++d; size_t s = d > 60 ? d - 60 : 0; viol(kind, strf("build %d: %s has '%s' instead of '%s'", b, kv.first.c_str(), clip(got.substr(s)).c_str(), clip(want->substr(s)).c_str()), kv.first); } else { if (rules[kv.second].kind == R_CONF) { Rule &x = rules[kv.second]; for (size_t i = 0; i < x.outs.size(); ++i) if (outAbs(x, x.outs[i]) == kv.first) { unsigned wm = S->hostGet(x.templates[i])->mode, gm = S->hostGet(kv.first)->mode; if (wm != gm) viol("stale.conf", strf("build %d: %s has mode %o instead of %o", b, kv.first.c_str(), gm, wm), kv.first); } } continue; }
      if (++badN > 2) break;
    }
    if (pl.install) for (auto &x : rules) { if (x.kind != R_INSTALL || !active(x)) continue; for (auto &r : x.ins) { if (!refOk(r)) continue; if (r.rule >= 0 && !active(rules[r.rule])) continue; Str sp = refPath(r), dp = normAbs(prefix + "/" + instDir(x) + "/" + baseName(sp)); InodeP s = S->hostGet(sp, false), d = S->hostGet(dp, false); feat("installed"); everInst.insert(dp); if (!s) continue; if (!d) viol("stale.install", strf("build %d: %s is not installed", b, dp.c_str()), dp); else if (d->type != s->type) viol("stale.install", strf("build %d: %s has another file type", b, dp.c_str()), dp); else if (d->data != s->data) viol("stale.install", strf("build %d: %s has '%s' instead of '%s'", b, dp.c_str(), clip(d->data, 80).c_str(), clip(s->data, 80).c_str()), dp); else if (s->type == I_FILE && d->mode != s->mode) viol("stale.install", strf("build %d: %s has mode %o instead of %o", b, dp.c_str(), d->mode, s->mode), dp); } }
  }
  // executed only when needed
  if (!anyFault && !killed) {
    std::map<Str, bool> executed; for (auto &kv : runs) executed[kv.first] = true; for (auto &kv : rewritten) executed[kv.first] = true;
    for (auto &kv : executed) { auto c = cmds.find(kv.first); if (c == cmds.end()) { Str t = kv.first.substr(0, 3); if (t == "gen" || t == "cc:" || t == "ld:") viol("extra.run", strf("build %d: %s executed but no active rule has it", b, kv.first.c_str()), kv.first); continue; } if (c->second.always) continue; KState &st = ks[kv.first]; if (!st.known || st.failed) continue; if (st.f != c->second.f) continue; Str t = kv.first.substr(0, kv.first.find(':')); Str kind = t == "check" ? "extra.check" : t == "say" ? "extra.cout" : t == "cc" ? "extra.cc" : t == "conf" ? "extra.conf" : "extra.run"; viol(kind, strf("build %d: %s executed although nothing it depends on changed", b, kv.first.c_str()), kv.first); }
    if (success) for (auto &kv : cmds) { if (executed.count(kv.first) || (kv.first.compare(0, 4, "say:") == 0 && progIdle.count(kv.first.substr(4)))) continue; KState &st = ks[kv.first]; Str t = kv.first.substr(0, kv.first.find(':')); if (st.known && st.failed) viol("noretry", strf("build %d: %s failed before and was not executed again", b, kv.first.c_str()), kv.first); else if (t == "check" && st.known && st.f != kv.second.f) viol("nocheck", strf("build %d: %s not executed although something it declared changed", b, kv.first.c_str()), kv.first); else if (t == "say" && st.known && st.f != kv.second.f && !kv.second.always) viol("nocout", strf("build %d: %s not executed although its arguments or script changed", b, kv.first.c_str()), kv.first); else if (kv.second.always && t != "say") viol("noalways", strf("build %d: %s is marked to run always and was not executed", b, kv.first.c_str()), kv.first); }
    // remember
    std::map<int, bool> ruleBad; for (auto &kv : runs) { auto it = keyRule.find(kv.first); if (it == keyRule.end()) continue; for (auto *e : kv.second) if (!okRun(e) && it->second >= 0 && rules[it->second].kind != R_CC) ruleBad[it->second] = true; }
    for (auto &kv : cmds) {
      auto r = runs.find(kv.first); bool ran = executed.count(kv.first); KState &st = ks[kv.first]; int rid = keyRule[kv.first];
      if (ran) { bool ok = true; if (r != runs.end()) for (auto *e : r->second) if (!okRun(e)) ok = false; if (!ok) { st.known = true; st.failed = true; st.f = kv.second.f; } else if (rid >= 0 && ruleBad[rid]) st = KState(); else { st.known = true; st.failed = false; st.f = kv.second.f; } }
      else if (rid >= 0 && ruleBad[rid]) st = KState();
    }
    // a failed build may have stopped between commands of one rule
    if (!success) for (auto &kv : cmds) { int rid = keyRule[kv.first]; if (rid >= 0 && rules[rid].kind != R_CC) { bool any = false, all = true; for (auto &k2 : keyRule) if (k2.second == rid) { if (executed.count(k2.first)) any = true; else all = false; } if (any && !all && !ks[kv.first].failed) ks[kv.first] = KState(); } if (rid >= 0 && rules[rid].badCmd) ks[kv.first] = KState(); }
    if (!success && !inv.empty()) for (auto &kv : cmds) { int rid = keyRule[kv.first]; if (rid == -100) ks[kv.first] = ks[kv.first].failed ? ks[kv.first] : KState(); }
    for (auto it = ks.begin(); it != ks.end();) if (!cmds.count(it->first)) it = ks.erase(it); else ++it;
    if (!success && !pl.noTool.empty()) for (auto &kv : ks) kv.second = KState();   // it is not known which commands had to run
    if (success && prevOk && lastNoop) { feat("noop"); }
  } else { for (auto &kv : ks) { kv.second = KState(); } }
  prevOk = success; lastFaulted = anyFault || killed; if (!success && !killed) feat("failed build");
}

// A copy of a tree, with links and times as they are
InodeP copyTree(const InodeP &n, Inode *up) { auto c = std::make_shared<Inode>(*n); c->ino = S->nextIno++; c->parent = up; c->nlink = 1; if (n->type == I_DIR) for (auto &e : c->ents) e.second = copyTree(e.second, c.get()); return c; }
static void putTree(const Str &from, const Str &to) { auto n = S->hostGet(from, false); if (!n) return; S->hostMkdirs(dirOf(to)); auto d = S->hostGet(dirOf(to)); d->ents.erase(baseName(to)); d->ents[baseName(to)] = copyTree(n, d.get()); }
// A changed copy of the project is built at another place, in the cache of the project or in a copy of it which replaces that of the project
void World::foreignBuild(int b, Plan pl, Rng &q) {
  if (rootLnk || !cacheLnk.empty() || !pl.noTool.empty() || !S->hostGet(cacheDir)) return; memo.clear(); fingerprints(); for (auto &kv : progExpr) if (progArgs(*kv.second, progUnit[kv.first]).find("/w/p") != Str::npos) return;
  bool inside = cacheDir.compare(0, ROOT.size() + 1, ROOT + "/") == 0, swap = inside && q.chance(40); Str Z = "/w/z"; auto elsewhere = [&](const Str &p) { return Z + p.substr(ROOT.size()); }; putTree(ROOT, Z); if (inside && !swap) S->hostGet(dirOf(elsewhere(cacheDir)))->ents.erase(baseName(cacheDir));
  int pct = q.range(0, 100); for (auto &kv : src) if (kv.first.compare(0, ROOT.size() + 1, ROOT + "/") == 0 && q.chance(pct)) { Str z = elsewhere(kv.first); InodeP i = S->hostGet(z, false); if (!i || i->type != I_FILE || i->data.compare(0, 2, "#!") == 0) continue; if (q.chance(50)) { auto m = i->mtime; S->hostWrite(z, i->data + "\n/* other */\n"); S->hostGet(z)->mtime = m; } else S->hostWrite(z, i->data + "\n/* other */\n"); }
  curBuild = b; TW.fail = pl.fail; pl.how = 0; pl.clean = false; bool was = installOn; installOn = pl.install = pl.install && q.chance(60); Str cwd; Strs argv, env; command(pl, &argv, &env, &cwd); Strs a; for (size_t i = 0; i < argv.size(); ++i) { if (argv[i] == "-H" || argv[i] == "--cache") { ++i; continue; } if (argv[i].compare(0, 2, "-H") == 0 || argv[i].compare(0, 8, "--cache=") == 0) continue; a.push_back(argv[i]); } a.insert(a.begin() + 1, "-H" + (swap ? elsewhere(cacheDir) : cacheDir));
  note(strf("build %d: a copy of the project is built before in ", b) + (swap ? "a copy of its cache" : "its cache")); feat("copy built elsewhere");
  std::map<Str, Str> before; { Strs v; S->walk(ROOT, v); for (auto &p : v) if (swap || p.compare(0, cacheDir.size() + 1, cacheDir + "/")) { InodeP i = S->hostGet(p, false); before[p] = i->data + strf("#%o#%lld", i->mode, (long long) i->mtime); } }
  size_t e0 = S->execs.size(); auto res = S->runBuild(b, a, env, Z, {}); installOn = was;
  if (res.cap || res.deadlock) viol("hang", strf("build %d: building a copy did not end", b)); if (res.crashed || !res.exited) viol("crash", strf("build %d: building a copy crashed: ", b) + res.why);
  bool toolBad = false; for (size_t i = e0; i < S->execs.size(); ++i) { auto &x = S->execs[i]; if (x.ppid == res.pid && x.done && !(WIFEXITED(x.status) && WEXITSTATUS(x.status) == 0)) toolBad = true; }
  if (res.code == 0 && toolBad) viol("ignored", strf("build %d: building a copy succeeded although a command failed", b));
  if (res.code != 0 && !toolBad && invalid().empty()) { size_t i = res.err.size() > 300 ? res.err.size() - 300 : 0; viol("refused", strf("build %d: building a copy ended with code %d: ", b, res.code) + res.err.substr(i)); }
  { Strs v; S->walk(ROOT, v); size_t n = 0; for (auto &p : v) if (swap || p.compare(0, cacheDir.size() + 1, cacheDir + "/")) { ++n; InodeP i = S->hostGet(p, false); auto it = before.find(p); if (it == before.end() || it->second != i->data + strf("#%o#%lld", i->mode, (long long) i->mtime)) { if (p == cacheDir) continue; viol("outside", strf("build %d: building a copy changed ", b) + p, p); break; } } if (n < before.size()) viol("outside", strf("build %d: building a copy removed files of the project", b)); }
  for (size_t i = e0; i < S->execs.size(); ++i) { auto &x = S->execs[i]; if (x.tag.compare(0, 4, "say:") || !x.done || !WIFEXITED(x.status) || WEXITSTATUS(x.status)) continue; Str tg = x.tag.substr(4); auto it = progExpr.find(tg); if (it == progExpr.end() || it->second->k != E_COUT) continue; couts[tg].byArgs[progArgs(*it->second, progUnit[tg])] = progOut(*it->second, progUnit[tg]); }
  if (swap) putTree(elsewhere(cacheDir), cacheDir); S->hostGet("/w")->ents.erase("z"); for (auto &kv : ks) kv.second = KState(); memo.clear(); prevOk = false;
}

Sim* freshSim(uint64_t seed, bool simple) {
  if (S) { delete S; S = nullptr; }
  S = new Sim(); S->rng = Rng(mix(seed, "sched")); S->onExec = progsExec; installTools(); S->now = 1700000000ll * 1000000000ll + (int64_t) Rng(mix(seed, "t0")).below(1000000000);
  Rng r(mix(seed, "strat")); if (!simple) { S->strat = (Strategy) r.below(5); static int sp[] = { 3, 10, 20, 40, 70, 95 }; S->switchPct = sp[r.below(6)]; } else { S->strat = S_RUN_TO_BLOCK; } if (Rng(mix(seed, "stdio")).chance(30)) { static const int cap[] = { 32, 64, 256, 1024 }; S->stdioCap = cap[Rng(mix(seed, "cap")).below(4)]; } S->stdioLine = !simple && Rng(mix(seed, "line")).chance(40);
  TW = ToolWorld(); S->hostMkdirs("/w"); return S;
}

ScnResult runScenario(const Prof &pf, uint64_t seed, const Masks &mk, const std::vector<FaultSpec> &fs, bool trace, std::vector<Str> *traceOut) {
  ScnResult R; freshSim(seed, mk.simple); S->traceOn = trace;
  World w(pf, seed, mk, R); { Rng cq(mix(seed, "cache")); if (cq.chance(20)) { static const char *cd[] = { "out", "b/c d", "../oc", "autark-cache2" }; Str c = cd[cq.below(4)]; w.cacheDir = c[0] == '.' ? "/w/oc" : ROOT + "/" + c; } if (cq.chance(12)) { static const char *cr[] = { "/w/occ", "/w/p/real", "/w/q/a b/c" }, *cl[] = { "/w/p/autark-cache", "/w/p/lc", "/w/lc" }; w.cacheDir = cr[cq.below(3)]; w.cacheLnk = cl[cq.below(3)]; w.feat("cache by link"); } if (cq.chance(15)) { w.rootLnk = true; w.feat("project by link"); } }
  w.gen(); R.nRules = w.rules.size(); w.writeAll();
  Rng r(mix(seed, "scn")); TW.slowPct = mk.simple ? 0 : r.chance(pf.pSlow) ? r.range(5, 70) : 0; TW.noise = r.chance(30) ? 40 : 0; S->ttyOut = r.chance(25);
  int nb = r.range(pf.builds0, pf.builds1); bool dead = false; if (mk.maxBuild < nb) nb = mk.maxBuild; bool inst = r.chance(pf.pInstall); bool instAll = r.chance(60);
  std::vector<std::unique_ptr<Fault>> own; bool anyFaultBuild = false;
  int lastFault = -1; for (auto &f : fs) lastFault = std::max(lastFault, f.build); if (lastFault >= 0 && nb < lastFault + 2) nb = lastFault + 2;
  w.note(strf("scenario %s seed %llu: %d rules, %d scripts, %d checks, %d builds", pf.prop.c_str(), (unsigned long long) seed, (int) w.rules.size(), (int) w.units.size(), (int) w.checks.size(), nb));
  bool brokenCmd = false; Str missing; int brokenRule = -1; Str broken;
  for (int b = 0; b < nb + 1 && !dead; ++b) {
    Rng q(mix(seed, "build", b)); bool fin = b == nb; bool quiet = fin || (b > 0 && q.chance(pf.pNoop)); w.curBuild = b;
    Rng oq(mix(seed, "nops", b)); int no = quiet || b == 0 ? 0 : oq.range(pf.ops0, pf.ops1);
    // undo breakage introduced for the previous build
    w.tick(q);
    if (brokenRule >= 0) { w.rules[brokenRule].badCmd = false; brokenRule = -1; w.note("command repaired"); } if (!missing.empty()) { w.putAny(missing); w.note("restored " + missing); missing.clear(); } if (!broken.empty()) { if (w.src.count(broken)) { w.src[broken].err = false; ++w.src[broken].ver; w.putAny(broken); w.note("repaired " + broken); } broken.clear(); }
    if (b == 0) { Rng aq(mix(seed, "late")); for (auto &x : w.rules) if (x.leaf && x.kind != R_CC && x.kind != R_LINK && aq.chance(10)) x.alive = false; w.writeScripts(); }
    for (int k = 0; k < no; ++k) w.op(b, k);
    World::Plan pl; Rng pq(mix(seed, "plan", b)); pl.jobs = pq.chance(pf.pJobs1) ? 1 : pq.range(2, 6); if (Rng(mix(seed, "jobs", b)).chance(15)) { static const int js[] = { 0, -2, 8, 11, 15, 16, 17, 40 }; pl.jobs = js[Rng(mix(seed, "jobs2", b)).below(8)]; } pl.verbose = pq.chance(pf.pVerbose); pl.clean = b > 0 && !fin && pq.chance(pf.pClean) && !mk.ops.count(b * 16 + 15); pl.install = inst && (instAll || pq.chance(60)); if (fin && b > 0) pl.install = w.installOn;
    if (pl.clean) R.opIds.push_back(b * 16 + 15);
    { Rng iq(mix(seed, "how", b)); if (iq.chance(pf.pInvoke) && !mk.ops.count(b * 16 + 11)) { pl.how = 1 + iq.below(4); R.opIds.push_back(b * 16 + 11); }
      if (pl.install && !fin && iq.chance(25) && !mk.ops.count(b * 16 + 12)) { R.opIds.push_back(b * 16 + 12); int k = iq.below(6); if (k == 5) { for (int t = iq.range(1, 3); t; --t) { int i = iq.below(6); static const char *alt[] = { "dat/x", "b n", "li'b", "inc.d/../inc", "p//c", "x" }; w.idir[i] = w.idir[i] == World::IDIRS[i].dflt ? alt[iq.below(6)] : World::IDIRS[i].dflt; w.note(Str(World::IDIRS[i].var) + " " + w.idir[i]); } } else { static const char *pf_[] = { "/w/inst", "/w/inst2", "/w/in st's", "/w/il", "/home/u/.local" }; w.prefix = pf_[k]; w.prefixGiven = k < 4; if (k == 3 && !S->hostGet("/w/il")) { S->hostMkdirs("/w/inst3"); S->hostSymlink("inst3", "/w/il"); } w.note("prefix " + w.prefix); } quiet = false; }
      if (iq.chance(pf.pList) && !mk.ops.count(b * 16 + 10) && fs.empty()) { R.opIds.push_back(b * 16 + 10); w.writeScripts(); w.tick(iq); w.listOptions(b, pl); if (!R.viols.empty()) break; } }
    if (!fin && !mk.ops.count(b * 16 + 14)) {
      Rng fq(mix(seed, "fail", b)); bool used = false;
      if (fq.chance(pf.pFail)) { w.memo.clear(); w.installOn = pl.install; w.evalChecks(); Strs c; for (auto &kv : w.products()) { int kd = w.rules[kv.second].kind; if (kd != R_CONF) c.push_back(baseName(kv.first)); } for (auto &k : w.checks) c.push_back(baseName(k.script)); for (auto &x : w.rules) for (auto &e : x.words) if (e.k >= E_OUT) { c.push_back(e.s); c.push_back(e.s); } int n = fq.range(1, 2); for (int i = 0; i < n && !c.empty(); ++i) { Str nm = c[fq.below(c.size())]; pl.fail[nm] = 1 + fq.below(4); used = true; } }
      if (fq.chance(pf.pBadCmd)) { std::vector<int> c; for (auto &x : w.rules) if (w.present(x) && x.kind == R_RUN && !x.cond && !x.shell) c.push_back(x.id); if (!c.empty()) { brokenRule = c[fq.below(c.size())]; w.rules[brokenRule].badCmd = true; w.rules[brokenRule].badKind = fq.below(4); w.note(strf("rule %d: command cannot be started (%d)", brokenRule, w.rules[brokenRule].badKind)); used = true; } }
      if (fq.chance(pf.pMissing)) { Strs c; for (auto &x : w.rules) if (w.present(x) && !x.cond && x.kind == R_RUN) for (auto &i : x.ins) if (i.rule < 0 && !i.tool) c.push_back(i.src); if (!c.empty()) { missing = c[fq.below(c.size())]; S->hostUnlink(missing); w.written.erase(missing); w.note("deleted " + missing); used = true; } }
      if (fq.chance(pf.pMissHdr)) { Strs c; for (auto &kv : w.src) if (kv.second.kind == "h" && S->hostGet(kv.first)) for (auto &k2 : w.src) { auto &g = k2.second; if ((g.kind == "c" || g.kind == "h") && dirOf(k2.first) == dirOf(kv.first) && std::find(g.incs.begin(), g.incs.end(), baseName(kv.first)) != g.incs.end()) { c.push_back(kv.first); break; } } if (!c.empty()) { missing = c[fq.below(c.size())]; S->hostUnlink(missing); w.written.erase(missing); w.note("deleted " + missing); used = true; w.feat("header missing"); } }
      if (fq.chance(pf.pBreak)) { Strs c; for (auto &kv : w.src) if (kv.second.kind == "c") c.push_back(kv.first); if (!c.empty()) { broken = c[fq.below(c.size())]; w.src[broken].err = true; w.putAny(broken); w.note("broken " + broken); used = true; } }
      if (fq.chance(pf.pTool)) { static const char *t[] = { "cc", "cc", "c++", "clang", "gen", "say", "ld" }; pl.noTool = Str("/usr/bin/") + t[fq.below(7)]; InodeP i = S->hostGet(pl.noTool); if (fq.chance(50)) i->mode = 0644; else S->hostUnlink(pl.noTool); w.note("unavailable for a build: " + pl.noTool); used = true; w.feat("tool unavailable"); }
      if (used) R.opIds.push_back(b * 16 + 14);
    }
    if (pf.pTamper && inst && b > 0 && !mk.ops.count(b * 16 + 13)) { Rng tq(mix(seed, "tamper", b)); if (tq.chance(pf.pTamper) && !w.everInst.empty()) { R.opIds.push_back(b * 16 + 13); Strs v(w.everInst.begin(), w.everInst.end()); Str p = v[tq.below(v.size())]; InodeP i = S->hostGet(p, false); w.tick(tq); int how = tq.below(10); if (how < 4 || !i || (how < 7 && i->type != I_FILE)) { S->hostUnlink(p); w.note("installed file removed: " + p); } else if (how < 7) { S->hostWrite(p, how == 6 ? "" : "tampered"); w.note("installed file changed: " + p); } else if (how < 9) { S->hostUnlink(p); S->hostWrite("/w/foreign.txt", "foreign"); S->hostSymlink("/w/foreign.txt", p); w.note("installed file replaced by a link to a foreign file: " + p); } else { S->hostUnlink(p); S->hostSymlink("nowhere/at/all", p); w.note("installed file replaced by a dangling link: " + p); } pl.install = true; quiet = false; } }
    w.writeScripts(); w.tick(q);
    if (pf.pForeign && b > 0) { Rng xq(mix(seed, "elsewhere", b)); if (xq.chance(pf.pForeign) && !mk.ops.count(b * 16 + 9)) { R.opIds.push_back(b * 16 + 9); w.foreignBuild(b, pl, xq); w.tick(q); quiet = false; if (!R.viols.empty()) break; } }
    std::vector<Fault*> fl; for (auto &f : fs) if (f.build == b) { auto x = std::make_unique<Fault>(); x->build = b; x->kind = f.kind; x->nth = f.nth; x->act = (FaultAct) f.act; x->err = f.err; x->nested = f.nested; x->sticky = f.sticky; fl.push_back(x.get()); own.push_back(std::move(x)); }
    size_t v0 = R.viols.size(); w.build(b, pl, fl, quiet); if (!pl.noTool.empty()) { if (auto i = S->hostGet(pl.noTool)) i->mode = 0755; else installTools(); }
    std::array<long, K_COUNT + 1> cm, cn; for (int i = 0; i <= K_COUNT; ++i) { cm[i] = S->cntMain[i]; cn[i] = S->cntNest[i]; } R.cntMain.push_back(cm); R.cntNest.push_back(cn);
    if (R.viols.size() > v0) { dead = true; }
  }
  R.hash = S->hash; R.steps = S->steps; R.simNs = S->now - 1700000000ll * 1000000000ll; R.inter = S->interleaveHash; R.switches = S->switches; R.points.assign(S->schedPoints.begin(), S->schedPoints.end()); R.faultKinds = S->faultKinds;
  if (traceOut) *traceOut = S->trace; (void) anyFaultBuild; (void) brokenCmd;
  return R;
}
