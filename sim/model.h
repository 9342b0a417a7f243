// Model of an autark project: generates scripts and sources, evolves them, and computes without
// autark what every product has to contain and which commands may run.
#pragma once
#include "os.h"
#include "progs.h"
#include <array>
#include <optional>

typedef std::string Str;
typedef std::vector<std::string> Strs;

// a condition: 1 truthy 2 defined (any of vars) 3 eq 4 prefix 5 contains 6 or 7 and 8 truthy list (a spread of option var)
struct CondT { int k = 0; Strs vars; Str val; bool valVar = false, join = false, neg = false; int id = 0, form = 0; std::vector<CondT> sub; };
enum EKind { E_LIT, E_VAR, E_SPREAD, E_JOIN, E_IF, E_BASE, E_DIR, E_OUT, E_COUT };
struct Expr {
  int k = E_LIT; Str s;              // literal text, variable name or tag
  std::vector<Expr> a, b; CondT ct;  // JOIN parts, arguments of %{..} and S{..}, words of a program expression; IF: values of both branches
  bool hasDef = false; Str def;      // ${s def}
  Str file; long n = 0; bool quiet = false, spread = false; Str tv;   // tv: option which names the program
  // program expressions: -f FILE, -s N, -q; `..' before
};
struct Ref { int rule = -1; int idx = 0; Str src; CondT ct; int cu = -1; bool tool = false; };      // product of a rule, or a source file (absolute path)
enum { VK_SET, VK_ENV, VK_PARENT, VK_ROOT, VK_META, VK_METALET };
struct VarDef { Str name; std::vector<Expr> vals; int kind = VK_SET; int unit = 0; bool alive = true; bool list = false, hostile = false; CondT ct; std::vector<Expr> alt; bool hasElse = false; };

enum RKind { R_RUN, R_FW, R_FC, R_CC, R_LINK, R_CONF, R_INSTALL };
struct Rule {
  int id = 0, kind = R_RUN, unit = 0; bool alive = true; bool masked = false; bool leaf = true;
  Strs outs, lines; std::vector<Expr> words; std::vector<Ref> ins; Strs lineIncs;
  bool always = false, shell = false, inSrc = false, twoCmds = false, macro = false, badCmd = false, simpleName = true; long so = 0, se = 0; int badKind = 0;
  bool alt = false; std::vector<Expr> altWords, altFlags; int cond = 0; CondT ct; Str condVar, condVal; bool condNeg = false;  // 0 none 1 truthy 2 defined 3 eq 4 prefix 5 contains 9 ct
  Str loopVar; std::vector<Expr> list;                        // foreach items or cc sources (set semantics)
  std::vector<Ref> gens;                                      // cc: generated sources; FC: items
  std::vector<Expr> flags; bool hasFlags = false; Expr cc; bool hasCc = false; bool cxx = false; Str objsVar, srcVar; Strs incDirs; int ofCc = -1;
  std::vector<Ref> gcons;                                     // cc: consumed (generated headers)
  Strs templates, tmplText; Str dir; int pm = 0, idv = 0; Str listVar; bool copy = false;
};
struct CheckAct { int k = 0; Str var, val, file, env; bool bg = false; long n = 0; bool on = true; };
// k: 0 literal; 1 from file; 2 from env; 3 set if file has text; 4 say; 5 from argument; 6 set if env non-empty
struct Check { int id = 0, unit = 0; Str script; std::vector<CheckAct> acts; std::vector<Expr> args; bool alive = true; bool inRoot = false; CondT ct; };
struct EchoDef { int id = 0, unit = 0, phase = 0; CondT ct; std::vector<Expr> w; };   // phase: 0 not given 1 build 2 setup 3 init
struct ErrDef { int id = 0, unit = 0; CondT ct; };
struct Unit { Str dir, file, rel; int parent = -1; bool alive = true; CondT ct; std::vector<std::pair<int, int>> order; };   // order: (kind, id); 0 var 1 rule 2 unit 3 pad 4 error

struct Prof {
  Str prop;
  int rules0 = 2, rules1 = 7, builds0 = 3, builds1 = 6, ops0 = 1, ops1 = 3;
  int wRun = 10, wFor = 3, wCc = 4, wConf = 3, wInst = 0;
  int pPlace = 8, pUnits = 45, pCheck = 30, pShell = 15, pInSrc = 8, pAlways = 8, pOut = 8, pCout = 8, pCond = 15, pMacro = 10, pBulk = 15, pVarUse = 60, pGenSrc = 40, pGenHdr = 45, pLink = 55;
  int pFail = 0, pBreak = 0, pBadCmd = 0, pMissing = 0, pClean = 4, pInstall = 0, pTamper = 0, pNoop = 25, pJobs1 = 25, pVerbose = 10, pSlow = 40, pHostile = 15;
  int bigBulk = 10;      // of bulk outputs, how many are large
  int wSrc = 10, wRevert = 4, wVar = 5, wD = 8, wEnv = 4, wInc = 4, wList = 5, wAdd = 2, wDel = 2, wOrder = 3, wCheck = 4, wWords = 4, wTouch = 2, wStray = 1, wMode = 0;
  int pForeign = 0, pTool = 0, pMissHdr = 3, pAlt = 25, pCondT = 30, pCondVar = 12, pCondUnit = 8, pCondVal = 6, pCondRef = 8, pCondCheck = 8, pProgVar = 7, pToolRef = 10, pErr = 2, pEcho = 8, pMacro2 = 6, pMeta = 12, pPath = 8, pInvoke = 30, pList = 6, wBoth = 2, wToggle = 4;
  int fault = 0;         // 0 none, 1 kill, 2 system call errors, 3 out of memory
  int nested = 0;        // percentage of faults that hit nested autark processes
  int oldTmpl = 0;
};
Prof profileFor(const Str &prop);

struct Viol { Str kind; Str detail; Str key; int build = -1; };
struct Masks { std::set<int> rules, ops; int maxBuild = 1000; bool simple = false; };
struct FaultSpec { int build; int kind; long nth; int act; int err; bool nested; int sticky; };

struct ScnResult {
  std::vector<Viol> viols; uint64_t hash = 0; int builds = 0; long steps = 0; int64_t simNs = 0; long execs = 0;
  std::vector<std::array<long, K_COUNT + 1>> cntMain, cntNest;
  long faultsFired = 0; std::map<Str, long> faultKinds, feat; uint64_t inter = 0; std::vector<uint64_t> points; int nRules = 0; std::vector<int> opIds; std::vector<Str> desc; int okBuilds = 0, failBuilds = 0; long switches = 0;
};
ScnResult runScenario(const Prof &pf, uint64_t seed, const Masks &m, const std::vector<FaultSpec> &faults, bool trace, std::vector<Str> *traceOut);
// directed scenarios (cycles, path spellings, large projects); nullptr result when a property has none
ScnResult runSpecial(const Str &prop, uint64_t seed, const Masks &m, const std::vector<FaultSpec> &faults, bool trace, std::vector<Str> *traceOut);
int specialShare(const Str &prop);   // percentage of seeds that use the special generator
Sim* freshSim(uint64_t seed, bool simple);
