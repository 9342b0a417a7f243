// Base of the directed scenario families.
#pragma once
#include "model.h"
#include <algorithm>
#include <memory>
#include <signal.h>
#include <sys/wait.h>

static const Str ROOT = "/w/p";
[[maybe_unused]] static uint64_t mixs(uint64_t s, const char *t) { return fnv(s * 0x9E3779B97F4A7C15ull + 17, t, strlen(t)); }
[[maybe_unused]] static bool under(const Str &p, const Str &d) { return p == d || p.compare(0, d.size() + 1, d + "/") == 0; }
[[maybe_unused]] static Str dirName(const Str &p) { size_t i = p.rfind('/'); return i == Str::npos ? "" : i == 0 ? "/" : p.substr(0, i); }

struct Sp {
  Str prop; uint64_t seed; const Masks &mk; ScnResult &R; Rng r; int b = -1; Str cache = ROOT + "/autark-cache"; Strs env{ "PATH=/usr/bin:/bin", "HOME=/home/u" };
  Sim::BuildRes res; size_t e0 = 0, m0 = 0; int maxFd = 40; std::map<Str, Str> before;
  std::vector<FaultSpec> faults; bool faulted = false;   // faulted: a fault hit the last build
  Sp(const Str &p, uint64_t s, const Masks &m, ScnResult &rr) : prop(p), seed(s), mk(m), R(rr), r(mixs(s, "special")) {}
  void note(const Str &s) { R.desc.push_back(s); S->log("# %s", s.c_str()); }
  void feat(const char *f) { ++R.feat[f]; }
  void viol(const char *kind, const Str &d, const Str &key = "") { Viol v; v.kind = kind; v.detail = d; v.key = key; v.build = b; R.viols.push_back(v); S->log("VIOLATED %s: %s", kind, d.c_str()); }
  bool bad() { return !R.viols.empty() || b > mk.maxBuild; }
  void wr(const Str &rel, const Str &t, unsigned mode = 0644) { Str p = rel[0] == '/' ? rel : ROOT + "/" + rel; S->hostMkdirs(dirName(p)); Str old; if (S->hostRead(p, &old) && old == t) return; S->hostWrite(p, t, mode); }
  Str rd(const Str &p) { Str d; if (!S->hostRead(p, &d)) return "(missing)"; return d; }
  bool has(const Str &p) { return S->hostGet(p) != nullptr; }
  void tick() { S->now += 5000000ll + (int64_t) r.below(r.chance(30) ? 5000000000ull : 50000000ull); }
  Strs base(int j) { return { "/opt/ak/autark", strf("-J%d", j) }; }
  // everything outside the cache directory, with types, modes and contents
  std::map<Str, Str> snap() {
    std::map<Str, Str> m; std::function<void(const Str&, InodeP)> go = [&](const Str &p, InodeP n) { if (under(p, cache)) return; m[p.empty() ? "/" : p] = n->type == I_DIR ? strf("dir %o", n->mode) : strf("%d %o %lld ", (int) n->type, n->mode, (long long) n->mtime) + n->data; if (n->type == I_DIR) for (auto &e : n->ents) go(p + "/" + e.first, e.second); };
    go("", S->root); return m;
  }
  // one execution of autark with the checks that hold for every one of them
  bool run(const Strs &argv, const Str &cwd = ROOT, bool keepOut = false) {
    ++b; tick(); e0 = S->execs.size(); m0 = S->muts.size(); Str l; for (auto &a : argv) l += (l.empty() ? "" : " ") + a; note(strf("build %d: (in %s) %s", b, cwd.c_str(), l.c_str()));
    std::vector<std::unique_ptr<Fault>> own; std::vector<Fault*> fl; for (auto &f : faults) if (f.build == b) { auto x = std::make_unique<Fault>(); x->build = b; x->kind = f.kind; x->nth = f.nth; x->act = (FaultAct) f.act; x->err = f.err; x->nested = f.nested; x->sticky = f.sticky; fl.push_back(x.get()); own.push_back(std::move(x)); }
    res = S->runBuild(b, argv, env, cwd, fl); S->diskFree = -1; S->oom = false; faulted = false; bool killed = false; for (auto *f : fl) if (f->fired) { faulted = true; ++R.faultsFired; if (f->act == FA_KILL_MAIN || f->act == FA_KILL_GROUP) killed = true; }
    if (faulted) note(strf("build %d was hit by a fault", b)); ++R.builds; if (res.exited && res.code == 0) ++R.okBuilds; else ++R.failBuilds; (void) keepOut;
    S->log("[%ld] build %d ended: code %d", S->steps, b, res.code); R.execs += S->execs.size() - e0;
    std::array<long, K_COUNT + 1> cm, cn; for (int i = 0; i <= K_COUNT; ++i) { cm[i] = S->cntMain[i]; cn[i] = S->cntNest[i]; } R.cntMain.push_back(cm); R.cntNest.push_back(cn);
    if (res.cap || res.deadlock) viol("hang", strf("build %d did not end (%s)", b, res.deadlock ? "deadlock" : "step limit")); else if (res.crashed) viol("crash", strf("build %d crashed: ", b) + res.why); else if (!res.exited && !killed) viol("crash", strf("build %d died from a signal", b));
    if (killed) return R.viols.empty(); if (res.maxFd > maxFd) viol("fd", strf("build %d held %d descriptors", b, res.maxFd)); if (res.orphans && !faulted) viol("orphan", strf("build %d ended while %d commands were running", b, res.orphans)); if (res.zombies && res.code == 0) viol("zombie", strf("build %d left %d unreaped processes", b, res.zombies));
    return R.viols.empty();
  }
  bool ok() { return res.exited && res.code == 0; }
  Str tail() { size_t i = res.err.size() > 260 ? res.err.size() - 260 : 0; return res.err.substr(i); }
  bool mustPass() { if (!bad() && res.code != 0) viol("refused", strf("build %d ended with code %d: ", b, res.code) + tail()); return R.viols.empty(); }
  size_t ran(const char *pre) { size_t n = 0; for (size_t i = e0; i < S->execs.size(); ++i) if (S->execs[i].tag.compare(0, strlen(pre), pre) == 0) ++n; return n; }
  bool idle(const char *what) { for (size_t i = e0; i < S->execs.size(); ++i) { Str t = S->execs[i].tag.substr(0, S->execs[i].tag.find(':')); if (t == "gen" || t == "cc" || t == "ld" || t == "check" || t == "cp") { viol("extra.run", strf("build %d: %s although nothing changed (%s)", b, S->execs[i].tag.c_str(), what), S->execs[i].tag); return false; } } return true; }
};

