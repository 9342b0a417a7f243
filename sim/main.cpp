// Worker: seeded search over scenarios, replay and minimisation of violations.
#include "model.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>

static double wall() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static uint64_t mix3(uint64_t a, uint64_t b, uint64_t c) { uint64_t h = fnv(0xcbf29ce484222325ull, &a, 8); h = fnv(h, &b, 8); return fnv(h, &c, 8); }
static bool starts(const Str &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }

// Which kinds of violation decide which property.
static bool relevant(const Str &prop, const Str &k) {
  if (k == "crash" || k == "hang" || k == "refused" || k == "cycle") return true;
  struct M { const char *prop; std::vector<const char*> kinds; };
  static const M tab[] = {
    { "C01", { "stale." } }, { "C02", { "extra." } }, { "C03", { "stale.", "ignored" } }, { "C04", { "ignored", "order", "noretry", "stale." } },
    { "C05", { "order", "twice", "cwd" } }, { "C06", { "jobs", "orphan", "order", "extra.cc", "noretry", "stale.cc", "stale.link", "ignored", "twice" } },
    { "C07", { "output", "stale.run" } }, { "C08", { "outside", "clean" } }, { "C09", { "stale.", "ignored" } }, { "C10", { "nocheck", "extra.check", "stale." } },
    { "C11", { "stale.conf" } }, { "C12", { "stale.install", "outside", "ignored" } }, { "C13", {} }, { "C14", { "stale.cc", "stale.link", "order", "ignored" } },
    { "C15", { "stale.", "extra." } }, { "C16", { "stale.", "ignored" } }, { "C17", { "fd", "orphan", "zombie" } }, { "C18", { "stale.run", "nocout", "extra.cout" } }, { "C21", { "stale.", "extra.run" } }, { "C22", { "stale.", "extra.run", "ignored", "subproject", "outside", "order", "cwd", "orphan" } }, { "C23", { "stale.", "extra.", "ignored" } }, { "C24", { "stale.", "extra.", "echo" } }, { "C25", { "stale.", "extra.", "order", "echo" } },
    { "C28", { "stale.", "extra.", "outside", "refused" } },
    { "C26", { "stale.", "extra.", "order", "ignored", "noretry" } }, { "C27", { "stale.", "extra.", "order", "echo" } } };
  for (auto &m : tab) if (prop == m.prop) for (auto *p : m.kinds) if (starts(k, p)) return true;
  return false;
}

struct Case { Str prop; uint64_t seed = 0; bool special = false; Masks mk; std::vector<FaultSpec> faults; };
static ScnResult runCase(const Case &c, bool trace = false, std::vector<Str> *out = nullptr) {
  if (c.special) return runSpecial(c.prop, c.seed, c.mk, c.faults, trace, out);
  return runScenario(profileFor(c.prop), c.seed, c.mk, c.faults, trace, out);
}
static std::set<Str> knownF; static std::map<Str, long> knownMet;   // "kind key" of recorded findings
static const Viol* firstRelevant(const Case &c, const ScnResult &r) { for (auto &v : r.viols) if (relevant(c.prop, v.kind)) { Str k = v.kind + " " + v.key; if (knownF.count(k)) { ++knownMet[k]; continue; } return &v; } return nullptr; }

static const char *actName[] = { "errno", "short", "eintr", "kill-main", "kill-group", "disk-full", "oom-from" };
static Str faultText(const FaultSpec &f) { return strf("%d %s %ld %s %d %d %d", f.build, f.kind < 0 ? "ANY" : sysKindName[f.kind], f.nth, actName[f.act], f.err, (int) f.nested, f.sticky); }
static Str jesc(const Str &s) { Str o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) o += strf("\\u%04x", c); else o += c; } return o; }

static void writeReplay(const Str &file, const Case &c, const Viol &v, uint64_t hash, const ScnResult &r, const std::vector<Str> &trace) {
  FILE *f = fopen(file.c_str(), "w"); if (!f) return;
  fprintf(f, "akt-replay 1\nprop %s\nseed %llu\nspecial %d\nsimple %d\nmaxbuild %d\n", c.prop.c_str(), (unsigned long long) c.seed, (int) c.special, (int) c.mk.simple, c.mk.maxBuild);
  fprintf(f, "maskrules"); for (int i : c.mk.rules) fprintf(f, " %d", i); fprintf(f, "\nmaskops"); for (int i : c.mk.ops) fprintf(f, " %d", i); fprintf(f, "\n");
  for (auto &x : c.faults) fprintf(f, "fault %s\n", faultText(x).c_str());
  fprintf(f, "kind %s\nhash %016llx\n", v.kind.c_str(), (unsigned long long) hash);
  fprintf(f, "# violation: %s\n", v.detail.c_str()); for (auto &d : r.desc) fprintf(f, "# %s\n", d.c_str());
  size_t s = trace.size() > 4000 ? trace.size() - 4000 : 0; for (size_t i = s; i < trace.size(); ++i) { Str l = trace[i].substr(0, 400); for (auto &ch : l) if (ch == '\n') ch = '~'; fprintf(f, "| %s\n", l.c_str()); }
  fclose(f);
}
static bool readReplay(const Str &file, Case *c, Str *kind, uint64_t *hash) {
  FILE *f = fopen(file.c_str(), "r"); if (!f) return false; char b[65536]; bool ok = false;
  while (fgets(b, sizeof b, f)) {
    Str l = b; while (!l.empty() && l.back() == '\n') l.pop_back(); if (l.empty() || l[0] == '#' || l[0] == '|') continue; size_t sp = l.find(' '); Str k = l.substr(0, sp), v = sp == Str::npos ? "" : l.substr(sp + 1);
    auto nums = [&] { std::set<int> r; const char *p = v.c_str(); char *e; for (;;) { long n = strtol(p, &e, 10); if (e == p) break; r.insert(n); p = e; } return r; };
    if (k == "akt-replay") ok = true; else if (k == "prop") c->prop = v; else if (k == "seed") c->seed = strtoull(v.c_str(), 0, 10); else if (k == "special") c->special = v == "1"; else if (k == "simple") c->mk.simple = v == "1"; else if (k == "maxbuild") c->mk.maxBuild = atoi(v.c_str());
    else if (k == "maskrules") c->mk.rules = nums(); else if (k == "maskops") c->mk.ops = nums(); else if (k == "kind") *kind = v; else if (k == "hash") *hash = strtoull(v.c_str(), 0, 16);
    else if (k == "fault") { FaultSpec x{}; char kn[64], an[64]; int ne; if (sscanf(v.c_str(), "%d %63s %ld %63s %d %d %d", &x.build, kn, &x.nth, an, &x.err, &ne, &x.sticky) == 7) { x.nested = ne; x.kind = -1; for (int i = 0; i < K_COUNT; ++i) if (Str(kn) == sysKindName[i]) x.kind = i; for (int i = 0; i < 7; ++i) if (Str(an) == actName[i]) x.act = i; c->faults.push_back(x); } }
  }
  fclose(f); return ok;
}

// ---------------------------------------------------------------- fault choice

static std::vector<int> errnosFor(int k) {
  switch (k) {
    case K_OPEN_R: return { EMFILE, EIO, EACCES, ENFILE, EINTR }; case K_OPEN_W: return { ENOSPC, EMFILE, EACCES, EIO, EROFS }; case K_READ: return { EIO, EINTR }; case K_READ_PIPE: return { EIO, EINTR };
    case K_WRITE: return { ENOSPC, EIO, EINTR, EDQUOT }; case K_WRITE_PIPE: return { EINTR, EIO }; case K_CLOSE: return { EIO, ENOSPC }; case K_RENAME: return { ENOSPC, EIO, EACCES }; case K_UNLINK: return { EACCES, EIO, EBUSY };
    case K_RMDIR: return { EBUSY, EACCES }; case K_MKDIR: return { ENOSPC, EACCES }; case K_SYMLINK: return { ENOSPC, EACCES }; case K_READLINK: return { EIO, EACCES }; case K_STAT: return { EACCES, EIO, ENOMEM }; case K_ACCESS: return { EACCES, EIO };
    case K_CHDIR: return { EACCES, EIO }; case K_GETCWD: return { EACCES, ENOMEM }; case K_PIPE: return { EMFILE, ENFILE }; case K_FORK: return { EAGAIN, ENOMEM }; case K_EXEC: return { EACCES, ENOMEM, E2BIG, ETXTBSY, EIO };
    case K_POLL: return { EINTR, ENOMEM }; case K_WAIT: return { EINTR }; case K_DUP: return { EMFILE, EBUSY, EINTR }; case K_FCHMOD: return { EPERM, EIO }; case K_UTIMES: return { EPERM, EIO }; case K_OPENDIR: return { EMFILE, EACCES }; case K_READDIR: return { EIO };
    case K_LSEEK: return { EIO }; case K_TRUNC: return { EIO, ENOSPC }; case K_LINK: return { EACCES, ENOSPC }; case K_REALPATH: return { EACCES, EIO }; case K_FSYNC: return { EIO };
  }
  return { EIO };
}
static bool canFault(int k) { switch (k) { case K_TIME: case K_EXIT: case K_MALLOC: case K_SLEEP: case K_TOOL: case K_FCNTL: case K_KILL: return false; } return true; }

static std::vector<FaultSpec> pickFaults(const Prof &pf, int mode, const ScnResult &base, Rng &r) {
  std::vector<FaultSpec> v; int nb = (int) base.cntMain.size(); if (nb < 2) return v; int b = r.below(nb - 1); bool nested = r.chance(pf.nested); auto &cn = nested ? base.cntNest : base.cntMain;
  if (nested) { bool any = false; for (int i = 0; i + 1 < nb; ++i) if (base.cntNest[i][K_COUNT]) any = true; if (!any) return pickFaults([&] { static Prof p; p = pf; p.nested = 0; return p; }(), mode, base, r); for (int t = 0; t < 20 && !cn[b][K_COUNT]; ++t) b = r.below(nb - 1); if (!cn[b][K_COUNT]) return v; }
  auto kill = [&](int bb, bool nst) { auto &c = nst ? base.cntNest : base.cntMain; FaultSpec f{}; f.build = bb; f.kind = -1; f.nested = nst; long n = c[bb][K_COUNT]; if (!n) return;
    if (r.chance(55)) { // aim at operations that change files
      static const int ks[] = { K_RENAME, K_UNLINK, K_OPEN_W, K_WRITE, K_CLOSE, K_FORK, K_WAIT, K_MKDIR, K_TRUNC }; int k = ks[r.below(9)]; if (c[bb][k]) { f.kind = k; f.nth = 1 + r.below(c[bb][k]); } }
    if (f.kind < 0) f.nth = 1 + r.below(n); f.act = r.chance(50) ? FA_KILL_MAIN : FA_KILL_GROUP; v.push_back(f); };
  auto sys = [&](int bb, bool nst) { auto &c = nst ? base.cntNest : base.cntMain; std::vector<int> ks; for (int k = 0; k < K_COUNT; ++k) if (canFault(k) && c[bb][k]) ks.push_back(k); if (ks.empty()) return; FaultSpec f{}; f.build = bb; f.nested = nst;
    if (r.chance(8)) { f.kind = K_WRITE; if (!c[bb][K_WRITE]) return; f.nth = 1 + r.below(c[bb][K_WRITE]); f.act = FA_DISKFULL; f.err = r.chance(50) ? 0 : r.below(3000); v.push_back(f); return; }
    f.kind = ks[r.below(ks.size())]; if (nst && c[bb][K_WRITE] && r.chance(20)) f.kind = K_WRITE; f.nth = 1 + r.below(c[bb][f.kind]); auto es = errnosFor(f.kind); f.act = FA_ERRNO; f.err = es[r.below(es.size())];
    if ((f.kind == K_READ || f.kind == K_WRITE || f.kind == K_READ_PIPE || f.kind == K_WRITE_PIPE) && r.chance(35)) { f.act = FA_SHORT; f.err = 0; f.sticky = r.chance(40) ? 5 : 0; } else if (r.chance(15)) f.sticky = r.range(1, 30);
    if (f.act == FA_ERRNO && f.err == EINTR) f.sticky = r.chance(30) ? r.range(1, 3) : 0;
    v.push_back(f); };
  auto oom = [&](int bb, bool nst) { auto &c = nst ? base.cntNest : base.cntMain; if (!c[bb][K_MALLOC]) return; FaultSpec f{}; f.build = bb; f.kind = K_MALLOC; f.nth = 1 + r.below(c[bb][K_MALLOC]); f.act = r.chance(40) ? FA_OOM_FROM : FA_ERRNO; f.err = ENOMEM; f.nested = nst; v.push_back(f); };
  if (mode == 1) { kill(b, nested); if (r.chance(30) && b + 2 < nb) kill(b + 1, false); }
  else if (mode == 2) { sys(b, nested); if (r.chance(20)) sys(b, false); if (r.chance(15) && b + 2 < nb) sys(b + 1, false); }
  else if (mode == 3) oom(b, nested);
  else if (mode == 4) { if (r.chance(50)) kill(b, false); else sys(b, nested); }
  else if (mode == 5) { if (r.chance(65)) kill(b, false); else sys(b, false); }
  return v;
}

// ---------------------------------------------------------------- minimisation

static bool violates(const Case &c, const Str &kind, Viol *out = nullptr) { auto r = runCase(c); for (auto &v : r.viols) if (v.kind == kind) { if (out) *out = v; return true; } return false; }
static Case minimise(Case c, const Str &kind, double budget) {
  double t0 = wall(); auto left = [&] { return wall() - t0 < budget; };
  auto attempt = [&](const Case &d) { if (!left()) return false; if (!violates(d, kind)) return false; c = d; return true; };
  { Case d = c; d.mk.simple = true; attempt(d); }
  for (size_t i = 0; i < c.faults.size() && c.faults.size() > 1;) { Case d = c; d.faults.erase(d.faults.begin() + i); if (!attempt(d)) ++i; }
  ScnResult b0 = runCase(c); int nb = b0.builds; for (int k = 0; k < nb; ++k) { Case d = c; d.mk.maxBuild = k; if (attempt(d)) break; }
  for (int round = 0; round < 2 && left(); ++round) {
    ScnResult b = runCase(c); bool any = false;
    for (int i = b.nRules - 1; i >= 0 && left(); --i) if (!c.mk.rules.count(i)) { Case d = c; d.mk.rules.insert(i); any |= attempt(d); }
    for (int id : b.opIds) if (left() && !c.mk.ops.count(id)) { Case d = c; d.mk.ops.insert(id); any |= attempt(d); }
    for (size_t i = 0; i < c.faults.size(); ++i) if (c.faults[i].sticky) { Case d = c; d.faults[i].sticky = 0; any |= attempt(d); }
    if (!any) break;
  }
  return c;
}

// ---------------------------------------------------------------- entry

static Str arg(int argc, char **argv, const char *n, const char *d = "") { for (int i = 2; i + 1 < argc; ++i) if (!strcmp(argv[i], n)) return argv[i + 1]; return d; }

int main(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  if (argc < 2) return 2; Str mode = argv[1]; imgInit();
  if (mode == "replay") {
    Case c; Str kind; uint64_t hash = 0; if (argc < 3 || !readReplay(argv[2], &c, &kind, &hash)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
    bool quiet = argc > 3 && !strcmp(argv[3], "-q"); std::vector<Str> tr; ScnResult r = runCase(c, true, &tr); const Viol *v = nullptr; for (auto &x : r.viols) if (x.kind == kind) v = &x; if (!v) v = firstRelevant(c, r);
    if (!quiet) for (auto &l : tr) puts(l.c_str());
    if (const char *sh = getenv("AKT_SHOW")) { Str d; if (S->hostRead(sh, &d)) printf("==== %s\n%s\n", sh, d.c_str()); }   // a file of the simulated disk at the end
    printf("REPLAY property=%s seed=%llu violation=%s same-execution=%s\n", c.prop.c_str(), (unsigned long long) c.seed, v ? (v->kind + ": " + v->detail).c_str() : "none", r.hash == hash ? "yes" : "no"); return v ? 1 : 0;
  }
  if (mode == "min") {
    Case c; Str kind; uint64_t hash = 0; if (argc < 4 || !readReplay(argv[2], &c, &kind, &hash)) return 2; c = minimise(c, kind, argc > 4 ? atof(argv[4]) : 20);
    std::vector<Str> tr; ScnResult r = runCase(c, false, nullptr); uint64_t h = r.hash; ScnResult r2 = runCase(c, true, &tr); const Viol *v = nullptr; for (auto &x : r.viols) if (x.kind == kind) v = &x; if (!v || r2.hash != h) return 4; writeReplay(argv[3], c, *v, h, r, tr); return 0;
  }
  if (mode == "one") { // akt one PROP SEED [special]: narrative
    Case c; c.prop = argv[2]; c.seed = strtoull(argv[3], 0, 10); c.special = argc > 4 && (!strcmp(argv[4], "special") || (!strcmp(argv[4], "auto") && (int) Rng(mix3(c.seed, 77, 1)).below(100) < specialShare(c.prop))); std::vector<Str> tr; ScnResult r = runCase(c, true, &tr); for (auto &l : tr) puts(l.c_str()); for (auto &v : r.viols) printf("VIOL %s%s: %s\n", v.kind.c_str(), relevant(c.prop, v.kind) ? "" : " (not relevant)", v.detail.c_str());
    std::vector<Str> v; S->walk("/w", v); for (auto &f : v) { Str d; S->hostRead(f, &d); printf("== %s\n%s\n", f.c_str(), d.substr(0, 4000).c_str()); } return 0;
  }
  if (mode != "run") return 2;
  Str prop = arg(argc, argv, "--prop"); uint64_t from = strtoull(arg(argc, argv, "--from", "0").c_str(), 0, 10), stride = strtoull(arg(argc, argv, "--stride", "1").c_str(), 0, 10), count = strtoull(arg(argc, argv, "--count", "1000000000").c_str(), 0, 10); double secs = atof(arg(argc, argv, "--secs", "10").c_str());
  Str out = arg(argc, argv, "--out", "/tmp"), id = arg(argc, argv, "--id", "0"); int maxV = atoi(arg(argc, argv, "--max", "3").c_str()); bool all = arg(argc, argv, "--all", "0") == "1";
  for (int i = 2; i + 1 < argc; ++i) if (!strcmp(argv[i], "--known")) knownF.insert(argv[i + 1]);
  Prof pf = profileFor(prop); int special = atoi(arg(argc, argv, "--special", strf("%d", specialShare(prop)).c_str()).c_str()); double t0 = wall(); int cur = open((out + "/cur." + id).c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  long runs = 0, seeds = 0, builds = 0, okB = 0, badB = 0, steps = 0, execs = 0, faultsFired = 0, faultRuns = 0, determ = 0, nondet = 0, switches = 0; int64_t simNs = 0; std::set<uint64_t> inter, points; std::map<Str, long> fk, feat; int nv = 0; std::set<Str> seenKinds;
  auto mark = [&](const Case &c) { Str s = strf("%s %llu %d", c.prop.c_str(), (unsigned long long) c.seed, (int) c.special); for (auto &f : c.faults) s += "\nfault " + faultText(f); s += "\nend\n"; s.resize(1024, ' '); if (pwrite(cur, s.data(), s.size(), 0) < 0) {} };
  auto account = [&](const ScnResult &r, bool faulted) { ++runs; builds += r.builds; okB += r.okBuilds; badB += r.failBuilds; steps += r.steps; execs += r.execs; faultsFired += r.faultsFired; simNs += r.simNs; switches += r.switches; if (faulted && r.faultsFired) ++faultRuns; inter.insert(r.inter); if (points.size() < 400000) points.insert(r.points.begin(), r.points.end()); for (auto &k : r.faultKinds) fk[k.first] += k.second; for (auto &k : r.feat) feat[k.first] += k.second; };
  auto handle = [&](const Case &c, const ScnResult &r) {
    const Viol *v = firstRelevant(c, r); if (!v && all && !r.viols.empty()) v = &r.viols[0]; if (!v) return; Str kind = v->kind, detail = v->detail; uint64_t h = r.hash;
    ScnResult r2 = runCase(c); if (r2.hash != h) { ++nondet; printf("{\"t\":\"nondet\",\"seed\":%llu}\n", (unsigned long long) c.seed); return; }
    if (!seenKinds.insert(kind).second && nv >= maxV) return; ++nv; Str file = out + strf("/v.%s.%d", id.c_str(), nv); std::vector<Str> none; writeReplay(file, c, *v, h, r, none);
    printf("{\"t\":\"viol\",\"seed\":%llu,\"kind\":\"%s\",\"detail\":\"%s\",\"key\":\"%s\",\"file\":\"%s\"}\n", (unsigned long long) c.seed, kind.c_str(), jesc(detail.substr(0, 600)).c_str(), jesc(v->key).c_str(), jesc(file).c_str());
  };
  for (uint64_t i = 0; i < count && wall() - t0 < secs && (nv < maxV || all); ++i) {
    uint64_t seed = from + i * stride; Case c; c.prop = prop; c.seed = seed; c.special = (int) Rng(mix3(seed, 77, 1)).below(100) < special; mark(c); ++seeds; ScnResult base = runCase(c); account(base, false); handle(c, base);
    if (i % 16 == 0) { ++determ; ScnResult again = runCase(c); if (again.hash != base.hash) { ++nondet; printf("{\"t\":\"nondet\",\"seed\":%llu}\n", (unsigned long long) seed); } }
    if (!pf.fault || !base.viols.empty() || (c.special && prop != "C22" && prop != "C23" && prop != "C28")) continue;
    Rng fr(mix3(seed, 99, 2)); int n = 6; for (int k = 0; k < n && wall() - t0 < secs * 1.2 + 2; ++k) { Case d = c; d.faults = pickFaults(pf, pf.fault, base, fr); if (d.faults.empty()) continue; mark(d); ScnResult r = runCase(d); account(r, true); handle(d, r); if (k == 0 && i % 16 == 0) { ++determ; ScnResult again = runCase(d); if (again.hash != r.hash) { ++nondet; printf("{\"t\":\"nondet\",\"seed\":%llu}\n", (unsigned long long) seed); } } }
  }
  auto dump = [&](const char *n, const std::set<uint64_t> &s) { FILE *f = fopen((out + "/" + n + "." + id).c_str(), "wb"); if (!f) return; for (uint64_t x : s) fwrite(&x, 8, 1, f); fclose(f); }; dump("inter", inter); dump("points", points);
  printf("{\"t\":\"end\",\"runs\":%ld,\"seeds\":%ld,\"builds\":%ld,\"ok_builds\":%ld,\"failed_builds\":%ld,\"steps\":%ld,\"execs\":%ld,\"faults\":%ld,\"fault_runs\":%ld,\"determ\":%ld,\"nondet\":%ld,\"switches\":%ld,\"sim_s\":%.3f,\"wall\":%.3f", runs, seeds, builds, okB, badB, steps, execs, faultsFired, faultRuns, determ, nondet, switches, simNs / 1e9, wall() - t0);
  auto mp = [&](const char *n, const std::map<Str, long> &m) { printf(",\"%s\":{", n); bool f = true; for (auto &k : m) { printf("%s\"%s\":%ld", f ? "" : ",", jesc(k.first).c_str(), k.second); f = false; } printf("}"); }; mp("fault_kinds", fk); mp("features", feat); mp("known", knownMet); printf("}\n"); return 0;
}
