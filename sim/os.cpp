#include "os.h"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>

Sim *S = nullptr;
const char *sysKindName[] = {
#define X(a) #a,
  SYSKINDS(X)
#undef X
};

std::string strf(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  char buf[512]; va_list ap2; va_copy(ap2, ap);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  std::string r;
  if (n < (int) sizeof buf) r.assign(buf, n > 0 ? n : 0);
  else { r.resize(n + 1); vsnprintf(&r[0], n + 1, fmt, ap2); r.resize(n); }
  va_end(ap); va_end(ap2);
  return r;
}

asm(R"(
.text
.globl co_switch
.type co_switch,@function
co_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size co_switch,.-co_switch
)");

static void *schedSp;
void *simSchedSp() { return schedSp; }
static Proc *nextHint, *forkReq, *restoreReq;
static std::vector<char*> stackPool;
static const size_t STUB_STACK = 512 * 1024;
static void *unwindRet; static bool unwinding;

OFD::~OFD() {
  if (pipe) { if (kind == O_K_PIPE_R) --pipe->readers; else --pipe->writers; }
}

Sim::Sim() {
  root = std::make_shared<Inode>(); root->ino = nextIno++; root->type = I_DIR; root->mode = 0755;
  now = 1700000000ll * 1000000000ll; root->mtime = root->ctime = wtime(); root->parent = root.get();
}
Sim::~Sim() {}

void Sim::log(const char *fmt, ...) {
  if (!traceOn) return;
  char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  trace.push_back(buf);
}

// ------------------------------------------------------------------ path resolution

static void splitPath(const std::string &p, std::vector<std::string> &o) {
  size_t i = 0;
  while (i < p.size()) {
    while (i < p.size() && p[i] == '/') ++i;
    size_t j = i; while (j < p.size() && p[j] != '/') ++j;
    if (j > i) o.push_back(p.substr(i, j - i));
    i = j;
  }
}

std::string Sim::pathOf(Inode *i) {
  if (i == root.get()) return "/";
  std::string r;
  int guard = 0;
  while (i != root.get() && ++guard < 1000) {
    Inode *pa = i->parent; if (!pa) return "(deleted)" + r;
    std::string nm = "?";
    for (auto &kv : pa->ents) if (kv.second.get() == i) { nm = kv.first; break; }
    r = "/" + nm + r; i = pa;
  }
  return r;
}

int Sim::resolve(Proc *p, const std::string &path, InodeP *out, bool follow, InodeP *dirOut, std::string *last, int depth) {
  if (path.empty()) return -ENOENT;
  if (path.size() >= 4096) return -ENAMETOOLONG;
  if (depth > 20) return -ELOOP;
  InodeP d = (path[0] == '/' || !p || !p->cwd) ? root : p->cwd;
  std::vector<std::string> seg; splitPath(path, seg);
  bool trail = path.size() > 1 && path.back() == '/';
  if (seg.empty()) { if (out) *out = d; if (dirOut) *dirOut = d; if (last) *last = "."; return 0; }
  for (size_t i = 0; i < seg.size(); ++i) {
    bool fin = i + 1 == seg.size();
    if (d->type != I_DIR) return -ENOTDIR;
    const std::string &s = seg[i];
    if (s.size() > 255) return -ENAMETOOLONG;
    InodeP n;
    if (s == ".") n = d;
    else if (s == "..") { Inode *pp = d->parent; if (!pp) return -ENOENT; n = pp == root.get() ? root : nullptr;
      if (!n) { // find shared ptr through grandparent
        if (pp->parent) for (auto &kv : pp->parent->ents) if (kv.second.get() == pp) { n = kv.second; break; }
        if (!n) return -ENOENT; } }
    else { auto it = d->ents.find(s); if (it != d->ents.end()) n = it->second; }
    if (fin) {
      if (dirOut) *dirOut = d;
      if (last) *last = s;
    }
    if (!n) { if (out) out->reset(); return fin ? -ENOENT : -ENOENT; }
    if (n->type == I_LNK && (!fin || follow || trail)) {
      std::string rest = n->data;
      std::string base = rest.size() && rest[0] == '/' ? "" : pathOf(d.get()) + "/";
      std::string np = base + rest;
      for (size_t k = i + 1; k < seg.size(); ++k) np += "/" + seg[k];
      return resolve(nullptr, np, out, follow, dirOut, last, depth + 1);
    }
    if (fin) { if (trail && n->type != I_DIR) return -ENOTDIR; if (out) *out = n; return 0; }
    d = n;
  }
  return 0;
}

std::string Sim::absPath(Proc *p, const std::string &path) {
  InodeP d; std::string last; InodeP o;
  int rc = resolve(p, path, &o, false, &d, &last);
  if (rc == 0 && o && o->type == I_DIR) return pathOf(o.get());
  if (d) { std::string b = pathOf(d.get()); return (b == "/" ? "" : b) + "/" + last; }
  return path;
}

static InodeP mk(Sim *s, InodeP d, const std::string &nm, IType t, unsigned mode) {
  auto n = std::make_shared<Inode>(); n->ino = s->nextIno++; n->type = t; n->mode = mode; n->mtime = n->ctime = s->wtime(); n->parent = d.get();
  d->ents[nm] = n; d->mtime = s->wtime(); return n;
}

void Sim::hostMkdirs(const std::string &path) {
  std::vector<std::string> seg; splitPath(path, seg);
  InodeP d = root; std::string at;
  for (auto &s : seg) { at += "/" + s; auto it = d->ents.find(s); if (it == d->ents.end()) d = mk(this, d, s, I_DIR, 0755); else d = it->second; if (d->type == I_LNK) { InodeP o; if (resolve(nullptr, at, &o, true)) return; d = o; } if (d->type != I_DIR) return; }
}
bool Sim::hostWrite(const std::string &path, const std::string &data, unsigned mode) {
  InodeP o, d; std::string l;
  int rc = resolve(nullptr, path, &o, true, &d, &l);
  if (rc == 0) { if (o->type != I_FILE) return false; o->data = data; o->mtime = o->ctime = wtime(); return true; }
  size_t sl = path.rfind('/'); if (sl != std::string::npos && sl > 0) hostMkdirs(path.substr(0, sl));
  rc = resolve(nullptr, path, &o, true, &d, &l); if (!d) return false;
  auto n = mk(this, d, l, I_FILE, mode); n->data = data; return true;
}
bool Sim::hostRead(const std::string &path, std::string *out) {
  InodeP o; if (resolve(nullptr, path, &o, true) || o->type != I_FILE) return false; if (out) *out = o->data; return true;
}
InodeP Sim::hostGet(const std::string &path, bool follow) { InodeP o; if (resolve(nullptr, path, &o, follow)) return nullptr; return o; }
bool Sim::hostUnlink(const std::string &path) {
  InodeP o, d; std::string l; if (resolve(nullptr, path, &o, false, &d, &l)) return false; d->ents.erase(l); d->mtime = wtime(); if (o->type == I_DIR) o->parent = nullptr; return true;
}
bool Sim::hostSymlink(const std::string &t, const std::string &path) {
  size_t sl = path.rfind('/'); if (sl > 0) hostMkdirs(path.substr(0, sl));
  InodeP o, d; std::string l; int rc = resolve(nullptr, path, &o, false, &d, &l); if (rc == 0) d->ents.erase(l); if (!d) return false;
  auto n = mk(this, d, l, I_LNK, 0777); n->data = t; return true;
}
void Sim::hostTouch(const std::string &path) { InodeP o = hostGet(path); if (o) o->mtime = o->ctime = wtime(); }
static void walkRec(const std::string &base, InodeP n, std::vector<std::string> &out) {
  for (auto &kv : n->ents) { std::string p = base + "/" + kv.first; if (kv.second->type == I_DIR) walkRec(p, kv.second, out); else out.push_back(p); }
}
void Sim::walk(const std::string &path, std::vector<std::string> &out) { InodeP n = hostGet(path); if (n && n->type == I_DIR) walkRec(path == "/" ? "" : path, n, out); }

// ------------------------------------------------------------------ scheduling

static bool ready(Sim *s, Proc *p) {
  if (p->frozen) return false;
  if (p->st == P_RUN) return true;
  if (p->st == P_BLOCK) return (p->cond && p->cond()) || (p->wakeAt >= 0 && p->wakeAt <= s->now);
  return false;
}

Proc* Sim::pickNext() {
  Proc *c[64]; int n = 0; Proc *curReady = nullptr;
  for (;;) {
    n = 0; curReady = nullptr; int64_t wake = -1;
    for (auto &kv : procs) {
      Proc *p = kv.second.get();
      if (p->st == P_DEAD || p->st == P_ZOMBIE) continue;
      if (ready(this, p)) { if (n < 64) c[n++] = p; if (p == cur) curReady = p; }
      else if (!p->frozen && p->st == P_BLOCK && p->wakeAt >= 0 && (wake < 0 || p->wakeAt < wake)) wake = p->wakeAt;
    }
    if (n) break;
    if (wake < 0) return nullptr;
    now = wake;
  }
  if (n == 1) return c[0];
  uint64_t sp = 1469598103934665603ull;
  for (int i = 0; i < n; ++i) { sp = fnvs(sp, c[i]->exe); sp = fnv(sp, &c[i]->stepsSelf, sizeof c[i]->stepsSelf); }
  Proc *r = nullptr;
  switch (strat) {
    case S_RANDOM: r = (curReady && !rng.chance(switchPct)) ? curReady : c[rng.below(n)]; break;
    case S_RUN_TO_BLOCK: r = curReady ? curReady : c[rng.below(n)]; break;
    case S_CHILD_FIRST: r = c[n - 1]; if (rng.chance(3)) r = c[rng.below(n)]; break;
    case S_PARENT_FIRST: r = c[0]; if (rng.chance(3)) r = c[rng.below(n)]; break;
    case S_PRIO: {
      r = c[0]; for (int i = 1; i < n; ++i) if (c[i]->prio > r->prio) r = c[i];
      if (rng.chance(4)) r->prio = (int) rng.below(1000);
      break;
    }
  }
  if (schedPoints.size() < 200000) { sp = fnv(sp, &r->stepsSelf, sizeof r->stepsSelf); sp = fnvs(sp, r->exe); schedPoints.insert(sp); }
  return r;
}

void Sim::switchTo(Proc *p) {
  if (cur != p) { ++switches; int d = p->pid; interleaveHash = fnv(interleaveHash, &d, sizeof d); interleaveHash = fnv(interleaveHash, &p->stepsSelf, sizeof p->stepsSelf); hash = fnv(hash, &d, sizeof d); }
  cur = p;
  if (p->img) imgLoad(p);
  p->st = P_RUN; p->cond = nullptr; p->wakeAt = -1;
  co_switch(&schedSp, p->sp);
  if (forkReq) {
    Proc *c = forkReq; forkReq = nullptr; Proc *pa = c->forkParent;
    char *top = pa->stack + pa->stackSize;
    pa->snapSp = pa->sp; pa->snapStack.assign((char*) pa->sp, top);
    pa->snapBrk = pa->img->brk; pa->snapHeap.assign(pa->img->heap, pa->img->heap + pa->img->brk);
    imgSaveCurrent(); pa->snapData = pa->img->data; // pg part is kernel side and per image
    pa->snapData.insert(pa->snapData.end(), pa->img->pg.begin(), pa->img->pg.end());
    pa->frozen = true; c->sp = pa->sp; c->started = true; c->st = P_RUN; c->forkRet = 0; pa->forkRet = c->pid;
    nextHint = c; // the child runs first up to exec/exit: a legal schedule
  }
  if (restoreReq) {
    Proc *c = restoreReq; restoreReq = nullptr; Proc *pa = c->forkParent; c->forkParent = nullptr;
    if (c->st == P_ZOMBIE || c->st == P_DEAD) { c->img = nullptr; c->stack = nullptr; c->slot = -1; }
    if (pa && pa->frozen) {
      memcpy(pa->snapSp, pa->snapStack.data(), pa->snapStack.size());
      memcpy(pa->img->heap, pa->snapHeap.data(), pa->snapHeap.size()); pa->img->brk = pa->snapBrk;
      imgSaveCurrent();
      size_t dn = pa->img->data.size(); memcpy(pa->img->data.data(), pa->snapData.data(), dn); memcpy(pa->img->pg.data(), pa->snapData.data() + dn, pa->img->pg.size());
      imgLoad(nullptr); // force reload
      pa->sp = pa->snapSp; pa->frozen = false;
    }
  }
}

void Sim::yield() {
  Proc *p = cur;
  Proc *n = pickNext();
  if (n == p) { p->st = P_RUN; p->cond = nullptr; p->wakeAt = -1; return; }
  nextHint = n; // may be null: deadlock is found by the loop
  co_switch(&p->sp, schedSp);
  if (S->cur->killed && !S->cur->autark) throw Killed();
}

void Sim::block(std::function<bool()> cond, int64_t wakeAt) {
  Proc *p = cur;
  p->st = P_BLOCK; p->cond = std::move(cond); p->wakeAt = wakeAt;
  Proc *n = pickNext();
  if (n == p) { p->st = P_RUN; p->cond = nullptr; p->wakeAt = -1; return; }
  nextHint = n;
  co_switch(&p->sp, schedSp);
  if (S->cur->killed && !S->cur->autark) throw Killed();
}

void Sim::runLoop(std::function<bool()> until) {
  while (!until()) {
    if (capHit) { std::vector<Proc*> v; for (auto &kv : procs) if (kv.second->st != P_DEAD && kv.second->st != P_ZOMBIE) v.push_back(kv.second.get()); for (auto p : v) killProc(p, SIGKILL); continue; }
    Proc *n = nextHint; nextHint = nullptr;
    if (n && !ready(this, n)) n = nullptr;
    if (!n) n = pickNext();
    if (!n) {
      deadlock = true;
      std::vector<Proc*> v; for (auto &kv : procs) if (kv.second->st != P_DEAD && kv.second->st != P_ZOMBIE) v.push_back(kv.second.get());
      if (v.empty()) return;
      for (auto p : v) { log("  deadlock: killing %d %s", p->pid, p->exe.c_str()); killProc(p, SIGKILL); }
      continue;
    }
    switchTo(n);
    if ((n->st == P_ZOMBIE || n->st == P_DEAD) && !n->mainProc && n->img && !n->forkParent && !n->frozen && !forkReq && !restoreReq) { imgFree(n->img); n->img = nullptr; n->stack = nullptr; n->slot = -1; }
  }
}

// ------------------------------------------------------------------ process life cycle

Proc* Sim::newProc() {
  auto p = std::make_unique<Proc>(); p->pid = nextPid++; p->prio = (int) rng.below(1000);
  Proc *r = p.get(); procs[r->pid] = std::move(p); return r;
}

static char* stubStack() {
  if (!stackPool.empty()) { char *s = stackPool.back(); stackPool.pop_back(); return s; }
  char *s = (char*) mmap(nullptr, STUB_STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  mprotect(s, 4096, PROT_NONE);
  return s;
}

static void procEntry() {
  Proc *p = S->cur;
  int code = 0; bool dead = false;
  try { if (p->killed && !p->autark) throw Killed(); code = p->body(*p); } catch (Killed&) { dead = true; }
  p = S->cur;
  if (unwinding) { void *d; unwinding = false; co_switch(&d, unwindRet); }
  if (!dead) S->finishProc(p, (code & 0xff) << 8);
  void *d; co_switch(&d, schedSp);
  abort();
}

void Sim::startProgram(Proc *p) {
  if (!p->stack) { p->stack = stubStack(); p->stackSize = STUB_STACK; }
  void **sp = (void**) (p->stack + p->stackSize);
  *--sp = nullptr; // alignment: 8 mod 16 at entry
  *--sp = (void*) procEntry;
  for (int i = 0; i < 6; ++i) *--sp = nullptr;
  p->sp = sp; p->started = true; p->st = P_RUN;
}

// Stacks of killed processes may still own references to file descriptions: ends of pipes are closed explicitly.
static void closeAll(Proc *p) {
  std::vector<OFDP> v; for (auto &e : p->fds) if (e.f && e.f->pipe) v.push_back(e.f); p->fds.clear();
  for (auto &f : v) { bool used = !f->pipe; if (!used) for (auto &kv : S->procs) for (auto &e : kv.second->fds) if (e.f == f) used = true; if (used) continue; if (f->kind == O_K_PIPE_R) --f->pipe->readers; else --f->pipe->writers; f->pipe = nullptr; }
}

void Sim::reap(Proc *p) { p->st = P_DEAD; }

void Sim::finishProc(Proc *p, int wstatus) {
  if (p->mainProc) { mainZombies = mainLive = 0; for (auto &kv : procs) if (kv.second->ppid == p->pid) { if (kv.second->st == P_ZOMBIE) ++mainZombies; else if (kv.second->st != P_DEAD) ++mainLive; } }
  closeAll(p); p->wstatus = wstatus; p->cond = nullptr;
  if (p->execRec >= 0) { ExecRec &e = execs[p->execRec]; e.status = wstatus; e.done = true; e.tEnd = steps; }
  log("[%ld] pid %d %s ends status=%s%d", steps, p->pid, p->exe.c_str(), WIFSIGNALED(wstatus) ? "signal " : "", WIFSIGNALED(wstatus) ? WTERMSIG(wstatus) : WEXITSTATUS(wstatus));
  int t[2] = { p->pid, wstatus }; hash = fnv(hash, t, sizeof t);
  for (auto &kv : procs) if (kv.second->ppid == p->pid) { kv.second->ppid = 1; if (kv.second->st == P_ZOMBIE) kv.second->st = P_DEAD; }
  bool hasParent = p->ppid > 1 && procs.count(p->ppid) && procs[p->ppid]->st != P_DEAD && procs[p->ppid]->st != P_ZOMBIE;
  p->st = (hasParent || p->mainProc) ? P_ZOMBIE : P_DEAD;
  if (p->forkParent) { // a forked child that never exec'ed: the parent's image has to be restored
    if (p == cur) { restoreReq = p; } else { Proc *pa = p->forkParent; p->forkParent = nullptr; p->img = nullptr; pa->frozen = false; }
  }
}

void Sim::killProc(Proc *p, int sig) {
  if (p->st == P_DEAD || p->st == P_ZOMBIE) return;
  bool isCur = p == cur && !0;
  // forked, not yet exec'ed children share the image
  if (p->frozen) { for (auto &kv : procs) if (kv.second->forkParent == p) { Proc *c = kv.second.get(); c->forkParent = nullptr; c->img = nullptr; if (c->st != P_ZOMBIE && c->st != P_DEAD) finishProc(c, sig); } p->frozen = false; }
  p->killed = true;
  bool wasStarted = p->started;
  PState before = p->st; (void) before;
  finishProc(p, sig);
  if (!p->autark && wasStarted && !isCur && p->sp) {
    Proc *save = cur; cur = p; unwinding = true; void *tmpRet = nullptr;
    void **slot = &unwindRet; (void) tmpRet;
    co_switch(slot, p->sp);
    cur = save; unwinding = false;
  }
}

void Sim::killTree(Proc *p, int sig) {
  std::vector<Proc*> v; for (auto &kv : procs) if (kv.second->st != P_DEAD && kv.second->st != P_ZOMBIE) v.push_back(kv.second.get());
  for (auto q : v) if (q != p) killProc(q, sig);
  killProc(p, sig);
}

void Sim::freeProc(Proc *p) {
  if (p->img && !p->forkParent) { imgFree(p->img); p->img = nullptr; }
  if (p->stack && p->slot < 0) { stackPool.push_back(p->stack); p->stack = nullptr; }
}

void Sim::crash(Proc *p, const std::string &why) {
  p->crashed = true; p->crashWhy = why; log("[%ld] pid %d CRASH: %s", steps, p->pid, why.c_str());
  p->killed = true; finishProc(p, SIGSEGV);
}

// ------------------------------------------------------------------ the gate every system call passes

static bool gShort;
bool Sim::wantShort(SysKind) { bool r = gShort; gShort = false; return r; }

int Sim::enter(SysKind k, const std::string &what, bool faultable) {
  Proc *p = cur;
  if (p->killed && !p->autark) throw Killed();
  ++steps; ++p->stepsSelf;
  if (steps > stepCap) { capHit = true; co_switch(&p->sp, schedSp); if (cur->killed && !cur->autark) throw Killed(); }
  now += 1000 + (int64_t) rng.below(30000);
  int t[2] = { p->pid, (int) k }; hash = fnv(hash, t, sizeof t); hash = fnvs(hash, what);
  if (traceOn) log("[%ld] %d:%s %s %s", steps, p->pid, p->exe.c_str() + (p->exe.rfind('/') + 1), sysKindName[k], what.c_str());
  if (p->autark) ++sysCount[sysKindName[k]];
  gShort = false;
  int ret = 0;
  if (p->autark && faultable && !noFaults) {
    bool nested = !(p->mainProc || (p->forkParent && p->forkParent->mainProc));
    long *cnt = nested ? cntNest : cntMain;
    ++cnt[k]; ++cnt[K_COUNT];
    for (Fault *f : faults) {
      if (f->nested != nested) continue;
      if (f->fired && f->left > 0 && f->kind == k) { --f->left; if (f->act == FA_ERRNO) { ret = -f->err; ++faultKinds[strf("%s:%s", sysKindName[k], strerrorname_np(f->err))]; } continue; }
      if (f->fired) continue;
      if (f->kind >= 0 ? (f->kind == k && cnt[k] == f->nth) : cnt[K_COUNT] == f->nth) {
        f->fired = true; f->left = f->sticky;
        switch (f->act) {
          case FA_ERRNO: ret = -f->err; ++faultKinds[strf("%s:%s", sysKindName[k], strerrorname_np(f->err))]; log("[%ld]   FAULT %s -> %s", steps, sysKindName[k], strerrorname_np(f->err)); break;
          case FA_EINTR: ret = -EINTR; ++faultKinds[strf("%s:EINTR", sysKindName[k])]; log("[%ld]   FAULT EINTR", steps); break;
          case FA_SHORT: gShort = true; ++faultKinds[strf("%s:short", sysKindName[k])]; log("[%ld]   FAULT short", steps); break;
          case FA_DISKFULL: diskFree = f->err; ++faultKinds["disk-full"]; log("[%ld]   FAULT disk full after %d bytes", steps, f->err); break;
          case FA_OOM_FROM: oom = true; break;
          case FA_KILL_MAIN: case FA_KILL_GROUP: {
            ++faultKinds[f->act == FA_KILL_MAIN ? "kill-main" : "kill-group"]; log("[%ld]   FAULT kill %s", steps, f->act == FA_KILL_MAIN ? "main" : "group");
            Proc *m = mainP; bool self = (p == m) || p->forkParent == m;
            if (f->act == FA_KILL_GROUP) {
              Proc *sc = cur; killTree(m, SIGKILL); (void) sc; void *d; co_switch(&d, schedSp); abort();
            } else {
              if (self && p != m) { finishProc(p, SIGKILL); restoreReq = nullptr; p->forkParent = nullptr; p->img = nullptr; m->frozen = false; p->killed = true; }
              killProc(m, SIGKILL);
              if (self) { void *d; co_switch(&d, schedSp); abort(); }
            }
            break;
          }
        }
      }
    }
  }
  bool sh = gShort;
  if (!p->forkParent) yield();
  gShort = sh;
  int r = ret; hash = fnv(hash, &r, sizeof r);
  return ret;
}

// ------------------------------------------------------------------ system calls

static void envNV(const std::vector<std::string> &env, ExecRec &er) { for (auto &e : env) if (e.compare(0, 2, "NV") == 0) { size_t i = e.find('='); if (i != std::string::npos) er.env[e.substr(0, i)] = e.substr(i + 1); } }

void Sim::mut(const char *op, const std::string &path) {
  muts.push_back({ build, cur->pid, cur->autark, op, absPath(cur, path) });
}

void Sim::mutN(const char *op, Inode *n) { muts.push_back({ build, cur->pid, cur->autark, op, pathOf(n) }); }

static int allocFd(Sim *s, Proc *p, OFDP f, bool cloexec, int minfd = 0) {
  int i = minfd;
  for (; i < (int) p->fds.size(); ++i) if (!p->fds[i].f) break;
  if (i >= s->rlimitNofile) return -EMFILE;
  if (i >= (int) p->fds.size()) p->fds.resize(i + 1);
  p->fds[i] = { f, cloexec };
  int n = 0; for (auto &e : p->fds) if (e.f) ++n;
  if (n > p->maxFd) p->maxFd = n;
  Proc *q = p->forkParent; if (q && 0) (void) q;
  return i;
}

static OFDP getFd(Proc *p, int fd) { if (fd < 0 || fd >= (int) p->fds.size()) return nullptr; return p->fds[fd].f; }

int Sim::sOpen(const std::string &path, int flags, unsigned mode) {
  bool wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  int e = enter(wr ? K_OPEN_W : (flags & O_DIRECTORY) ? K_OPENDIR : K_OPEN_R, path); if (e) return e;
  Proc *p = cur; InodeP n, d; std::string l;
  int rc = resolve(p, path, &n, !(flags & O_NOFOLLOW), &d, &l);
  if (rc == -ENOENT && (flags & O_CREAT) && d && l != "." && l != ".." && path.back() != '/') {
    if (diskFree == 0 && 0) return -ENOSPC;
    // dangling symlink at the final component resolves to its target directory
    n = mk(this, d, l, I_FILE, mode & ~p->umask & 07777); mut("create", path);
  } else if (rc) return rc;
  else if ((flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
  if (n->type == I_LNK) return -ELOOP;
  if ((flags & O_DIRECTORY) && n->type != I_DIR) return -ENOTDIR;
  auto f = std::make_shared<OFD>(); f->ino = n; f->flags = flags; f->path = path; f->by = p->pid;
  if (n->type == I_DIR) { if (wr) return -EISDIR; f->kind = O_K_DIR; }
  else if (n->type == I_NULL) f->kind = O_K_NULL;
  else {
    f->kind = O_K_FILE;
    if (wr && ((flags & O_ACCMODE) != O_RDONLY)) mutN("openw", n.get());
    if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) { n->data.clear(); n->mtime = n->ctime = wtime(); mutN("trunc", n.get()); }
  }
  return allocFd(this, p, f, flags & O_CLOEXEC);
}

int Sim::sClose(int fd) {
  Proc *p0 = cur; OFDP f = getFd(p0, fd);
  int e = enter(K_CLOSE, strf("%d", fd), !(f && (f->kind == O_K_PIPE_R || f->kind == O_K_PIPE_W || f->kind == O_K_DIR)));
  Proc *p = cur; if (!getFd(p, fd)) return -EBADF;
  p->fds[fd] = {};           // Linux closes the descriptor even if it reports an error
  return e;
}

ssize_t Sim::sRead(int fd, void *buf, size_t n) {
  OFDP f = getFd(cur, fd);
  bool pipeEnd = f && f->kind == O_K_PIPE_R;
  int e = enter(pipeEnd ? K_READ_PIPE : K_READ, strf("%d %zu", fd, n)); bool sh = wantShort(K_READ);
  if (e) return e;
  if (!f) return -EBADF;
  if ((f->flags & O_ACCMODE) == O_WRONLY) return -EBADF;
  switch (f->kind) {
    case O_K_NULL: case O_K_SINK: return 0;
    case O_K_DIR: return -EISDIR;
    case O_K_PIPE_W: return -EBADF;
    case O_K_FILE: {
      int64_t av = (int64_t) f->ino->data.size() - f->off; if (av <= 0) return 0;
      size_t k = std::min<size_t>(av, n); if (sh && k > 1) k = 1 + rng.below(k - 1);
      memcpy(buf, f->ino->data.data() + f->off, k); f->off += k; return k;
    }
    case O_K_PIPE_R: {
      auto pp = f->pipe;
      if (pp->avail() == 0 && pp->writers > 0) {
        if (f->flags & O_NONBLOCK) return -EAGAIN;
        Pipe *raw = pp.get(); block([raw] { return raw->avail() > 0 || raw->writers == 0; });
      }
      size_t k = std::min(pp->avail(), n); if (sh && k > 1) k = 1 + rng.below(k - 1);
      memcpy(buf, pp->buf.data() + pp->rpos, k); pp->rpos += k; if (pp->rpos == pp->buf.size()) { pp->buf.clear(); pp->rpos = 0; }
      int r = (int) k; hash = fnv(hash, &r, sizeof r);
      return k;
    }
  }
  return -EBADF;
}

ssize_t Sim::sWrite(int fd, const void *buf, size_t n) {
  OFDP f = getFd(cur, fd);
  bool pipeEnd = f && (f->kind == O_K_PIPE_W);
  int e = enter(pipeEnd ? K_WRITE_PIPE : K_WRITE, strf("%d %zu", fd, n), !(f && f->kind == O_K_SINK)); bool sh = wantShort(K_WRITE);
  if (e) return e;
  if (!f) return -EBADF;
  hash = fnv(hash, buf, std::min<size_t>(n, 256));
  switch (f->kind) {
    case O_K_NULL: return n;
    case O_K_SINK: { if (f->sink) f->sink->append((const char*) buf, n); return n; }
    case O_K_FILE: {
      if ((f->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
      size_t k = n; if (sh && k > 1) k = 1 + rng.below(k - 1);
      if (diskFree >= 0) { if (diskFree == 0 && k) { ++faultKinds["ENOSPC-delivered"]; return -ENOSPC; } if ((int64_t) k > diskFree) k = diskFree; diskFree -= k; }
      auto &d = f->ino->data;
      if (f->flags & O_APPEND) f->off = d.size();
      if ((int64_t) d.size() < f->off) d.resize(f->off);
      d.replace(f->off, std::min<size_t>(k, d.size() - f->off), (const char*) buf, k); f->off += k;
      f->ino->mtime = f->ino->ctime = wtime();
      return k;
    }
    case O_K_PIPE_W: {
      auto pp = f->pipe; size_t done = 0; const char *b = (const char*) buf;
      while (done < n) {
        if (pp->readers == 0) { // SIGPIPE
          Proc *p = cur; log("[%ld] %d SIGPIPE", steps, p->pid);
          if (p->autark) { killProc(p, SIGPIPE); void *d; co_switch(&d, schedSp); abort(); }
          finishProc(p, SIGPIPE); p->killed = true; throw Killed();
        }
        size_t room = pp->cap - pp->avail();
        if (room == 0 || (n <= 4096 && done == 0 && room < n)) {
          if (f->flags & O_NONBLOCK) return done ? (ssize_t) done : -EAGAIN;
          Pipe *raw = pp.get(); size_t need = n <= 4096 ? n : 1; block([raw, need] { return raw->cap - raw->avail() >= need || raw->readers == 0; }); continue;
        }
        size_t k = std::min(room, n - done); pp->buf.append(b + done, k); done += k;
        if (done < n) { yield(); }
      }
      return done;
    }
    default: return -EBADF;
  }
}

int64_t Sim::sLseek(int fd, int64_t off, int wh) {
  int e = enter(K_LSEEK, strf("%d %ld %d", fd, (long) off, wh)); if (e) return e;
  OFDP f = getFd(cur, fd); if (!f) return -EBADF; if (f->kind != O_K_FILE) return -ESPIPE;
  int64_t n = wh == SEEK_SET ? off : wh == SEEK_CUR ? f->off + off : (int64_t) f->ino->data.size() + off;
  if (n < 0) return -EINVAL; f->off = n; return n;
}

int Sim::sPipe(int *fds, int flags) {
  int e = enter(K_PIPE, ""); if (e) return e;
  auto pp = std::make_shared<Pipe>();
  auto r = std::make_shared<OFD>(); r->kind = O_K_PIPE_R; r->pipe = pp; r->flags = O_RDONLY | (flags & O_NONBLOCK); ++pp->readers;
  auto w = std::make_shared<OFD>(); w->kind = O_K_PIPE_W; w->pipe = pp; w->flags = O_WRONLY | (flags & O_NONBLOCK); ++pp->writers;
  int a = allocFd(this, cur, r, flags & O_CLOEXEC); if (a < 0) return a;
  int b = allocFd(this, cur, w, flags & O_CLOEXEC); if (b < 0) { cur->fds[a] = {}; return b; }
  fds[0] = a; fds[1] = b; return 0;
}

int Sim::sDup(int fd, int to, bool cloexec) {
  int e = enter(K_DUP, strf("%d %d", fd, to)); if (e) return e;
  OFDP f = getFd(cur, fd); if (!f) return -EBADF;
  if (to < 0) return allocFd(this, cur, f, cloexec, -to - 1);
  if (to == fd) return to;
  if (to >= rlimitNofile) return -EBADF;
  if (to >= (int) cur->fds.size()) cur->fds.resize(to + 1);
  cur->fds[to] = { f, cloexec }; return to;
}

int Sim::sRename(const std::string &a, const std::string &b) {
  int e = enter(K_RENAME, a + " -> " + b); if (e) return e;
  InodeP n, d, n2, d2; std::string l, l2;
  int rc = resolve(cur, a, &n, false, &d, &l); if (rc) return rc;
  rc = resolve(cur, b, &n2, false, &d2, &l2); if (rc && !(rc == -ENOENT && d2)) return rc;
  if (rc == 0 && n2 == n) return 0;
  if (rc == 0) { if (n2->type == I_DIR && n->type != I_DIR) return -EISDIR; if (n2->type != I_DIR && n->type == I_DIR) return -ENOTDIR; if (n2->type == I_DIR && !n2->ents.empty()) return -ENOTEMPTY; }
  mut("rename-from", a); mut("rename-to", b);
  d->ents.erase(l); d2->ents[l2] = n; n->parent = d2.get(); n->ctime = d->mtime = d2->mtime = wtime(); return 0;
}

int Sim::sUnlink(const std::string &a) {
  int e = enter(K_UNLINK, a); if (e) return e;
  InodeP n, d; std::string l; int rc = resolve(cur, a, &n, false, &d, &l); if (rc) return rc;
  if (n->type == I_DIR) return -EISDIR;
  mut("unlink", a); d->ents.erase(l); d->mtime = wtime(); return 0;
}
int Sim::sRmdir(const std::string &a) {
  int e = enter(K_RMDIR, a); if (e) return e;
  InodeP n, d; std::string l; int rc = resolve(cur, a, &n, false, &d, &l); if (rc) return rc;
  if (n->type != I_DIR) return -ENOTDIR; if (!n->ents.empty()) return -ENOTEMPTY; if (n == root) return -EBUSY;
  mut("rmdir", a); d->ents.erase(l); n->parent = nullptr; d->mtime = wtime(); return 0;
}
int Sim::sMkdir(const std::string &a, unsigned mode) {
  int e = enter(K_MKDIR, a); if (e) return e;
  InodeP n, d; std::string l; int rc = resolve(cur, a, &n, false, &d, &l);
  if (rc == 0) return -EEXIST; if (rc != -ENOENT || !d) return rc;
  mk(this, d, l, I_DIR, mode & ~cur->umask & 07777); mut("mkdir", a); return 0;
}
int Sim::sSymlink(const std::string &t, const std::string &a) {
  int e = enter(K_SYMLINK, a + " -> " + t); if (e) return e;
  InodeP n, d; std::string l; int rc = resolve(cur, a, &n, false, &d, &l);
  if (rc == 0) return -EEXIST; if (rc != -ENOENT || !d) return rc;
  mk(this, d, l, I_LNK, 0777)->data = t; mut("symlink", a); return 0;
}
int Sim::sLink(const std::string &t, const std::string &a) {
  int e = enter(K_LINK, a); if (e) return e;
  InodeP n, d, o; std::string l; int rc = resolve(cur, t, &o, false); if (rc) return rc; if (o->type == I_DIR) return -EPERM;
  rc = resolve(cur, a, &n, false, &d, &l); if (rc == 0) return -EEXIST; if (rc != -ENOENT || !d) return rc;
  d->ents[l] = o; d->mtime = wtime(); mut("link", a); return 0;
}
int Sim::sReadlink(const std::string &a, std::string *out) {
  int e = enter(K_READLINK, a); if (e) return e;
  InodeP n; int rc = resolve(cur, a, &n, false); if (rc) return rc; if (n->type != I_LNK) return -EINVAL; *out = n->data; return 0;
}
int Sim::sStat(const std::string &a, InodeP *out, bool follow) {
  int e = enter(K_STAT, a, false); if (e) return e;
  return resolve(cur, a, out, follow);
}
int Sim::sAccess(const std::string &a, int mode) {
  int e = enter(K_ACCESS, a, false); if (e) return e;
  InodeP n; int rc = resolve(cur, a, &n); if (rc) return rc;
  if ((mode & 1) && n->type != I_DIR && !(n->mode & 0111)) return -EACCES;
  return 0;
}
int Sim::sChdir(const std::string &a) {
  int e = enter(K_CHDIR, a, false); if (e) return e;
  InodeP n; int rc = resolve(cur, a, &n); if (rc) return rc; if (n->type != I_DIR) return -ENOTDIR; cur->cwd = n; return 0;
}
int Sim::sGetcwd(std::string *out) {
  int e = enter(K_GETCWD, "", false); if (e) return e;
  if (!cur->cwd) { *out = "/"; return 0; }
  *out = pathOf(cur->cwd.get()); if (out->compare(0, 9, "(deleted)") == 0) return -ENOENT; return 0;
}
int Sim::sChmod(const std::string &a, int fd, unsigned mode) {
  int e = enter(K_FCHMOD, fd >= 0 ? strf("fd %d %o", fd, mode) : a); if (e) return e;
  InodeP n; if (fd >= 0) { OFDP f = getFd(cur, fd); if (!f) return -EBADF; n = f->ino; if (!n) return -EINVAL; mutN("chmod", n.get()); } else { int rc = resolve(cur, a, &n); if (rc) return rc; mutN("chmod", n.get()); }
  n->mode = mode & 07777; n->ctime = wtime(); return 0;
}
int Sim::sUtimes(const std::string &a, int fd, int64_t mt, bool follow) {
  int e = enter(K_UTIMES, fd >= 0 ? strf("fd %d", fd) : a); if (e) return e;
  InodeP n; if (fd >= 0) { OFDP f = getFd(cur, fd); if (!f) return -EBADF; n = f->ino; if (!n) return -EINVAL; } else { int rc = resolve(cur, a, &n, follow); if (rc) return rc; mut("utimes", a); }
  n->mtime = mt; n->ctime = wtime(); return 0;
}
int Sim::sTrunc(const std::string &a, int fd, int64_t len) {
  int e = enter(K_TRUNC, a); if (e) return e;
  InodeP n; if (fd >= 0) { OFDP f = getFd(cur, fd); if (!f || !f->ino) return -EBADF; n = f->ino; } else { int rc = resolve(cur, a, &n); if (rc) return rc; mutN("trunc", n.get()); }
  n->data.resize(len); n->mtime = wtime(); return 0;
}

int Sim::sFork() {
  int e = enter(K_FORK, ""); if (e) return e;
  Proc *p = cur; Proc *c = newProc();
  c->ppid = p->pid; c->autark = true; c->fds = p->fds; c->cwd = p->cwd; c->umask = p->umask; c->argv = p->argv; c->env = p->env; c->exe = p->exe; c->img = p->img; c->forkParent = p; c->stack = nullptr;
  c->stack = p->stack; c->stackSize = p->stackSize; c->slot = p->slot;
  forkReq = c; nextHint = nullptr;
  co_switch(&p->sp, schedSp);
  return S->cur->forkRet;
}

static const char* envGet(const std::vector<std::string> &env, const char *k) {
  size_t n = strlen(k); for (auto &e : env) if (e.size() > n && e.compare(0, n, k) == 0 && e[n] == '=') return e.c_str() + n + 1; return nullptr;
}

static std::string exeTmp;
int Sim::sExec(const std::string &path, std::vector<std::string> argv, std::vector<std::string> env) {
  int e = enter(K_EXEC, path); if (e) return e;
  Proc *p = cur; InodeP n; int rc = resolve(p, path, &n); if (rc) return rc;
  if (n->type != I_FILE) return -EACCES; if (!(n->mode & 0111)) return -EACCES;
  size_t tot = 0; for (auto &a : argv) { tot += a.size() + 1; if (a.size() >= 131072) return -E2BIG; } for (auto &a : env) { tot += a.size() + 1; if (a.size() >= 131072) return -E2BIG; }
  if (tot > 2000000) return -E2BIG;
  std::string exe = pathOf(n.get());
  if (n->data.compare(0, 2, "#!") == 0) { // interpreter script
    size_t nl = n->data.find('\n'); std::string interp = n->data.substr(2, nl == std::string::npos ? nl : nl - 2);
    while (!interp.empty() && interp[0] == ' ') interp.erase(0, 1);
    std::vector<std::string> na{ interp, path }; for (size_t i = 1; i < argv.size(); ++i) na.push_back(argv[i]); argv = na;
    InodeP in; rc = resolve(nullptr, interp, &in); if (rc) return rc; exe = pathOf(in.get()); n = in;
  } else if (n->data.compare(0, 6, "!STUB ") != 0) return -ENOEXEC;
  for (auto &f : p->fds) if (f.f && f.cloexec) f = {};
  p->argv = std::move(argv); p->env = std::move(env); p->exe = exe;
  ExecRec er; er.build = build; er.pid = p->pid; er.ppid = p->ppid; er.prog = exe; er.argv = p->argv; er.cwd = p->cwd ? pathOf(p->cwd.get()) : "/"; er.tStart = steps;
  envNV(p->env, er);
  for (auto k : { "AUTARK_UNIT", "PATH", "AUTARK_ROOT_DIR", "AUTARK_CACHE_DIR" }) { auto v = envGet(p->env, k); if (v) er.env[k] = v; }
  p->execRec = execs.size(); execs.push_back(er);
  if (traceOn) { std::string s; for (auto &a : p->argv) s += " " + (a.size() > 200 ? a.substr(0, 200) + "..." : a); log("[%ld]   exec pid %d in %s:%s", steps, p->pid, er.cwd.c_str(), s.c_str()); }
  for (auto &a : p->argv) hash = fnvs(hash, a);
  bool forked = p->forkParent != nullptr;
  { ExecRec x; std::swap(x, er); std::string y; std::swap(y, exe); exeTmp = y; n.reset(); }
  p->autark = false; p->stack = nullptr; p->slot = -1; if (!forked && p->img) { imgFree(p->img); } p->img = nullptr;
  if (forked) { restoreReq = p; }
  onExec(*p, exeTmp);   // sets body, and img/stack for autark
  p->started = false;
  startProgram(p);
  void *d; nextHint = nullptr; co_switch(&d, schedSp); abort();
}

int Sim::sSpawn(const std::string &exe0, std::vector<std::string> argv, std::vector<std::string> env, int outFd) {
  int e = enter(K_FORK, exe0); if (e) return e;
  InodeP n; int rc = resolve(cur, exe0, &n); if (rc) return rc; if (n->type != I_FILE || !(n->mode & 0111)) return -EACCES;
  std::string exe = pathOf(n.get());
  if (n->data.compare(0, 2, "#!") == 0) {
    size_t nl = n->data.find('\n'); std::string interp = n->data.substr(2, nl == std::string::npos ? nl : nl - 2);
    std::vector<std::string> na{ interp, exe0 }; for (size_t i = 1; i < argv.size(); ++i) na.push_back(argv[i]); argv = na;
    InodeP in; rc = resolve(nullptr, interp, &in); if (rc) return rc; exe = pathOf(in.get());
  }
  Proc *p = cur, *c = newProc();
  c->ppid = p->pid; c->fds = p->fds; c->cwd = p->cwd; c->umask = p->umask; c->argv = argv; c->env = env; c->exe = exe;
  for (size_t i = 3; i < c->fds.size(); ++i) c->fds[i] = {};
  if (outFd >= 0) c->fds[1] = { getFd(p, outFd), false };
  ExecRec er; er.build = build; er.pid = c->pid; er.ppid = c->ppid; er.prog = exe; er.argv = argv; er.cwd = c->cwd ? pathOf(c->cwd.get()) : "/"; er.tStart = steps;
  envNV(env, er);
  for (auto k : { "AUTARK_UNIT", "PATH", "AUTARK_ROOT_DIR", "AUTARK_CACHE_DIR" }) { auto v = envGet(env, k); if (v) er.env[k] = v; }
  c->execRec = execs.size(); execs.push_back(er);
  if (traceOn) { std::string s; for (auto &a : argv) s += " " + (a.size() > 200 ? a.substr(0, 200) + "..." : a); log("[%ld]   spawn pid %d:%s", steps, c->pid, s.c_str()); }
  for (auto &a : argv) hash = fnvs(hash, a);
  onExec(*c, exe); startProgram(c);
  return c->pid;
}

int Sim::sWait(int pid, int *status, int options) {
  int e = enter(K_WAIT, strf("%d", pid)); if (e) return e;
  for (;;) {
    bool any = false; Proc *z = nullptr; std::vector<Proc*> zs;
    int me = cur->pid;
    for (auto &kv : procs) { Proc *c = kv.second.get(); if (c->ppid != me || c->st == P_DEAD) continue; if (pid > 0 && c->pid != pid) continue; any = true; if (c->st == P_ZOMBIE) zs.push_back(c); }
    if (!any) return -ECHILD;
    if (!zs.empty()) { z = zs[zs.size() > 1 ? rng.below(zs.size()) : 0]; if (status) *status = z->wstatus; z->st = P_DEAD; int r = z->pid; hash = fnv(hash, &r, sizeof r); log("[%ld]   %d reaps %d", steps, cur->pid, r); return r; }
    if (options & WNOHANG) return 0;
    block([this, me, pid] { bool any = false; for (auto &kv : procs) { Proc *c = kv.second.get(); if (c->ppid != me || c->st == P_DEAD) continue; if (pid > 0 && c->pid != pid) continue; any = true; if (c->st == P_ZOMBIE) return true; } return !any; });
  }
}

static short pollOne(Proc *p, struct pollfd &f) {
  if (f.fd < 0) return 0;
  OFDP o = getFd(p, f.fd); if (!o) return POLLNVAL;
  short r = 0;
  switch (o->kind) {
    case O_K_PIPE_R: if (o->pipe->avail()) r |= POLLIN & f.events; if (o->pipe->writers == 0) r |= POLLHUP; break;
    case O_K_PIPE_W: if (o->pipe->readers == 0) r |= POLLERR; else if (o->pipe->avail() < o->pipe->cap) r |= POLLOUT & f.events; break;
    default: r = (POLLIN | POLLOUT) & f.events;
  }
  return r;
}

int Sim::sPoll(void *fds_, int n, int timeoutMs) {
  struct pollfd *fds = (struct pollfd*) fds_;
  int e = enter(K_POLL, strf("%d %d", n, timeoutMs)); if (e) return e;
  Proc *p = cur;
  auto check = [p, fds, n] { int c = 0; for (int i = 0; i < n; ++i) { if (pollOne(p, fds[i])) ++c; } return c; };
  if (!check() && timeoutMs != 0) {
    // the pollfd array lives in the caller's frame, which stays in place while it is blocked
    block([check] { return check() > 0; }, timeoutMs > 0 ? now + (int64_t) timeoutMs * 1000000 : -1);
  }
  int c = 0; for (int i = 0; i < n; ++i) { fds[i].revents = pollOne(p, fds[i]); if (fds[i].revents) ++c; hash = fnv(hash, &fds[i].revents, sizeof(short)); }
  return c;
}

void Sim::sSleep(int64_t ns) { enter(K_SLEEP, strf("%ld", (long) ns)); block(nullptr, now + ns); }

void Sim::sExit(int status) {
  enter(K_EXIT, strf("%d", status), false);
  Proc *p = cur; p->killed = true;
  if (!p->autark) { finishProc(p, (status & 0xff) << 8); throw Killed(); }
  finishProc(p, (status & 0xff) << 8);
  void *d; co_switch(&d, schedSp); abort();
}

int Sim::sKill(int pid, int sig) {
  int e = enter(K_KILL, strf("%d %d", pid, sig)); if (e) return e;
  auto it = procs.find(pid); if (it == procs.end() || it->second->st == P_DEAD) return -ESRCH;
  if (sig && it->second->st != P_ZOMBIE) { Proc *t = it->second.get(); if (t == cur) { sExit(128 + sig); } killProc(t, sig); }
  return 0;
}

int Sim::listDir(const std::string &path, std::vector<std::string> *names) {
  InodeP n; int rc = resolve(cur, path, &n); if (rc) return rc; if (n->type != I_DIR) return -ENOTDIR;
  for (auto &kv : n->ents) names->push_back(kv.first); return 0;
}

// ------------------------------------------------------------------ one build

Sim::BuildRes Sim::runBuild(int bi, const std::vector<std::string> &argv, const std::vector<std::string> &env, const std::string &cwd, std::vector<Fault*> fl) {
  build = bi; faults = std::move(fl); memset(cntMain, 0, sizeof cntMain); memset(cntNest, 0, sizeof cntNest);
  outMain.clear(); errMain.clear(); diskFree = -1; oom = false; deadlock = false; capHit = false; nextHint = nullptr; forkReq = restoreReq = nullptr;
  long s0 = steps; stepCap = steps + (stdioCap < 4096 ? 2000000 : 400000);
  Proc *p = newProc(); p->mainProc = true; mainP = p; p->argv = argv; p->env = env; p->exe = argv[0][0] == '/' ? argv[0] : "/opt/ak/autark"; p->ppid = 0; p->cwd = hostGet(cwd);
  auto nul = std::make_shared<OFD>(); nul->kind = O_K_NULL; nul->flags = O_RDWR;
  auto so = std::make_shared<OFD>(); so->kind = O_K_SINK; so->sink = &outMain; so->flags = O_WRONLY;
  auto se = std::make_shared<OFD>(); se->kind = O_K_SINK; se->sink = &errMain; se->flags = O_WRONLY;
  p->fds = { { nul, false }, { so, false }, { se, false } };
  log("---- build %d: %s", bi, [&] { std::string s; for (auto &a : argv) s += a + " "; return s; } ().c_str());
  hash = fnv(hash, &bi, sizeof bi); for (auto &a : argv) hash = fnvs(hash, a); for (auto &a : env) hash = fnvs(hash, a);
  int64_t t0 = now;
  onExec(*p, p->exe); startProgram(p);
  runLoop([p] { return p->st == P_ZOMBIE || p->st == P_DEAD; });
  BuildRes r{}; r.wstatus = p->wstatus; r.exited = WIFEXITED(p->wstatus); r.code = r.exited ? WEXITSTATUS(p->wstatus) : -1; r.crashed = p->crashed; r.why = p->crashWhy; r.steps = steps - s0;
  r.maxFd = p->maxFd; r.t0 = t0; r.pid = p->pid;
  int live = 0, zomb = 0;
  for (auto &kv : procs) { Proc *q = kv.second.get(); if (q == p) continue; if (q->st == P_RUN || q->st == P_BLOCK) ++live; }
  (void) zomb; r.orphans = live; r.zombies = mainZombies; r.cap = capHit; r.deadlock = deadlock;
  noFaults = true;
  runLoop([this] { for (auto &kv : procs) { auto st = kv.second->st; if (st == P_RUN || st == P_BLOCK) return false; } return true; });
  noFaults = false;
  r.cap |= capHit; r.deadlock |= deadlock; r.t1 = now;
  r.out = outMain; r.err = errMain;
  if (const char *h = p->img ? imgHeapCheck(p->img) : nullptr) { if (!r.crashed && r.exited) { r.crashed = true; r.why = h; } }
  for (auto &kv : procs) freeProc(kv.second.get());
  procs.clear(); cur = nullptr; mainP = nullptr; diskFree = -1; oom = false;
  hash = fnv(hash, &r.wstatus, sizeof r.wstatus); hash = fnvs(hash, r.out); hash = fnvs(hash, r.err);
  return r;
}
