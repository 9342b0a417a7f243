// libc surface seen by the real autark objects.  Every impure symbol X they reference is renamed to
// sim_X at object level and lands here.
#include "os.h"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctype.h>
#include <dirent.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <getopt.h>
#include <glob.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" int ak_main(int, const char**);
extern "C" char __start_akdata[] __attribute__((weak)), __stop_akdata[] __attribute__((weak)), __start_akbss[] __attribute__((weak)), __stop_akbss[] __attribute__((weak));

static const int NSLOT = 40;
static const uintptr_t BASE = 0x200000000000ull, SLOTSZ = 0x20000000ull; // 512 MB each
static const size_t STK = 8u << 20, HEAPCAP = 448u << 20;
static bool slotUsed[NSLOT];
static std::vector<char> pristine;
static AkImage *loaded;

struct SFILE {
  uint32_t magic; int fd; bool r, w, app, eof, err; int mode; /*0 none 1 reading 2 writing*/ int bufmode; /*0 full 1 line 2 none*/
  char *buf; size_t cap, rpos, rend, wlen; SFILE *next; int unget; bool std_;
};
static const uint32_t FMAGIC = 0x51F11E00;

extern "C" {
int sim_errno_v; char **sim_environ; SFILE *sim_stdin, *sim_stdout, *sim_stderr; char *sim_optarg; int sim_optind, sim_opterr, sim_optopt;
}
static SFILE *openFiles; static int optPos; static void (*atexitFn[32])(void); static int atexitN; static int inExit;

struct PG { int e; char **env; SFILE *a, *b, *c; char *oa; int oi, oe, oo; SFILE *of; int op; void (*ax[32])(void); int an; int ie; };
static void pgGet(PG *g) { *g = PG{ sim_errno_v, sim_environ, sim_stdin, sim_stdout, sim_stderr, sim_optarg, sim_optind, sim_opterr, sim_optopt, openFiles, optPos, {}, atexitN, inExit }; memcpy(g->ax, atexitFn, sizeof atexitFn); }
static void pgSet(const PG *g) { sim_errno_v = g->e; sim_environ = g->env; sim_stdin = g->a; sim_stdout = g->b; sim_stderr = g->c; sim_optarg = g->oa; sim_optind = g->oi; sim_opterr = g->oe; sim_optopt = g->oo; openFiles = g->of; optPos = g->op; memcpy(atexitFn, g->ax, sizeof atexitFn); atexitN = g->an; inExit = g->ie; }

static size_t dlen() { return (__stop_akdata - __start_akdata); }
static size_t blen() { return (__stop_akbss - __start_akbss); }
static void dataGet(char *o) { if (dlen()) memcpy(o, __start_akdata, dlen()); if (blen()) memcpy(o + dlen(), __start_akbss, blen()); }
static void dataSet(const char *o) { if (dlen()) memcpy(__start_akdata, o, dlen()); if (blen()) memcpy(__start_akbss, o + dlen(), blen()); }

// ------------------------------------------------------------------ crash capture

static char altStack[64 * 1024] __attribute__((aligned(16)));
static char crashStack[64 * 1024] __attribute__((aligned(16)));
static char crashMsg[128];
extern void *simSchedSp();
static uintptr_t crashTrace[16]; static int crashTraceN;
static void traceFrom(uintptr_t pc, uintptr_t bp) {   // autark is compiled with frame pointers
  crashTraceN = 0; if (pc) crashTrace[crashTraceN++] = pc;
  while (crashTraceN < 16 && bp >= BASE && bp < BASE + NSLOT * SLOTSZ - 16 && !(bp & 7)) { uintptr_t *f = (uintptr_t*) bp; if (f[1] < 4096 || f[1] > 0x10000000) break; crashTrace[crashTraceN++] = f[1]; if (f[0] <= bp) break; bp = f[0]; }
}
static void traceLog() { std::string t; for (int i = 0; i < crashTraceN; ++i) t += strf(" %lx", (unsigned long) crashTrace[i]); S->log("  return addresses:%s", t.c_str()); }
static void crashEntry() {
  traceLog();
  Proc *p = S->cur;
  S->crash(p, crashMsg);
  void *d; co_switch(&d, simSchedSp()); abort();
}
static volatile long progress;
static void onSig(int sig, siginfo_t *si, void *uc_) {
  ucontext_t *uc = (ucontext_t*) uc_;
  uintptr_t sp = uc->uc_mcontext.gregs[REG_RSP];
  static long lastSteps = -1; static int idle = 0;
  if (sig == SIGVTALRM || sig == SIGPROF) {
    if (!S || !S->cur) { return; }
    if (S->steps != lastSteps) { lastSteps = S->steps; idle = 0; return; }
    if (++idle < 8) return;
    idle = 0;
    if (!(sp >= BASE && sp < BASE + NSLOT * SLOTSZ)) return;
    // only interrupt autark's own code: look at the program counter
    extern char __executable_start; (void) __executable_start;
    snprintf(crashMsg, sizeof crashMsg, "hang: no system call for seconds of processor time");
  } else {
    if (!(S && S->cur && S->cur->slot >= 0 && ((sp >= BASE && sp < BASE + NSLOT * SLOTSZ)))) {
      static const char m[] = "simulator fault outside the system under test\n"; (void) !write(2, m, sizeof m - 1); signal(sig, SIG_DFL); return;
    }
    uintptr_t a = (uintptr_t) si->si_addr; int slot = S->cur->slot; uintptr_t st = BASE + slot * SLOTSZ;
    bool ovf = a >= st - 65536 && a < st + 65536;
    snprintf(crashMsg, sizeof crashMsg, "%s", sig == SIGSEGV ? (ovf ? "SIGSEGV (stack overflow)" : a < 65536 ? "SIGSEGV (null pointer)" : "SIGSEGV") : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGBUS ? "SIGBUS" : "signal");
  }
  traceFrom(uc->uc_mcontext.gregs[REG_RIP], uc->uc_mcontext.gregs[REG_RBP]);
  uc->uc_mcontext.gregs[REG_RSP] = (greg_t) (crashStack + sizeof crashStack - 64 - 8);
  uc->uc_mcontext.gregs[REG_RIP] = (greg_t) crashEntry;
}

void imgInit() {
  for (int i = 0; i < NSLOT; ++i) {
    void *r = mmap((void*) (BASE + i * SLOTSZ), SLOTSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (r == MAP_FAILED) { perror("mmap"); exit(70); }
    mprotect(r, 65536, PROT_NONE);
  }
  pristine.resize(dlen() + blen()); dataGet(pristine.data());
  stack_t ss{}; ss.ss_sp = altStack; ss.ss_size = sizeof altStack; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_sigaction = onSig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigemptyset(&sa.sa_mask);
  for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM }) sigaction(s, &sa, nullptr);
  struct itimerval it{ { 0, 500000 }, { 0, 500000 } }; setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

// ------------------------------------------------------------------ heap

struct Chunk { uint32_t magic; uint32_t cls; uint64_t size; Chunk *next; uint64_t pad; };
static const uint32_t MUSED = 0xA110CA7E, MFREE = 0xF4EEF4EE; static const uint64_t CANARY = 0xC0FFEE5AFE5ull;
struct Heap { Chunk *bins[300]; Chunk *big[64]; };
static Heap* H() { return (Heap*) S->cur->img->heap; }
static int clsOf(size_t n, size_t *cap) { size_t m = n + 8; if (m <= 4096) { size_t c = (m + 15) / 16; *cap = c * 16; return (int) c; } int k = 13; while ((1ull << k) < m) ++k; *cap = 1ull << k; return 1000 + k; }

static void heapDie(const char *why) {
  uintptr_t bp; asm volatile ("movq %%rbp, %0" : "=r"(bp)); traceFrom(0, bp); traceLog();
  Proc *p = S->cur; snprintf(crashMsg, sizeof crashMsg, "memory corruption: %s", why); S->crash(p, crashMsg); void *d; co_switch(&d, simSchedSp()); abort();
}
static bool mallocFault() {
  Proc *p = S->cur; if (p->forkParent) return false;
  bool nested = !p->mainProc; long *cnt = nested ? S->cntNest : S->cntMain; ++cnt[K_MALLOC];
  if (S->noFaults) return false;
  if (S->oom && !nested) { return true; }
  for (Fault *f : S->faults) if (!f->fired && f->kind == K_MALLOC && f->nested == nested && cnt[K_MALLOC] == f->nth) {
    f->fired = true; S->log("[%ld]   FAULT malloc #%ld fails%s", S->steps, f->nth, f->act == FA_OOM_FROM ? " (and all later ones)" : ""); ++S->faultKinds[f->act == FA_OOM_FROM ? "MALLOC:ENOMEM-persistent" : "MALLOC:ENOMEM"];
    if (f->act == FA_OOM_FROM) S->oom = true; return true; }
  return false;
}
static void* rawAlloc(size_t n) {
  AkImage *im = S->cur->img; size_t cap; int c = clsOf(n, &cap); Heap *h = H(); Chunk **bin = c < 1000 ? &h->bins[c] : &h->big[c - 1000];
  Chunk *k = *bin;
  if (k) { if (k->magic != MFREE) heapDie("free chunk header overwritten"); *bin = k->next; }
  else { size_t need = sizeof(Chunk) + cap; if (im->brk + need > im->heapCap) return nullptr; k = (Chunk*) (im->heap + im->brk); im->brk += need; k->cls = c; }
  k->magic = MUSED; k->size = n; char *d = (char*) (k + 1); memset(d, 0xA5, n < 65536 ? n : 65536); memcpy(d + n, &CANARY, 8); return d;
}
static Chunk* chk(void *p) {
  AkImage *im = S->cur->img; char *c = (char*) p;
  if (c < im->heap || c >= im->heap + im->brk || ((uintptr_t) c & 15)) heapDie("invalid pointer");
  Chunk *k = (Chunk*) p - 1;
  if (k->magic == MFREE) heapDie("double free"); if (k->magic != MUSED) heapDie("block header overwritten");
  if (memcmp(c + k->size, &CANARY, 8)) heapDie("write past the end of a block"); return k;
}
const char* imgHeapCheck(AkImage *im) {
  size_t o = (sizeof(Heap) + 31) / 32 * 32;
  while (o + sizeof(Chunk) <= im->brk) {
    Chunk *k = (Chunk*) (im->heap + o); if (k->magic != MUSED && k->magic != MFREE) return "heap corruption: block header overwritten";
    if (k->magic == MUSED && memcmp((char*) (k + 1) + k->size, &CANARY, 8)) return "heap corruption: write past the end of a block";
    size_t cap = k->cls < 1000 ? k->cls * 16ull : 1ull << (k->cls - 1000); o += sizeof(Chunk) + cap;
  }
  return nullptr;
}

extern "C" {
void sim___stack_chk_fail() { heapDie("write past the end of a local array"); }
int* sim___errno_location() { return &sim_errno_v; }
void* sim_malloc(size_t n) { if (mallocFault()) { sim_errno_v = ENOMEM; return nullptr; } void *r = rawAlloc(n); if (!r) sim_errno_v = ENOMEM; return r; }
void sim_free(void *p) { if (!p) return; Chunk *k = chk(p); memset(p, 0xDD, k->size < 4096 ? k->size : 4096); k->magic = MFREE; Heap *h = H(); Chunk **bin = k->cls < 1000 ? &h->bins[k->cls] : &h->big[k->cls - 1000]; k->next = *bin; *bin = k; }
void* sim_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { sim_errno_v = ENOMEM; return nullptr; } void *p = sim_malloc(n); if (p) memset(p, 0, n); return p; }
void* sim_realloc(void *p, size_t n) {
  if (!p) return sim_malloc(n);
  if (!n) { sim_free(p); return nullptr; }
  Chunk *k = chk(p);
  if (mallocFault()) { sim_errno_v = ENOMEM; return nullptr; }
  void *q = rawAlloc(n); if (!q) { sim_errno_v = ENOMEM; return nullptr; } memcpy(q, p, std::min<size_t>(n, k->size)); sim_free(p); return q;
}
void* sim_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { sim_errno_v = ENOMEM; return nullptr; } return sim_realloc(p, n); }
char* sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char*) sim_malloc(n); if (r) memcpy(r, s, n); return r; }
char* sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = (char*) sim_malloc(n + 1); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
}

// ------------------------------------------------------------------ image

AkImage* imgNew(Proc *p) {
  int i = 0; while (i < NSLOT && slotUsed[i]) ++i;
  if (i == NSLOT) { fprintf(stderr, "out of slots\n"); exit(70); }
  slotUsed[i] = true;
  AkImage *im = new AkImage(); im->slot = i; char *base = (char*) (BASE + i * SLOTSZ);
  p->stack = base + 65536; p->stackSize = STK; p->slot = i; madvise(base + 65536, STK, MADV_DONTNEED);
  im->heap = base + (64u << 20); im->heapCap = HEAPCAP; im->brk = (sizeof(Heap) + 31) / 32 * 32; memset(im->heap, 0, im->brk);
  im->data = pristine; im->pg.assign(sizeof(PG), 0); p->img = im; return im;
}
void imgFree(AkImage *im) { if (loaded == im) loaded = nullptr; if (im->brk > (8u << 20)) madvise(im->heap, im->brk, MADV_DONTNEED); slotUsed[im->slot] = false; delete im; }
void imgSaveCurrent() { if (loaded) { dataGet(loaded->data.data()); pgGet((PG*) loaded->pg.data()); } }
void imgLoad(Proc *p) {
  if (!p) { loaded = nullptr; return; }
  if (loaded == p->img) return;
  imgSaveCurrent(); loaded = p->img; dataSet(loaded->data.data()); pgSet((PG*) loaded->pg.data());
}

// ------------------------------------------------------------------ stdio

static long R(long r) { if (r < 0) { sim_errno_v = (int) -r; return -1; } return r; }
static bool good(SFILE *f) { if (!f || f->magic != FMAGIC) heapDie("use of a closed or invalid FILE"); return true; }
static SFILE* mkFile(int fd, bool r, bool w, bool app, bool alloc) {
  SFILE *f = (SFILE*) (alloc ? sim_malloc(sizeof(SFILE)) : rawAlloc(sizeof(SFILE))); if (!f) return nullptr;
  memset(f, 0, sizeof *f); f->magic = FMAGIC; f->fd = fd; f->r = r; f->w = w; f->app = app; f->unget = -1; f->next = openFiles; openFiles = f; return f;
}
static bool needBuf(SFILE *f) { if (!f->buf) { f->cap = S->stdioCap; f->buf = (char*) rawAlloc(f->cap); } return true; }
static int flushW(SFILE *f) {
  if (f->mode != 2 || !f->wlen) return 0;
  size_t o = 0;
  while (o < f->wlen) {
    size_t l = f->wlen - o; if (S->stdioLine && !f->std_) if (const char *q = (const char*) memchr(f->buf + o + l / 2, '\n', l - l / 2)) l = q + 1 - (f->buf + o);   // a buffer may end anywhere, also behind a complete line
    long n = S->sWrite(f->fd, f->buf + o, l);
    if (n < 0) { sim_errno_v = (int) -n; f->err = true; f->wlen = 0; return -1; }
    o += n;
  }
  f->wlen = 0; return 0;
}
static size_t putN(SFILE *f, const char *b, size_t n) {
  good(f);
  if (!f->w) { f->err = true; sim_errno_v = EBADF; return 0; }
  if (f->mode == 1 && (f->rend > f->rpos)) { if (!f->app) S->sLseek(f->fd, -(int64_t) (f->rend - f->rpos), SEEK_CUR); }
  if (f->mode != 2) { f->mode = 2; f->rpos = f->rend = 0; f->wlen = 0; f->unget = -1; }
  needBuf(f);
  if (f->bufmode == 2) { size_t o = 0; while (o < n) { long k = S->sWrite(f->fd, b + o, n - o); if (k < 0) { sim_errno_v = (int) -k; f->err = true; return o; } o += k; } return n; }
  size_t o = 0;
  while (o < n) {
    if (f->wlen == f->cap) if (flushW(f)) return o;
    size_t k = std::min(n - o, f->cap - f->wlen); memcpy(f->buf + f->wlen, b + o, k); f->wlen += k; o += k;
  }
  if (f->bufmode == 1 && memchr(b, '\n', n)) if (flushW(f)) return 0;
  return n;
}
static int fill(SFILE *f) {
  if (!f->r) { f->err = true; sim_errno_v = EBADF; return -1; }
  if (f->mode == 2) { if (flushW(f)) return -1; }
  f->mode = 1; needBuf(f); f->rpos = f->rend = 0;
  long n = S->sRead(f->fd, f->buf, f->cap);
  if (n < 0) { sim_errno_v = (int) -n; f->err = true; return -1; }
  if (n == 0) { f->eof = true; return -1; }
  f->rend = n; return 0;
}
static int getC(SFILE *f) {
  good(f); if (f->unget >= 0) { int c = f->unget; f->unget = -1; return c; }
  if (f->mode != 1 || f->rpos == f->rend) { if (f->eof) return EOF; if (fill(f)) return EOF; }
  return (unsigned char) f->buf[f->rpos++];
}

extern "C" {
SFILE* sim_fdopen(int fd, const char *m) { bool r = m[0] == 'r' || strchr(m, '+'), w = m[0] != 'r' || strchr(m, '+'); return mkFile(fd, r, w, m[0] == 'a', true); }
SFILE* sim_fopen(const char *path, const char *m) {
  bool plus = strchr(m, '+'); int fl = m[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : (plus ? O_RDWR : O_WRONLY) | O_CREAT | (m[0] == 'w' ? O_TRUNC : O_APPEND);
  if (strchr(m, 'x')) fl |= O_EXCL; if (strchr(m, 'e')) fl |= O_CLOEXEC;
  SFILE *f = mkFile(-1, m[0] == 'r' || plus, m[0] != 'r' || plus, m[0] == 'a', true); if (!f) return nullptr;
  long fd = R(S->sOpen(path, fl, 0666));
  if (fd < 0) { int e = sim_errno_v; openFiles = f->next; sim_free(f); sim_errno_v = e; return nullptr; }
  f->fd = (int) fd; return f;
}
SFILE* sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
int sim_fflush(SFILE *f) { if (!f) { int r = 0; for (SFILE *q = openFiles; q; q = q->next) if (q->mode == 2) r |= flushW(q); return r; } good(f);
  if (f->mode == 1 && f->rend > f->rpos) { S->sLseek(f->fd, -(int64_t) (f->rend - f->rpos), SEEK_CUR); f->rpos = f->rend = 0; } return flushW(f) ? EOF : 0; }
int sim_fclose(SFILE *f) {
  good(f); int r = flushW(f); int e = sim_errno_v;
  long c = S->sClose(f->fd); if (c < 0) { r = -1; e = (int) -c; }
  for (SFILE **q = &openFiles; *q; q = &(*q)->next) if (*q == f) { *q = f->next; break; }
  if (f == sim_stdout) sim_stdout = nullptr;
  if (f->buf) sim_free(f->buf); f->magic = 0; sim_free(f); if (r) sim_errno_v = e; return r ? EOF : 0;
}
size_t sim_fwrite(const void *p, size_t a, size_t b, SFILE *f) { if (!a || !b) return 0; size_t n = putN(f, (const char*) p, a * b); return n / a; }
size_t sim_fread(void *p, size_t a, size_t b, SFILE *f) {
  good(f); size_t n = a * b, o = 0; if (!n) return 0;
  while (o < n) { int c = 0; if (f->unget >= 0 || f->mode != 1 || f->rpos == f->rend) { c = getC(f); if (c == EOF) break; ((char*) p)[o++] = (char) c; continue; }
    size_t k = std::min(n - o, f->rend - f->rpos); memcpy((char*) p + o, f->buf + f->rpos, k); f->rpos += k; o += k; }
  return o / a;
}
int sim_fputs(const char *s, SFILE *f) { size_t n = strlen(s); if (!n) { good(f); return 1; } return putN(f, s, n) == n ? 1 : EOF; }
int sim_fputc(int c, SFILE *f) { char b = (char) c; return putN(f, &b, 1) == 1 ? (unsigned char) c : EOF; }
int sim_putc(int c, SFILE *f) { return sim_fputc(c, f); }
int sim_putchar(int c) { return sim_fputc(c, sim_stdout); }
int sim_puts(const char *s) { if (sim_fputs(s, sim_stdout) == EOF) return EOF; return sim_fputc('\n', sim_stdout) == EOF ? EOF : 1; }
int sim_fgetc(SFILE *f) { return getC(f); }
int sim_getc(SFILE *f) { return getC(f); }
int sim_ungetc(int c, SFILE *f) { good(f); if (c == EOF) return EOF; f->unget = (unsigned char) c; f->eof = false; return c; }
char* sim_fgets(char *b, int n, SFILE *f) {
  good(f); int i = 0; bool was = f->err; f->err = false;
  while (i < n - 1) {
    if (f->unget < 0 && f->mode == 1 && f->rpos < f->rend) {
      char *nl = (char*) memchr(f->buf + f->rpos, '\n', f->rend - f->rpos); size_t k = nl ? nl - (f->buf + f->rpos) + 1 : f->rend - f->rpos; if ((int) k > n - 1 - i) k = n - 1 - i;
      memcpy(b + i, f->buf + f->rpos, k); f->rpos += k; i += (int) k; if (b[i - 1] == '\n') break; continue;
    }
    int c = getC(f); if (c == EOF) { if (f->err) { b[i] = 0; return nullptr; } break; } b[i++] = (char) c; if (c == '\n') break;
  }
  f->err |= was;
  if (!i) return nullptr; b[i] = 0; return b;
}
ssize_t sim_getdelim(char **lp, size_t *np, int d, SFILE *f) {
  size_t i = 0; if (!*lp) { *np = 120; *lp = (char*) sim_malloc(*np); if (!*lp) return -1; }
  for (;;) { int c = getC(f); if (c == EOF) { if (!i || f->err) return -1; break; } if (i + 2 > *np) { char *q = (char*) sim_realloc(*lp, *np * 2); if (!q) return -1; *lp = q; *np *= 2; } (*lp)[i++] = (char) c; if (c == d) break; }
  (*lp)[i] = 0; return i;
}
ssize_t sim_getline(char **lp, size_t *np, SFILE *f) { return sim_getdelim(lp, np, '\n', f); }
int sim_feof(SFILE *f) { good(f); return f->eof; }
int sim_ferror(SFILE *f) { good(f); return f->err; }
void sim_clearerr(SFILE *f) { good(f); f->err = f->eof = false; }
int sim_fileno(SFILE *f) { good(f); return f->fd; }
int sim_fseek(SFILE *f, long off, int wh) {
  good(f); if (flushW(f)) return -1; if (wh == SEEK_CUR && f->mode == 1) off -= (long) (f->rend - f->rpos);
  f->mode = 0; f->rpos = f->rend = 0; f->unget = -1; f->eof = false; return R(S->sLseek(f->fd, off, wh)) < 0 ? -1 : 0;
}
int sim_fseeko(SFILE *f, off_t o, int w) { return sim_fseek(f, o, w); }
long sim_ftell(SFILE *f) { good(f); long o = R(S->sLseek(f->fd, 0, f->mode == 2 && f->app ? SEEK_END : SEEK_CUR)); if (o < 0) return -1; if (f->mode == 1) return o - (long) (f->rend - f->rpos) - (f->unget >= 0); return o + (long) f->wlen; }
off_t sim_ftello(SFILE *f) { return sim_ftell(f); }
void sim_rewind(SFILE *f) { sim_fseek(f, 0, SEEK_SET); f->err = false; }
int sim_setvbuf(SFILE *f, char*, int mode, size_t) { good(f); flushW(f); f->bufmode = mode == _IOFBF ? 0 : mode == _IOLBF ? 1 : 2; return 0; }
void sim_setbuf(SFILE *f, char *b) { sim_setvbuf(f, b, b ? _IOFBF : _IONBF, 0); }
void sim_setlinebuf(SFILE *f) { sim_setvbuf(f, 0, _IOLBF, 0); }
int sim_vfprintf(SFILE *f, const char *fmt, va_list ap) {
  char sb[1024]; va_list a2; va_copy(a2, ap); int n = vsnprintf(sb, sizeof sb, fmt, ap); int r;
  if (n < 0) { va_end(a2); return n; }
  if (n < (int) sizeof sb) r = putN(f, sb, n) == (size_t) n ? n : -1; else { char *b = (char*) ::malloc(n + 1); vsnprintf(b, n + 1, fmt, a2); r = putN(f, b, n) == (size_t) n ? n : -1; ::free(b); }
  va_end(a2); return r;
}
int sim_fprintf(SFILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(f, fmt, ap); va_end(ap); return r; }
int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(sim_stdout, fmt, ap); va_end(ap); return r; }
int sim_vprintf(const char *fmt, va_list ap) { return sim_vfprintf(sim_stdout, fmt, ap); }
int sim_vdprintf(int fd, const char *fmt, va_list ap) { va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, fmt, ap); std::string b(n + 1, 0); vsnprintf(&b[0], n + 1, fmt, a2); va_end(a2); return (int) R(S->sWrite(fd, b.data(), n)); }
int sim_dprintf(int fd, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vdprintf(fd, fmt, ap); va_end(ap); return r; }
int sim_vasprintf(char **o, const char *fmt, va_list ap) { va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, fmt, ap); *o = (char*) sim_malloc(n + 1); if (!*o) { va_end(a2); return -1; } vsnprintf(*o, n + 1, fmt, a2); va_end(a2); return n; }
int sim_asprintf(char **o, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vasprintf(o, fmt, ap); va_end(ap); return r; }
void sim_perror(const char *s) { int e = sim_errno_v; if (s && *s) sim_fprintf(sim_stderr, "%s: %s\n", s, strerror(e)); else sim_fprintf(sim_stderr, "%s\n", strerror(e)); }
char* sim_strerror(int e) { return strerror(e); }
char* sim_strerror_r(int e, char *b, size_t n) { snprintf(b, n, "%s", strerror(e)); return b; }
int sim___xpg_strerror_r(int e, char *b, size_t n) { snprintf(b, n, "%s", strerror(e)); return 0; }
int sim_remove(const char *p) { long r = S->sUnlink(p); if (r == -EISDIR) r = S->sRmdir(p); return (int) R(r); }

long sim_strtol(const char *s, char **e, int b) { int se = errno; errno = 0; long r = strtol(s, e, b); if (errno) sim_errno_v = errno; errno = se; return r; }
long long sim_strtoll(const char *s, char **e, int b) { int se = errno; errno = 0; long long r = strtoll(s, e, b); if (errno) sim_errno_v = errno; errno = se; return r; }
unsigned long sim_strtoul(const char *s, char **e, int b) { int se = errno; errno = 0; unsigned long r = strtoul(s, e, b); if (errno) sim_errno_v = errno; errno = se; return r; }
unsigned long long sim_strtoull(const char *s, char **e, int b) { int se = errno; errno = 0; unsigned long long r = strtoull(s, e, b); if (errno) sim_errno_v = errno; errno = se; return r; }
intmax_t sim_strtoimax(const char *s, char **e, int b) { return sim_strtoll(s, e, b); }
long sim___isoc23_strtol(const char *s, char **e, int b) { return sim_strtol(s, e, b); }
long long sim___isoc23_strtoll(const char *s, char **e, int b) { return sim_strtoll(s, e, b); }
unsigned long sim___isoc23_strtoul(const char *s, char **e, int b) { return sim_strtoul(s, e, b); }
unsigned long long sim___isoc23_strtoull(const char *s, char **e, int b) { return sim_strtoull(s, e, b); }

// ------------------------------------------------------------------ environment

static int envIdx(const char *k, size_t n) { for (int i = 0; sim_environ && sim_environ[i]; ++i) if (!strncmp(sim_environ[i], k, n) && sim_environ[i][n] == '=') return i; return -1; }
char* sim_getenv(const char *k) { size_t n = strlen(k); int i = envIdx(k, n); return i < 0 ? nullptr : sim_environ[i] + n + 1; }
char* sim_secure_getenv(const char *k) { return sim_getenv(k); }
static int envPut(char *kv, size_t n) {
  int i = envIdx(kv, n); if (i >= 0) { sim_environ[i] = kv; return 0; }
  int c = 0; while (sim_environ[c]) ++c; char **ne = (char**) rawAlloc(sizeof(char*) * (c + 2)); memcpy(ne, sim_environ, c * sizeof(char*)); ne[c] = kv; ne[c + 1] = nullptr; sim_environ = ne; return 0;
}
int sim_setenv(const char *k, const char *v, int ow) { size_t n = strlen(k); if (!n || strchr(k, '=')) { sim_errno_v = EINVAL; return -1; } if (!ow && envIdx(k, n) >= 0) return 0; size_t m = strlen(v);
  if (mallocFault()) { sim_errno_v = ENOMEM; return -1; }
  char *kv = (char*) rawAlloc(n + m + 2); memcpy(kv, k, n); kv[n] = '='; memcpy(kv + n + 1, v, m + 1); return envPut(kv, n); }
int sim_putenv(char *kv) { char *e = strchr(kv, '='); if (!e) return -1; return envPut(kv, e - kv); }
int sim_unsetenv(const char *k) { size_t n = strlen(k); int i; while ((i = envIdx(k, n)) >= 0) { do sim_environ[i] = sim_environ[i + 1]; while (sim_environ[++i - 1]); } return 0; }
int sim_clearenv() { sim_environ[0] = nullptr; return 0; }

// ------------------------------------------------------------------ files

static void fillStat(struct stat *st, const InodeP &n) {
  memset(st, 0, sizeof *st); st->st_dev = 1; st->st_ino = n->ino; st->st_nlink = 1;
  st->st_mode = n->mode | (n->type == I_FILE ? S_IFREG : n->type == I_DIR ? S_IFDIR : n->type == I_LNK ? S_IFLNK : S_IFCHR);
  st->st_size = n->data.size(); st->st_blksize = 4096; st->st_mtim.tv_sec = n->mtime / 1000000000; st->st_mtim.tv_nsec = n->mtime % 1000000000; st->st_ctim = st->st_atim = st->st_mtim;
}
int sim_open(const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return (int) R(S->sOpen(p, fl, m)); }
int sim_open64(const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return (int) R(S->sOpen(p, fl, m)); }
int sim_creat(const char *p, mode_t m) { return (int) R(S->sOpen(p, O_WRONLY | O_CREAT | O_TRUNC, m)); }
int sim_close(int fd) { return (int) R(S->sClose(fd)); }
ssize_t sim_read(int fd, void *b, size_t n) { return R(S->sRead(fd, b, n)); }
ssize_t sim_write(int fd, const void *b, size_t n) { return R(S->sWrite(fd, b, n)); }
off_t sim_lseek(int fd, off_t o, int w) { return R(S->sLseek(fd, o, w)); }
int sim_pipe(int *f) { return (int) R(S->sPipe(f, 0)); }
int sim_pipe2(int *f, int fl) { return (int) R(S->sPipe(f, fl)); }
int sim_dup(int fd) { return (int) R(S->sDup(fd, -1)); }
int sim_dup2(int fd, int to) { return (int) R(S->sDup(fd, to)); }
int sim_dup3(int fd, int to, int fl) { return (int) R(S->sDup(fd, to, fl & O_CLOEXEC)); }
int sim_rename(const char *a, const char *b) { return (int) R(S->sRename(a, b)); }
int sim_unlink(const char *a) { return (int) R(S->sUnlink(a)); }
int sim_rmdir(const char *a) { return (int) R(S->sRmdir(a)); }
int sim_mkdir(const char *a, mode_t m) { return (int) R(S->sMkdir(a, m)); }
int sim_symlink(const char *t, const char *a) { return (int) R(S->sSymlink(t, a)); }
int sim_link(const char *t, const char *a) { return (int) R(S->sLink(t, a)); }
ssize_t sim_readlink(const char *a, char *b, size_t n) { std::string o; long r = S->sReadlink(a, &o); if (r < 0) return R(r); size_t k = std::min(n, o.size()); memcpy(b, o.data(), k); return k; }
int sim_stat(const char *p, struct stat *st) { InodeP n; long r = S->sStat(p, &n, true); if (r < 0) return (int) R(r); fillStat(st, n); return 0; }
int sim_lstat(const char *p, struct stat *st) { InodeP n; long r = S->sStat(p, &n, false); if (r < 0) return (int) R(r); fillStat(st, n); return 0; }
int sim_fstat(int fd, struct stat *st) { S->enter(K_STAT, strf("fd %d", fd), false); Proc *p = S->cur; if (fd < 0 || fd >= (int) p->fds.size() || !p->fds[fd].f) { sim_errno_v = EBADF; return -1; } auto &f = p->fds[fd].f; if (f->ino) fillStat(st, f->ino); else { memset(st, 0, sizeof *st); st->st_mode = S_IFIFO | 0600; } return 0; }
int sim_access(const char *p, int m) { return (int) R(S->sAccess(p, m)); }
int sim_euidaccess(const char *p, int m) { return (int) R(S->sAccess(p, m)); }
int sim_chdir(const char *p) { return (int) R(S->sChdir(p)); }
char* sim_getcwd(char *b, size_t n) { std::string o; long r = S->sGetcwd(&o); if (r < 0) { R(r); return nullptr; } if (!b) { b = (char*) sim_malloc(n ? n : o.size() + 1); if (!b) return nullptr; if (!n) n = o.size() + 1; } if (o.size() + 1 > n) { sim_errno_v = ERANGE; return nullptr; } memcpy(b, o.c_str(), o.size() + 1); return b; }
int sim_chmod(const char *p, mode_t m) { return (int) R(S->sChmod(p, -1, m)); }
int sim_fchmod(int fd, mode_t m) { return (int) R(S->sChmod("", fd, m)); }
mode_t sim_umask(mode_t m) { Proc *p = S->cur; mode_t o = p->umask; p->umask = m & 0777; return o; }
static int64_t tsn(const struct timespec *t) { return t ? (t[1].tv_nsec == UTIME_NOW ? S->wtime() : (int64_t) t[1].tv_sec * 1000000000 + t[1].tv_nsec) : S->wtime(); }
int sim_futimens(int fd, const struct timespec *t) { return (int) R(S->sUtimes("", fd, tsn(t), true)); }
int sim_utimes(const char *p, const struct timeval *t) { return (int) R(S->sUtimes(p, -1, t ? t[1].tv_sec * 1000000000ll + t[1].tv_usec * 1000ll : S->wtime(), true)); }
int sim_truncate(const char *p, off_t n) { return (int) R(S->sTrunc(p, -1, n)); }
int sim_ftruncate(int fd, off_t n) { return (int) R(S->sTrunc("", fd, n)); }
int sim_fsync(int fd) { return (int) R(S->enter(K_FSYNC, strf("%d", fd))); }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
void sim_sync() {}
int sim_fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  long e = S->enter(K_FCNTL, strf("%d %d", fd, cmd), false); if (e) return (int) R(e);
  Proc *p = S->cur; if (fd < 0 || fd >= (int) p->fds.size() || !p->fds[fd].f) { sim_errno_v = EBADF; return -1; }
  switch (cmd) {
    case F_GETFD: return p->fds[fd].cloexec ? FD_CLOEXEC : 0; case F_SETFD: p->fds[fd].cloexec = arg & FD_CLOEXEC; return 0;
    case F_GETFL: return p->fds[fd].f->flags; case F_SETFL: p->fds[fd].f->flags = (p->fds[fd].f->flags & O_ACCMODE) | ((int) arg & ~O_ACCMODE); return 0;
    case F_DUPFD: return (int) R(S->sDup(fd, -(int) arg - 1)); case F_DUPFD_CLOEXEC: return (int) R(S->sDup(fd, -(int) arg - 1, true));
  }
  return 0;
}
int sim_isatty(int) { sim_errno_v = ENOTTY; return 0; }
char* sim_realpath(const char *p, char *b) {
  long e = S->enter(K_REALPATH, p, false); if (e) { R(e); return nullptr; } InodeP n; long r = S->resolve(S->cur, p, &n); if (r < 0) { R(r); return nullptr; }
  std::string o = S->pathOf(n.get()); if (!b) { b = (char*) sim_malloc(4096); if (!b) return nullptr; } memcpy(b, o.c_str(), o.size() + 1); return b;
}
char* sim_canonicalize_file_name(const char *p) { return sim_realpath(p, nullptr); }

struct SDIR { int fd; int n, i; char (*names)[256]; unsigned char *types; struct dirent de; InodeP *keep; };
static SDIR* sim_opendir_(const char *p) {
  SDIR *d = (SDIR*) sim_malloc(sizeof(SDIR)); if (!d) return nullptr;
  long fd = R(S->sOpen(p, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0)); if (fd < 0) { int e = sim_errno_v; sim_free(d); sim_errno_v = e; return nullptr; }
  d->fd = (int) fd; d->i = 0; d->n = -1; d->names = nullptr; d->types = nullptr; return d;
}
void* sim_opendir(const char *p) { return sim_opendir_(p); }
static void loadDir(SDIR *d) {
  auto &f = S->cur->fds[d->fd].f; std::vector<std::string> v{ ".", ".." }; for (auto &kv : f->ino->ents) v.push_back(kv.first);
  d->n = (int) v.size(); d->names = (char(*)[256]) rawAlloc(256 * v.size()); d->types = (unsigned char*) rawAlloc(v.size());
  for (size_t i = 0; i < v.size(); ++i) { strcpy(d->names[i], v[i].c_str()); d->types[i] = DT_DIR; if (i >= 2) { auto t = f->ino->ents[v[i]]->type; d->types[i] = t == I_DIR ? DT_DIR : t == I_LNK ? DT_LNK : DT_REG; } }
}
struct dirent* sim_readdir(SDIR *d) {
  if (d->n < 0) { long e = S->enter(K_READDIR, ""); if (e) { R(e); return nullptr; } loadDir(d); }
  if (d->i >= d->n) return nullptr; memset(&d->de, 0, sizeof d->de); strcpy(d->de.d_name, d->names[d->i]); d->de.d_type = d->types[d->i]; d->de.d_ino = 1; d->de.d_reclen = sizeof d->de; ++d->i; return &d->de;
}
struct dirent* sim_readdir64(SDIR *d) { return sim_readdir(d); }
int sim_closedir(SDIR *d) { long r = S->sClose(d->fd); if (d->names) { sim_free(d->names); sim_free(d->types); } sim_free(d); return (int) R(r); }
void sim_rewinddir(SDIR *d) { d->i = 0; }
int sim_dirfd(SDIR *d) { return d->fd; }

static void globRec(const std::string &base, std::vector<std::string> seg, size_t i, std::vector<std::string> &out) {
  if (i == seg.size()) { out.push_back(base); return; }
  std::vector<std::string> names; if (S->listDir(base.empty() ? "." : base, &names)) return;
  for (auto &n : names) if (fnmatch(seg[i].c_str(), n.c_str(), FNM_PERIOD) == 0) { std::string np = base.empty() ? n : base == "/" ? "/" + n : base + "/" + n; InodeP x; if (S->resolve(S->cur, np, &x)) continue; globRec(np, seg, i + 1, out); }
}
int sim_glob(const char *pat, int gf, int (*)(const char*, int), glob_t *g) {
  S->enter(K_OPENDIR, pat, false);
  std::vector<std::string> seg, out; std::string s; for (const char *p = pat; *p; ++p) { if (*p == '/') { if (!s.empty()) seg.push_back(s); s.clear(); } else s += *p; } if (!s.empty()) seg.push_back(s);
  globRec(pat[0] == '/' ? "/" : "", seg, 0, out); std::sort(out.begin(), out.end());
  if (gf & GLOB_NOSORT) for (size_t i = out.size(); i > 1; --i) std::swap(out[i - 1], out[S->rng.next() % i]);
  if (gf & GLOB_MARK) for (auto &x : out) { InodeP n; if (!S->resolve(S->cur, x, &n) && n->type == I_DIR) x += "/"; }
  memset(g, 0, sizeof *g); if (out.empty() && (gf & GLOB_NOCHECK)) out.push_back(pat); if (out.empty()) return GLOB_NOMATCH; g->gl_pathc = out.size(); g->gl_pathv = (char**) rawAlloc(sizeof(char*) * (out.size() + 1));
  for (size_t i = 0; i < out.size(); ++i) { g->gl_pathv[i] = (char*) rawAlloc(out[i].size() + 1); strcpy(g->gl_pathv[i], out[i].c_str()); } g->gl_pathv[out.size()] = nullptr; return 0;
}
void sim_globfree(glob_t *g) { for (size_t i = 0; i < g->gl_pathc; ++i) sim_free(g->gl_pathv[i]); if (g->gl_pathc) sim_free(g->gl_pathv); memset(g, 0, sizeof *g); }

// ------------------------------------------------------------------ processes

static void runExit(int code) {
  if (!inExit) { inExit = 1; while (atexitN > 0) atexitFn[--atexitN](); for (SFILE *q = openFiles; q; q = q->next) if (q->mode == 2) flushW(q); }
  S->sExit(code);
}
void sim_exit(int c) { runExit(c); __builtin_unreachable(); }
void sim__exit(int c) { S->sExit(c); }
void sim__Exit(int c) { S->sExit(c); }
int sim_atexit(void (*f)(void)) { if (atexitN < 32) { atexitFn[atexitN++] = f; return 0; } return -1; }
void sim_abort() { snprintf(crashMsg, sizeof crashMsg, "abort()"); S->crash(S->cur, crashMsg); void *d; co_switch(&d, simSchedSp()); abort(); }
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *) { const char *b = strrchr(f, '/'); sim_fprintf(sim_stderr, "%s:%u: Assertion `%s' failed.\n", f, l, e); snprintf(crashMsg, sizeof crashMsg, "assertion %s at %s", e, b ? b + 1 : f); S->crash(S->cur, crashMsg); void *d; co_switch(&d, simSchedSp()); abort(); }
int sim_fork() { return (int) R(S->sFork()); }
int sim_vfork() { return (int) R(S->sFork()); }
static std::vector<std::string> vec(char *const *a) { std::vector<std::string> v; for (; a && *a; ++a) v.push_back(*a); return v; }
int sim_execve(const char *p, char *const a[], char *const e[]) { return (int) R(S->sExec(p, vec(a), vec(e))); }
int sim_execv(const char *p, char *const a[]) { return (int) R(S->sExec(p, vec(a), vec(sim_environ))); }
int sim_execvpe(const char *p, char *const a[], char *const e[]) {
  if (strchr(p, '/')) return sim_execve(p, a, e); const char *path = sim_getenv("PATH"); std::string ps = path ? path : "/bin:/usr/bin"; size_t i = 0;
  while (i <= ps.size()) { size_t j = ps.find(':', i); if (j == std::string::npos) j = ps.size(); std::string c = ps.substr(i, j - i) + "/" + p; InodeP n; if (!S->resolve(S->cur, c, &n)) sim_execve(c.c_str(), a, e); i = j + 1; }
  sim_errno_v = ENOENT; return -1;
}
int sim_execvp(const char *p, char *const a[]) { return sim_execvpe(p, a, sim_environ); }
int sim_wait(int *st) { return (int) R(S->sWait(-1, st, 0)); }
int sim_waitpid(int pid, int *st, int o) { return (int) R(S->sWait(pid, st, o)); }
int sim_wait3(int *st, int o, void*) { return (int) R(S->sWait(-1, st, o)); }
int sim_wait4(int pid, int *st, int o, void*) { return (int) R(S->sWait(pid, st, o)); }
int sim_poll(struct pollfd *f, nfds_t n, int t) { return (int) R(S->sPoll(f, (int) n, t)); }
int sim_ppoll(struct pollfd *f, nfds_t n, const struct timespec *t, const sigset_t*) { return (int) R(S->sPoll(f, (int) n, t ? (int) (t->tv_sec * 1000 + t->tv_nsec / 1000000) : -1)); }
int sim_select(int nf, fd_set *r, fd_set *w, fd_set *, struct timeval *t) {
  struct pollfd pf[64]; int n = 0; for (int i = 0; i < nf && n < 64; ++i) { short e = 0; if (r && FD_ISSET(i, r)) e |= POLLIN; if (w && FD_ISSET(i, w)) e |= POLLOUT; if (e) pf[n++] = { i, e, 0 }; }
  long k = S->sPoll(pf, n, t ? (int) (t->tv_sec * 1000 + t->tv_usec / 1000) : -1); if (k < 0) return (int) R(k); if (r) FD_ZERO(r); if (w) FD_ZERO(w); int c = 0;
  for (int i = 0; i < n; ++i) { if (r && (pf[i].revents & (POLLIN | POLLHUP))) { FD_SET(pf[i].fd, r); ++c; } if (w && (pf[i].revents & (POLLOUT | POLLERR))) { FD_SET(pf[i].fd, w); ++c; } } return c;
}
int sim_kill(int p, int s) { return (int) R(S->sKill(p, s)); }
int sim_getpid() { return S->cur->pid; }
int sim_getppid() { return S->cur->ppid; }
unsigned sim_getuid() { return 0; } unsigned sim_geteuid() { return 0; } unsigned sim_getgid() { return 0; } unsigned sim_getegid() { return 0; }
int sim_setpgid(int, int) { return 0; } int sim_getpgrp() { return 1; } int sim_setsid() { return 1; }
typedef void (*sighandler_t_)(int);
sighandler_t_ sim_signal(int, sighandler_t_) { return nullptr; }
int sim_sigaction(int, const void*, void*) { return 0; }
int sim_sigprocmask(int, const void*, void*) { return 0; }
int sim_sigemptyset(void *s) { memset(s, 0, sizeof(sigset_t)); return 0; } int sim_sigaddset(void*, int) { return 0; } int sim_sigfillset(void*) { return 0; }
int sim_usleep(unsigned us) { S->sSleep(us * 1000ll); return 0; }
unsigned sim_sleep(unsigned s) { S->sSleep(s * 1000000000ll); return 0; }
int sim_nanosleep(const struct timespec *t, struct timespec*) { S->sSleep(t->tv_sec * 1000000000ll + t->tv_nsec); return 0; }
time_t sim_time(time_t *t) { time_t r = S->wtime() / 1000000000; if (t) *t = r; return r; }
int sim_clock_gettime(int, struct timespec *t) { t->tv_sec = S->wtime() / 1000000000; t->tv_nsec = S->wtime() % 1000000000; return 0; }
int sim_gettimeofday(struct timeval *t, void*) { t->tv_sec = S->wtime() / 1000000000; t->tv_usec = S->wtime() % 1000000000 / 1000; return 0; }
int sim_rand() { return (int) (S->rng.next() & 0x7fffffff); } void sim_srand(unsigned) {} long sim_random() { return sim_rand(); }
long sim_sysconf(int n) { return n == _SC_PAGESIZE ? 4096 : n == _SC_OPEN_MAX ? S->rlimitNofile : n == _SC_NPROCESSORS_ONLN ? 8 : n == _SC_ARG_MAX ? 2097152 : -1; }
int sim_getrlimit(int, void *r) { unsigned long *p = (unsigned long*) r; p[0] = p[1] = S->rlimitNofile; return 0; }
int sim_mkstemp(char *t) { size_t n = strlen(t); for (int i = 0; i < 1000; ++i) { std::string x = strf("%06d", (int) (S->rng.next() % 1000000)); memcpy(t + n - 6, x.data(), 6); long fd = S->sOpen(t, O_RDWR | O_CREAT | O_EXCL, 0600); if (fd != -EEXIST) return (int) R(fd); } return -1; }
#include "libc2.h"
void sim_unsupported(const char *w) { fprintf(stderr, "sim: unsupported libc function %s\n", w); exit(75); }

// ------------------------------------------------------------------ getopt

int sim_getopt_long(int argc, char *const argv[], const char *opts, const struct option *lo, int *idx) {
  if (*opts == '+') ++opts; if (*opts == ':') ++opts;
  if (sim_optind == 0) { sim_optind = 1; optPos = 0; } sim_optarg = nullptr;
  if (!optPos) {
    if (sim_optind >= argc) return -1; char *a = argv[sim_optind]; if (a[0] != '-' || !a[1]) return -1;
    if (!strcmp(a, "--")) { ++sim_optind; return -1; }
    if (a[1] == '-') {
      char *nm = a + 2; size_t n = strcspn(nm, "="); int best = -1, cnt = 0;
      for (int i = 0; lo && lo[i].name; ++i) { if (!strncmp(lo[i].name, nm, n)) { if (strlen(lo[i].name) == n) { best = i; cnt = 1; break; } best = i; ++cnt; } }
      ++sim_optind; if (cnt != 1) { sim_fprintf(sim_stderr, "unrecognized option '%s'\n", a); return '?'; }
      if (nm[n] == '=') { if (!lo[best].has_arg) return '?'; sim_optarg = nm + n + 1; } else if (lo[best].has_arg == 1) { if (sim_optind >= argc) return '?'; sim_optarg = argv[sim_optind++]; }
      if (idx) *idx = best; if (lo[best].flag) { *lo[best].flag = lo[best].val; return 0; } return lo[best].val;
    }
    optPos = 1;
  }
  char *a = argv[sim_optind]; char c = a[optPos++]; const char *o = strchr(opts, c);
  if (!o || c == ':') { if (!a[optPos]) { ++sim_optind; optPos = 0; } sim_optopt = c; sim_fprintf(sim_stderr, "invalid option -- '%c'\n", c); return '?'; }
  if (o[1] == ':') { if (a[optPos]) sim_optarg = a + optPos; else if (o[2] != ':') { if (sim_optind + 1 >= argc) { ++sim_optind; optPos = 0; return '?'; } sim_optarg = argv[++sim_optind]; } ++sim_optind; optPos = 0; }
  else if (!a[optPos]) { ++sim_optind; optPos = 0; }
  return c;
}
int sim_getopt(int argc, char *const argv[], const char *opts) { return sim_getopt_long(argc, argv, opts, nullptr, nullptr); }
} // extern C

int imgMain(Proc &p) {
  sim_optind = 1; sim_opterr = 1; openFiles = nullptr; optPos = 0; atexitN = 0; inExit = 0; sim_errno_v = 0;
  sim_stdin = mkFile(0, true, false, false, false); sim_stdout = mkFile(1, false, true, false, false); sim_stderr = mkFile(2, false, true, false, false); sim_stderr->bufmode = 2; sim_stdout->bufmode = S->ttyOut ? 1 : 0;
  char **argv = (char**) rawAlloc(sizeof(char*) * (p.argv.size() + 1)); size_t i = 0;
  for (auto &a : p.argv) { argv[i] = (char*) rawAlloc(a.size() + 1); strcpy(argv[i++], a.c_str()); } argv[i] = nullptr;
  sim_environ = (char**) rawAlloc(sizeof(char*) * (p.env.size() + 1)); i = 0;
  for (auto &a : p.env) { sim_environ[i] = (char*) rawAlloc(a.size() + 1); strcpy(sim_environ[i++], a.c_str()); } sim_environ[i] = nullptr;
  int r = ak_main((int) p.argv.size(), (const char**) argv);
  runExit(r); return r;
}
