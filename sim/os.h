// Simulated operating system: one virtual machine with a file system, processes, pipes,
// a clock and a scheduler.  Everything is driven by one seed.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <errno.h>
#include <sys/types.h>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int) below((uint64_t) (b - a + 1)); } // inclusive
  bool chance(int pct) { return below(100) < (uint64_t) pct; }
  template<class T> const T& pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

inline uint64_t fnv(uint64_t h, const void *p, size_t n) {
  const unsigned char *c = (const unsigned char*) p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ull; }
  return h;
}
inline uint64_t fnvs(uint64_t h, const std::string &s) { return fnv(fnv(h, s.data(), s.size()), "\0", 1); }
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- files

enum IType { I_FILE, I_DIR, I_LNK, I_NULL };
struct Inode {
  int ino; IType type; unsigned mode; int64_t mtime, ctime;
  std::string data;
  std::map<std::string, std::shared_ptr<Inode>> ents;
  Inode *parent = nullptr;
  int nlink = 1;
  uint32_t readErrAfter = 0;
};
using InodeP = std::shared_ptr<Inode>;

struct Pipe { std::string buf; size_t rpos = 0; size_t cap = 65536; int readers = 0, writers = 0; size_t avail() const { return buf.size() - rpos; } };

enum OKind { O_K_FILE, O_K_PIPE_R, O_K_PIPE_W, O_K_SINK, O_K_NULL, O_K_DIR };
struct OFD {
  OKind kind; InodeP ino; int64_t off = 0; int flags = 0;
  std::shared_ptr<Pipe> pipe; std::string *sink = nullptr; int sinkId = 0;
  std::string path; int by = 0;
  ~OFD();
};
using OFDP = std::shared_ptr<OFD>;
struct FdEnt { OFDP f; bool cloexec = false; };

// ---------------------------------------------------------------- system call kinds (for faults and coverage)

#define SYSKINDS(X) \
  X(OPEN_R) X(OPEN_W) X(READ) X(READ_PIPE) X(WRITE) X(WRITE_PIPE) X(CLOSE) X(RENAME) X(UNLINK) X(RMDIR) X(MKDIR) X(SYMLINK) X(READLINK) \
  X(STAT) X(ACCESS) X(CHDIR) X(GETCWD) X(PIPE) X(FORK) X(EXEC) X(POLL) X(WAIT) X(DUP) X(FCHMOD) X(UTIMES) \
  X(OPENDIR) X(READDIR) X(LSEEK) X(FCNTL) X(TRUNC) X(LINK) X(TIME) X(SLEEP) X(EXIT) X(MALLOC) X(REALPATH) X(KILL) X(FSYNC) X(TOOL)
enum SysKind {
#define X(a) K_##a,
  SYSKINDS(X)
#undef X
  K_COUNT
};
extern const char *sysKindName[];

// fault actions
enum FaultAct { FA_ERRNO, FA_SHORT, FA_EINTR, FA_KILL_MAIN, FA_KILL_GROUP, FA_DISKFULL, FA_OOM_FROM };
struct Fault {
  int build = 0;         // index of build within the scenario
  int kind = -1;         // SysKind; -1: any system call of an autark process
  long nth = 0;          // n-th occurrence (1-based) in the main build process
  FaultAct act = FA_ERRNO;
  int err = 0;
  bool nested = false;   // counts nested autark processes (set/dep/env) instead of the main one
  int sticky = 0;        // fail this many further occurrences too
  bool fired = false;
  long left = 0;
};

// ---------------------------------------------------------------- processes

struct Proc;
struct Killed {};
struct ExecRec {          // one executed program (stub or nested autark)
  int build; int pid; int ppid; std::string prog; std::vector<std::string> argv; std::string cwd; std::map<std::string,std::string> env;
  long tStart = 0, tEnd = -1; int status = -1; bool done = false; std::string tag; int concurrent = 0;
};

enum PState { P_RUN, P_BLOCK, P_ZOMBIE, P_DEAD };
struct AkImage;
struct Proc {
  int pid = 0, ppid = 0; bool autark = false; bool mainProc = false; PState st = P_RUN;
  std::vector<FdEnt> fds; InodeP cwd;
  std::vector<std::string> argv, env; std::string exe;
  int wstatus = 0; bool killed = false; int umask = 022;
  // coroutine
  void *sp = nullptr; char *stack = nullptr; size_t stackSize = 0; int slot = -1; bool started = false;
  std::function<int(Proc&)> body;
  // blocking
  std::function<bool()> cond; int64_t wakeAt = -1;
  // autark image
  AkImage *img = nullptr;
  // fork emulation
  Proc *forkParent = nullptr;       // set in a forked child which has not exec'ed yet (shares parent's image)
  std::vector<char> snapStack, snapHeap, snapData; void *snapSp = nullptr; size_t snapBrk = 0; int forkRet = 0; bool frozen = false;
  int execRec = -1;
  int prio = 0;
  int maxFd = 0;
  std::string lastErr;
  bool crashed = false; std::string crashWhy;
  int64_t stepsSelf = 0;
};

struct Mutation { int build; int pid; bool autark; const char *op; std::string path; };

enum Strategy { S_RANDOM, S_RUN_TO_BLOCK, S_PRIO, S_CHILD_FIRST, S_PARENT_FIRST };

struct Sim {
  // machine
  InodeP root; int nextIno = 1; int64_t now = 0, wall = 0; int64_t wtime() const { return now + wall; } int nextPid = 100;
  std::map<int, std::unique_ptr<Proc>> procs; Proc *cur = nullptr;
  Rng rng{1};                  // scheduling, timing
  uint64_t hash = 0xcbf29ce484222325ull; long steps = 0; long stepCap = 3000000; bool capHit = false; bool deadlock = false;
  std::set<uint64_t> schedPoints; // distinct (state) points reached: (runnable set, kinds)
  uint64_t interleaveHash = 0xcbf29ce484222325ull; // sequence of context switches
  long switches = 0;
  bool traceOn = false; std::vector<std::string> trace;
  Strategy strat = S_RANDOM; int switchPct = 20; int stdioCap = 4096; bool stdioLine = false; bool ttyOut = false;
  int rlimitNofile = 1024;
  // per build
  int build = -1; Proc *mainP = nullptr; std::vector<Fault*> faults; long cntMain[K_COUNT + 1] = { 0 }, cntNest[K_COUNT + 1] = { 0 };
  std::string outMain, errMain; int64_t diskFree = -1;
  std::vector<ExecRec> execs; std::vector<Mutation> muts;
  long faultFired[8] = { 0 }; std::map<std::string, long> faultKinds;
  bool killAll = false;
  bool oom = false;
  std::map<std::string, long> sysCount;
  long nSteps0 = 0;
  std::function<void(Proc&, const std::string &exe)> onExec; // maps programs to bodies
  std::function<bool(Proc&)> onMainSys;                        // extra hooks
  int running_cc = 0;
  bool noFaults = false;
  int mainZombies = 0, mainLive = 0;

  Sim();
  ~Sim();
  void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  // kernel fs (paths as seen by proc p; p may be null => root cwd). Return -errno on failure.
  int resolve(Proc *p, const std::string &path, InodeP *out, bool follow = true, InodeP *dir = nullptr, std::string *last = nullptr, int depth = 0);
  std::string pathOf(Inode *i);
  std::string absPath(Proc *p, const std::string &path);
  // direct (fault free, untimed) helpers for the environment
  bool hostWrite(const std::string &path, const std::string &data, unsigned mode = 0644);
  bool hostRead(const std::string &path, std::string *out);
  InodeP hostGet(const std::string &path, bool follow = true);
  bool hostUnlink(const std::string &path);
  void hostMkdirs(const std::string &path);
  bool hostSymlink(const std::string &target, const std::string &path);
  void hostTouch(const std::string &path);
  void walk(const std::string &path, std::vector<std::string> &out); // all non-directories below

  // system calls; callable from coroutines only.  Each is a scheduling point.
  int enter(SysKind k, const std::string &what, bool faultable = true); // returns 0 or -errno injected; may switch
  bool wantShort(SysKind k);
  int sOpen(const std::string &path, int flags, unsigned mode);
  int sClose(int fd);
  ssize_t sRead(int fd, void *buf, size_t n);
  ssize_t sWrite(int fd, const void *buf, size_t n);
  int64_t sLseek(int fd, int64_t off, int wh);
  int sPipe(int *fds, int flags);
  int sDup(int fd, int to, bool cloexec = false);
  int sRename(const std::string &a, const std::string &b);
  int sUnlink(const std::string &a);
  int sRmdir(const std::string &a);
  int sMkdir(const std::string &a, unsigned mode);
  int sSymlink(const std::string &t, const std::string &a);
  int sLink(const std::string &t, const std::string &a);
  int sReadlink(const std::string &a, std::string *out);
  int sStat(const std::string &a, InodeP *out, bool follow);
  int sAccess(const std::string &a, int mode);
  int sChdir(const std::string &a);
  int sGetcwd(std::string *out);
  int sChmod(const std::string &a, int fd, unsigned mode);
  int sUtimes(const std::string &a, int fd, int64_t mt, bool follow);
  int sTrunc(const std::string &a, int fd, int64_t len);
  int sFork();                      // autark image only
  int sExec(const std::string &path, std::vector<std::string> argv, std::vector<std::string> env);
  int sSpawn(const std::string &exe, std::vector<std::string> argv, std::vector<std::string> env, int outFd); // stubs start children
  int sWait(int pid, int *status, int options);
  int sPoll(void *fds, int n, int timeoutMs);
  void sSleep(int64_t ns);
  [[noreturn]] void sExit(int status);
  int sKill(int pid, int sig);
  int listDir(const std::string &path, std::vector<std::string> *names);

  void crash(Proc *p, const std::string &why);    // current process dies by signal
  void yield();
  void block(std::function<bool()> cond, int64_t wakeAt = -1);
  void killProc(Proc *p, int sig);
  void killTree(Proc *p, int sig);
  void reap(Proc *p);
  void finishProc(Proc *p, int wstatus);
  Proc* newProc();
  void freeProc(Proc *p);
  void startProgram(Proc *p);
  int drain();                       // run until every process is dead; returns number of leftovers
  Proc* pickNext();
  void switchTo(Proc *p);
  void runLoop(std::function<bool()> until);
  void mut(const char *op, const std::string &path);
  void mutN(const char *op, Inode *n);
  // main entry used by scenarios
  struct BuildRes { int wstatus; bool exited; int code; bool crashed; std::string why; std::string out, err; int orphans; long steps; int zombies; int maxFd; int64_t t0, t1; bool cap, deadlock; int pid; };
  BuildRes runBuild(int buildIdx, const std::vector<std::string> &argv, const std::vector<std::string> &env, const std::string &cwd, std::vector<Fault*> faults);
};
extern Sim *S;

// ---------------------------------------------------------------- autark image (libc.cpp)

struct AkImage { // process-private state of a real autark process
  int slot; char *heap; size_t brk; size_t heapCap; std::vector<char> data; std::vector<char> pg;
};
void imgInit();
AkImage* imgNew(Proc *p);
void imgFree(AkImage *im);
void imgLoad(Proc *p);            // make p's image current
void imgSaveCurrent();
int imgMain(Proc &p);             // runs autark's main
const char* imgHeapCheck(AkImage *im);
extern "C" void co_switch(void **save_sp, void *to_sp);
