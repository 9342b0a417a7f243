// Less common libc entry points, so that rewritten code finds what it needs.  Included by libc.cpp.
static bool atPath(int d, const char *p, std::string *o) {
  if (p[0] == '/' || d == AT_FDCWD) { *o = p; return true; } Proc *c = S->cur;
  if (d < 0 || d >= (int) c->fds.size() || !c->fds[d].f) { sim_errno_v = EBADF; return false; } auto &f = c->fds[d].f; if (!f->ino || f->ino->type != I_DIR) { sim_errno_v = ENOTDIR; return false; }
  *o = S->pathOf(f->ino.get()) + "/" + p; return true;
}
int sim_openat(int d, const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } std::string q; if (!atPath(d, p, &q)) return -1; return (int) R(S->sOpen(q, fl, m)); }
int sim_openat64(int d, const char *p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } std::string q; if (!atPath(d, p, &q)) return -1; return (int) R(S->sOpen(q, fl, m)); }
int sim_fstatat(int d, const char *p, struct stat *st, int fl) { if (!*p && (fl & 0x1000)) return sim_fstat(d, st); std::string q; if (!atPath(d, p, &q)) return -1; return fl & AT_SYMLINK_NOFOLLOW ? sim_lstat(q.c_str(), st) : sim_stat(q.c_str(), st); }
int sim_faccessat(int d, const char *p, int m, int) { std::string q; if (!atPath(d, p, &q)) return -1; return (int) R(S->sAccess(q, m)); }
int sim_unlinkat(int d, const char *p, int fl) { std::string q; if (!atPath(d, p, &q)) return -1; return (int) R(fl & AT_REMOVEDIR ? S->sRmdir(q) : S->sUnlink(q)); }
int sim_mkdirat(int d, const char *p, mode_t m) { std::string q; if (!atPath(d, p, &q)) return -1; return (int) R(S->sMkdir(q, m)); }
int sim_renameat(int d, const char *p, int e, const char *r) { std::string q, s; if (!atPath(d, p, &q) || !atPath(e, r, &s)) return -1; return (int) R(S->sRename(q, s)); }
int sim_renameat2(int d, const char *p, int e, const char *r, unsigned fl) { if (fl) { sim_errno_v = EINVAL; return -1; } return sim_renameat(d, p, e, r); }
int sim_symlinkat(const char *t, int d, const char *p) { std::string q; if (!atPath(d, p, &q)) return -1; return (int) R(S->sSymlink(t, q)); }
int sim_linkat(int d, const char *p, int e, const char *r, int) { std::string q, s; if (!atPath(d, p, &q) || !atPath(e, r, &s)) return -1; return (int) R(S->sLink(q, s)); }
ssize_t sim_readlinkat(int d, const char *p, char *b, size_t n) { std::string q; if (!atPath(d, p, &q)) return -1; return sim_readlink(q.c_str(), b, n); }
int sim_fchmodat(int d, const char *p, mode_t m, int) { std::string q; if (!atPath(d, p, &q)) return -1; return (int) R(S->sChmod(q, -1, m)); }
int sim_utimensat(int d, const char *p, const struct timespec *t, int fl) { std::string q; if (!atPath(d, p, &q)) return -1; return (int) R(S->sUtimes(q, -1, tsn(t), !(fl & AT_SYMLINK_NOFOLLOW))); }
int sim_futimes(int fd, const struct timeval *t) { return (int) R(S->sUtimes("", fd, t ? t[1].tv_sec * 1000000000ll + t[1].tv_usec * 1000ll : S->wtime(), true)); }
int sim_lutimes(const char *p, const struct timeval *t) { return (int) R(S->sUtimes(p, -1, t ? t[1].tv_sec * 1000000000ll + t[1].tv_usec * 1000ll : S->wtime(), false)); }
int sim_utime(const char *p, const time_t *t) { return (int) R(S->sUtimes(p, -1, t ? t[1] * 1000000000ll : S->wtime(), true)); }
int sim_fchdir(int fd) { std::string q; if (!atPath(fd, "", &q)) return -1; if (q.size() > 1) q.pop_back(); return (int) R(S->sChdir(q)); }
int sim_chown(const char*, unsigned, unsigned) { return 0; } int sim_lchown(const char*, unsigned, unsigned) { return 0; } int sim_fchown(int, unsigned, unsigned) { return 0; } int sim_fchownat(int, const char*, unsigned, unsigned, int) { return 0; }
static ssize_t pio(int fd, void *b, size_t n, off_t o, bool w) { long c = S->sLseek(fd, 0, SEEK_CUR); if (c < 0) return R(c); long e = S->sLseek(fd, o, SEEK_SET); if (e < 0) return R(e); long r = w ? S->sWrite(fd, b, n) : S->sRead(fd, b, n); S->sLseek(fd, c, SEEK_SET); return R(r); }
ssize_t sim_pread(int fd, void *b, size_t n, off_t o) { return pio(fd, b, n, o, false); } ssize_t sim_pread64(int fd, void *b, size_t n, off_t o) { return pio(fd, b, n, o, false); }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t o) { return pio(fd, (void*) b, n, o, true); } ssize_t sim_pwrite64(int fd, const void *b, size_t n, off_t o) { return pio(fd, (void*) b, n, o, true); }
struct iovec_ { void *b; size_t n; };
ssize_t sim_writev(int fd, const iovec_ *v, int c) { std::string s; for (int i = 0; i < c; ++i) s.append((char*) v[i].b, v[i].n); return sim_write(fd, s.data(), s.size()); }
ssize_t sim_readv(int fd, const iovec_ *v, int c) { ssize_t t = 0; for (int i = 0; i < c; ++i) { if (!v[i].n) continue; ssize_t r = sim_read(fd, v[i].b, v[i].n); if (r < 0) return t ? t : r; t += r; if ((size_t) r < v[i].n) break; } return t; }
ssize_t sim_sendfile(int o, int i, off_t *off, size_t n) { char b[4096]; size_t t = 0; while (t < n) { size_t k = std::min(n - t, sizeof b); ssize_t r = off ? sim_pread(i, b, k, *off) : sim_read(i, b, k); if (r < 0) return t ? (ssize_t) t : r; if (!r) break; ssize_t w = 0; while (w < r) { ssize_t x = sim_write(o, b + w, r - w); if (x < 0) return t ? (ssize_t) t : -1; w += x; } if (off) *off += r; t += r; } return t; }
ssize_t sim_sendfile64(int o, int i, off_t *off, size_t n) { return sim_sendfile(o, i, off, n); }
ssize_t sim_copy_file_range(int i, off_t *io, int o, off_t *oo, size_t n, unsigned) { if (oo) { sim_errno_v = EINVAL; return -1; } return sim_sendfile(o, i, io, n); }
int sim_posix_fadvise(int, off_t, off_t, int) { return 0; } int sim_syncfs(int) { return 0; }
void* sim_fdopendir(int fd) { Proc *p = S->cur; if (fd < 0 || fd >= (int) p->fds.size() || !p->fds[fd].f || !p->fds[fd].f->ino) { sim_errno_v = EBADF; return nullptr; } SDIR *d = (SDIR*) sim_malloc(sizeof(SDIR)); if (!d) return nullptr; d->fd = fd; d->i = 0; d->n = -1; d->names = nullptr; d->types = nullptr; return d; }
int sim_alphasort(const struct dirent **a, const struct dirent **b) { return strcmp((*a)->d_name, (*b)->d_name); }
int sim_scandir(const char *p, struct dirent ***out, int (*flt)(const struct dirent*), int (*cmp)(const struct dirent**, const struct dirent**)) {
  SDIR *d = sim_opendir_(p); if (!d) return -1; struct dirent **v = nullptr; int n = 0;
  while (struct dirent *e = sim_readdir(d)) { if (flt && !flt(e)) continue; struct dirent **q = (struct dirent**) sim_realloc(v, sizeof(*v) * (n + 1)); struct dirent *c = q ? (struct dirent*) sim_malloc(sizeof *c) : nullptr; if (q) v = q; if (!c) { for (int i = 0; i < n; ++i) sim_free(v[i]); sim_free(v); sim_closedir(d); sim_errno_v = ENOMEM; return -1; } *c = *e; v[n++] = c; }
  sim_closedir(d); if (cmp && n) std::sort(v, v + n, [&](struct dirent *a, struct dirent *b) { return cmp((const struct dirent**) &a, (const struct dirent**) &b) < 0; }); if (!v) v = (struct dirent**) sim_malloc(sizeof *v); *out = v; return n;
}
int sim_mkostemp(char *t, int) { return sim_mkstemp(t); } int sim_mkstemp64(char *t) { return sim_mkstemp(t); }
char* sim_mkdtemp(char *t) { size_t n = strlen(t); for (int i = 0; i < 1000; ++i) { std::string x = strf("%06d", (int) (S->rng.next() % 1000000)); memcpy(t + n - 6, x.data(), 6); long e = S->sMkdir(t, 0700); if (e == -EEXIST) continue; if (e < 0) { R(e); return nullptr; } return t; } return nullptr; }
SFILE* sim_tmpfile() { char t[] = "/tmp/tmpf.XXXXXX"; int fd = sim_mkstemp(t); if (fd < 0) return nullptr; sim_unlink(t); return sim_fdopen(fd, "w+"); }
int sim_getc_unlocked(SFILE *f) { return sim_fgetc(f); } int sim_putc_unlocked(int c, SFILE *f) { return sim_fputc(c, f); } int sim_fputc_unlocked(int c, SFILE *f) { return sim_fputc(c, f); } int sim_fgetc_unlocked(SFILE *f) { return sim_fgetc(f); } int sim_fputs_unlocked(const char *s, SFILE *f) { return sim_fputs(s, f); } char* sim_fgets_unlocked(char *b, int n, SFILE *f) { return sim_fgets(b, n, f); }
size_t sim_fwrite_unlocked(const void *b, size_t s, size_t n, SFILE *f) { return sim_fwrite(b, s, n, f); } size_t sim_fread_unlocked(void *b, size_t s, size_t n, SFILE *f) { return sim_fread(b, s, n, f); } int sim_fflush_unlocked(SFILE *f) { return sim_fflush(f); } int sim_feof_unlocked(SFILE *f) { return sim_feof(f); } int sim_ferror_unlocked(SFILE *f) { return sim_ferror(f); } int sim_fileno_unlocked(SFILE *f) { return sim_fileno(f); }
void sim_flockfile(void*) {} void sim_funlockfile(void*) {} int sim_getchar() { return sim_fgetc(sim_stdin); } void sim_setbuffer(SFILE *f, char *b, size_t) { sim_setbuf(f, b); } int sim_fgetpos(SFILE *f, long *p) { *p = sim_ftell(f); return *p < 0 ? -1 : 0; } int sim_fsetpos(SFILE *f, const long *p) { return sim_fseek(f, *p, SEEK_SET); } int sim_fseeko64(SFILE *f, off_t o, int w) { return sim_fseeko(f, o, w); } off_t sim_ftello64(SFILE *f) { return sim_ftello(f); } off_t sim_lseek64(int fd, off_t o, int w) { return sim_lseek(fd, o, w); } int sim_stat64(const char *p, struct stat *s) { return sim_stat(p, s); } int sim_lstat64(const char *p, struct stat *s) { return sim_lstat(p, s); } int sim_fstat64(int fd, struct stat *s) { return sim_fstat(fd, s); }
SFILE* sim_freopen(const char *p, const char *m, SFILE *f) { if (!p) return f; SFILE *n = sim_fopen(p, m); if (!n) return nullptr; sim_fflush(f); if (sim_dup2(n->fd, f->fd) < 0) return nullptr; bool r = n->r, w = n->w, a = n->app; sim_fclose(n); f->r = r; f->w = w; f->app = a; f->eof = f->err = false; f->mode = 0; f->rpos = f->rend = f->wlen = 0; return f; }
double sim_strtod(const char *s, char **e) { return strtod(s, e); } float sim_strtof(const char *s, char **e) { return strtof(s, e); }
void* sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); } void* sim_memalign(size_t, size_t n) { return sim_malloc(n); } int sim_posix_memalign(void **o, size_t, size_t n) { *o = sim_malloc(n); return *o ? 0 : ENOMEM; }
int sim_sigdelset(void*, int) { return 0; } int sim_sigismember(const void*, int) { return 0; } int sim_pthread_sigmask(int, const void*, void*) { return 0; } int sim_setpgrp() { return 0; } int sim_getpgid(int) { return 1; } int sim_getsid(int) { return 1; } int sim_setrlimit(int, const void*) { return 0; } int sim_prctl(int, ...) { return 0; } int sim_nice(int) { return 0; } unsigned sim_alarm(unsigned) { return 0; }
int sim_sched_yield() { S->sSleep(0); return 0; } int sim_getpagesize() { return 4096; } int sim_getdtablesize() { return S->rlimitNofile; } int sim_get_nprocs() { return 8; } int sim_get_nprocs_conf() { return 8; } long sim_pathconf(const char*, int n) { return n == _PC_PATH_MAX ? 4096 : n == _PC_NAME_MAX ? 255 : -1; } long sim_fpathconf(int, int n) { return sim_pathconf("", n); } clock_t sim_clock() { return 0; } double sim_difftime(time_t a, time_t b) { return (double) (a - b); } int sim_gethostname(char *b, size_t n) { snprintf(b, n, "sim"); return 0; } const char* sim_setlocale(int, const char*) { return "C"; }
int sim_clock_nanosleep(int, int fl, const struct timespec *t, struct timespec*) { int64_t x = t->tv_sec * 1000000000ll + t->tv_nsec; S->sSleep(fl ? std::max<int64_t>(0, x - S->now) : x); return 0; } int sim_clock_getres(int, struct timespec *t) { if (t) { t->tv_sec = 0; t->tv_nsec = 1; } return 0; } int sim_timespec_get(struct timespec *t, int b) { sim_clock_gettime(0, t); return b; }
struct tm* sim_localtime_r(const time_t *t, struct tm *o) { return gmtime_r(t, o); } struct tm* sim_gmtime_r(const time_t *t, struct tm *o) { return gmtime_r(t, o); } struct tm* sim_localtime(const time_t *t) { static struct tm o; return gmtime_r(t, &o); } struct tm* sim_gmtime(const time_t *t) { return sim_localtime(t); } time_t sim_mktime(struct tm *t) { return timegm(t); } time_t sim_timegm(struct tm *t) { return timegm(t); } size_t sim_strftime(char *b, size_t n, const char *f, const struct tm *t) { return strftime(b, n, f, t); }
void sim_warnx(const char *f, ...) { va_list ap; va_start(ap, f); sim_vfprintf(sim_stderr, f, ap); va_end(ap); sim_fputc('\n', sim_stderr); } void sim_warn(const char *f, ...) { int e = sim_errno_v; va_list ap; va_start(ap, f); sim_vfprintf(sim_stderr, f, ap); va_end(ap); sim_fprintf(sim_stderr, ": %s\n", strerror(e)); }
void sim_errx(int c, const char *f, ...) { va_list ap; va_start(ap, f); sim_vfprintf(sim_stderr, f, ap); va_end(ap); sim_fputc('\n', sim_stderr); sim_exit(c); } void sim_err(int c, const char *f, ...) { int e = sim_errno_v; va_list ap; va_start(ap, f); sim_vfprintf(sim_stderr, f, ap); va_end(ap); sim_fprintf(sim_stderr, ": %s\n", strerror(e)); sim_exit(c); }
void sim_quick_exit(int c) { sim__exit(c); } int sim_execl(const char *p, const char *a, ...) { std::vector<char*> v; va_list ap; va_start(ap, a); for (const char *x = a; x; x = va_arg(ap, const char*)) v.push_back((char*) x); va_end(ap); v.push_back(nullptr); return sim_execv(p, v.data()); } int sim_execlp(const char *p, const char *a, ...) { std::vector<char*> v; va_list ap; va_start(ap, a); for (const char *x = a; x; x = va_arg(ap, const char*)) v.push_back((char*) x); va_end(ap); v.push_back(nullptr); return sim_execvp(p, v.data()); }
