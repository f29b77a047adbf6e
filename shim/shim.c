// LD_PRELOAD seam of the rpcgen process: every system call on the interface file and on standard
// output, and every source of variation (randomness, clock, pid, heap layout), follows a plan the
// simulator left in the page behind file descriptor 200.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include "plan.h"

void *__libc_malloc(size_t);
static struct plan *P;
static int in_fd = -1;
static uint64_t now_ns, ent;
static int ready;

static long raw(long nr, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
static long fin(long r) {
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
static uint64_t rnd(void) {
  uint64_t z = (ent += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
__attribute__((constructor)) static void init(void) {
  void *p = mmap(0, sizeof(struct plan), PROT_READ | PROT_WRITE, MAP_SHARED, PLAN_FD, 0);
  if (p == MAP_FAILED) return;
  close(PLAN_FD);
  P = p;
  now_ns = P->clock_ns;
  ent = P->seed;
  // shift the heap and the mappings
  for (uint32_t i = 0; i < P->heap_shift && i < 64; i++) {
    char *volatile q = malloc(16 + rnd() % 5000);
    if (rnd() & 1) free((void *)q);
  }
  if (P->map_shift) mmap(0, (size_t)P->map_shift << 12, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  ready = 1;
}
// the rule in force for the next call of a class; its effect is applied by the caller
static struct rule *next(int cls) {
  if (!P) return 0;
  uint32_t n = P->calls[cls]++;
  for (uint32_t i = 0; i < P->nrules && i < MAXRULES; i++) {
    struct rule *r = &P->rules[i];
    if (r->cls == cls && n >= r->nth && n < r->nth + r->count) {
      r->fired++;
      return r;
    }
  }
  return 0;
}
static void note(int cls, long arg, long ret) {
  if (!P) return;
  uint32_t i = P->nlog++;
  if (i < MAXLOG) { P->log[i].cls = cls; P->log[i].arg = arg; P->log[i].ret = ret; }
  now_ns += 1000;
}
// 1: an error was injected
static int err(struct rule *r, int cls, long arg) {
  if (r && r->kind == R_ERR) { note(cls, arg, -(long)r->arg); errno = r->arg; return 1; }
  if (r && r->kind == R_SLOW) now_ns += (uint64_t)r->arg * 1000000;
  return 0;
}

static void die(void) {
  P->killed = 1;
  raw(SYS_kill, raw(SYS_getpid, 0, 0, 0, 0, 0, 0), 9, 0, 0, 0, 0);
}
// every call of the process that the simulator sees; it may be its last one
static void step(void) {
  if (ready && P && ++P->calls_made == P->kill_call) die();
}
// a change to the file system: counted; outside the run's own directory it is only recorded
static int refuse(const char *path) {
  if (!ready || !P || !path || !P->root[0]) return 0;
  if (!strncmp(path, "/dev/", 5)) return 0;
  P->nmods++;
  if (*path != '/' || !strncmp(path, P->root, strlen(P->root))) return 0;
  if (!P->noutside++) strncpy(P->outside, path, sizeof P->outside - 1);
  errno = EACCES;
  return 1;
}
// a file it looked for in vain
static void missed(const char *path) {
  int e = errno;
  if (ready && P && path && *path && e == ENOENT && P->nmiss < 4 && strlen(path) < 256) strcpy(P->miss[P->nmiss++], path);
  errno = e;
}
static int is_in(const char *path) { return P && path && !strcmp(path, P->path); }
static int open_common(int dfd, const char *path, int flags, mode_t m) {
  int mine = is_in(path);
  step();
  if ((flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && refuse(path)) return -1;
  if (mine && err(next(C_OPEN), C_OPEN, 0)) return -1;
  long r = fin(raw(SYS_openat, dfd, (long)path, flags, m, 0, 0));
  if (!mine && r < 0) missed(path);
  if (mine) { note(C_OPEN, 0, r < 0 ? -errno : 0); if (r >= 0) in_fd = r; }
  return r;
}
#define MODE(last) mode_t m = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, last); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { MODE(flags) return open_common(AT_FDCWD, path, flags, m); }
int open64(const char *path, int flags, ...) { MODE(flags) return open_common(AT_FDCWD, path, flags | O_LARGEFILE, m); }
int openat(int d, const char *path, int flags, ...) { MODE(flags) return open_common(d, path, flags, m); }
int openat64(int d, const char *path, int flags, ...) { MODE(flags) return open_common(d, path, flags | O_LARGEFILE, m); }
int creat(const char *path, mode_t m) { return open_common(AT_FDCWD, path, O_WRONLY | O_CREAT | O_TRUNC, m); }
int creat64(const char *path, mode_t m) { return creat(path, m); }
#define CHANGE(path, nr, a, b, c, d, e) do { step(); if (refuse(path)) return -1; return fin(raw(nr, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), 0)); } while (0)
int mkdir(const char *p, mode_t m) { CHANGE(p, SYS_mkdir, p, m, 0, 0, 0); }
int mkdirat(int d, const char *p, mode_t m) { CHANGE(p, SYS_mkdirat, d, p, m, 0, 0); }
int rmdir(const char *p) { CHANGE(p, SYS_rmdir, p, 0, 0, 0, 0); }
int unlink(const char *p) { CHANGE(p, SYS_unlink, p, 0, 0, 0, 0); }
int unlinkat(int d, const char *p, int f) { CHANGE(p, SYS_unlinkat, d, p, f, 0, 0); }
int rename(const char *o, const char *p) { if (refuse(o)) return -1; CHANGE(p, SYS_rename, o, p, 0, 0, 0); }
int renameat(int a, const char *o, int b, const char *p) { if (refuse(o)) return -1; CHANGE(p, SYS_renameat, a, o, b, p, 0); }
int renameat2(int a, const char *o, int b, const char *p, unsigned f) { if (refuse(o)) return -1; CHANGE(p, SYS_renameat2, a, o, b, p, f); }
int link(const char *o, const char *p) { CHANGE(p, SYS_link, o, p, 0, 0, 0); }
int linkat(int a, const char *o, int b, const char *p, int f) { CHANGE(p, SYS_linkat, a, o, b, p, f); }
int symlink(const char *o, const char *p) { CHANGE(p, SYS_symlink, o, p, 0, 0, 0); }
int symlinkat(const char *o, int d, const char *p) { CHANGE(p, SYS_symlinkat, o, d, p, 0, 0); }
int truncate(const char *p, off_t n) { CHANGE(p, SYS_truncate, p, n, 0, 0, 0); }
int truncate64(const char *p, off64_t n) { CHANGE(p, SYS_truncate, p, n, 0, 0, 0); }
int chmod(const char *p, mode_t m) { CHANGE(p, SYS_chmod, p, m, 0, 0, 0); }
int fchmodat(int d, const char *p, mode_t m, int f) { CHANGE(p, SYS_fchmodat, d, p, m, f, 0); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { CHANGE(p, SYS_utimensat, d, p, t, f, 0); }
int mkfifo(const char *p, mode_t m) { CHANGE(p, SYS_mknod, p, S_IFIFO | m, 0, 0, 0); }
int close(int fd) {
  step();
  if (fd == in_fd && fd >= 0) in_fd = -1;
  return fin(raw(SYS_close, fd, 0, 0, 0, 0, 0));
}

static size_t clip(struct rule *r, size_t n) {
  if (r && r->kind == R_SHORT && n > r->arg && r->arg) return r->arg;
  return n;
}
ssize_t read(int fd, void *b, size_t n) {
  step();
  if (fd != in_fd || fd < 0) return fin(raw(SYS_read, fd, (long)b, n, 0, 0, 0));
  struct rule *r = next(C_READ);
  if (err(r, C_READ, n)) return -1;
  long k = fin(raw(SYS_read, fd, (long)b, clip(r, n), 0, 0, 0));
  note(C_READ, n, k);
  return k;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  if (fd != in_fd || fd < 0) return fin(raw(SYS_pread64, fd, (long)b, n, o, 0, 0));
  struct rule *r = next(C_READ);
  if (err(r, C_READ, n)) return -1;
  long k = fin(raw(SYS_pread64, fd, (long)b, clip(r, n), o, 0, 0));
  note(C_READ, n, k);
  return k;
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (fd != in_fd || fd < 0) return fin(raw(SYS_readv, fd, (long)v, c, 0, 0, 0));
  return c > 0 ? read(fd, v[0].iov_base, v[0].iov_len) : 0;
}
static ssize_t out(int cls, int fd, const void *b, size_t n) {
  struct rule *r = next(cls);
  if (err(r, cls, n)) return -1;
  if (r && r->kind == R_ZERO) { note(cls, n, 0); return 0; }
  size_t m = clip(r, n);
  if (cls == C_WRITE && P && P->cap_errno) { // a full disk or a reader that goes away
    uint64_t left = P->cap > P->written ? P->cap - P->written : 0;
    if (left == 0) { P->cap_fired++; note(cls, n, -(long)P->cap_errno); errno = P->cap_errno; return -1; }
    if (m > left) m = left;
  }
  size_t done = 0;
  while (done < m) { // what the plan lets through really is delivered
    long k = raw(SYS_write, fd, (long)b + done, m - done, 0, 0, 0);
    if (k == -EINTR) continue;
    if (k <= 0) break;
    done += k;
  }
  if (P && cls == C_WRITE) P->written += done;
  note(cls, n, done);
  return done;
}
ssize_t write(int fd, const void *b, size_t n) {
  step();
  if (!P || (fd != 1 && fd != 2)) return fin(raw(SYS_write, fd, (long)b, n, 0, 0, 0));
  return out(fd == 1 ? C_WRITE : C_ERRW, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!P || (fd != 1 && fd != 2)) return fin(raw(SYS_writev, fd, (long)v, c, 0, 0, 0));
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return out(fd == 1 ? C_WRITE : C_ERRW, fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
int statx(int d, const char *path, int fl, unsigned mask, struct statx *s) {
  int mine = P && in_fd >= 0 && d == in_fd && !*path;
  struct rule *r = mine ? next(C_STAT) : 0;
  if (mine && err(r, C_STAT, 0)) return -1;
  long k = fin(raw(SYS_statx, d, (long)path, fl, mask, (long)s, 0));
  if (!mine && k < 0) missed(path);
  if (mine && k == 0 && r && r->kind == R_SIZE) s->stx_size = r->arg;
  if (mine && k == 0 && r && r->kind == R_FIFO) { s->stx_size = 0; s->stx_mode = (s->stx_mode & ~S_IFMT) | S_IFIFO; }
  if (mine) note(C_STAT, 0, k);
  return k;
}
int stat64(const char *path, struct stat64 *s) {
  long k = fin(raw(SYS_newfstatat, AT_FDCWD, (long)path, (long)s, 0, 0, 0));
  if (k < 0) missed(path);
  return k;
}
int stat(const char *path, struct stat *s) { return stat64(path, (struct stat64 *)s); }
int access(const char *path, int m) {
  long k = fin(raw(SYS_faccessat, AT_FDCWD, (long)path, m, 0, 0, 0));
  if (k < 0) missed(path);
  return k;
}
int fstat64(int fd, struct stat64 *s) {
  int mine = P && in_fd >= 0 && fd == in_fd;
  struct rule *r = mine ? next(C_STAT) : 0;
  if (mine && err(r, C_STAT, 0)) return -1;
  long k = fin(raw(SYS_fstat, fd, (long)s, 0, 0, 0, 0));
  if (mine && k == 0 && r && r->kind == R_SIZE) s->st_size = r->arg;
  if (mine && k == 0 && r && r->kind == R_FIFO) { s->st_size = 0; s->st_mode = (s->st_mode & ~S_IFMT) | S_IFIFO; }
  if (mine) note(C_STAT, 0, k);
  return k;
}
int fstat(int fd, struct stat *s) { return fstat64(fd, (struct stat64 *)s); }
off64_t lseek64(int fd, off64_t o, int w) {
  if (P && fd == in_fd && fd >= 0) {
    struct rule *r = next(C_SEEK);
    if (err(r, C_SEEK, o)) return -1;
    long k = fin(raw(SYS_lseek, fd, o, w, 0, 0, 0));
    note(C_SEEK, o, k);
    return k;
  }
  return fin(raw(SYS_lseek, fd, o, w, 0, 0, 0));
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }

// ---------------------------------------------------------------- variation
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (!P) return fin(raw(SYS_getrandom, (long)b, n, f, 0, 0, 0));
  P->draws++;
  uint8_t *p = b;
  for (size_t i = 0; i < n; i++) p[i] = rnd() >> 17;
  return n;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  if (!P) return fin(raw(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0));
  P->clocks++;
  now_ns += 1 + (P->clock_ns % 997) * 1000;
  t->tv_sec = now_ns / 1000000000ull;
  t->tv_nsec = now_ns % 1000000000ull;
  return 0;
}
pid_t getpid(void) { return P && P->pid ? (pid_t)P->pid : (pid_t)raw(SYS_getpid, 0, 0, 0, 0, 0, 0); }

// the surroundings: variables nobody set, who runs the process, where its output goes, the machine
extern char **environ;
static uint64_t mixed(const char *s) {
  uint64_t h = P->seed * 0x9E3779B97F4A7C15ull + 77;
  for (; *s; s++) h = (h ^ (uint8_t)*s) * 0x100000001b3ull;
  h ^= h >> 29;
  h *= 0xBF58476D1CE4E5B9ull;
  return h ^ (h >> 32);
}
static int varied(void) {
  if (!ready || !P || !P->vary) return 0;
  P->asked++;
  return 1;
}
static char *real_getenv(const char *n) {
  size_t k = strlen(n);
  for (char **e = environ; e && *e; e++)
    if (!strncmp(*e, n, k) && (*e)[k] == '=') return *e + k + 1;
  return 0;
}
char *getenv(const char *n) {
  static const char *const V[] = {0, "1", "0", "true", "", "yes", "on", "x", "/nonexistent", "debug", "2", "64", "always", "none"};
  char *v = real_getenv(n);
  // what the Rust runtime itself asks for keeps its real answer
  if (v || !strncmp(n, "RUST_", 5) || !strncmp(n, "LD_", 3) || !varied()) return v;
  return (char *)V[mixed(n) % (sizeof V / sizeof *V)];
}
char *secure_getenv(const char *n) { return getenv(n); }
int isatty(int fd) {
  if (varied()) {
    if (mixed(fd == 0 ? "tty0" : fd == 1 ? "tty1" : "tty2") & 1) return 1;
    errno = ENOTTY;
    return 0;
  }
  char t[256];
  return fin(raw(SYS_ioctl, fd, 0x5401, (long)t, 0, 0, 0)) == 0;
}
pid_t getppid(void) { return varied() ? (pid_t)(2 + mixed("ppid") % 30000) : (pid_t)raw(SYS_getppid, 0, 0, 0, 0, 0, 0); }
uid_t getuid(void) { return varied() ? (uid_t)(mixed("uid") % 3 * 1000) : (uid_t)raw(SYS_getuid, 0, 0, 0, 0, 0, 0); }
uid_t geteuid(void) { return varied() ? (uid_t)(mixed("uid") % 3 * 1000) : (uid_t)raw(SYS_geteuid, 0, 0, 0, 0, 0, 0); }
int gethostname(char *b, size_t n) {
  const char *h = varied() ? (mixed("host") & 1 ? "build-7" : "laptop") : "localhost";
  if (n <= strlen(h)) { errno = ENAMETOOLONG; return -1; }
  strcpy(b, h);
  return 0;
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) {
  long r = raw(SYS_sched_getaffinity, p, n, (long)m, 0, 0, 0);
  if (r < 0) return fin(r);
  memset((char *)m + r, 0, n - r);
  if (varied()) { memset(m, 0, n); 
    static const int N[] = {1, 2, 3, 4, 8, 16, 64, 128, 256};
    int cpus = N[mixed("cpus") % 9];
    for (int i = 0; i < cpus && (size_t)i < n * 8; i++) ((uint8_t *)m)[i / 8] |= 1 << i % 8; }
  return 0;
}

// ---------------------------------------------------------------- threads the process starts itself
// undisturbed, each thread runs to its end before its creator goes on; otherwise the seed decides
// who is first
struct start { void *(*f)(void *); void *arg; int late; volatile int done; };
static void nap(long us) {
  struct timespec t = {us / 1000000, us % 1000000 * 1000};
  raw(SYS_nanosleep, (long)&t, 0, 0, 0, 0, 0);
}
static void *started(void *v) {
  struct start *s = v;
  if (s->late) nap(s->late);
  void *r = s->f(s->arg);
  s->done = 1;
  return r;
}
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
  static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
  if (!ready || !P) return real(t, a, f, arg);
  step();
  static const char *const K[] = {"t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7"};
  int how = P->vary ? mixed(K[P->threads % 8]) % 5 : 0;
  P->threads++;
  struct start *s = __libc_malloc(sizeof *s);
  *s = (struct start){f, arg, how == 1 ? 1500 : how == 2 ? 5000 : how == 3 ? 300 : 0, 0};
  int r = real(t, a, started, s);
  if (!r && how == 0)
    for (int i = 0; i < 400 && !s->done; i++) nap(50);
  return r;
}

// ---------------------------------------------------------------- allocations that fail
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
static int oom(void) {
  if (!ready || !P) return 0;
  uint64_t n = P->allocs++;
  if (P->kill_alloc && n + 1 == P->kill_alloc) die();
  if (P->alloc_fail && n + 1 >= P->alloc_fail && n + 1 < P->alloc_fail + P->alloc_fail_n) { P->alloc_failed++; errno = ENOMEM; return 1; }
  return 0;
}
void *malloc(size_t n) { return oom() ? 0 : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return oom() ? 0 : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return oom() ? 0 : __libc_realloc(p, n); }
int posix_memalign(void **o, size_t a, size_t n) {
  if (oom()) return ENOMEM;
  *o = __libc_memalign(a, n);
  return *o ? 0 : ENOMEM;
}
