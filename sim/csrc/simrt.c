// Simulation runtime: owns every source of nondeterminism the in-process simulations meet.
// Compiled by gcc, never instrumented. See DESIGN.md, "The in-process simulator".
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static long raw_syscall(long nr, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}

// ---------------------------------------------------------------- shared result page
#define SHM_CHOICES 131072
#define SHM_TRACE (1 << 20)
#define SHM_STATS 256
#define SHM_EDGES (1 << 18)
#define SHM_DISTINCT (1 << 20)
struct shm {
  volatile uint32_t status;   // 0 running, 1 ok, 2 violation, 3 harness error
  volatile uint32_t in_lib;   // library code executing (for attribution of crashes)
  volatile uint32_t flag;     // 1 memory budget, 2 step budget, 3 deadlock, 4 double fault
  volatile uint32_t nchoices;
  volatile uint32_t tracelen;
  volatile uint32_t pad_;
  volatile uint64_t req;      // size of the refused request / steps
  volatile uint64_t digest;   // rolling hash of the event log
  char klass[256];
  char msg[4096];
  uint64_t choices[SHM_CHOICES];
  char trace[SHM_TRACE];
  uint64_t stats[SHM_STATS];
  uint8_t edges[SHM_EDGES];
  uint8_t distinct[SHM_DISTINCT]; // bitmap-ish set of log hashes (by low bits)
};
struct shm *simrt_shm_new(void) {
  void *p = mmap(0, sizeof(struct shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  return p == MAP_FAILED ? 0 : p;
}
static struct shm *shm;
void simrt_shm_use(struct shm *p) { shm = p; }

// ---------------------------------------------------------------- per-thread state
static __thread int armed;      // executing the code under test
static __thread int my_tid = -1;
static __thread int64_t live, peak, budget; // bytes requested by the code under test
static __thread uint64_t nallocs;
static __thread uint64_t moved; // bytes requested or copied in pieces of a kilobyte or more

static uint64_t steps, step_limit = UINT64_MAX, total_points;
static int sched_on, nthreads, cur;
static uint64_t now_ns = 1700000000ull * 1000000000ull; // simulated clock
static uint64_t entropy = 1;
static int sim_active; // hooks for clock and randomness are in force

static void die(int flag, int code) {
  if (shm) { shm->flag = flag; }
  _exit(code);
}

// ---------------------------------------------------------------- scheduler
#define MAXT 8
enum { T_NONE, T_READY, T_BLOCKED, T_DONE };
static struct {
  int state;
  uint32_t baton;
  uint32_t *addr;
  uint32_t bitset;
  uint64_t deadline;
  int timedout;
} th[MAXT];
static uint32_t main_baton, release_baton[MAXT];
#define MAXPRE 4096
static uint64_t pre_gap[MAXPRE];
static uint32_t pre_pick[MAXPRE];
static int npre, ipre;
static uint64_t countdown;
static uint64_t n_switch, n_block;
static uint64_t sched_hash;
static uint64_t since_switch; // points passed since the running thread was given control

static void fwait(uint32_t *a) {
  while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0)
    raw_syscall(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(a, 0, __ATOMIC_RELEASE);
}
static void fpost(uint32_t *a) {
  __atomic_store_n(a, 1, __ATOMIC_RELEASE);
  raw_syscall(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void next_gap(void) {
  countdown = ipre < npre ? pre_gap[ipre] : UINT64_MAX;
}
static int pick_ready(int except, uint32_t pick) {
  int c[MAXT], n = 0;
  for (int i = 0; i < nthreads; i++)
    if (i != except && th[i].state == T_READY) c[n++] = i;
  return n ? c[pick % n] : -1;
}
static void give(int t) {
  cur = t;
  since_switch = 0;
  n_switch++;
  sched_hash = (sched_hash ^ (uint64_t)(t + 1) ^ (total_points << 8)) * 0x9E3779B97F4A7C15ull;
  fpost(&th[t].baton);
}
// nobody ready: fire the earliest timeout, or report a deadlock
static int wake_by_timeout(void) {
  int best = -1;
  for (int i = 0; i < nthreads; i++)
    if (th[i].state == T_BLOCKED && th[i].deadline != UINT64_MAX && (best < 0 || th[i].deadline < th[best].deadline)) best = i;
  if (best < 0) return -1;
  if (th[best].deadline > now_ns) now_ns = th[best].deadline;
  th[best].state = T_READY;
  th[best].timedout = 1;
  return best;
}
static void block_here(int me) {
  n_block++;
  int t = pick_ready(me, 0);
  if (t < 0) t = wake_by_timeout();
  if (t < 0) die(3, 78);
  if (t == me) return;
  give(t);
  fwait(&th[me].baton);
}
#define FAIR 3000000          // a spinning thread lets the others run
static void fair(void) {
  int me = my_tid;
  since_switch = 0;
  for (int k = 1; k < nthreads; k++) {
    int t = (me + k) % nthreads;
    if (th[t].state == T_READY) { give(t); fwait(&th[me].baton); return; }
  }
}
static void preempt(void) {
  int me = my_tid;
  uint32_t pick = pre_pick[ipre];
  ipre++;
  next_gap();
  int t = pick_ready(me, pick);
  if (t < 0) return;
  give(t);
  fwait(&th[me].baton);
}
static inline void point(void) {
  if (!armed) return;
  total_points++;
  if (++steps > step_limit) { shm ? (void)(shm->req = steps) : (void)0; die(2, 77); }
  now_ns += 3;
  if (sched_on && my_tid >= 0) {
    if (--countdown == 0) preempt();
    else if (++since_switch > FAIR) fair();
  }
}
void simrt_yield(void) { point(); }

void simrt_sched_init(int n) {
  nthreads = n; npre = 0; ipre = 0; n_switch = 0; n_block = 0; sched_hash = 0;
  for (int i = 0; i < n; i++) { memset(&th[i], 0, sizeof th[i]); th[i].state = T_READY; release_baton[i] = 0; }
  main_baton = 0;
}
void simrt_sched_pre(uint64_t gap, uint32_t pick) {
  if (npre < MAXPRE) { pre_gap[npre] = gap ? gap : 1; pre_pick[npre++] = pick; }
}
static uint32_t parked[MAXT];
void simrt_thread_enter(int tid) {
  my_tid = tid;
  fpost(&parked[tid]);
  fwait(&th[tid].baton);
}
void simrt_wait_parked(int tid) { fwait(&parked[tid]); }
void simrt_sched_run(int first) {
  sched_on = 1; next_gap();
  give(first);
  fwait(&main_baton);
  sched_on = 0;
}
void simrt_thread_exit(void) {
  int me = my_tid;
  th[me].state = T_DONE;
  int alive = 0;
  for (int i = 0; i < nthreads; i++) alive += th[i].state != T_DONE;
  if (!alive) fpost(&main_baton);
  else {
    int t = pick_ready(me, 0);
    if (t < 0) t = wake_by_timeout();
    if (t < 0) die(3, 78);
    give(t);
  }
  fwait(&release_baton[me]); // thread-local destructors run one thread at a time
  my_tid = -1;
}
void simrt_thread_release(int tid) { fpost(&release_baton[tid]); }
// a single-threaded history: futex waits of the code under test are self-deadlocks
void simrt_solo_begin(void) { simrt_sched_init(1); my_tid = 0; sched_on = 1; countdown = UINT64_MAX; }
void simrt_solo_end(void) { sched_on = 0; my_tid = -1; }
uint64_t simrt_switches(void) { return n_switch; }
uint64_t simrt_blocks(void) { return n_block; }
uint64_t simrt_sched_hash(void) { return sched_hash; }
uint64_t simrt_points(void) { return total_points; }

// ---------------------------------------------------------------- arming, accounting
void simrt_arm(void) { if (shm) shm->in_lib++; armed++; }
void simrt_disarm(void) { armed--; if (shm) shm->in_lib--; }
int simrt_armed(void) { return armed; }
void simrt_pause(int *save) { *save = armed; armed = 0; }
void simrt_resume(int save) { armed = save; }
void simrt_mem_begin(int64_t b) { live = peak = 0; budget = b; nallocs = 0; moved = 0; }
int64_t simrt_mem_peak(void) { return peak; }
uint64_t simrt_mem_allocs(void) { return nallocs; }
void simrt_mem_end(void) { budget = 0; }
uint64_t simrt_moved(void) { return moved; }
void simrt_steps_begin(uint64_t limit) { steps = 0; step_limit = limit; }
uint64_t simrt_steps(void) { return steps; }
void simrt_steps_end(void) { step_limit = UINT64_MAX; }
// 1: allow, 0: refuse
int simrt_on_alloc(uint64_t size) {
  if (!armed) return 1;
  point();
  nallocs++;
  steps += size / 16; // moving memory is work too
  moved += size;
  if (budget && live + (int64_t)size > budget) {
    if (shm && !shm->flag) { shm->flag = 1; shm->req = size; }
    return 0;
  }
  live += size;
  if (live > peak) peak = live;
  return 1;
}
// linked in place of these functions (--wrap), for the standard library's calls, too
#define COPY(name, ...) \
  extern void *__real_##name(void *, __VA_ARGS__, size_t) __attribute__((weak)); /* not in the relays */ \
  void *__wrap_##name(void *d, __VA_ARGS__ s, size_t n) { \
    if (n >= 1024 && armed) { steps += n / 16; moved += n; } \
    return __real_##name(d, s, n); \
  }
COPY(memcpy, const void *)
COPY(memmove, const void *)
COPY(memset, int)
extern int __real_memcmp(const void *, const void *, size_t) __attribute__((weak));
int __wrap_memcmp(const void *a, const void *b, size_t n) {
  if (n >= 1024 && armed) { steps += n / 16; moved += n; }
  return __real_memcmp(a, b, n);
}
void simrt_on_free(uint64_t size) {
  if (!armed) return;
  live -= size;
  point();
}

// ---------------------------------------------------------------- heap of a run
// Every run starts with an empty heap at a fixed address, so that addresses, too, depend on nothing but
// the run's choices.
#define ARENA ((char *)0x200000000000)
#define ARENA_SIZE (1ull << 38)
// two halves: the run's heap, and one for the text of traces, so that tracing moves nothing
static int arena_on, arena_half;
static struct { char *lo, *top; void *free_[64 * 4]; } ar[2];
static uint32_t arena_lock;
void simrt_arena_begin(void) {
  void *p = mmap(ARENA, ARENA_SIZE * 2, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)ARENA) return;
  for (int i = 0; i < 2; i++) ar[i].top = ar[i].lo = ARENA + i * ARENA_SIZE;
  arena_on = 1;
}
int simrt_arena_on(void) { return arena_on; }
void simrt_arena_half(int h) { arena_half = h; }
int simrt_arena_has(const void *p) { return arena_on && (char *)p >= ARENA && (char *)p < ARENA + 2 * ARENA_SIZE; }
// four classes per power of two; blocks of a class are at least 16-aligned, larger alignments get powers of two
static int aclass(size_t n, size_t align, size_t *size) {
  if (n < 16) n = 16;
  if (align > 16) { // a power of two, and aligned to it by the bump pointer
    size_t s = align > n ? align : n;
    int b = 64 - __builtin_clzll(s - 1);
    *size = 1ull << b;
    return b * 4;
  }
  int b = 63 - __builtin_clzll(n);
  size_t base = 1ull << b, q = base / 4;
  int k = n == base ? 0 : (int)((n - base + q - 1) / q);
  if (k == 4) { b++; base <<= 1; k = 0; q = base / 4; }
  *size = base + k * q;
  return b * 4 + k;
}
void *simrt_arena_alloc(size_t n, size_t align, int zero) {
  size_t sz;
  if (n > ARENA_SIZE / 2) return 0;
  int c = aclass(n, align, &sz), h = arena_half;
  size_t al = align > 16 ? sz : 16; // only powers of two are asked for beyond 16
  while (__atomic_exchange_n(&arena_lock, 1, __ATOMIC_ACQUIRE)) ;
  char *p = align > 16 ? 0 : ar[h].free_[c];
  if (p) {
    ar[h].free_[c] = *(void **)p;
    __atomic_store_n(&arena_lock, 0, __ATOMIC_RELEASE);
    if (zero) memset(p, 0, n);
    return p;
  }
  p = (char *)(((uintptr_t)ar[h].top + al - 1) & ~(uintptr_t)(al - 1));
  if (p + sz > ar[h].lo + ARENA_SIZE) p = 0; else ar[h].top = p + ((sz + 15) & ~(size_t)15);
  __atomic_store_n(&arena_lock, 0, __ATOMIC_RELEASE);
  return p;
}
void simrt_arena_free(void *p, size_t n, size_t align) {
  size_t sz;
  if (align > 16) return;
  int c = aclass(n, align, &sz), h = (char *)p >= ARENA + ARENA_SIZE;
  while (__atomic_exchange_n(&arena_lock, 1, __ATOMIC_ACQUIRE)) ;
  *(void **)p = ar[h].free_[c];
  ar[h].free_[c] = p;
  __atomic_store_n(&arena_lock, 0, __ATOMIC_RELEASE);
}

// ---------------------------------------------------------------- compiler instrumentation
static uint32_t nguards;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  if (a == b || *a) return;
  for (; a < b; a++) *a = ++nguards;
}
uint32_t simrt_nguards(void) { return nguards; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (!armed) return;
  if (shm && *g < SHM_EDGES) shm->edges[*g] = 1;
  point();
}
#define LS(k) \
  void __sanitizer_cov_load##k(void *p) { (void)p; point(); } \
  void __sanitizer_cov_store##k(void *p) { (void)p; point(); }
LS(1) LS(2) LS(4) LS(8) LS(16)

// ---------------------------------------------------------------- libc seams
void simrt_sim_begin(uint64_t seed) { entropy = seed; now_ns = 1700000000ull * 1000000000ull; sim_active = 1; }
void simrt_sim_end(void) { sim_active = 0; }
static uint64_t ent(void) {
  uint64_t z = (entropy += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static void ent_fill(void *b, size_t n) {
  uint8_t *p = b;
  while (n) { uint64_t v = ent(); size_t k = n < 8 ? n : 8; memcpy(p, &v, k); p += k; n -= k; }
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (sim_active) { ent_fill(b, n); return n; }
  long r = raw_syscall(SYS_getrandom, (long)b, n, f, 0, 0, 0);
  if (r < 0) { errno = -r; return -1; }
  return r;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  if (sim_active) { now_ns += 50; t->tv_sec = now_ns / 1000000000ull; t->tv_nsec = now_ns % 1000000000ull; return 0; }
  long r = raw_syscall(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0);
  if (r < 0) { errno = -r; return -1; }
  return 0;
}
int sched_yield(void) { if (sched_on && my_tid >= 0 && armed) fair(); point(); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) {
  (void)b;
  if (sim_active) { now_ns += a->tv_sec * 1000000000ull + a->tv_nsec; point(); return 0; }
  long r = raw_syscall(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0);
  if (r < 0) { errno = -r; return -1; }
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
  if (sim_active) { now_ns += a->tv_sec * 1000000000ull + a->tv_nsec; point(); return 0; }
  return -raw_syscall(SYS_clock_nanosleep, c, fl, (long)a, (long)b, 0, 0);
}
static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *to, uint32_t v3) {
  int cmd = op & 127;
  int me = my_tid;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (*addr != val) { errno = EAGAIN; return -1; }
    th[me].state = T_BLOCKED;
    th[me].addr = addr;
    th[me].bitset = cmd == FUTEX_WAIT ? ~0u : v3;
    th[me].timedout = 0;
    th[me].deadline = UINT64_MAX;
    if (to) {
      uint64_t d = (uint64_t)to->tv_sec * 1000000000ull + to->tv_nsec;
      th[me].deadline = cmd == FUTEX_WAIT ? now_ns + d : d;
    }
    block_here(me);
    if (th[me].timedout) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    long n = 0;
    for (int i = 0; i < nthreads && n < (long)val; i++)
      if (th[i].state == T_BLOCKED && th[i].addr == addr && (cmd == FUTEX_WAKE || (th[i].bitset & v3))) {
        th[i].state = T_READY;
        n++;
      }
    point();
    return n;
  }
  return 0;
}
long syscall(long nr, ...) {
  va_list ap;
  va_start(ap, nr);
  long a[6];
  for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  if (sched_on && my_tid >= 0) {
    if (nr == SYS_futex) return sim_futex((uint32_t *)a[0], (int)a[1], (uint32_t)a[2], (struct timespec *)a[3], (uint32_t)a[5]);
    if (nr == SYS_sched_yield) return sched_yield();
  }
  if (sim_active && nr == SYS_getrandom) { ent_fill((void *)a[0], a[1]); return a[1]; }
  long r = raw_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}

// ---------------------------------------------------------------- processes
int simrt_no_aslr(char **argv) { // re-exec with a fixed address layout; harmless if refused
  int p = personality(0xffffffff);
  if (p == -1 || (p & ADDR_NO_RANDOMIZE) || getenv("XSIM_NOASLR")) return 0;
  setenv("XSIM_NOASLR", "1", 1);
  if (personality(p | ADDR_NO_RANDOMIZE) == -1) return 0;
  execv("/proc/self/exe", argv);
  return -1;
}
int simrt_fork(void) { return fork(); }
void simrt_child_setup(int cpu_s, int quiet) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct rlimit c = {0, 0};
  setrlimit(RLIMIT_CORE, &c);
  if (cpu_s) {
    struct rlimit l = {cpu_s, cpu_s + 1};
    setrlimit(RLIMIT_CPU, &l);
  }
  if (quiet) {
    int n = open("/dev/null", O_RDWR);
    if (n >= 0) { dup2(n, 2); if (n > 2) close(n); }
  }
}
void simrt_limit_as(uint64_t bytes) {
  struct rlimit l = {bytes, bytes};
  setrlimit(RLIMIT_AS, &l);
}
void simrt_limit_stack(uint64_t bytes) {
  struct rlimit l = {bytes, bytes};
  setrlimit(RLIMIT_STACK, &l);
}
// >=0 exit code, <0 -signal
int simrt_wait(int pid) {
  int st;
  while (waitpid(pid, &st, 0) < 0)
    if (errno != EINTR) return -999;
  if (WIFEXITED(st)) return WEXITSTATUS(st);
  return -WTERMSIG(st);
}
int simrt_trywait(int pid, int *code) {
  int st;
  int r = waitpid(pid, &st, WNOHANG);
  if (r <= 0) return r;
  *code = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
  return 1;
}
void simrt_exit(int c) { _exit(c); }
void simrt_kill(int pid) { kill(pid, SIGKILL); }
uint64_t simrt_real_ns(void) {
  struct timespec t;
  raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t, 0, 0, 0, 0);
  return t.tv_sec * 1000000000ull + t.tv_nsec;
}
void simrt_usleep(unsigned us) {
  struct timespec t = {us / 1000000, (us % 1000000) * 1000};
  raw_syscall(SYS_nanosleep, (long)&t, 0, 0, 0, 0, 0);
}

// Run a program: argv/envp are NULL-terminated; stdout and stderr are captured (bounded).
// Returns exit code, -signal, or -1000 when it could not be started, -1001 on time-out.
int simrt_spawn(const char *path, char *const argv[], char *const envp[], const char *cwd, char *out, uint64_t outcap,
                uint64_t *outlen, char *err, uint64_t errcap, uint64_t *errlen, int cpu_s, int plan_fd) {
  int po[2], pe[2];
  *outlen = *errlen = 0;
  if (pipe2(po, O_CLOEXEC)) return -1000;
  if (pipe2(pe, O_CLOEXEC)) { close(po[0]); close(po[1]); return -1000; }
  int pid = fork();
  if (pid < 0) return -1000;
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit c = {0, 0};
    setrlimit(RLIMIT_CORE, &c);
    struct rlimit l = {cpu_s, cpu_s + 1};
    setrlimit(RLIMIT_CPU, &l);
    int n = open("/dev/null", O_RDONLY);
    dup2(n, 0);
    dup2(po[1], 1);
    dup2(pe[1], 2);
    if (plan_fd >= 0) dup2(plan_fd, 200);
    if (cwd && chdir(cwd)) _exit(127);
    execve(path, argv, envp);
    _exit(127);
  }
  close(po[1]);
  close(pe[1]);
  uint64_t t0 = simrt_real_ns();
  struct pollfd p[2] = {{po[0], POLLIN, 0}, {pe[0], POLLIN, 0}};
  int open_ = 2, timedout = 0;
  char sink[4096];
  while (open_ > 0) {
    int r = poll(p, 2, 500);
    if (r < 0 && errno != EINTR) break;
    if (simrt_real_ns() - t0 > 30ull * 1000000000ull) { kill(pid, SIGKILL); timedout = 1; break; }
    for (int i = 0; i < 2; i++) {
      if (p[i].fd < 0 || !p[i].revents) continue;
      char *b = i ? err : out;
      uint64_t *len = i ? errlen : outlen, cap = i ? errcap : outcap;
      ssize_t k = *len < cap ? read(p[i].fd, b + *len, cap - *len) : read(p[i].fd, sink, sizeof sink);
      if (k > 0) { if (*len < cap) *len += k; }
      else if (k == 0 || errno != EINTR) { close(p[i].fd); p[i].fd = -1; open_--; }
    }
  }
  for (int i = 0; i < 2; i++) if (p[i].fd >= 0) close(p[i].fd);
  int st = simrt_wait(pid);
  return timedout ? -1001 : st;
}
void *simrt_shared(uint64_t n) {
  void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return p == MAP_FAILED ? 0 : p;
}
void *simrt_reserve(uint64_t n) { // read-only zero pages
  void *p = mmap(0, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  return p == MAP_FAILED ? 0 : p;
}
int simrt_memfd(uint64_t n, void **p) { // a page shared with a child program
  int fd = memfd_create("plan", MFD_CLOEXEC);
  if (fd < 0 || ftruncate(fd, n)) return -1;
  *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  return *p == MAP_FAILED ? -1 : fd;
}
