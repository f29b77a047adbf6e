#include <stdint.h>
#define PLAN_FD 200
#define MAXRULES 64
#define MAXLOG 512
enum { C_OPEN, C_STAT, C_READ, C_WRITE, C_SEEK, C_ERRW, C_N };
enum { R_NONE, R_ERR, R_SHORT, R_SLOW, R_SIZE, R_ZERO, R_FIFO };
struct rule { uint32_t cls, kind, nth, count, arg, fired; };
struct plan {
  char path[256];
  uint32_t nrules, nlog;
  struct rule rules[MAXRULES];
  uint32_t calls[8];
  struct { int32_t cls, pad; int64_t arg, ret; } log[MAXLOG];
  uint64_t seed, clock_ns, cap, written, allocs, alloc_fail, alloc_fail_n, alloc_failed;
  uint32_t pid, heap_shift, map_shift, cap_errno, cap_fired, draws, clocks, vary, asked, threads;
  uint64_t kill_call, kill_alloc, calls_made, killed; // the process dies at its nth call or allocation
  uint32_t nmods, noutside; // changes to the file system: all, and those outside `root`
  char root[256], outside[256];
  uint32_t nmiss, pad2; // files the process looked for in vain
  char miss[4][256];
};
