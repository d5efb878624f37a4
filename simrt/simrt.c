// Deterministic simulation runtime: scheduler, tsan-pass hooks, libc interposition, simulated
// file system, clock, randomness and memory limit. Linked into the harness executable, so that its
// definitions take precedence over libc's for every reference made from Rust code (std included).
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include "simrt.h"

// ---------------------------------------------------------------- raw system calls
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
static inline long ret_errno(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// ---------------------------------------------------------------- state
enum { T_RUN = 0, T_FUTEX, T_SLEEP, T_JOIN, T_DONE };
typedef struct Th {
  int id, state, timed, wres, joinid, detached;
  pthread_t pt;
  uint32_t gate;
  uint32_t *waddr;
  uint32_t wmask;
  uint64_t deadline, waitseq;
  uint64_t prio;
  void *(*fn)(void *);
  void *arg;
  void *ret;
} Th;

#define MAXTH 2048
static struct {
  int active, nth, cur;
  Th *th[MAXTH];
  uint64_t steps, next_stop, max_steps, fair_after;
  uint64_t now_ns, waitseq;
  // strategy
  int strat; // 0 default, 1 random walk, 2 pct, 3 replay
  uint64_t rng, gap;
  uint64_t pct_pts[64]; int npct, ipct; uint64_t lowprio;
  // replay
  const SimOverride *ov; uint64_t nov, iov;
  SimShared *sh;
  // env
  int cpus; uint64_t rnd;
  uint64_t last_id_hash;
} S;
static int dying, my_pid; // real thread that has left the simulation and is being torn down
static __thread Th *self;
static pthread_key_t exit_key;
static int key_made;

static inline uint64_t rng_next(uint64_t *s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

static void die(int code, const char *msg) {
  // End of the run decided by the runtime (deadlock, livelock, internal error).
  if (S.sh) {
    S.sh->end_code = code;
    size_t n = strlen(msg);
    if (n > sizeof(S.sh->end_msg) - 1) n = sizeof(S.sh->end_msg) - 1;
    memcpy(S.sh->end_msg, msg, n);
    S.sh->end_msg[n] = 0;
    S.sh->steps = S.steps;
  }
  raw6(SYS_exit_group, 77, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}

// ---------------------------------------------------------------- parking
static void gate_open(Th *t) {
  __atomic_store_n(&t->gate, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)&t->gate, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void gate_wait(Th *t) {
  int spins = 0;
  while (!__atomic_load_n(&t->gate, __ATOMIC_ACQUIRE)) {
    if (++spins > 50)
      raw6(SYS_futex, (long)&t->gate, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    else
      __builtin_ia32_pause();
  }
  __atomic_store_n(&t->gate, 0, __ATOMIC_RELAXED);
  // Thread teardown (stack cache, allocator arenas) happens outside the simulation: let it finish first, so
  // that it never races with the next simulated thread.
  if (dying) {
    while (raw6(SYS_tgkill, my_pid, dying, 0, 0, 0, 0) == 0) raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    dying = 0;
  }
}

// ---------------------------------------------------------------- scheduling
static void mix_state(uint64_t a, uint64_t b) {
  S.last_id_hash = (S.last_id_hash ^ (a * 0x9E3779B97F4A7C15ull + b)) * 0xff51afd7ed558ccdull;
  S.last_id_hash ^= S.last_id_hash >> 32;
}
static void record(uint64_t what) {
  SimShared *sh = S.sh;
  if (sh->n_ov < SIM_MAX_OV) {
    sh->ov[sh->n_ov].step = S.steps;
    sh->ov[sh->n_ov].what = what;
    sh->n_ov++;
  } else
    sh->ov_overflow = 1;
}
static uint64_t geo(void) { // geometric gap with mean S.gap
  if (S.gap <= 1) return 1;
  // inverse transform without floating point library: sum of uniform approximations
  uint64_t u = rng_next(&S.rng);
  return 1 + u % (2 * S.gap - 1);
}
static void plan_next_stop(void) {
  uint64_t lim = S.max_steps;
  if (S.fair_after < lim && S.steps < S.fair_after) lim = S.fair_after;
  uint64_t n = lim;
  switch (S.strat) {
  case 1: n = S.steps + geo(); break;
  case 2: while (S.ipct < S.npct && S.pct_pts[S.ipct] <= S.steps) S.ipct++;
          if (S.ipct < S.npct) n = S.pct_pts[S.ipct];
          break;
  case 3: while (S.iov < S.nov && S.ov[S.iov].step <= S.steps) S.iov++;
          if (S.iov < S.nov) n = S.ov[S.iov].step;
          break;
  }
  S.next_stop = n < lim ? n : lim;
}
static int runnable(int i) { return S.th[i]->state == T_RUN; }
static int default_next(int cur) { // next runnable in cyclic order after cur; cur itself last
  for (int k = 1; k <= S.nth; k++) {
    int i = (cur + k) % S.nth;
    if (runnable(i)) return i;
  }
  return -1;
}
static int advance_time(void) { // nobody runnable: jump the clock to the earliest deadline
  Th *best = NULL;
  for (int i = 0; i < S.nth; i++) {
    Th *t = S.th[i];
    if ((t->state == T_FUTEX || t->state == T_SLEEP) && t->timed)
      if (!best || t->deadline < best->deadline) best = t;
  }
  if (!best) return 0;
  if (best->deadline > S.now_ns) S.now_ns = best->deadline;
  if (best->state == T_FUTEX) { best->wres = -ETIMEDOUT; best->waddr = NULL; }
  best->state = T_RUN;
  S.sh->timer_fires++;
  return 1;
}
static int random_runnable(int except) {
  int n = 0, pick = -1;
  for (int i = 0; i < S.nth; i++)
    if (i != except && runnable(i)) n++;
  if (!n) return -1;
  uint64_t r = rng_next(&S.rng) % n;
  for (int i = 0; i < S.nth; i++)
    if (i != except && runnable(i)) { if (r == 0) { pick = i; break; } r--; }
  return pick;
}
static int best_prio(void) {
  int b = -1;
  for (int i = 0; i < S.nth; i++)
    if (runnable(i) && (b < 0 || S.th[i]->prio > S.th[b]->prio)) b = i;
  return b;
}
static void go(int next) { // hand the token to `next`
  int me = S.cur;
  if (next == me) return;
  S.sh->switches++;
  mix_state(((uint64_t)me << 32) | (uint32_t)next, S.steps);
  S.cur = next;
  Th *t = S.th[me];
  if (t->state == T_DONE) dying = (int)raw6(SYS_gettid, 0, 0, 0, 0, 0, 0);
  gate_open(S.th[next]);
  if (t->state != T_DONE) gate_wait(t);
}
// kind: 0 involuntary (current stays runnable and is the default), 1 voluntary (yield),
// 2 current cannot run
static void decide(int kind) {
  int next = -1;
  while (default_next(S.cur) < 0)
    if (!advance_time()) {
      die(SIM_END_DEADLOCK, "deadlock: no runnable thread, no timer");
    }
  int dflt = kind == 0 ? S.cur : default_next(S.cur);
  int strat = S.strat;
  if (S.steps >= S.fair_after && strat != 3) strat = 1;
  switch (strat) {
  case 1:
    if (kind == 0) { next = random_runnable(-1); }
    else { next = random_runnable(S.cur); if (next < 0) next = S.cur; }
    break;
  case 2:
    if (kind == 0 || kind == 1) S.th[S.cur]->prio = S.lowprio--;
    next = best_prio();
    break;
  case 3:
    while (S.iov < S.nov && S.ov[S.iov].step < S.steps) S.iov++;
    if (S.iov < S.nov && S.ov[S.iov].step == S.steps) {
      uint64_t w = S.ov[S.iov++].what;
      if (w < (uint64_t)S.nth && runnable((int)w)) next = (int)w;
    }
    break;
  }
  if (next < 0) next = dflt;
  if (next != dflt) record((uint64_t)next);
  if (kind == 0 && next != S.cur) S.sh->preemptions++;
  go(next);
}
static __attribute__((noinline)) void slow_point(void) {
  if (S.steps >= S.max_steps) die(SIM_END_LIVELOCK, "step budget exhausted");
  if (S.steps == S.fair_after && S.strat != 3) { S.gap = 100; S.strat = 1; }
  decide(0);
  plan_next_stop();
}
static inline void point(void) {
  if (__builtin_expect(!self, 0)) return;
  if (__builtin_expect(++S.steps >= S.next_stop, 0)) slow_point();
}
void sim_point(void) { point(); }
static void vpoint(int kind) { // voluntary
  ++S.steps;
  if (S.steps >= S.max_steps) die(SIM_END_LIVELOCK, "step budget exhausted");
  decide(kind);
  plan_next_stop();
}
uint64_t sim_choose(uint64_t n) {
  if (!self || n <= 1) return 0;
  ++S.steps;
  uint64_t c = 0;
  if (S.strat == 3) {
    while (S.iov < S.nov && S.ov[S.iov].step < S.steps) S.iov++;
    if (S.iov < S.nov && S.ov[S.iov].step == S.steps) c = S.ov[S.iov++].what % n;
  } else if (S.strat != 0)
    c = rng_next(&S.rng) % n;
  if (c) record(c);
  plan_next_stop();
  return c;
}

static Th *new_thread(void) {
  if (S.nth >= MAXTH) die(SIM_END_INTERNAL, "too many threads");
  Th *t = calloc(1, sizeof *t);
  t->id = S.nth;
  t->prio = (rng_next(&S.rng) >> 16) + 1000000;
  S.th[S.nth++] = t;
  S.sh->threads = S.nth;
  return t;
}

static void thread_exit_hook(void *p) {
  Th *t = p;
  if (self != t || !S.active) return;
  t->state = T_DONE;
  for (int i = 0; i < S.nth; i++)
    if (S.th[i]->state == T_JOIN && S.th[i]->joinid == t->id) S.th[i]->state = T_RUN;
  ++S.steps;
  decide(2);
  self = NULL;
}

void sim_begin(const SimConfig *c, SimShared *sh, const SimOverride *ov, uint64_t nov) {
  if (!key_made) { pthread_key_create(&exit_key, thread_exit_hook); key_made = 1; }
  S.nth = 0;
  S.sh = sh;
  S.rng = c->sched_seed;
  S.strat = c->strategy;
  S.gap = c->gap ? c->gap : 1;
  S.cpus = c->cpus ? (int)c->cpus : 1;
  S.rnd = c->rnd_seed;
  S.max_steps = c->max_steps;
  S.fair_after = c->fair_after ? c->fair_after : ~0ull;
  S.ov = ov; S.nov = nov; S.iov = 0;
  S.now_ns = 1000000000ull;
  S.lowprio = 999999;
  S.npct = 0; S.ipct = 0;
  if (c->strategy == 2) {
    uint64_t d = c->pct_depth > 63 ? 63 : c->pct_depth;
    for (uint64_t i = 0; i < d; i++) S.pct_pts[S.npct++] = 1 + rng_next(&S.rng) % (c->pct_len + 1);
    for (int i = 0; i < S.npct; i++)
      for (int j = i + 1; j < S.npct; j++)
        if (S.pct_pts[j] < S.pct_pts[i]) { uint64_t x = S.pct_pts[i]; S.pct_pts[i] = S.pct_pts[j]; S.pct_pts[j] = x; }
  }
  my_pid = (int)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0);
  dying = 0;
  Th *t = new_thread();
  S.cur = 0;
  S.active = 1;
  S.steps = 0;
  self = t;
  plan_next_stop();
}
void sim_end(void) {
  if (S.sh) { S.sh->steps = S.steps; S.sh->state_hash = S.last_id_hash; S.sh->sim_ns = S.now_ns; }
  self = NULL;
  // other threads stay parked for ever; the process is about to exit
}
uint64_t sim_steps(void) { return S.steps; }
int sim_thread_id(void) { return self ? self->id : -1; }
int sim_in(void) { return self != NULL; }
uint64_t sim_now(void) { return S.now_ns + S.steps * 10; }
void sim_set_cpus(int n) { S.cpus = n; }
void sim_yield(void) { if (self) vpoint(1); }

// ---------------------------------------------------------------- tsan-pass hooks
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_atomic_thread_fence(int mo) { (void)mo; point(); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
#define OPS(N, T)                                                                                   \
  T __tsan_atomic##N##_load(const volatile T *a, int mo) { (void)mo; point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { (void)mo; point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) { (void)mo; point(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) { (void)mo; point(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) { (void)mo; point(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) { (void)mo; point(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) { (void)mo; point(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) { (void)mo; point(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) { (void)mo; point(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { (void)mo; (void)fmo; point(); \
    __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { (void)mo; (void)fmo; point(); \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { (void)mo; (void)fmo; point(); \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
OPS(8, uint8_t)
OPS(16, uint16_t)
OPS(32, uint32_t)
OPS(64, uint64_t)

// ---------------------------------------------------------------- futex, threads
static int futex_wait_sim(uint32_t *addr, uint32_t val, uint32_t mask, int timed, uint64_t deadline) {
  vpoint(1); // a switch point just before the kernel would compare
  if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
  Th *t = self;
  t->state = T_FUTEX;
  t->waddr = addr;
  t->wmask = mask;
  t->timed = timed;
  t->deadline = deadline;
  t->wres = 0;
  t->waitseq = S.waitseq++;
  vpoint(2);
  return t->wres;
}
static int futex_wake_sim(uint32_t *addr, uint32_t n, uint32_t mask) {
  int woken = 0;
  while (n > 0) {
    Th *w[MAXTH];
    int k = 0;
    for (int i = 0; i < S.nth; i++)
      if (S.th[i]->state == T_FUTEX && S.th[i]->waddr == addr && (S.th[i]->wmask & mask)) w[k++] = S.th[i];
    if (!k) break;
    for (int i = 1; i < k; i++) // FIFO order by wait time
      for (int j = i; j > 0 && w[j]->waitseq < w[j - 1]->waitseq; j--) { Th *x = w[j]; w[j] = w[j - 1]; w[j - 1] = x; }
    Th *t = w[sim_choose(k)];
    t->state = T_RUN;
    t->waddr = NULL;
    t->wres = 0;
    woken++;
    n--;
  }
  point();
  return woken;
}
static uint64_t ts_ns(const struct timespec *t) { return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; }

static long sim_statx(int dfd, const char *path, int flags, unsigned mask, struct statx *st, int *handled);

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long);
  long d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (self && n == SYS_futex) {
    int op = (int)b & FUTEX_CMD_MASK;
    const struct timespec *ts = (const struct timespec *)d;
    switch (op) {
    case FUTEX_WAIT:
      return ret_errno(futex_wait_sim((uint32_t *)a, (uint32_t)c, ~0u, ts != NULL, ts ? S.now_ns + ts_ns(ts) : 0));
    case FUTEX_WAIT_BITSET:
      return ret_errno(futex_wait_sim((uint32_t *)a, (uint32_t)c, (uint32_t)f, ts != NULL, ts ? ts_ns(ts) : 0));
    case FUTEX_WAKE: return futex_wake_sim((uint32_t *)a, (uint32_t)c, ~0u);
    case FUTEX_WAKE_BITSET: return futex_wake_sim((uint32_t *)a, (uint32_t)c, (uint32_t)f);
    default: die(SIM_END_INTERNAL, "unsupported futex operation");
    }
  }
  if (self && n == SYS_getrandom) return getrandom((void *)a, (size_t)b, (unsigned)c);
  if (self && n == SYS_sched_yield) return sched_yield();
  if (self && n == SYS_statx) {
    int handled = 0;
    long r = sim_statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e, &handled);
    if (handled) return r;
  }
  return ret_errno(raw6(n, a, b, c, d, e, f));
}

int sched_yield(void) {
  if (!self) return (int)ret_errno(raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
  vpoint(1);
  return 0;
}
static void sim_sleep_until(uint64_t dl) {
  Th *t = self;
  t->state = T_SLEEP;
  t->timed = 1;
  t->deadline = dl;
  vpoint(2);
}
int nanosleep(const struct timespec *r, struct timespec *rem) {
  if (!self) return (int)ret_errno(raw6(SYS_nanosleep, (long)r, (long)rem, 0, 0, 0, 0));
  sim_sleep_until(S.now_ns + ts_ns(r));
  return 0;
}
int clock_nanosleep(clockid_t clk, int flags, const struct timespec *r, struct timespec *rem) {
  if (!self) return (int)-raw6(SYS_clock_nanosleep, clk, flags, (long)r, (long)rem, 0, 0);
  sim_sleep_until((flags & TIMER_ABSTIME) ? ts_ns(r) : S.now_ns + ts_ns(r));
  return 0;
}
int clock_gettime(clockid_t clk, struct timespec *t) {
  if (!self) return (int)ret_errno(raw6(SYS_clock_gettime, clk, (long)t, 0, 0, 0, 0));
  uint64_t n = sim_now();
  t->tv_sec = n / 1000000000ull;
  t->tv_nsec = n % 1000000000ull;
  return 0;
}
ssize_t getrandom(void *buf, size_t len, unsigned flags) {
  if (!self) return ret_errno(raw6(SYS_getrandom, (long)buf, (long)len, flags, 0, 0, 0));
  uint8_t *p = buf;
  for (size_t i = 0; i < len; i++) p[i] = (uint8_t)(rng_next(&S.rnd) >> 24);
  S.sh->getrandom_calls++;
  return (ssize_t)len;
}
int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) {
  if (!self) return (int)ret_errno(raw6(SYS_sched_getaffinity, pid, (long)sz, (long)set, 0, 0, 0)) < 0 ? -1 : 0;
  memset(set, 0, sz);
  for (int i = 0; i < S.cpus && (size_t)i < sz * 8; i++) CPU_SET_S(i, sz, set);
  return 0;
}
static long (*real_sysconf)(int);
long sysconf(int name) {
  if (self && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return S.cpus;
  if (!real_sysconf) real_sysconf = dlsym(RTLD_NEXT, "sysconf");
  return real_sysconf(name);
}

static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_pthread_join)(pthread_t, void **);
static void *trampoline(void *p) {
  Th *t = p;
  self = t;
  pthread_setspecific(exit_key, t);
  gate_wait(t);
  return t->fn(t->arg);
}
int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!real_pthread_create) real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!self) return real_pthread_create(th, at, fn, arg);
  Th *t = new_thread();
  t->fn = fn;
  t->arg = arg;
  int r = real_pthread_create(&t->pt, at, trampoline, t);
  if (r) die(SIM_END_INTERNAL, "pthread_create failed");
  *th = t->pt;
  point();
  return 0;
}
int pthread_join(pthread_t th, void **ret) {
  if (!real_pthread_join) real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
  if (!self) return real_pthread_join(th, ret);
  for (int i = S.nth - 1; i >= 0; i--) // newest first: identifiers of detached threads are reused
    if (i != self->id && pthread_equal(S.th[i]->pt, th) && S.th[i]->fn && !S.th[i]->detached) {
      while (S.th[i]->state != T_DONE) {
        self->state = T_JOIN;
        self->joinid = i;
        vpoint(2);
      }
      S.th[i]->detached = 1;
      return real_pthread_join(th, ret); // it has finished in the simulation; it ends promptly
    }
  return real_pthread_join(th, ret);
}

// ---------------------------------------------------------------- simulated file system
#define PG 65536ull
typedef struct { char path[200]; int linked, refs; uint64_t size, npg; uint8_t **pg; } SFile;
typedef struct { int used; SFile *f; uint64_t pos; int flags; } SFd;
#define MAXF 256
#define MAXFD 1024
#define FDBASE 1000000
typedef struct { int op; SFile *f; uint64_t off, len; uint8_t *data; char p2[200]; } Mut;
typedef struct { SFile *f; uint8_t *d; uint64_t n; char path[200]; } Base;
static struct {
  SFile *files[MAXF]; int nf;
  SFd fd[MAXFD];
  uint64_t used, capacity;
  SimFault faults[SIM_MAX_FAULTS]; int nfaults;
  uint64_t wr_chunk, rd_chunk;
  int logging; Mut *log; uint64_t nlog, caplog;
  Base *bases; uint64_t nbases; // content each file had when logging began, kept at its first mutation
} F;

static int is_sim_path(const char *p) { return self && p && strncmp(p, "/simfs/", 7) == 0; }
static SFile *lookup(const char *p) {
  for (int i = 0; i < F.nf; i++)
    if (F.files[i]->linked && !strcmp(F.files[i]->path, p)) return F.files[i];
  return NULL;
}
static SFile *mkfile(const char *p) {
  SFile *f = calloc(1, sizeof *f);
  snprintf(f->path, sizeof f->path, "%s", p);
  f->linked = 1;
  for (int i = 0; i < F.nf; i++) // a deleted file's slot is free again (descriptors and the log keep the SFile)
    if (!F.files[i]->linked) { F.files[i] = f; return f; }
  if (F.nf >= MAXF) die(SIM_END_INTERNAL, "too many simulated files");
  F.files[F.nf++] = f;
  return f;
}
static void f_trunc(SFile *f, uint64_t n) {
  if (n < f->size) {
    uint64_t keep = (n + PG - 1) / PG;
    for (uint64_t i = keep; i < f->npg; i++) { free(f->pg[i]); f->pg[i] = NULL; }
    if (n % PG && n / PG < f->npg && f->pg[n / PG]) memset(f->pg[n / PG] + n % PG, 0, PG - n % PG);
    F.used -= f->size - n;
  } else
    F.used += n - f->size;
  f->size = n;
}
static int all_zero(const uint8_t *p, uint64_t n) {
  while (n && ((uintptr_t)p & 7)) { if (*p) return 0; p++; n--; }
  for (; n >= 8; n -= 8, p += 8) if (*(const uint64_t *)p) return 0;
  while (n--) if (*p++) return 0;
  return 1;
}
static void f_write(SFile *f, uint64_t off, const uint8_t *d, uint64_t n) {
  if (off + n > f->size) { F.used += off + n - f->size; f->size = off + n; }
  while (n) {
    uint64_t i = off / PG, o = off % PG, k = PG - o < n ? PG - o : n;
    if (i >= f->npg) {
      uint64_t nn = i + 1 + i / 2;
      f->pg = realloc(f->pg, nn * sizeof *f->pg);
      memset(f->pg + f->npg, 0, (nn - f->npg) * sizeof *f->pg);
      f->npg = nn;
    }
    if (!f->pg[i] && !all_zero(d, k)) f->pg[i] = calloc(1, PG);
    if (f->pg[i]) memcpy(f->pg[i] + o, d, k);
    off += k; d += k; n -= k;
  }
}
static uint64_t f_read(SFile *f, uint64_t off, uint8_t *d, uint64_t n) {
  if (off >= f->size) return 0;
  if (n > f->size - off) n = f->size - off;
  uint64_t r = n;
  while (n) {
    uint64_t i = off / PG, o = off % PG, k = PG - o < n ? PG - o : n;
    if (i < f->npg && f->pg[i]) memcpy(d, f->pg[i] + o, k);
    else memset(d, 0, k);
    off += k; d += k; n -= k;
  }
  return r;
}
// Call before the mutation is applied (CREATE: right after the file was made).
static void log_mut(int op, SFile *f, uint64_t off, uint64_t len, const uint8_t *d, const char *p2) {
  if (!F.logging) return;
  int seen = op == SIM_MUT_CREATE;
  for (uint64_t i = 0; i < F.nbases && !seen; i++) seen = F.bases[i].f == f;
  for (uint64_t i = 0; i < F.nlog && !seen; i++) seen = F.log[i].op == SIM_MUT_CREATE && F.log[i].f == f;
  if (!seen) {
    F.bases = realloc(F.bases, (F.nbases + 1) * sizeof *F.bases);
    Base *b = &F.bases[F.nbases++];
    b->f = f; b->n = f->size; b->d = malloc(f->size + 1);
    f_read(f, 0, b->d, f->size);
    snprintf(b->path, sizeof b->path, "%s", f->path);
  }
  if (F.nlog == F.caplog) { F.caplog = F.caplog ? F.caplog * 2 : 64; F.log = realloc(F.log, F.caplog * sizeof *F.log); }
  Mut *m = &F.log[F.nlog++];
  memset(m, 0, sizeof *m);
  m->op = op; m->f = f; m->off = off; m->len = len;
  if (d && len) { m->data = malloc(len); memcpy(m->data, d, len); }
  if (p2) snprintf(m->p2, sizeof m->p2, "%s", p2);
}
// Fault decision for operation kind `op`: 0 none, <0 = -errno, >0 = transfer at most that many bytes
static long fault(int op) {
  point();
  uint64_t k = S.sh->io[op]++;
  mix_state(0x10 + op, k);
  for (int i = 0; i < F.nfaults; i++) {
    SimFault *q = &F.faults[i];
    if ((int)q->op == op && k >= q->nth && k < q->nth + q->count) {
      S.sh->fired[i]++;
      S.sh->fired_total++;
      if (q->err == EINTR) S.sh->f_eintr++;
      else if (q->err) S.sh->f_err[op]++;
      else S.sh->f_short++;
      return q->err ? -(long)q->err : (long)q->arg;
    }
  }
  return 0;
}
static int newfd(SFile *f, int flags) {
  for (int i = 0; i < MAXFD; i++)
    if (!F.fd[i].used) {
      F.fd[i].used = 1; F.fd[i].f = f; F.fd[i].pos = 0; F.fd[i].flags = flags;
      f->refs++;
      return FDBASE + i;
    }
  errno = EMFILE;
  return -1;
}
static SFd *sfd(int fd) {
  if (fd < FDBASE || fd >= FDBASE + MAXFD || !F.fd[fd - FDBASE].used) return NULL;
  return &F.fd[fd - FDBASE];
}
static int sim_open(const char *path, int flags) {
  int wr = (flags & O_ACCMODE) != O_RDONLY;
  long e = fault(wr ? SIM_OP_OPENW : SIM_OP_OPENR);
  if (e < 0) { errno = (int)-e; return -1; }
  SFile *f = lookup(path);
  if (!f) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    f = mkfile(path);
    log_mut(SIM_MUT_CREATE, f, 0, 0, NULL, path);
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if ((flags & O_TRUNC) && wr) { log_mut(SIM_MUT_TRUNC, f, 0, 0, NULL, NULL); f_trunc(f, 0); }
  return newfd(f, flags);
}
static int open_any(const char *path, int flags, int mode) {
  if (is_sim_path(path)) return sim_open(path, flags);
  if (self && path && (!strncmp(path, "/proc/self/cgroup", 17) || !strncmp(path, "/sys/fs/cgroup", 14))) { errno = ENOENT; return -1; }
  return (int)ret_errno(raw6(SYS_openat, AT_FDCWD, (long)path, flags, mode, 0, 0));
}
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return open_any(p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return open_any(p, fl, m); }
int openat(int d, const char *p, int fl, ...) {
  va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a);
  if (is_sim_path(p)) return sim_open(p, fl);
  return (int)ret_errno(raw6(SYS_openat, d, (long)p, fl, m, 0, 0));
}
int openat64(int d, const char *p, int fl, ...) {
  va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a);
  if (is_sim_path(p)) return sim_open(p, fl);
  return (int)ret_errno(raw6(SYS_openat, d, (long)p, fl, m, 0, 0));
}
int close(int fd) {
  SFd *s = self ? sfd(fd) : NULL;
  if (!s) return (int)ret_errno(raw6(SYS_close, fd, 0, 0, 0, 0, 0));
  long e = fault(SIM_OP_CLOSE);
  s->used = 0;
  s->f->refs--;
  if (e < 0) { errno = (int)-e; return -1; }
  return 0;
}
static ssize_t sim_pwrite(SFd *s, const uint8_t *b, uint64_t n, uint64_t off) {
  if ((s->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  long e = fault(SIM_OP_WRITE);
  if (e < 0) { errno = (int)-e; return -1; }
  if (e > 0 && (uint64_t)e == SIM_ZERO) return 0;
  if (n > 0x7ffff000) n = 0x7ffff000;
  if (e > 0 && (uint64_t)e < n) n = (uint64_t)e;
  if (F.wr_chunk && n > F.wr_chunk) { n = F.wr_chunk; S.sh->f_short++; }
  if (n == 0) return 0;
  uint64_t grow = off + n > s->f->size ? off + n - s->f->size : 0;
  if (F.capacity && F.used + grow > F.capacity) {
    uint64_t room = F.capacity > F.used ? F.capacity - F.used : 0;
    uint64_t over = grow - room;
    if (over >= n) { S.sh->f_enospc++; errno = ENOSPC; return -1; }
    n -= over;
    S.sh->f_short++;
  }
  log_mut(SIM_MUT_WRITE, s->f, off, n, b, NULL);
  f_write(s->f, off, b, n);
  S.sh->bytes_written += n;
  return (ssize_t)n;
}
static ssize_t sim_pread(SFd *s, uint8_t *b, uint64_t n, uint64_t off) {
  long e = fault(SIM_OP_READ);
  if (e < 0) { errno = (int)-e; return -1; }
  if (e > 0 && (uint64_t)e == SIM_ZERO) return 0;
  if (e > 0 && (uint64_t)e < n) n = (uint64_t)e;
  if (F.rd_chunk && n > F.rd_chunk) { n = F.rd_chunk; S.sh->f_short++; }
  return (ssize_t)f_read(s->f, off, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
  SFd *s = self ? sfd(fd) : NULL;
  if (!s) return ret_errno(raw6(SYS_write, fd, (long)b, (long)n, 0, 0, 0));
  if (s->flags & O_APPEND) s->pos = s->f->size;
  ssize_t r = sim_pwrite(s, b, n, s->pos);
  if (r > 0) s->pos += (uint64_t)r;
  return r;
}
ssize_t read(int fd, void *b, size_t n) {
  SFd *s = self ? sfd(fd) : NULL;
  if (!s) return ret_errno(raw6(SYS_read, fd, (long)b, (long)n, 0, 0, 0));
  ssize_t r = sim_pread(s, b, n, s->pos);
  if (r > 0) s->pos += (uint64_t)r;
  return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t off) {
  SFd *s = self ? sfd(fd) : NULL;
  if (!s) return ret_errno(raw6(SYS_pwrite64, fd, (long)b, (long)n, off, 0, 0));
  return sim_pwrite(s, b, n, (uint64_t)off);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t off) {
  SFd *s = self ? sfd(fd) : NULL;
  if (!s) return ret_errno(raw6(SYS_pread64, fd, (long)b, (long)n, off, 0, 0));
  return sim_pread(s, b, n, (uint64_t)off);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t off) { return pwrite64(fd, b, n, off); }
ssize_t pread(int fd, void *b, size_t n, off_t off) { return pread64(fd, b, n, off); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  SFd *s = self ? sfd(fd) : NULL;
  if (!s) return ret_errno(raw6(SYS_writev, fd, (long)v, c, 0, 0, 0));
  ssize_t tot = 0;
  for (int i = 0; i < c; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return tot ? tot : r;
    tot += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return tot;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  SFd *s = self ? sfd(fd) : NULL;
  if (!s) return ret_errno(raw6(SYS_readv, fd, (long)v, c, 0, 0, 0));
  ssize_t tot = 0;
  for (int i = 0; i < c; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = read(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return tot ? tot : r;
    tot += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return tot;
}
off64_t lseek64(int fd, off64_t off, int wh) {
  SFd *s = self ? sfd(fd) : NULL;
  if (!s) return ret_errno(raw6(SYS_lseek, fd, off, wh, 0, 0, 0));
  long e = fault(SIM_OP_SEEK);
  if (e < 0) { errno = (int)-e; return -1; }
  int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)s->pos : (int64_t)s->f->size;
  if (base + off < 0) { errno = EINVAL; return -1; }
  s->pos = (uint64_t)(base + off);
  return (off64_t)s->pos;
}
off_t lseek(int fd, off_t off, int wh) { return lseek64(fd, off, wh); }
int ftruncate64(int fd, off64_t n) {
  SFd *s = self ? sfd(fd) : NULL;
  if (!s) return (int)ret_errno(raw6(SYS_ftruncate, fd, n, 0, 0, 0, 0));
  long e = fault(SIM_OP_TRUNC);
  if (e < 0) { errno = (int)-e; return -1; }
  log_mut(SIM_MUT_TRUNC, s->f, (uint64_t)n, 0, NULL, NULL);
  f_trunc(s->f, (uint64_t)n);
  return 0;
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int fallocate64(int fd, int mode, off64_t off, off64_t len) {
  SFd *s = self ? sfd(fd) : NULL;
  if (!s) return (int)ret_errno(raw6(SYS_fallocate, fd, mode, off, len, 0, 0));
  errno = EOPNOTSUPP;
  return -1;
}
int fsync(int fd) {
  SFd *s = self ? sfd(fd) : NULL;
  if (!s) return (int)ret_errno(raw6(SYS_fsync, fd, 0, 0, 0, 0, 0));
  long e = fault(SIM_OP_SYNC);
  if (e < 0) { errno = (int)-e; return -1; }
  return 0;
}
int fdatasync(int fd) {
  SFd *s = self ? sfd(fd) : NULL;
  if (!s) return (int)ret_errno(raw6(SYS_fdatasync, fd, 0, 0, 0, 0, 0));
  return fsync(fd);
}
int unlink(const char *p) {
  if (!is_sim_path(p)) return (int)ret_errno(raw6(SYS_unlink, (long)p, 0, 0, 0, 0, 0));
  long e = fault(SIM_OP_META);
  if (e < 0) { errno = (int)-e; return -1; }
  SFile *f = lookup(p);
  if (!f) { errno = ENOENT; return -1; }
  log_mut(SIM_MUT_UNLINK, f, 0, 0, NULL, NULL);
  f->linked = 0;
  return 0;
}
int rename(const char *a, const char *b) {
  if (!is_sim_path(a)) return (int)ret_errno(raw6(SYS_rename, (long)a, (long)b, 0, 0, 0, 0));
  long e = fault(SIM_OP_META);
  if (e < 0) { errno = (int)-e; return -1; }
  SFile *f = lookup(a), *g = lookup(b);
  if (!f) { errno = ENOENT; return -1; }
  if (g == f) return 0;
  log_mut(SIM_MUT_RENAME, f, 0, 0, NULL, b);
  if (g) g->linked = 0;
  snprintf(f->path, sizeof f->path, "%s", b);
  return 0;
}
static long sim_statx(int dfd, const char *path, int flags, unsigned mask, struct statx *st, int *handled) {
  (void)mask; (void)flags;
  SFile *f = NULL;
  if (path && path[0] == 0) { SFd *s = sfd(dfd); if (s) f = s->f; }
  else if (is_sim_path(path)) {
    *handled = 1;
    f = lookup(path);
    if (!f && strlen(path) <= 7) { memset(st, 0, sizeof *st); st->stx_mode = S_IFDIR | 0755; st->stx_mask = STATX_BASIC_STATS; return 0; }
    if (!f) { errno = ENOENT; return -1; }
  }
  if (!f) return 0;
  *handled = 1;
  long e = fault(SIM_OP_STAT);
  if (e < 0) { errno = (int)-e; return -1; }
  memset(st, 0, sizeof *st);
  st->stx_mask = STATX_BASIC_STATS;
  st->stx_mode = S_IFREG | 0644;
  st->stx_size = f->size;
  st->stx_nlink = 1;
  st->stx_blksize = 4096;
  st->stx_blocks = (f->size + 511) / 512;
  return 0;
}
int statx(int dfd, const char *path, int flags, unsigned mask, struct statx *st) {
  if (self) {
    int handled = 0;
    long r = sim_statx(dfd, path, flags, mask, st, &handled);
    if (handled) return (int)r;
  }
  return (int)ret_errno(raw6(SYS_statx, dfd, (long)path, flags, mask, (long)st, 0));
}
int fstat64(int fd, struct stat64 *b) {
  SFd *s = self ? sfd(fd) : NULL;
  if (!s) return (int)ret_errno(raw6(SYS_fstat, fd, (long)b, 0, 0, 0, 0));
  long e = fault(SIM_OP_STAT);
  if (e < 0) { errno = (int)-e; return -1; }
  memset(b, 0, sizeof *b);
  b->st_mode = S_IFREG | 0644;
  b->st_size = (off64_t)s->f->size;
  b->st_nlink = 1;
  b->st_blksize = 4096;
  return 0;
}
int fstat(int fd, struct stat *b) { return fstat64(fd, (struct stat64 *)b); }
int fcntl64(int fd, int cmd, ...) {
  va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a);
  if (self && sfd(fd)) return 0;
  return (int)ret_errno(raw6(SYS_fcntl, fd, cmd, x, 0, 0, 0));
}
int fcntl(int fd, int cmd, ...) {
  va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a);
  if (self && sfd(fd)) return 0;
  return (int)ret_errno(raw6(SYS_fcntl, fd, cmd, x, 0, 0, 0));
}
// Advice, locks and permissions: accepted, without effect, on simulated files.
int flock(int fd, int op) { return self && sfd(fd) ? 0 : (int)ret_errno(raw6(SYS_flock, fd, op, 0, 0, 0, 0)); }
int fchmod(int fd, mode_t m) { return self && sfd(fd) ? 0 : (int)ret_errno(raw6(SYS_fchmod, fd, m, 0, 0, 0, 0)); }
int posix_fadvise64(int fd, off64_t o, off64_t n, int a) { return self && sfd(fd) ? 0 : (int)-raw6(SYS_fadvise64, fd, o, n, a, 0, 0); }
int posix_fadvise(int fd, off_t o, off_t n, int a) { return posix_fadvise64(fd, o, n, a); }
void *mmap64(void *ad, size_t len, int prot, int fl, int fd, off64_t off) {
  SFd *s = self && fd >= FDBASE ? sfd(fd) : NULL;
  if (!s) {
    long r = raw6(SYS_mmap, (long)ad, (long)len, prot, fl, fd, off);
    if (r < 0 && r > -4096) { errno = (int)-r; return MAP_FAILED; }
    return (void *)r;
  }
  long e = fault(SIM_OP_MMAP);
  if (e < 0) { errno = (int)-e; return MAP_FAILED; }
  if (len == 0) { errno = EINVAL; return MAP_FAILED; }
  long r = raw6(SYS_mmap, 0, (long)len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (r < 0 && r > -4096) { errno = (int)-r; return MAP_FAILED; }
  SFile *f = s->f;
  for (uint64_t i = 0; i < f->npg; i++) {
    uint64_t o = i * PG;
    if (f->pg[i] && o < f->size && o >= (uint64_t)off && o - (uint64_t)off < len) {
      uint64_t d = o - (uint64_t)off, k = f->size - o < PG ? f->size - o : PG;
      if (k > len - d) k = len - d;
      memcpy((uint8_t *)r + d, f->pg[i], k);
    }
  }
  // pages wholly beyond the end of the file fault, as with a real mapping
  uint64_t end = f->size > (uint64_t)off ? ((f->size - (uint64_t)off + 4095) & ~4095ull) : 0;
  uint64_t maplen = (len + 4095) & ~4095ull;
  raw6(SYS_mprotect, r, (long)maplen, PROT_READ, 0, 0, 0);
  if (end < maplen) raw6(SYS_mprotect, r + (long)end, (long)(maplen - end), PROT_NONE, 0, 0, 0);
  S.sh->mmaps++;
  return (void *)r;
}
void *mmap(void *ad, size_t len, int prot, int fl, int fd, off_t off) { return mmap64(ad, len, prot, fl, fd, off); }

// ---- harness access to the simulated file system (no faults, no scheduling)
int sim_fs_put(const char *p, const uint8_t *d, uint64_t n) {
  SFile *f = lookup(p);
  if (!f) f = mkfile(p);
  f_trunc(f, 0);
  f_write(f, 0, d, n);
  return 0;
}
int64_t sim_fs_size(const char *p) { SFile *f = lookup(p); return f ? (int64_t)f->size : -1; }
int64_t sim_fs_get(const char *p, uint64_t off, uint8_t *d, uint64_t n) {
  SFile *f = lookup(p);
  return f ? (int64_t)f_read(f, off, d, n) : -1;
}
int sim_fs_del(const char *p) { SFile *f = lookup(p); if (!f) return -1; f->linked = 0; f_trunc(f, 0); return 0; }
int sim_fs_list(int i, char *out, int cap) {
  int k = 0;
  for (int j = 0; j < F.nf; j++)
    if (F.files[j]->linked && k++ == i) { snprintf(out, cap, "%s", F.files[j]->path); return 0; }
  return -1;
}
void sim_fs_truncate(const char *p, uint64_t n) { SFile *f = lookup(p); if (f) f_trunc(f, n); }
int sim_open_fds(void) { int n = 0; for (int i = 0; i < MAXFD; i++) n += F.fd[i].used; return n; }
void sim_fs_capacity(uint64_t c) { F.capacity = c; }
uint64_t sim_fs_used(void) { return F.used; }
void sim_fs_chunks(uint64_t wr, uint64_t rd) { F.wr_chunk = wr; F.rd_chunk = rd; }
void sim_faults_clear(void) { F.nfaults = 0; }
int sim_fault_add(const SimFault *q) { if (F.nfaults >= SIM_MAX_FAULTS) return -1; F.faults[F.nfaults] = *q; F.faults[F.nfaults].nth += S.sh->io[q->op]; return F.nfaults++; }
uint64_t sim_io_count(int op) { return S.sh->io[op]; }
void sim_log(int on) {
  F.logging = on;
  if (!on) return;
  F.nlog = 0;
  for (uint64_t i = 0; i < F.nbases; i++) free(F.bases[i].d);
  F.nbases = 0;
}
uint64_t sim_log_len(void) { return F.nlog; }
int sim_log_get(uint64_t i, uint64_t *off, uint64_t *len, char *path, int cap) {
  Mut *m = &F.log[i];
  *off = m->off; *len = m->len;
  snprintf(path, cap, "%s", m->f->path);
  return m->op;
}
// Rebuild the content that file `path` (at the end of the log) had after the first k mutations plus `torn`
// bytes of mutation k. base/nbase: content when logging began (base NULL: absent). Returns size or -1 (absent).
typedef struct { SFile *f; uint8_t *d; uint64_t n, cap; char p[200]; int gone; } V;
static void v_size(V *v, uint64_t n) {
  if (n > v->cap) { v->cap = n + n / 2 + 64; v->d = realloc(v->d, v->cap); }
  if (n > v->n) memset(v->d + v->n, 0, n - v->n);
  v->n = n;
}
int64_t sim_log_image(const char *path, const uint8_t *base, int64_t nbase, uint64_t k, uint64_t torn, uint8_t *out, uint64_t cap) {
  V *v = calloc(MAXF + 1, sizeof(V));
  int nv = 0, have = 0;
  for (uint64_t i = 0; i < F.nbases && nv < MAXF; i++) {
    V *x = &v[nv++];
    x->f = F.bases[i].f;
    snprintf(x->p, sizeof x->p, "%s", F.bases[i].path);
    v_size(x, F.bases[i].n);
    memcpy(x->d, F.bases[i].d, F.bases[i].n);
    have |= !strcmp(x->p, path);
  }
  if (!have && nbase >= 0) { // a file at `path` that no mutation touched (it can still be renamed over)
    V *x = &v[nv++];
    snprintf(x->p, sizeof x->p, "%s", path);
    v_size(x, (uint64_t)nbase);
    memcpy(x->d, base, (uint64_t)nbase);
  }
  for (uint64_t i = 0; i < F.nlog && i <= k; i++) {
    Mut *m = &F.log[i];
    uint64_t len = m->len;
    if (i == k) { if (m->op != SIM_MUT_WRITE || !torn) break; len = torn < len ? torn : len; }
    V *x = NULL;
    for (int j = 0; j < nv; j++) if (v[j].f == m->f) x = &v[j];
    if (!x) {
      if (m->op != SIM_MUT_CREATE || nv >= MAXF) die(SIM_END_INTERNAL, "mutation log without its file");
      x = &v[nv++];
      x->f = m->f;
    }
    switch (m->op) {
    case SIM_MUT_CREATE: snprintf(x->p, sizeof x->p, "%s", m->p2); break;
    case SIM_MUT_TRUNC: v_size(x, m->off); break;
    case SIM_MUT_WRITE:
      if (m->off + len > x->n) v_size(x, m->off + len);
      memcpy(x->d + m->off, m->data, len);
      break;
    case SIM_MUT_UNLINK: x->gone = 1; break;
    case SIM_MUT_RENAME:
      for (int j = 0; j < nv; j++) if (&v[j] != x && !strcmp(v[j].p, m->p2)) v[j].gone = 1;
      snprintf(x->p, sizeof x->p, "%s", m->p2);
      break;
    }
  }
  int64_t r = -1;
  for (int j = 0; j < nv; j++)
    if (!v[j].gone && !strcmp(v[j].p, path)) {
      r = (int64_t)v[j].n;
      if (v[j].n <= cap) memcpy(out, v[j].d, v[j].n);
    }
  for (int j = 0; j < nv; j++) free(v[j].d);
  free(v);
  return r;
}

// ---------------------------------------------------------------- memory limit
static int64_t mem_live, mem_peak, mem_cap = INT64_MAX;
static uint64_t mem_refused, mem_biggest;
static uint64_t mem_refuse_size;
static void (*mem_refuse_cb)(uint64_t);
void sim_mem_on_refuse(void (*cb)(uint64_t)) { mem_refuse_cb = cb; }
/* Memory content never depends on the real allocator: fresh memory is filled with a pattern (an object read
   before it is written shows it), freed memory is overwritten. */
#define POISON_MAX (256 * 1024)
void *sim_alloc(size_t n, size_t al, int zero) {
  int64_t l = __atomic_add_fetch(&mem_live, (int64_t)n, __ATOMIC_RELAXED);
  if (self) {
    if (n > mem_biggest) mem_biggest = n;
    // Once something was refused, small blocks come from a reserve: what runs then is the program's own
    // out-of-memory path (message, backtrace), which would otherwise recurse into the limit.
    int64_t limit = mem_refused && n <= 65536 && mem_cap < INT64_MAX / 2 ? mem_cap + (4 << 20) : mem_cap;
    if (l > limit || n > (1ull << 38)) { // no machine of this simulation has 256 GiB
      __atomic_sub_fetch(&mem_live, (int64_t)n, __ATOMIC_RELAXED);
      mem_refused++;
      mem_refuse_size = n;
      S.sh->mem_refused++;
      S.sh->mem_refuse_size = n;
      if (mem_refuse_cb) {
        // what the callback keeps (symbol tables for its backtrace) is not the program's
        int64_t c = mem_cap, was = mem_live, pk = mem_peak;
        mem_cap = INT64_MAX;
        mem_refuse_cb(n);
        mem_cap = c < INT64_MAX / 2 ? c + (mem_live - was) : c;
        mem_peak = pk;
      }
      return NULL;
    }
    if (l > mem_peak) mem_peak = l;
  }
  void *p;
  if (al <= 16) p = zero ? calloc(1, n) : malloc(n);
  else {
    if (posix_memalign(&p, al, n)) p = NULL;
    else if (zero) memset(p, 0, n);
  }
  if (!p) __atomic_sub_fetch(&mem_live, (int64_t)n, __ATOMIC_RELAXED);
  else if (!zero && self) memset(p, 0xA5, n < POISON_MAX ? n : POISON_MAX);
  return p;
}
void sim_free(void *p, size_t n) {
  __atomic_sub_fetch(&mem_live, (int64_t)n, __ATOMIC_RELAXED);
  if (self) memset(p, 0x5A, n < POISON_MAX ? n : POISON_MAX);
  free(p);
}
void sim_mem_cap(int64_t extra) { mem_cap = extra < 0 ? INT64_MAX : mem_live + extra; }
int64_t sim_mem_live(void) { return mem_live; }
int64_t sim_mem_peak(void) { return mem_peak; }
void sim_mem_reset_peak(void) { mem_peak = mem_live; mem_refused = 0; mem_biggest = 0; }
uint64_t sim_mem_refused(void) { return mem_refused; }
