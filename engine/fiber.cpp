#include "fiber.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <unistd.h>

using pbt::Src;

extern "C" {
extern char __data_start[], _end[];
void fib_switch(void **save, void *to);
}
asm(R"(
.text
.globl fib_switch
.type fib_switch,@function
fib_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size fib_switch,.-fib_switch
)");

namespace fib {

static const size_t STACK = 256 * 1024;
static const unsigned MAXF = 16;

enum St { RUN, TIMED, COND, JOIN, MUTEX, DONE };
struct F {
  void *sp;
  char *stack;
  std::function<void()> fn;
  St st;
  int64_t until;         // TIMED / COND with timeout
  bool timeout;          // COND has a timeout
  const void *on;        // cond, mutex
  int join;              // JOIN: whom
  bool timed_out;        // why COND ended
  int64_t late;          // becomes runnable only after this (stall)
  void *ret;
  void *(*start)(void *);
  void *arg;
  bool detached;
};
static F f[MAXF];
static char *stacks[MAXF];
static unsigned nf;
static int cur = -1;
static void *main_sp;
static Src *src;
static uint64_t npoints, nswitch, limit_points;
static int64_t gap;
static unsigned budget, gapmax;
static bool running;
static unsigned since_switch;
bool armed;
int64_t now_ns, clock_tick = 1;
uint64_t clock_reads;
clockid_t clock_last_id;
unsigned spurious_num, spurious_den = 1;
uint64_t spurious, threads_created;
Created created[MAXF];
int64_t idle_limit_ns = INT64_MAX;
int64_t stall_max_ns;
unsigned stall_den;
int64_t stalled[MAXF];
bool preempt = true;
bool once;
int hold;
unsigned hold_after;
static bool held;
static std::map<const void *, int> mutex_owner;
static std::map<const void *, clockid_t> conds;
// CLOCK_MONOTONIC counts from another origin
static const int64_t MONO = 77777777777ll;

struct Range {
  uintptr_t a, b;
};
static Range ranges[64];
static unsigned nranges;

void share(const void *p, size_t n) {
  if (nranges < 64)
    ranges[nranges++] = {(uintptr_t)p, (uintptr_t)p + n};
}
bool in_fiber() { return cur >= 0; }
int self() { return cur; }
uint64_t points() { return npoints; }
uint64_t switches() { return nswitch; }

static void draw_gap() {
  if (budget == 0 || !preempt) {
    gap = INT64_MAX;
    return;
  }
  budget--;
  if (!src->chance(63, 64)) { // shrinks to: no more preemptions
    gap = INT64_MAX;
    budget = 0;
    return;
  }
  gap = 1 + (int64_t)src->below(gapmax);
}

static void entry() {
  F &me = f[cur];
  if (me.start)
    me.ret = me.start(me.arg);
  else
    me.fn();
  f[cur].st = DONE;
  // wake joiners
  for (unsigned i = 0; i < nf; i++)
    if (f[i].st == JOIN && f[i].join == cur)
      f[i].st = RUN;
  yield();
  abort();
}

static int spawn(std::function<void()> fn, void *(*start)(void *), void *arg) {
  if (nf >= MAXF)
    pbt::fail("harness: too many fibers");
  unsigned i = nf++;
  if (!stacks[i])
    stacks[i] = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE,
                             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  F &x = f[i];
  x.stack = stacks[i];
  x.fn = std::move(fn);
  x.start = start;
  x.arg = arg;
  x.ret = nullptr;
  x.st = RUN;
  x.late = 0;
  x.detached = false;
  uintptr_t top = ((uintptr_t)x.stack + STACK) & ~(uintptr_t)63;
  void **sp = (void **)top;
  *--sp = nullptr;          // alignment: entry sees rsp = 16n + 8
  *--sp = (void *)entry;
  for (int k = 0; k < 6; k++)
    *--sp = nullptr;
  x.sp = sp;
  return (int)i;
}

static unsigned spins; // yields of the running thread while all others sleep
static void go(int to) {
  int from = cur;
  if (to == from)
    return;
  cur = to;
  since_switch = 0;
  spins = 0;
  fib_switch(from >= 0 ? &f[from].sp : &main_sp, f[to].sp);
}

// is fiber i able to run now?
static bool ready(unsigned i) {
  F &x = f[i];
  if (held && (int)i == hold)
    for (unsigned k = 0; k < nf; k++)
      if (k != i && f[k].st != DONE)
        return false;
  if (x.st == RUN)
    return true;
  if (x.st == TIMED && now_ns >= x.until) {
    x.st = RUN;
    return true;
  }
  if (x.st == COND && x.timeout && now_ns >= x.until) {
    x.st = RUN;
    x.timed_out = true;
    return true;
  }
  return false;
}

// the next fiber after `from` that can run; advances virtual time if none can
static int pick_next(int from, bool drawn) {
  for (;;) {
    unsigned r[MAXF], n = 0;
    for (unsigned k = 1; k <= nf; k++) {
      unsigned i = (unsigned)((from < 0 ? -1 : from) + (int)k + (int)nf) % nf;
      if ((int)i != from && ready(i))
        r[n++] = i;
    }
    if (from >= 0 && n == 0 && ready((unsigned)from))
      return from;
    if (n) {
      if (drawn && n > 1)
        return (int)r[src->below(n)];
      return (int)r[0];
    }
    // nobody can run: advance the clock to the next deadline
    int64_t next = INT64_MAX;
    bool alive = false;
    for (unsigned i = 0; i < nf; i++) {
      if (f[i].st == DONE)
        continue;
      alive = true;
      if (f[i].st == TIMED || (f[i].st == COND && f[i].timeout))
        if (f[i].until < next)
          next = f[i].until;
    }
    if (!alive)
      return -1;
    if (next == INT64_MAX)
      pbt::fail("every thread is blocked for ever");
    if (next > now_ns)
      now_ns = next;
    if (now_ns > idle_limit_ns)
      pbt::fail("a thread is still not done at virtual time %lld ns: it never stops",
                (long long)now_ns);
  }
}

static void switch_from_current(bool drawn) {
  int to = pick_next(cur, drawn);
  if (to == cur)
    return;
  if (to < 0) {
    // all done: back to main
    int from = cur;
    cur = -1;
    fib_switch(&f[from].sp, main_sp);
    return;
  }
  go(to);
}

static bool ready(unsigned i);
void yield() {
  if (cur < 0)
    return;
  if (++npoints > limit_points)
    pbt::fail("no progress: %llu scheduling points without all threads finishing",
              (unsigned long long)npoints);
  if (stall_max_ns > 0 && f[cur].st == RUN) {
    // yielding while all others sleep: nothing changes before a deadline
    int64_t next = INT64_MAX;
    bool other = false;
    for (unsigned i = 0; i < nf; i++)
      if ((int)i != cur) {
        other |= ready(i);
        if ((f[i].st == TIMED || (f[i].st == COND && f[i].timeout)) && f[i].until < next)
          next = f[i].until;
      }
    // (a single yield takes no time; only a thread that keeps at it is waiting)
    if (!other && next != INT64_MAX && next > now_ns && ++spins > 20)
      now_ns = next;
  }
  switch_from_current(false);
}

void point() {
  if (cur < 0 || !running)
    return;
  if (++npoints > limit_points)
    pbt::fail("no progress: %llu scheduling points without all threads finishing",
              (unsigned long long)npoints);
  if (cur == hold && !held && hold_after-- == 0) {
    held = true;
    SAY("  [point %llu: thread %d is stopped]\n", (unsigned long long)npoints, cur);
    switch_from_current(true);
    return;
  }
  if (++since_switch > 3000 && !once) { // fairness once no preemption is drawn any more
    since_switch = 0;
    switch_from_current(false);
    return;
  }
  if (--gap > 0)
    return;
  unsigned before = (unsigned)cur;
  if (stall_max_ns > 0 && stall_den && src->chance(1, stall_den)) {
    // kept off the processor for a while
    int64_t d = 1 + (int64_t)src->below((uint64_t)stall_max_ns);
    SAY("  [point %llu: thread %u stalled for %lld ns]\n", (unsigned long long)npoints, before,
        (long long)d);
    stalled[before] += d;
    nswitch++;
    draw_gap();
    f[before].st = TIMED;
    f[before].until = now_ns + d;
    switch_from_current(true);
    return;
  }
  int to = pick_next(cur, true);
  draw_gap();
  if (to >= 0 && (unsigned)to != before) {
    nswitch++;
    SAY("  [point %llu: thread %u preempted, %d runs]\n", (unsigned long long)npoints,
        before, to);
    go(to);
  }
}

static int64_t to_clock(clockid_t id) {
  return id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME ? now_ns + MONO
                                                                                   : now_ns;
}
static int64_t from_clock(clockid_t id, const struct timespec *t) {
  int64_t v = (int64_t)t->tv_sec * 1000000000 + t->tv_nsec;
  return id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME ? v - MONO : v;
}
static void put(struct timespec *ts, int64_t v) {
  ts->tv_sec = v / 1000000000;
  ts->tv_nsec = v % 1000000000;
}

void sleep_until(int64_t ns) {
  if (cur < 0) {
    if (ns > now_ns)
      now_ns = ns;
    return;
  }
  if (ns <= now_ns) {
    yield();
    return;
  }
  f[cur].st = TIMED;
  f[cur].until = ns;
  if (++npoints > limit_points)
    pbt::fail("no progress: %llu scheduling points without all threads finishing",
              (unsigned long long)npoints);
  switch_from_current(true);
}

void reset(Src &g) {
  spins = 0;
  src = &g;
  nf = 0;
  cur = -1;
  nranges = 0;
  npoints = nswitch = 0;
  since_switch = 0;
  running = false;
  now_ns = 1000;
  clock_tick = 1;
  clock_reads = 0;
  spurious = 0;
  threads_created = 0;
  mutex_owner.clear();
  idle_limit_ns = INT64_MAX;
  preempt = true;
  once = false;
  hold = -1;
  held = false;
  spurious_num = 0;
  spurious_den = 1;
  stall_max_ns = 0;
  stall_den = 0;
  memset(stalled, 0, sizeof stalled);
  conds.clear();
  watch(nullptr, 0);
}

void run(Src &g, std::vector<std::function<void()>> fs, uint64_t max_points) {
  src = &g;
  limit_points = max_points;
  npoints = nswitch = 0;
  for (auto &x : fs)
    spawn(x, nullptr, nullptr);
  // two ways to preempt: often and everywhere, or a few times anywhere
  switch (g.weighted({3, 3, 2, 2})) {
  case 0: gapmax = 60; budget = 12; break;
  case 1: gapmax = 250; budget = 6; break;
  case 2: gapmax = 10; budget = 150; break;
  default: gapmax = 3; budget = 300; break;
  }
  if (once) {
    gapmax = 60;
    budget = 1;
  }
  running = true;
  draw_gap();
  int to = pick_next(-1, !once);
  if (to >= 0) {
    cur = to;
    fib_switch(&main_sp, f[to].sp);
  }
  running = false;
  cur = -1;
  for (unsigned i = 0; i < nf; i++)
    f[i].fn = nullptr;
  nf = 0;
}

static bool mute;
bool loud() { return mute = pbt::verbose; }
void hush() { mute = false; }

static inline void access(const void *p) {
  if (!running || cur < 0 || mute)
    return;
  uintptr_t a = (uintptr_t)p;
  for (unsigned i = 0; i < nranges; i++)
    if (a >= ranges[i].a && a < ranges[i].b) {
      point();
      return;
    }
  if (a >= (uintptr_t)__data_start && a < (uintptr_t)_end)
    point();
}
} // namespace fib

// ---- the instrumentation's runtime ---------------------------------------------
using fib::access;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(n)                                                                  \
  void __tsan_read##n(void *p) { access(p); }                                  \
  void __tsan_write##n(void *p) { access(p); }                                 \
  void __tsan_unaligned_read##n(void *p) { access(p); }                        \
  void __tsan_unaligned_write##n(void *p) { access(p); }                       \
  void __tsan_volatile_read##n(void *p) { access(p); }                         \
  void __tsan_volatile_write##n(void *p) { access(p); }                        \
  void __tsan_unaligned_volatile_read##n(void *p) { access(p); }               \
  void __tsan_unaligned_volatile_write##n(void *p) { access(p); }              \
  void __tsan_read_write##n(void *p) { access(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long) { access(p); }
void __tsan_write_range(void *p, unsigned long) { access(p); }
void __tsan_vptr_update(void **p, void *) { access(p); }
void __tsan_vptr_read(void **p) { access(p); }
void __tsan_atomic_thread_fence(int) { fib::point(); }
void __tsan_atomic_signal_fence(int) {}
}
// the watched object: how often it was replaced, and each thread's view of that
namespace fib {
uint64_t unnoticed;
static const volatile void *watched; // the first one that is compared and exchanged
static uintptr_t watch_a, watch_b;
static uint64_t replaced, viewed[MAXF];
void watch(const void *p, size_t n) {
  watched = nullptr;
  watch_a = (uintptr_t)p;
  watch_b = watch_a + n;
  replaced = unnoticed = 0;
  memset(viewed, 0, sizeof viewed);
}
static inline void looks(const volatile void *p) {
  if (p == watched && cur >= 0)
    viewed[cur] = replaced;
}
static inline void replaces(const volatile void *p, bool compared) {
  if (!watched && compared && (uintptr_t)p >= watch_a && (uintptr_t)p < watch_b)
    watched = p;
  if (p != watched || cur < 0)
    return;
  if (compared && viewed[cur] != replaced)
    unnoticed++;
  viewed[cur] = ++replaced;
}
} // namespace fib
using fib::looks;
using fib::replaces;
typedef unsigned char a8;
typedef unsigned short a16;
typedef unsigned int a32;
typedef unsigned long a64;
typedef unsigned __int128 a128;
#define AT(N)                                                                  \
  extern "C" a##N __tsan_atomic##N##_load(const volatile a##N *p, int) {       \
    access((void *)p);                                                         \
    looks(p);                                                                  \
    return *p;                                                                 \
  }                                                                            \
  extern "C" void __tsan_atomic##N##_store(volatile a##N *p, a##N v, int) {    \
    access((void *)p);                                                         \
    replaces(p, false);                                                        \
    *p = v;                                                                    \
  }                                                                            \
  extern "C" a##N __tsan_atomic##N##_exchange(volatile a##N *p, a##N v, int) { \
    access((void *)p);                                                         \
    a##N o = *p;                                                               \
    *p = v;                                                                    \
    return o;                                                                  \
  }                                                                            \
  extern "C" int __tsan_atomic##N##_compare_exchange_strong(                   \
      volatile a##N *p, a##N *e, a##N v, int, int) {                           \
    access((void *)p);                                                         \
    if (*p == *e) {                                                            \
      replaces(p, true);                                                       \
      *p = v;                                                                  \
      return 1;                                                                \
    }                                                                          \
    looks(p);                                                                  \
    *e = *p;                                                                   \
    return 0;                                                                  \
  }                                                                            \
  extern "C" int __tsan_atomic##N##_compare_exchange_weak(                     \
      volatile a##N *p, a##N *e, a##N v, int x, int y) {                       \
    return __tsan_atomic##N##_compare_exchange_strong(p, e, v, x, y);          \
  }                                                                            \
  extern "C" a##N __tsan_atomic##N##_compare_exchange_val(                     \
      volatile a##N *p, a##N e, a##N v, int, int) {                            \
    access((void *)p);                                                         \
    a##N o = *p;                                                               \
    if (o == e)                                                                \
      *p = v;                                                                  \
    return o;                                                                  \
  }
#define ATF(N, name, expr)                                                     \
  extern "C" a##N __tsan_atomic##N##_fetch_##name(volatile a##N *p, a##N v,    \
                                                  int) {                       \
    access((void *)p);                                                         \
    a##N o = *p;                                                               \
    *p = (a##N)(expr);                                                         \
    return o;                                                                  \
  }
#define ATS(N)                                                                 \
  AT(N)                                                                        \
  ATF(N, add, o + v)                                                           \
  ATF(N, sub, o - v)                                                           \
  ATF(N, and, o &v) ATF(N, or, o | v) ATF(N, xor, o ^ v) ATF(N, nand, ~(o & v))
ATS(8) ATS(16) ATS(32) ATS(64) ATS(128)

// what the compiler leaves to libatomic
extern "C" {
a128 fibx_load_16(const volatile void *p, int) asm("__atomic_load_16");
a128 fibx_load_16(const volatile void *p, int) {
  access((void *)p);
  return *(const volatile a128 *)p;
}
void fibx_store_16(volatile void *p, a128 v, int) asm("__atomic_store_16");
void fibx_store_16(volatile void *p, a128 v, int) {
  access((void *)p);
  *(volatile a128 *)p = v;
}
a128 fibx_exchange_16(volatile void *p, a128 v, int) asm("__atomic_exchange_16");
a128 fibx_exchange_16(volatile void *p, a128 v, int) {
  access((void *)p);
  a128 o = *(volatile a128 *)p;
  *(volatile a128 *)p = v;
  return o;
}
bool fibx_compare_exchange_16(volatile void *p, void *e, a128 v, int, int) asm("__atomic_compare_exchange_16");
bool fibx_compare_exchange_16(volatile void *p, void *e, a128 v, int, int) {
  access((void *)p);
  if (!memcmp((void *)p, e, 16)) {
    *(volatile a128 *)p = v;
    return true;
  }
  memcpy(e, (void *)p, 16);
  return false;
}
void fibx_atomic_load(size_t n, const void *p, void *r, int) asm("__atomic_load");
void fibx_atomic_load(size_t n, const void *p, void *r, int) {
  access(p);
  memcpy(r, p, n);
}
void fibx_atomic_store(size_t n, void *p, void *v, int) asm("__atomic_store");
void fibx_atomic_store(size_t n, void *p, void *v, int) {
  access(p);
  memcpy(p, v, n);
}
bool fibx_atomic_cas(size_t n, void *p, void *e, void *v, int,
                     int) asm("__atomic_compare_exchange");
bool fibx_atomic_cas(size_t n, void *p, void *e, void *v, int, int) {
  access(p);
  if (!memcmp(p, e, n)) {
    memcpy(p, v, n);
    return true;
  }
  memcpy(e, p, n);
  return false;
}
void fibx_atomic_xchg(size_t n, void *p, void *v, void *r,
                      int) asm("__atomic_exchange");
void fibx_atomic_xchg(size_t n, void *p, void *v, void *r, int) {
  access(p);
  char t[64];
  memcpy(t, v, n);
  memcpy(r, p, n);
  memcpy(p, t, n);
}

// ---- wrapped system calls -------------------------------------------------------
int __wrap_sched_yield(void) {
  if (fib::in_fiber())
    fib::yield();
  return 0;
}
int __wrap_pthread_yield(void) { return __wrap_sched_yield(); }
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
  if (!fib::armed)
    return __real_clock_gettime(id, ts);
  fib::point();
  fib::now_ns += fib::clock_tick;
  fib::clock_reads++;
  fib::clock_last_id = id;
  fib::put(ts, fib::to_clock(id));
  return 0;
}
#define POINT_LIMIT()                                                          \
  if (++fib::npoints > fib::limit_points)                                      \
    pbt::fail("no progress: %llu scheduling points without all threads "      \
              "finishing",                                                     \
              (unsigned long long)fib::npoints)

int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*start)(void *), void *arg) {
  if (!fib::armed)
    return __real_pthread_create(t, a, start, arg);
  if (!fib::in_fiber())
    pbt::fail("harness: a thread is created outside the program");
  fib::point();
  int i = fib::spawn(nullptr, start, arg);
  int det = 0;
  if (a)
    pthread_attr_getdetachstate(a, &det);
  fib::f[i].detached = det == PTHREAD_CREATE_DETACHED;
  fib::Created &c = fib::created[i];
  c = {SCHED_OTHER, 0, PTHREAD_INHERIT_SCHED, det, 0};
  if (a) {
    sched_param p = {0};
    pthread_attr_getschedpolicy(a, &c.policy);
    pthread_attr_getschedparam(a, &p);
    c.priority = p.sched_priority;
    pthread_attr_getinheritsched(a, &c.inherit);
    pthread_attr_getstacksize(a, &c.stack);
  }
  *t = (pthread_t)(i + 1);
  fib::threads_created++;
  // the new thread may run at once
  if (fib::preempt && fib::src->chance(1, 3)) {
    POINT_LIMIT();
    fib::nswitch++;
    fib::go(i);
  }
  fib::point();
  return 0;
}
int __real_pthread_join(pthread_t, void **);
int __wrap_pthread_join(pthread_t t, void **ret) {
  if (!fib::armed)
    return __real_pthread_join(t, ret);
  fib::point();
  int i = (int)(unsigned long)t - 1;
  if (i < 0 || i >= (int)fib::nf || fib::f[i].detached || i == fib::cur)
    return i == fib::cur ? EDEADLK : EINVAL;
  while (fib::f[i].st != fib::DONE) {
    fib::f[fib::cur].st = fib::JOIN;
    fib::f[fib::cur].join = i;
    POINT_LIMIT();
    fib::switch_from_current(true);
  }
  if (ret)
    *ret = fib::f[i].ret;
  return 0;
}
int __wrap_pthread_detach(pthread_t t) {
  int i = (int)(unsigned long)t - 1;
  if (i >= 0 && i < (int)fib::nf)
    fib::f[i].detached = true;
  return 0;
}
pthread_t __real_pthread_self(void);
pthread_t __wrap_pthread_self(void) {
  return fib::armed && fib::in_fiber() ? (pthread_t)(fib::cur + 1) : __real_pthread_self();
}

// mutexes
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) {
  fib::point();
  fib::mutex_owner.erase(m);
  return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
  fib::point();
  fib::mutex_owner.erase(m);
  return 0;
}
static void lock_mutex(pthread_mutex_t *m) {
  while (fib::mutex_owner.count(m)) {
    fib::f[fib::cur].st = fib::MUTEX;
    fib::f[fib::cur].on = m;
    POINT_LIMIT();
    fib::switch_from_current(true);
  }
  fib::mutex_owner[m] = fib::cur;
}
static void unlock_mutex(pthread_mutex_t *m) {
  fib::mutex_owner.erase(m);
  for (unsigned i = 0; i < fib::nf; i++)
    if (fib::f[i].st == fib::MUTEX && fib::f[i].on == m)
      fib::f[i].st = fib::RUN;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!fib::in_fiber())
    return 0;
  fib::point();
  lock_mutex(m);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  fib::point();
  if (fib::mutex_owner.count(m))
    return EBUSY;
  fib::mutex_owner[m] = fib::cur;
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!fib::in_fiber())
    return 0;
  unlock_mutex(m);
  fib::point();
  return 0;
}

// condition variables
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) {
  fib::point();
  clockid_t id = CLOCK_REALTIME;
  if (a)
    pthread_condattr_getclock(a, &id);
  fib::conds[c] = id;
  return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t *) { return 0; }
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts, clockid_t id) {
  fib::point();
  auto &me = fib::f[fib::cur];
  int64_t until = ts ? fib::from_clock(id, ts) : INT64_MAX;
  if (ts && (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000))
    return EINVAL;
  unlock_mutex(m);
  bool out = false;
  if (ts && until <= fib::now_ns) {
    out = true;
    POINT_LIMIT();
    fib::point();
  } else {
    bool spur = fib::spurious_num && fib::src->chance(fib::spurious_num, fib::spurious_den);
    if (spur) {
      int64_t left = ts ? until - fib::now_ns : 1000000000;
      int64_t d = (int64_t)fib::src->below((uint64_t)left);
      if (fib::src->chance(1, 8))
        d = left - 1 < 0 ? 0 : left - 1;
      fib::spurious++;
      SAY("  [thread %d wakes up spuriously after %lld ns]\n", fib::cur, (long long)d);
      me.st = fib::COND;
      me.on = c;
      me.timeout = true;
      me.timed_out = false;
      me.until = fib::now_ns + d;
    } else {
      me.st = fib::COND;
      me.on = c;
      me.timeout = ts != nullptr;
      me.timed_out = false;
      me.until = until;
    }
    POINT_LIMIT();
    fib::switch_from_current(true);
    out = !spur && me.timed_out;
  }
  lock_mutex(m);
  return out ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  return cond_wait(c, m, nullptr, CLOCK_REALTIME);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  auto i = fib::conds.find(c);
  return cond_wait(c, m, ts, i == fib::conds.end() ? CLOCK_REALTIME : i->second);
}
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const struct timespec *ts) {
  return cond_wait(c, m, ts, id);
}
static int cond_wake(pthread_cond_t *c, bool all) {
  fib::point();
  for (unsigned i = 0; i < fib::nf; i++)
    if (fib::f[i].st == fib::COND && fib::f[i].on == c) {
      fib::f[i].st = fib::RUN;
      fib::f[i].timed_out = false;
      if (!all)
        break;
    }
  return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { return cond_wake(c, false); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { return cond_wake(c, true); }

// sleeping
static int64_t span(const struct timespec *t) { return (int64_t)t->tv_sec * 1000000000 + t->tv_nsec; }
static int do_sleep(int64_t ns, struct timespec *rem) {
  if (fib::spurious_num && ns > 1 && fib::src->chance(fib::spurious_num, fib::spurious_den * 4)) {
    int64_t d = 1 + (int64_t)fib::src->below((uint64_t)ns - 1);
    SAY("  [thread %d is interrupted after sleeping %lld ns]\n", fib::cur, (long long)d);
    fib::sleep_until(fib::now_ns + d);
    if (rem) {
      rem->tv_sec = (ns - d) / 1000000000;
      rem->tv_nsec = (ns - d) % 1000000000;
    }
    return EINTR;
  }
  fib::sleep_until(fib::now_ns + ns);
  return 0;
}
int __real_nanosleep(const struct timespec *, struct timespec *);
int __wrap_nanosleep(const struct timespec *t, struct timespec *rem) {
  if (!fib::armed)
    return __real_nanosleep(t, rem);
  int r = do_sleep(span(t), rem);
  if (r)
    errno = r;
  return r ? -1 : 0;
}
int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
int __wrap_clock_nanosleep(clockid_t id, int flags, const struct timespec *t, struct timespec *rem) {
  if (!fib::armed)
    return __real_clock_nanosleep(id, flags, t, rem);
  if (flags & TIMER_ABSTIME) {
    int64_t u = fib::from_clock(id, t);
    if (u <= fib::now_ns) {
      fib::yield();
      return 0;
    }
    return do_sleep(u - fib::now_ns, nullptr);
  }
  return do_sleep(span(t), rem);
}
int __real_usleep(useconds_t);
int __wrap_usleep(useconds_t us) {
  if (!fib::armed)
    return __real_usleep(us);
  int r = do_sleep((int64_t)us * 1000, nullptr);
  if (r)
    errno = r;
  return r ? -1 : 0;
}
unsigned __real_sleep(unsigned);
unsigned __wrap_sleep(unsigned s) {
  if (!fib::armed)
    return __real_sleep(s);
  struct timespec rem = {0, 0};
  do_sleep((int64_t)s * 1000000000, &rem);
  return (unsigned)rem.tv_sec;
}
}
