// One variant of the library running a history of operations (C22).
// V_RUN names it, V_RISCV / V_ARM / V_HW select the platform; debug macros come on
// the command line.  System headers are read before the platform macros are set.
#include "c22.h"
#include <algorithm>
#include <assert.h>
#include <atomic>
#include <cassert>
#include <cerrno>
#include <cinttypes>
#include <climits>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <deque>
#include <errno.h>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <string.h>
#include <string>
#include <sys/time.h>
#include <sys/types.h>
#include <thread>
#include <time.h>
#include <tuple>
#include <type_traits>
#include <unistd.h>
#include <utility>
#include <vector>

#if V_RISCV
#define __riscv 1
#elif V_ARM
#define __arm__ 1
#if V_CORTEX == 10
#define CORTEX_M0 1
#elif V_CORTEX == 11
#define CORTEX_M0PLUS 1
#elif V_CORTEX == 3
#define CORTEX_M3 1
#elif V_CORTEX == 7
#define CORTEX_M7 1
#else
#define CORTEX_M4 1
#endif
#elif V_HW
#define __HW__ 1
#endif
#if V_NUTTX
#define __NUTTX__ 1
static inline void nuttx_yield() { sched_yield(); }
#define pthread_yield() nuttx_yield()
#elif V_RTEMS
#define __rtems__ 1
#elif V_FREERTOS
#define __FREERTOS__ 1
#elif V_BARE
#define NO_THREADS 1
#endif

#define BOUND_0 1
#define BOUND_1 3
#define BOUND_2 4
#define BOUND_3 9
#define BOUND_4 14
#define BOUND_5 100
#define BOUND_6 1
#define BOUND_7 3
#define BOUND_8 9
#define BOUND_9 4000000000l

#include "circularbuffer.h"
#include "reader.h"
#include "writer.h"
#include "libeval.h"
#include "rmtld3/pattern.h"
int count_until_iterations;
#if !V_HW && !V_BARE
#include "periodicmonitor.h"
struct AMonitor : RTML_monitor<'v', 'a', 'r', 's'> {
  AMonitor(useconds_t p) : RTML_monitor(p) {}
  AMonitor(useconds_t p, int) : RTML_monitor(p, DEFAULT_SCHED, DEFAULT_PRIORITY) {}
  void run() {}
};
#if defined(V_NUTTX) || defined(V_FREERTOS)
volatile unsigned long g_system_timer = 1;
#endif
// compiled, never called: the monitors of this variant
void use_monitor(AMonitor &m) {
  m.enable();
  m.setPeriod(m.getPeriod());
  if (m.isRunning())
    m.disable();
  m.join();
}
AMonitor *make_monitor() { return new AMonitor(1000); }
#endif
#if V_ARM
struct SysTick_stub SysTick_regs = {0, 1000, 1000, 0};
#endif
#if V_SYSTICK
// a timer that counts down LOAD ticks in a millisecond, at an instant it can show
static void set_systick(long t) {
  static const uint32_t loads[] = {1000, 8000, 62500, 100000, 250000, 1000000};
  uint32_t rem = (uint32_t)(t % 1000000);
  if (t % 3 == 0) { // ticks of 0.588 ns: well inside this nanosecond
    g_system_timer = (unsigned long)(t / 1000000);
    SysTick_regs.LOAD = 1700000;
    SysTick_regs.VAL = 1700000 - ((rem * 17 + 2) / 10 + 1);
    return;
  }
  unsigned i = (unsigned)(t % 5);
  while (rem % (1000000 / loads[i]))
    i++;
  g_system_timer = (unsigned long)(t / 1000000);
  SysTick_regs.LOAD = loads[i];
  SysTick_regs.VAL = loads[i] - rem / (1000000 / loads[i]);
}
#endif

static const size_t N = 6;
typedef Event<proposition> E;
typedef RTML_buffer<E, N> B;
typedef RTML_writer<B> W;
typedef RTML_reader<B> R;
typedef RMTLD3_reader<R, int> T;

template <class X> static void *place() {
  #if V_ARM
  void *m = c22_memory(sizeof(X), true);
#else
  void *m = c22_memory(sizeof(X), false);
#endif
  memset(m, 0x3c, sizeof(X));
  return m;
}
extern "C" void V_RUN(const Cmd *c, size_t n, Out *out) {
  int lm = 0;
  B *b[2];
  W *w[2] = {nullptr, nullptr};
  T *r[2];
  for (int i = 0; i < 2; i++)
    b[i] = new (place<B>()) B();
  for (int i = 0; i < 2; i++)
    r[i] = new (place<T>()) T(*b[i], lm);
  for (size_t k = 0; k < n; k++) {
    const Cmd &x = c[k];
    long *o = out[k].v;
    for (int i = 0; i < 6; i++)
      o[i] = -77;
    timespan t = (timespan)x.t;
    unsigned data = x.d;
    E e(data, t);
    B &B_ = *b[x.i % 2];
    T &T_ = *r[x.i % 2];
    long s = -99;
    bool ev = false;
    size_t p = 99, q = 99;
    timespanw ts = 0, tt = 0;
    switch (x.op) {
    case B_PUSH: s = B_.push(e); break;
    case B_PULL: s = B_.pull(e); ev = true; break;
    case B_POP: s = B_.pop(e); ev = true; break;
    case B_READ: s = B_.read(e, (size_t)x.u); ev = true; break;
    case B_WRITE: s = B_.write(e, (size_t)x.u); break;
    case B_LENGTH: s = (long)B_.length(); break;
    case B_STATE:
      s = B_.state(p, q);
      o[1] = (long)p;
      o[2] = (long)q;
      s += B_.state(p, q, ts, tt);
      o[3] = (long)p;
      o[4] = (long)q;
      o[5] = (long)ts * 3 + (long)tt;
      break;
    case B_ASSIGN: *b[x.i % 2] = *b[x.j % 2]; s = 0; break;
    case W_NEW:
      if (!w[x.j % 2])
        w[x.j % 2] = new (place<W>()) W(B_);
      s = 0;
      break;
    case W_DELETE:
      if (w[x.j % 2])
        w[x.j % 2]->~W();
      w[x.j % 2] = nullptr;
      s = 0;
      break;
    case W_PUSH:
      if (W *y = w[x.j % 2]) {
#if V_CLOCK
        c22_clock_now = x.t;
        s = y->push(e);
#elif V_SYSTICK
        set_systick(x.t);
        s = y->push(e);
#else
        s = y->push_all(e);
#endif
        ev = true;
      }
      break;
    case W_PUSH_ALL:
      if (W *y = w[x.j % 2])
        s = y->push_all(e);
      break;
    case R_SYNC: s = T_.synchronize(); break;
    case R_GAP: s = T_.gap(); break;
    case R_PULL: s = T_.R::pull(e); ev = true; break;
    case R_POP: s = T_.R::pop(e); ev = true; break;
    case R_LENGTH: s = (long)T_.R::length(); break;
    case T_RESET: s = T_.reset(); break;
    case T_SET: s = T_.set(t); o[1] = (long)t; break;
    case T_SETC: p = (size_t)x.u; s = T_.set_cursor(p); break;
    case T_GETC: s = (long)T_.get_cursor(); break;
    case T_INC: s = T_.increment_cursor(); break;
    case T_DEC: s = T_.decrement_cursor(); break;
    case T_PULL: s = T_.pull(e); ev = true; break;
    case T_READ: s = T_.read(e); ev = true; break;
    case T_NEXT: s = T_.read_next(e); ev = true; break;
    case T_PREV: s = T_.read_previous(e); ev = true; break;
    case T_LENGTH: s = (long)T_.length(); break;
    case T_CONSUMED: s = (long)T_.consumed(); break;
    case E_FORMULA:
    case E_TERM:
      o[1] = T_.synchronize();
      s = T_.set(t);
      o[2] = (long)T_.get_cursor();
      if (s == 0 && x.op == E_FORMULA)
        o[3] = lib_eval(T_, t, x.f);
      if (s == 0 && x.op == E_TERM) {
        duration d = lib_term(T_, t, x.term);
        o[3] = (long)d.first;
        o[4] = d.second;
      }
      o[5] = (long)t * 100 + (long)T_.get_cursor();
      break;
    case E_CMP: {
      unsigned d2 = x.j;
      timespan t2 = (timespan)x.u;
      E g(d2, t2);
      s = (e < g) | (e <= g) << 1 | (e > g) << 2 | (e >= g) << 3 | (e == g) << 4 | (e != g) << 5;
      o[1] = (e < t2) | (e <= t2) << 1 | (e > t2) << 2 | (e >= t2) << 3 | (e == t2) << 4 | (e != t2) << 5;
      o[2] = (t2 < e) | (t2 <= e) << 1 | (t2 > e) << 2 | (t2 >= e) << 3 | (t2 == e) << 4 | (t2 != e) << 5;
      E h;
      h = g;
      h.set(data, t);
      o[3] = h.getData();
      o[4] = (long)h.getTime();
      h = &g;
      o[5] = (long)h.getTime() * 7 + h.getData();
      break;
    }
    case E_CONN: {
      three_valued_type v1 = (three_valued_type)(x.i % 3), v2 = (three_valued_type)(x.j % 3);
      s = b3_or(v1, v2);
      o[1] = b3_and(v1, v2);
      o[2] = b3_not(v1);
      duration d1 = make_duration(x.t, x.d & 1), d2 = make_duration(x.u, x.d & 2), d3 = sum_dur(d1, d2),
               d4 = mult_dur(d1, d2);
      o[3] = b3_lessthan(d1, d2);
      o[4] = (long)d3.first * 2 + d3.second;
      o[5] = (long)d4.first * 2 + d4.second;
      break;
    }
    case TIME: {
      struct timespec a = {x.t, (long)x.u}, g = {(time_t)x.i, (long)x.d}, h = {0, 0};
      timespecadd(&a, &g, &h);
      s = h.tv_sec;
      o[1] = h.tv_nsec;
      timespecsub(&a, &g, &h);
      o[2] = h.tv_sec;
      o[3] = h.tv_nsec;
      o[4] = (timespeccmp(&a, &g, <)) | (timespeccmp(&a, &g, >)) << 1 | (timespeccmp(&a, &g, ==)) << 2;
#if !V_HW
      useconds_t us = (useconds_t)x.u + 1000000 * x.j;
      useconds_t2timespec(&us, &h);
      o[5] = h.tv_sec * 1000000000 + h.tv_nsec;
#else
      o[5] = ((long)x.u + 1000000l * x.j) * 1000;
#endif
      break;
    }
    case DEBUG:
      switch (x.d % 4) {
      case 0: B_.debug(); break;
      case 1: T_.R::debug(); break;
      case 2: T_.debug(); break;
      default: e.debug(); break;
      }
      s = 0;
      break;
    default: break;
    }
    o[0] = s;
    if (ev) {
      o[1] = (long)e.getData();
      o[2] = (long)e.getTime();
    }
  }
  for (auto *y : w)
    if (y)
      y->~W();
}
