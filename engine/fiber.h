// A scheduler owned by the harness.  The code under test is compiled with
// -fsanitize=thread but linked with the __tsan_* functions of fiber.cpp, so every
// access to shared memory is a point at which another fiber can be run.  Which
// fiber runs when is drawn from the case's choices.
#ifndef FIBER_H
#define FIBER_H
#include "pbt.h"
#include <ctime>
#include <functional>

namespace fib {
// memory whose accesses are scheduling points (besides static data)
void share(const void *p, size_t n);
// Runs the fibers to completion under a drawn schedule.
// max_points: scheduling points after which the run counts as stuck.
void run(pbt::Src &g, std::vector<std::function<void()>> fs,
         uint64_t max_points = 150000);
bool in_fiber();
int self();            // index of the running fiber
uint64_t points();     // scheduling points passed in this run
uint64_t switches();   // preemptions that happened in this run
void point();          // an explicit scheduling point
void yield();          // let another fiber run

// ---- virtual time -----------------------------------------------------------
extern bool armed;          // clock, sleeps and threads are virtual
extern int64_t now_ns;      // virtual clock
extern int64_t clock_tick;  // advance per clock reading
extern uint64_t clock_reads;
extern clockid_t clock_last_id;
void sleep_until(int64_t ns); // block this fiber until then
void reset(pbt::Src &g);      // fresh scheduler state for a case
// monitors: threads become fibers; spurious wake-ups with probability num/den
extern unsigned spurious_num, spurious_den;
extern uint64_t spurious;     // how many happened
extern uint64_t threads_created;
struct Created { // what a thread was asked to be
  int policy, priority, inherit, detach;
  size_t stack;
};
extern Created created[]; // by thread index
extern int64_t idle_limit_ns; // virtual time after which a run counts as stuck
extern int64_t stall_max_ns;  // a thread may be kept off the processor this long
extern unsigned stall_den;    // with probability 1/stall_den when it is preempted
extern int64_t stalled[];     // how long each was
extern bool preempt;          // draw preemptions
extern bool once;             // one early preemption of the first fiber, none after it: it
                              // stops somewhere while another runs to its end
extern uint64_t unnoticed;    // compare-exchanges that succeeded although the object had been
                              // replaced, and the value restored, since this thread read it
void watch(const void *p, size_t n); // the object in which the one that is meant lies
extern int hold;              // this fiber, after so many scheduling points of its own, is
extern unsigned hold_after;   // not run again before all others are done
// what only a described case does is no scheduling point
bool loud();
void hush();
} // namespace fib
#undef SAY
#define SAY(...)                                                               \
  do {                                                                         \
    if (fib::loud()) {                                                         \
      pbt::say(__VA_ARGS__);                                                   \
      fib::hush();                                                             \
    }                                                                          \
  } while (0)
#endif
