// Shared by the checks of monitors: programs run as fibers under a virtual clock.
#ifndef MONLIB_H
#define MONLIB_H
#include "fiber.h"
#include "seqlib.h"
#include <algorithm>
#include <sys/types.h>
#include "periodicmonitor.h"

typedef int64_t ns_t;
static const ns_t MS = 1000000;

// where a run's clock starts: about now, at zero, before the seconds pass 2^31 or 2^32
static ns_t any_start(pbt::Src &g) {
  switch (g.weighted({6, 6, 1, 1})) {
  case 0: return 1000;
  case 1: return 1700000000000000000ll + 999999990;
  case 2: return 2147483647999000000ll - (ns_t)g.below(3000000);
  default: return 4294967295999000000ll - (ns_t)g.below(3000000);
  }
}

// Memory filled with a pattern, in which an object is constructed later.
template <class T> struct Raw {
  T *p;
  bool made = false;
  explicit Raw(unsigned char fill) {
    p = (T *)::operator new(sizeof(T), std::align_val_t(64));
    memset((void *)p, fill, sizeof(T));
  }
  ~Raw() {
    if (made)
      p->~T();
    ::operator delete((void *)p, std::align_val_t(64));
  }
};

// what happened, in order; the position in the log is the logical time
enum What { ENABLE0, ENABLE1, DISABLE0, DISABLE1, JOIN0, JOIN1, BODY0, BODY1, QUERY0, QUERY1, SETP };
struct Note {
  What w;
  int mon;
  ns_t t;       // virtual time
  ns_t stall;   // stalls suffered so far, all threads
  long v;       // QUERY: the answer; SETP: the period
};
// a log that is no scheduling point itself
struct Notes {
  static const size_t MAX = 400000;
  Note *n;
  size_t len;
  Notes() : n(new Note[MAX]), len(0) {}
  void clear() { len = 0; }
  size_t size() const { return len; }
  Note &operator[](size_t i) { return n[i]; }
  Note *begin() { return n; }
  Note *end() { return n + len; }
};
static Notes notes;
#define UNSEEN __attribute__((no_sanitize("thread"), noinline))
UNSEEN static ns_t all_stalls() {
  ns_t s = 0;
  for (unsigned i = 0; i < 16; i++)
    s += fib::stalled[i];
  return s;
}
static const char *what_name[] = {"enable called", "enable returned", "disable called",
                                  "disable returned", "join called", "join returned",
                                  "body begins", "body ends", "isRunning called",
                                  "isRunning returned", "setPeriod"};
UNSEEN static void note(What w, int m, long v = 0) {
  if (notes.len >= Notes::MAX)
    pbt::fail("harness: too many things happened");
  Note &n = notes.n[notes.len++];
  n.w = w;
  n.mon = m;
  n.t = fib::now_ns;
  n.stall = all_stalls();
  n.v = v;
  SAY("  %lld ns: monitor %d: %s%s\n", (long long)fib::now_ns, m, what_name[w],
      w == QUERY1 ? (v ? " true" : " false") : "");
}
#endif
