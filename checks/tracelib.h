// Shared by the checks of traces and formulas: laying a logical trace out in a
// ring buffer in many ways.
#ifndef TRACELIB_H
#define TRACELIB_H
#include "seqlib.h"

#include "rmtld3/reader.h"

struct Ev {
  int d;
  timespan t;
};

// strictly increasing timestamps
inline std::vector<Ev> any_trace(Src &g, size_t len, unsigned nprops, timespan start,
                                 bool huge = false) {
  std::vector<Ev> v;
  timespan t = start;
  unsigned style = huge ? 4 : (unsigned)g.weighted({4, 2, 1, 1});
  for (size_t i = 0; i < len; i++) {
    timespan d = 1;
    switch (style) {
    case 0: d = 1 + (timespan)g.below(4); break;
    case 1: d = 1 + (timespan)(g.chance(1, 3) ? g.below(30) : 0); break;
    case 2: d = 1; break;
    case 3: d = 1 + (timespan)g.below(12); break;
    default: // seconds apart, distances past 2^31 and 2^32
      switch (g.weighted({3, 3, 2, 1})) {
      case 0: d = 1 + (timespan)g.below(8); break;
      case 1: d = (timespan)1000000000 * (1 + (timespan)g.below(4)) + (timespan)g.below(3); break;
      case 2: d = ((timespan)1 << (31 + g.below(2))) - 2 + (timespan)g.below(5); break;
      default: d = (timespan)4000000000ll - 2 + (timespan)g.below(5); break;
      }
    }
    v.push_back({(int)g.below(nprops), t});
    t += d;
  }
  return v;
}

// Puts the trace into the buffer: earlier traffic first (pushed and pulled,
// overwritten, or pushed and popped again), so that it begins anywhere in the
// ring and the other slots hold anything.
template <class E, class B>
void lay_out(Src &g, B &b, const std::vector<Ev> &v) {
  size_t N = b.size_util;
  if (N > 1000) // begin near the end of the ring
    for (size_t k = N - g.below(40); k; k--) {
      E e(1, 0), x;
      b.push(e);
      b.pull(x);
    }
  unsigned kind = (unsigned)g.weighted({3, 4, 3});
  if (kind == 0) {
    for (auto &x : v) {
      E e(x.d, x.t);
      b.push(e);
    }
    return;
  }
  size_t k = g.below(2 * (N < 40 || (N < 1000 && g.chance(1, N > 100 ? 2 : 8)) ? N : 40) + 3);
  SAY("  laid out after %zu earlier events%s\n", k, kind == 2 ? ", some popped" : "");
  // Earlier events: times below the trace's (as a real history would have) or any
  bool wild = !v.empty() && g.chance(1, 3);
  timespan first = v.empty() ? 0 : v[0].t;
  size_t held = 0;
  for (size_t i = 0; i < k; i++) {
    timespan t = wild ? (timespan)g.below(60) : (first > (timespan)(k - i) ? first - (timespan)(k - i) : 0);
    E e((int)g.below(5), t);
    b.push(e);
    held = b.length();
    (void)held;
    if (g.chance(1, 2)) {
      E x;
      b.pull(x);
    }
  }
  E x;
  while (b.length())
    b.pull(x);
  // now the trace, with events pushed and popped again in between
  for (size_t i = 0; i < v.size(); i++) {
    E e(v[i].d, v[i].t);
    b.push(e);
    if (kind == 2 && b.length() < N && g.chance(1, 3)) {
      size_t n = 1 + g.below(2);
      for (size_t q = 0; q < n && b.length() < N; q++) {
        E j((int)g.below(5), v[i].t + 1 + (timespan)g.below(40));
        b.push(j);
      }
      while (b.length() > i + 1)
        b.pop(x);
    }
  }
}
#endif
