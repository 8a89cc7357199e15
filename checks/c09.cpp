// C09: the cursor of a trace.
// Oracle: the numbered list of retained events with a position in it.
#include "tracelib.h"

template <class D, size_t N> static void run(Src &g) {
  typedef Event<D> E;
  typedef RTML_buffer<E, N> B;
  typedef RTML_reader<B> R;
  typedef RMTLD3_reader<R, int> T;
  int lm = 0;
  Box<B> b(0xB7);
  timespan start = g.chance(1, 5) ? (timespan)1700000000000000000ll : (timespan)g.below(9);
  size_t len = g.below((N < 12 || (N < 1000 && g.chance(1, 8)) ? N : 12) + 1);
  std::vector<Ev> all = any_trace(g, len, 5, start);
  SAY("N=%zu, %zu events:", (size_t)N, len);
  for (auto &x : all)
    SAY(" (%d,%ld)", x.d, (long)x.t);
  SAY("\n");
  lay_out<E>(g, *b, all);
  Box<T> tr(0x3C, *b, lm);
  size_t lo = 0, hi = 0; // the window: all[lo..hi)
  bool synced = false;
  long ci = -1;          // index of the event at the cursor; -1: position unknown
  unsigned found = 0, missed = 0, back = 0, stale = 0, edges = 0;
  auto sync = [&]() {
    tr->synchronize();
    if (all.size() > lo + N)
      lo = all.size() - N;
    hi = all.size();
    synced = true;
    if (ci >= 0 && (size_t)ci < lo)
      ci = -1;
  };
  auto check = [&](const char *when) {
    if (ci < 0 || !synced)
      return;
    E e, n, p;
    size_t i = (size_t)ci;
    CHECK(tr->length() == hi - i, "%s: %zu remaining events instead of %zu", when,
          tr->length(), hi - i);
    CHECK(tr->consumed() == i - lo, "%s: %zu consumed events instead of %zu", when,
          tr->consumed(), i - lo);
    auto s = tr->read(e);
    CHECK((s == R::AVAILABLE) == (i < hi), "%s: read returned %d at event %zu of "
          "%zu..%zu", when, (int)s, i, lo, hi);
    if (i < hi)
      CHECK((int)e.getData() == all[i].d && e.getTime() == all[i].t,
            "%s: read gives the event of time %ld instead of %ld", when,
            (long)e.getTime(), (long)all[i].t);
    s = tr->read_next(n);
    CHECK((s == R::AVAILABLE) == (i + 1 < hi), "%s: read_next returned %d at event %zu "
          "of %zu..%zu", when, (int)s, i, lo, hi);
    if (i + 1 < hi)
      CHECK((int)n.getData() == all[i + 1].d && n.getTime() == all[i + 1].t,
            "%s: read_next gives the event of time %ld instead of %ld", when,
            (long)n.getTime(), (long)all[i + 1].t);
    s = tr->read_previous(p);
    CHECK((s == R::AVAILABLE) == (i > lo), "%s: read_previous returned %d at event %zu "
          "of %zu..%zu", when, (int)s, i, lo, hi);
    if (i > lo)
      CHECK((int)p.getData() == all[i - 1].d && p.getTime() == all[i - 1].t,
            "%s: read_previous gives the event of time %ld instead of %ld", when,
            (long)p.getTime(), (long)all[i - 1].t);
  };
  sync();
  tr->reset();
  ci = (long)lo;
  check("after reset");
  size_t b0, t0;
  b->state(b0, t0);
  bool wrapped = t0 < b0;
  for (unsigned op = 0; op < 40 && g.more(39, 40); op++) {
    switch (g.weighted({8, 4, 4, 2, 2, 1, 2, 1, 2})) {
    case 0: { // position at a time
      timespan t;
      if (hi > lo && g.chance(7, 8)) {
        t = all[lo + g.below(hi - lo)].t;
        if (g.chance(1, 2))
          t += (timespan)g.below(4) - (timespan)1;
      } else
        t = (timespan)g.below(100);
      timespan t_in = t;
      long want = -1;
      for (size_t i = lo; i + 1 < hi; i++)
        if (all[i].t <= t && t < all[i + 1].t)
          want = (long)i;
      if (ci < 0)
        stale++;
      auto s = tr->set(t);
      SAY("set(%ld) from %ld -> %d\n", (long)t_in, ci, (int)s);
      CHECK(t == t_in, "set changed the time it was given");
      CHECK((s == R::AVAILABLE) == (want >= 0),
            "set(%ld) returned %d from position %ld; the event in force is %ld", (long)t,
            (int)s, ci, want);
      if (want >= 0) {
        found++;
        back += ci > want;
        ci = want;
        check("after set");
      } else {
        missed++;
        // the position is then not specified
        tr->reset();
        ci = (long)lo;
      }
      break;
    }
    case 1: {
      if (ci < 0)
        break;
      auto s = tr->increment_cursor();
      SAY("forward from %ld -> %d\n", ci, (int)s);
      CHECK((s == R::AVAILABLE) == ((size_t)ci < hi), "a step forward from event %ld of "
            "%zu..%zu returned %d", ci, lo, hi, (int)s);
      if ((size_t)ci < hi)
        ci++;
      else
        edges++;
      check("after a step forward");
      break;
    }
    case 2: {
      if (ci < 0)
        break;
      auto s = tr->decrement_cursor();
      SAY("back from %ld -> %d\n", ci, (int)s);
      CHECK((s == R::AVAILABLE) == ((size_t)ci > lo), "a step back from event %ld of "
            "%zu..%zu returned %d", ci, lo, hi, (int)s);
      if ((size_t)ci > lo)
        ci--;
      else
        edges++;
      check("after a step back");
      break;
    }
    case 3: { // pull: gives the current event and steps forward
      if (ci < 0)
        break;
      E e;
      tr->pull(e);
      SAY("pull at %ld\n", ci);
      if ((size_t)ci < hi) {
        CHECK((int)e.getData() == all[ci].d && e.getTime() == all[ci].t,
              "pull gives the event of time %ld instead of %ld", (long)e.getTime(),
              (long)all[ci].t);
        ci++;
      }
      check("after pull");
      break;
    }
    case 4: { // the cursor anywhere
      size_t c = g.below(N + 1);
      tr->set_cursor(c);
      SAY("cursor to slot %zu\n", c);
      ci = -1;
      CHECK(tr->get_cursor() == c, "get_cursor is %zu after set_cursor(%zu)",
            tr->get_cursor(), c);
      break;
    }
    case 5:
      tr->reset();
      SAY("reset\n");
      ci = (long)lo;
      check("after reset");
      break;
    case 6: { // the trace goes on
      size_t k = 1 + g.below(N < 6 ? N + 1 : 6);
      bool later = g.chance(1, 3); // the trace is not synchronised before the next time
      SAY("push x%zu%s\n", k, later ? "" : " and synchronise");
      for (size_t i = 0; i < k; i++) {
        if (later && all.size() - lo >= N)
          break;
        timespan t = (all.empty() ? start : all.back().t) + 1 + (timespan)g.below(4);
        int d = (int)g.below(5);
        E e(make_data<D>(d), t);
        b->push(e);
        all.push_back({d, t});
      }
      if (!later)
        sync();
      else if (hi < all.size())
        pbt::label("events pushed after synchronising");
      check(later ? "after a push" : "after synchronising");
      break;
    }
    case 8: { // the oldest or newest event leaves the trace
      bool oldest = g.chance(1, 2);
      E e;
      auto s = oldest ? tr->R::pull(e) : tr->pop(e);
      SAY("%s event leaves -> %d\n", oldest ? "oldest" : "newest", (int)s);
      if (oldest ? hi > lo + 1 : hi > lo) {
        const Ev &x = all[oldest ? lo : hi - 1];
        CHECK(s == R::AVAILABLE && (int)e.getData() == x.d && e.getTime() == x.t,
              "removing the %s event of a trace of %zu gives %d and the event of time %ld instead "
              "of %ld", oldest ? "oldest" : "newest", hi - lo, (int)s, (long)e.getTime(), (long)x.t);
        oldest ? lo++ : hi--;
        pbt::label(oldest ? "oldest event removed from the trace" : "newest event removed from the trace");
      } else
        CHECK(s == R::UNAVAILABLE, "removing an event of a trace of %zu returned %d", hi - lo, (int)s);
      if (ci >= 0 && ((size_t)ci < lo || (size_t)ci > hi))
        ci = -1;
      check("after an event left the trace");
      break;
    }
    default: { // save and restore
      if (ci < 0)
        break;
      size_t c = tr->get_cursor();
      size_t n = g.below(3);
      while (n--)
        g.chance(1, 2) ? tr->increment_cursor() : tr->decrement_cursor();
      CHECK(tr->set_cursor(c) == R::AVAILABLE, "the cursor cannot be restored");
      SAY("cursor saved and restored\n");
      check("after restoring the cursor");
    }
    }
    b->state(b0, t0);
    wrapped |= t0 < b0;
  }
  if (found) pbt::label("positioned");
  if (missed) pbt::label("no event in force");
  if (back) pbt::label("positioned backwards");
  if (stale) pbt::label("positioned from an arbitrary slot");
  if (wrapped) pbt::label("wrapped ring");
  if (edges) pbt::label("refused at an end");
  if (found >= 2 && (back || stale))
    pbt::nontrivial();
}

static void prop_(Src &g) {
  if (g.chance(1, 20000)) {
    pbt::label("capacity 70000");
    return run<int, 70000>(g);
  }
  switch (g.weighted({5, 6, 6, 4, 3, 2})) {
  case 0: return run<int, 2>(g);
  case 1: return run<int, 3>(g);
  case 2: return run<unsigned, 5>(g);
  case 3: return run<int, 8>(g);
  case 4: return run<int, 1>(g);
  default: return run<int, 300>(g);
  }
}
const pbt::Suite pbt::suite = {
    "C09", "cursor",
    "a random trace laid out anywhere in the ring, then random positioning at times "
    "on and between its events, steps, pulls, arbitrary cursors further pushes and events leaving the trace at either end; "
    "every read, count and refusal compared with a position in the list of retained "
    "events; non-trivial: positioned at least twice, once backwards or from an "
    "arbitrary slot",
    prop_, 4000000, 80000000, 200000000, true};
