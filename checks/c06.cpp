// C06 and C07: readers on a buffer filled one step at a time.
//  C06: events pulled as AVAILABLE are pushed events in push order, each at most
//       once; a loss is reported before anything later is delivered.
//  C07: synchronise answers NO_GAP/GAP exactly, and makes every retained unread
//       event readable; pop is LIFO.
// Oracle: the numbered list of all pushes and the number of the oldest retained.
#include "seqlib.h"
#ifndef WHICH
#define WHICH 6
#endif

template <class D, size_t N> static void run(Src &g) {
  typedef Event<D> E;
  typedef RTML_buffer<E, N> B;
  typedef RTML_writer<B> W;
  typedef RTML_reader<B> R;
  struct Rd {
    std::unique_ptr<Box<R>> r;
    bool synced = false;       // synchronised on a non-empty buffer
    size_t next = 0;           // every event before this was delivered or reported
    bool ever = false;         // as `synced`, whatever came later
    bool owe = false;          // after GAP/OVERFLOW: may jump ahead
    size_t delivered = 0;
    bool popped = false;
    size_t seen_end = 0;       // events pushed at the last synchronisation
    bool reported = true;      // losses so far are reported
  };
  Box<B> b(0xB7);
  std::vector<Rec<D>> all;
  size_t lo = 0; // oldest retained
  std::vector<std::unique_ptr<Box<W>>> ws;
  std::vector<Rd> rs;
  bool direct = g.chance(1, 2);
  timespan clock = g.chance(1, 4) ? (timespan)1700000000000000000ll : 0;
  size_t nw = 1 + g.below(2);
  if (!direct)
    for (size_t i = 0; i < nw; i++)
      ws.emplace_back(new Box<W>(0x31, *b));
  size_t nr = 1 + g.below(3);
  SAY("N=%zu, %s pushes, %zu readers\n", (size_t)N, direct ? "direct" : "writer",
      nr);
  bool over = false, gapseen = false, nogap = false, one_lost = false,
       laps = false, popseen = false, wrap = false, gap_pull = false, emptied = false, empty_first = false;
  auto push1 = [&](long v) {
    clock += 1;
    if (N <= 1000 && g.chance(1, 3))
      clock += g.chance(1, 12) ? ((timespan)1 << (31 + g.below(3))) - 3 + (timespan)g.below(4)
                               : (timespan)g.below(1000);
    D d = make_data<D>(v);
    E e(d, clock);
    auto r = direct ? b->push(e) : (*ws[N > 1000 ? 0 : g.below(ws.size())])->push_all(e);
    all.push_back({d, clock});
    bool full = all.size() - lo > N;
    if (full)
      lo++;
    CHECK((r == b->BUFFER_OVERFLOW) == full, "push returned %d with %zu held",
          (int)r, all.size() - lo);
  };
  auto sync = [&](size_t i) {
    Rd &x = rs[i];
    size_t held = all.size() - lo;
    auto s = (*x.r)->synchronize();
    SAY("reader %zu synchronize -> %d\n", i, (int)s);
    if (held == 0) {
      if (WHICH == 7 && !x.ever) {
        CHECK((*x.r)->length() == 0, "synchronised on an empty buffer, yet the reader's length is %zu",
              (*x.r)->length());
        empty_first |= !all.empty();
      }
      // nothing is readable; that events were lost is reported now or later
      if (x.synced && x.next < lo) {
        CHECK(s != R::NO_GAP, "synchronize returned NO_GAP although event %zu was taken out",
              x.next);
        if (WHICH == 6)
          x.reported = true;
      }
      return;
    }
    x.ever = true;
    if (!x.synced) {
      x.synced = true;
      x.next = lo;
    } else {
      bool lost = x.next < lo;
      if (lost && lo - x.next == 1)
        one_lost = true;
      if (lost && lo - x.next > N)
        laps = true;
      if (WHICH == 7 && !x.popped)
        CHECK(s == (lost ? R::GAP : R::NO_GAP),
              "synchronize returned %d; the next unread event is number %zu, "
              "retained are %zu..%zu",
              (int)s, x.next, lo, all.size() - 1);
      if (WHICH == 6 && lost && s != R::NO_GAP)
        x.reported = true;
      if (s != R::NO_GAP)
        gapseen = true;
      else
        nogap = true;
      if (WHICH == 7 && lost)
        x.next = lo;
    }
    if (WHICH == 6 && s != R::NO_GAP)
      x.reported = true;
    x.popped = false;
    x.seen_end = all.size();
    if (WHICH == 7) {
      if (x.next < lo)
        x.next = lo;
      size_t l = (*x.r)->length();
      CHECK(l == all.size() - x.next,
            "after synchronising the reader's length is %zu; %zu retained events "
            "are unread",
            l, all.size() - x.next);
    }
  };
  // pull one event; returns whether one was delivered
  auto pull = [&](size_t i) -> bool {
    Rd &x = rs[i];
    D jd = make_data<D>(-9);
    E e(jd, (timespan)-1);
    auto s = (*x.r)->pull(e);
    SAY("reader %zu pull -> %d (time %ld)\n", i, (int)s, (long)e.getTime());
    if (WHICH == 7 && !x.ever)
      CHECK(s == R::UNAVAILABLE, "a reader not synchronised with any event: pull -> %d", (int)s);
    if (s == R::AVAILABLE) {
      CHECK(x.synced, "a reader that never synchronised was given an event");
      // which pushed event is it?
      size_t k = x.next;
      while (k < all.size() && !same(e, all[k]))
        k++;
      if (k == all.size()) {
        size_t o = 0;
        while (o < all.size() && !same(e, all[o]))
          o++;
        if (o < all.size())
          pbt::fail("event number %zu delivered after number %zu", o,
                    x.next ? x.next - 1 : 0);
        pbt::fail("an event that was never pushed was delivered (time %ld)",
                  (long)e.getTime());
      }
      if (WHICH == 6) {
        CHECK(k == x.next || x.reported,
              "events %zu..%zu were skipped without GAP or READER_OVERFLOW", x.next,
              k - 1);
        x.reported = false;
      } else {
        CHECK(k == x.next, "event %zu delivered, the next retained unread is %zu", k,
              x.next);
      }
      x.next = k + 1;
      x.delivered++;
      return true;
    }
    if (s == R::READER_OVERFLOW) {
      if (WHICH == 6) {
        CHECK(x.next < lo, "READER_OVERFLOW although the next unread event, number "
              "%zu, is retained (%zu..%zu)", x.next, lo, all.size() - 1);
        x.reported = true;
      }
      over = true;
    }
    return false;
  };
  for (size_t i = 0; i < nr; i++) {
    rs.emplace_back();
    if (i == 0 || g.chance(1, 2))
      rs[i].r.reset(new Box<R>(0x19, *b));
  }
  if (N > 1000)
    for (size_t k = N - g.below(9); k; k--)
      push1((long)k);
  unsigned maxops = N > 1000 ? 10 : N > 50 ? 20 : 50;
  for (unsigned op = 0; op < maxops && g.more(49, 50); op++) {
    size_t i = g.below(nr);
    if (!rs[i].r) {
      SAY("new reader %zu\n", i);
      rs[i].r.reset(new Box<R>(0x19, *b));
    }
    Rd &x = rs[i];
    switch (g.weighted({8, 5, 6, 2, (unsigned)(WHICH == 7 ? 2 : 0), 1,
                        (unsigned)(WHICH == 7 ? 5 : 0)})) {
    case 0: {
      size_t k = 1;
      if (g.chance(1, 2)) {
        k = 1 + g.below(N + 2);
        if (g.chance(1, 6))
          k = (N + 1) * (1 + g.below(3)) + g.below(3); // whole laps
      }
      long v = any_value(g);
      SAY("push x%zu\n", k);
      for (size_t j = 0; j < k; j++)
        push1(v + (long)j);
      break;
    }
    case 1:
      sync(i);
      break;
    case 2: {
      size_t k = 1 + g.below(3);
      if (g.chance(1, 5))
        k = N + 2;
      if (WHICH == 7 && x.popped)
        break;
      if (WHICH == 7 && (x.seen_end != all.size() || x.next < lo)) {
        // pushes since the last synchronisation: what a pull answers then is C06
        sync(i);
        if (!x.synced || all.size() == lo)
          break;
      }
      while (k--)
        if (!pull(i)) {
          if (WHICH == 7 && x.synced) {
            CHECK(x.next + 1 >= all.size(),
                  "pull gives nothing although events %zu..%zu are retained and "
                  "unread",
                  x.next, all.size() - 1);
          }
          break;
        }
      gap_pull |= x.synced && x.next < lo;
      if (WHICH == 7 && x.synced) {
        size_t l = (*x.r)->length();
        CHECK(l == all.size() - x.next, "reader length %zu with %zu unread", l,
              all.size() - x.next);
      }
      break;
    }
    case 3: // the owner takes the oldest event out
      if (all.size() > lo && g.chance(1, 2)) {
        size_t n = g.chance(1, 3) ? all.size() - lo : 1; // even all of them
        if (n == all.size() - lo)
          emptied = true;
        while (n--) {
          SAY("buffer pull\n");
          E e;
          b->pull(e);
          CHECK(same(e, all[lo]), "the buffer returned another event than its oldest");
          lo++;
        }
      }
      break;
    case 4: { // pop everything: newest first
      if (!x.r)
        break;
      sync(i);
      if (!x.synced || all.size() == lo)
        break;
      size_t k = all.size();
      size_t stop = g.chance(2, 3) ? 0 : g.below(4);
      popseen = true;
      while (true) {
        E e;
        auto s = (*x.r)->pop(e);
        SAY("reader %zu pop -> %d\n", i, (int)s);
        if (k == x.next) {
          CHECK(s == R::UNAVAILABLE, "pop with nothing left returned %d", (int)s);
          break;
        }
        CHECK(s == R::AVAILABLE, "pop returned %d with %zu events left", (int)s,
              k - x.next);
        k--;
        CHECK(same(e, all[k]), "pop gave time %ld instead of %ld",
              (long)e.getTime(), (long)all[k].t);
        size_t l = (*x.r)->length();
        CHECK(l == k - x.next, "reader length %zu after pop with %zu left", l,
              k - x.next);
        if (stop && !--stop)
          break;
      }
      x.popped = true;
      x.synced = false; // what was popped is not tracked further
      x.r.reset();      // this reader is done
      rs[i] = Rd();
      break;
    }
    case 5:
      if (g.chance(1, 3)) { // length and gap change nothing
        (*x.r)->length();
        (*x.r)->gap();
      }
      break;
    case 6: { // drain: everything retained and unread, except the newest
      sync(i);
      if (!x.synced || all.size() == lo)
        break;
      size_t b0, t0;
      b->state(b0, t0);
      wrap |= t0 < b0;
      size_t from = x.next, n = 0;
      while (pull(i))
        n++;
      CHECK(x.next + 1 == all.size() || (all.size() == from),
            "draining stopped at event %zu of %zu", x.next, all.size());
      E e;
      CHECK((*x.r)->pull(e) == R::UNAVAILABLE, "a drained reader is not UNAVAILABLE");
      CHECK((*x.r)->length() == all.size() - x.next, "length %zu after draining",
            (*x.r)->length());
      break;
    }
    }
    // readers do not influence the buffer
    if (g.chance(1, 4))
      CHECK(b->length() == all.size() - lo, "buffer length %zu instead of %zu",
            b->length(), all.size() - lo);
  }
  size_t bo, to;
  b->state(bo, to);
  for (size_t k = lo; k < all.size(); k++) {
    E e;
    b->read(e, (bo + (k - lo)) % (N + 1));
    CHECK(same(e, all[k]), "buffer content changed: event %zu has time %ld", k,
          (long)e.getTime());
  }
  size_t del = 0;
  for (auto &x : rs)
    del += x.delivered;
  if (over) pbt::label("READER_OVERFLOW");
  if (gapseen) pbt::label("GAP");
  if (nogap) pbt::label("NO_GAP");
  if (one_lost) pbt::label("exactly one event lost");
  if (laps) pbt::label("lost whole laps");
  if (popseen) pbt::label("popped");
  if (emptied) pbt::label("buffer emptied by its owner");
  if (empty_first) pbt::label("first synchronised when the buffer was empty again");
  if (wrap) pbt::label("drained a wrapped ring");
  if (del > 2) pbt::label("several events delivered");
  if (WHICH == 6 ? del > 2 && (gapseen || over) : nogap && gapseen)
    pbt::nontrivial();
}

static void prop(Src &g) {
  if (g.chance(1, 20000)) {
    pbt::label("capacity 70000");
    return run<int, 70000>(g);
  }
  switch (g.weighted({6, 6, 6, 5, 4, 2, 1, 4})) {
  case 0: return run<int, 2>(g);
  case 1: return run<long, 3>(g);
  case 2: return run<Wide, 4>(g);
  case 3: return run<int, 1>(g);
  case 4: return run<int, 7>(g);
  case 5: return run<unsigned char, 12>(g);
  case 7: return g.chance(1, 2) ? run<Deep, 2>(g) : run<Deep, 6>(g);
  default: return run<int, 300>(g);
  }
}
const pbt::Suite pbt::suite = {
    WHICH == 6 ? "C06" : "C07", "readers",
    WHICH == 6
        ? "random histories of pushes (direct or through writers, single, bulk, "
          "whole laps), synchronise, pull by up to three readers and owner pulls; "
          "every delivery compared with the numbered list of pushes; non-trivial: "
          "more than two deliveries and a reported loss"
        : "random histories of pushes, synchronise, pulls, complete drains and pops "
          "by up to three readers; every answer compared with the numbered list of "
          "pushes and the oldest retained; non-trivial: synchronise answered both "
          "GAP and NO_GAP",
    prop, 3000000, 60000000, 400000000, true};
