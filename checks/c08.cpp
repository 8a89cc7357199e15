// C08: readers running concurrently with writers.
// Writers and readers run as fibers preempted at any shared-memory access.  What
// every reader was told is logged and judged afterwards against the numbered list
// of all pushes (in timestamp order, which is push order).
#include "fiber.h"
#include "seqlib.h"
#include <algorithm>

template <class D> long id_of(const D &d);
template <> long id_of<int>(const int &d) { return d; }
template <> long id_of<long>(const long &d) { return d; }
template <> long id_of<Wide>(const Wide &d) { return d.whole() ? d.a[0] : -1; }

struct Push {
  int writer;
  timespan t;
  bool overflow, done;
  uint64_t begin, end;
};
struct Log { // one answer a reader was given
  bool report;   // GAP or READER_OVERFLOW
  bool deliver;
  long id;
  timespan t;
  uint64_t end; // when
};

template <class D, size_t N> static void run(Src &g) {
  typedef Event<D> E;
  typedef RTML_buffer<E, N> B;
  typedef RTML_writer<B> W;
  typedef RTML_reader<B> R;
  fib::reset(g);
  fib::armed = true;
  timespan far = 0; // between any two events: distances beyond 32 bits
  switch (g.weighted({9, 1, 1})) {
  case 0: break;
  case 1: far = (timespan)1 << 31; break;
  default: far = ((timespan)1 << 32) - 2; break;
  }
  fib::clock_tick = 1 + far;
  if (g.chance(1, 4)) // across a multiple of 2^31
    fib::now_ns = ((int64_t)1 << (31 + g.below(2))) - (int64_t)g.below(30);
  Box<B> b(0xAB);
#ifdef UNCOUNTED // only whether a reader's view of the state is one of the states
  size_t nw = 1, nr = 1 + g.weighted({3, 2});
#else
  size_t nw = 1 + g.weighted({3, 2}), nr = 1 + g.weighted({3, 2});
#endif
  bool stamp = nw > 1 || g.chance(1, 2);
  std::vector<std::unique_ptr<Box<W>>> ws;
  std::vector<std::unique_ptr<Box<R>>> rs;
  fib::share(b.p, sizeof(B));
  for (size_t i = 0; i < nw; i++) {
    ws.emplace_back(new Box<W>(0xCD, *b));
    fib::share(ws[i]->p, sizeof(W));
  }
  for (size_t i = 0; i < nr; i++)
    rs.emplace_back(new Box<R>(0x19, *b));
  std::vector<Push> ps(256 + 6 * N);
  size_t np = 0;
  uint64_t tick = 0;
  timespan given = 10;
  auto do_push = [&](int w) {
    size_t id = np++;
    Push &p = ps[id];
    given += 1 + far + (timespan)(id % 3);
    p = {w, stamp ? 0 : given, false, false, 0, 0};
    D d = make_data<D>((long)id + 1);
    E e(d, p.t);
    p.begin = ++tick;
    auto r = stamp ? (*ws[w])->push(e) : (*ws[w])->push_all(e);
    p.end = ++tick;
    p.overflow = r == b->BUFFER_OVERFLOW;
    p.t = e.getTime();
    p.done = true;
  };
  std::vector<std::vector<Log>> logs(nr);
  std::vector<unsigned> ops(nr, 0);
  uint64_t delivered = 0, reports = 0;
  bool concurrent_delivery = false, overflow_seen = false;
  size_t running_writers = 0;
  auto do_sync = [&](size_t i) {
    size_t w0 = running_writers;
    auto s = (*rs[i])->synchronize();
    SAY("reader %zu: synchronize -> %d\n", i, (int)s);
    CHECK(s == R::NO_GAP || s == R::GAP || s == R::UNKNOWN_GAP, "synchronize -> %d", (int)s);
    if (s == R::GAP)
      logs[i].push_back({true, false, 0, 0, ++tick});
    reports += s == R::GAP && w0;
    return s;
  };
  auto do_pull = [&](size_t i) {
    size_t w0 = running_writers;
    D jd = make_data<D>(-9);
    E e(jd, (timespan)-1);
    auto s = (*rs[i])->pull(e);
    SAY("reader %zu: pull -> %d (event %ld, time %ld)\n", i, (int)s,
        id_of<D>(e.getData()), (long)e.getTime());
    if (s == R::AVAILABLE) {
      logs[i].push_back({false, true, id_of<D>(e.getData()), e.getTime(), ++tick});
      delivered++;
      concurrent_delivery |= w0 > 0;
    } else if (s == R::READER_OVERFLOW) {
      logs[i].push_back({true, false, 0, 0, ++tick});
      overflow_seen = true;
    } else
      CHECK(s == R::UNAVAILABLE, "pull -> %d", (int)s);
    return s;
  };
  size_t pre = g.chance(1, 2) ? g.below(N + 3) : 0;
  SAY("N=%zu, %zu writers, %zu readers, %zu pushes before\n", (size_t)N, nw, nr, pre);
  for (size_t i = 0; i < pre; i++)
    do_push((int)g.below(nw));
  for (size_t i = 0; i < nr; i++)
    if (g.chance(1, 2)) {
      do_sync(i);
      for (size_t k = g.below(3); k; k--)
        do_pull(i);
    }
  std::vector<std::function<void()>> fs;
  std::vector<size_t> todo(nw), rops(nr);
  // a thread stopped anywhere: no reader waits for a writer, nobody for a reader
  bool stop = g.chance(1, 5);
  if (stop) {
    fib::hold = (int)g.below(nw + nr);
    fib::hold_after = (unsigned)g.below(g.chance(1, 2) ? 40 : 300);
  }
  for (size_t w = 0; w < nw; w++) {
    todo[w] = 1 + g.below(2 * N + 4);
    if (stop && (size_t)fib::hold < nw && (int)w != fib::hold)
      todo[w] = 0; // a writer may wait for another
    SAY("writer %zu: %zu pushes\n", w, todo[w]);
    running_writers++;
    fs.push_back([&, w]() {
      for (size_t k = 0; k < todo[w]; k++)
        do_push((int)w);
      running_writers--;
    });
  }
  for (size_t i = 0; i < nr; i++) {
    rops[i] = 1 + g.below(14);
    fs.push_back([&, i]() {
      for (size_t k = 0; k < rops[i]; k++)
#ifdef UNCOUNTED
        switch (g.weighted({1, 1, 9})) {
#else
        switch (g.weighted({5, 3, 1})) {
#endif
        case 0: do_pull(i); break;
        case 1: do_sync(i); break;
        default: {
          (*rs[i])->gap();
          (*rs[i])->length();
          size_t bo, to;
          b->state(bo, to);
#ifdef UNCOUNTED
          CHECK(bo <= N && to <= N, "a reader takes the state for unchanged that two or more "
                "pushes had come back to: %zu..%zu", bo, to);
          b->length(); // follows from the state: the same finding
#else
          CHECK(bo <= N && to <= N, "state is %zu..%zu", bo, to);
          size_t len = b->length();
          CHECK(len <= N, "length is %zu of %zu", len, (size_t)N);
#endif
        }
        }
    });
  }
  fib::run(g, fs, 60000 + 2000 * N);
  uint64_t sw = fib::switches();
  pbt::count("scheduling points", fib::points());
  pbt::count("preemptions", sw);
  pbt::count("events delivered while writers ran", delivered);
#ifdef UNCOUNTED
  fib::armed = false;
  if (sw >= 2)
    pbt::nontrivial();
  return;
#endif
  // push order
  std::vector<size_t> order(np), index(np);
  for (size_t i = 0; i < np; i++) {
    CHECK(ps[i].done, "push %zu never returned", i);
    order[i] = i;
  }
  std::sort(order.begin(), order.end(), [&](size_t x, size_t y) { return ps[x].t < ps[y].t; });
  for (size_t i = 0; i < np; i++)
    index[order[i]] = i;
  for (size_t i = 1; i < np; i++)
    CHECK(ps[order[i - 1]].t < ps[order[i]].t, "two pushes have the same stamp");
  // the buffer is as if no reader had been there
  size_t want = np < N ? np : N, ov = 0;
  size_t bo, to;
  b->state(bo, to);
  CHECK(b->length() == want, "length %zu after %zu pushes", b->length(), np);
  for (size_t i = 0; i < np; i++)
    ov += ps[i].overflow;
  CHECK(ov == np - want, "%zu overflows reported for %zu discarded events", ov, np - want);
  for (size_t k = 0; k < want; k++) {
    E e;
    b->read(e, (bo + k) % (N + 1));
    long id = id_of<D>(e.getData()) - 1;
    CHECK(id >= 0 && (size_t)id < np && index[id] == np - want + k && e.getTime() == ps[id].t,
          "held event %zu is not push %zu", k, np - want + k);
  }
  auto judge = [&](size_t i) {
    size_t next = 0; // everything before was delivered or reported as lost
    bool rep = false;
    for (auto &l : logs[i]) {
      if (l.report) {
        rep = true;
        continue;
      }
      long id = l.id - 1;
      CHECK(id >= 0 && (size_t)id < np, "reader %zu was given a torn event (data %ld, "
            "time %ld)", i, l.id, (long)l.t);
      CHECK(ps[id].t == l.t, "reader %zu was given the data of push %zu with time %ld "
            "instead of %ld", i, index[id], (long)l.t, (long)ps[id].t);
      size_t k = index[id];
      CHECK(k >= next, "reader %zu was given push %zu after push %zu", i, k, next - 1);
      if (k > next) {
        CHECK(rep, "reader %zu skipped pushes %zu..%zu without GAP or READER_OVERFLOW", i,
              next, k - 1);
        size_t begun = 0;
        for (size_t q = 0; q < np; q++)
          begun += ps[q].begin < l.end;
        CHECK(begun >= k + N, "reader %zu skipped push %zu, which was retained: only "
              "%zu pushes had begun", i, k - 1, begun);
      }
      rep = false;
      next = k + 1;
    }
    return next;
  };
  for (size_t i = 0; i < nr; i++) {
    judge(i);
    // quiescent: the rest is delivered
    if (np) {
      do_sync(i);
      while (do_pull(i) == R::AVAILABLE)
        ;
      size_t next = judge(i);
      size_t left = np - (next > np - want ? next : np - want);
      CHECK(left <= 1, "reader %zu drained, yet %zu retained events were not delivered", i,
            left);
      size_t l = (*rs[i])->length();
      CHECK(l == left, "reader %zu: length %zu with %zu left", i, l, left);
    }
  }
  fib::armed = false;
  if (concurrent_delivery) pbt::label("delivered while a writer ran");
  if (overflow_seen) pbt::label("READER_OVERFLOW");
  if (reports) pbt::label("GAP while a writer ran");
  if (stop)
    pbt::label((size_t)fib::hold < nw ? "a writer stopped in the middle" : "a reader stopped in the middle");
  if (nw > 1) pbt::label("two writers");
  if (nr > 1) pbt::label("two readers");
  if (ov) pbt::label("overrun");
  if (sw >= 2 && concurrent_delivery)
    pbt::nontrivial();
}

static void prop(Src &g) {
  if (g.chance(1, 200))
    return run<int, 300>(g);
  switch (g.weighted({2, 5, 5, 5, 4, 2})) {
  case 0: return run<int, 1>(g);
  case 1: return run<long, 2>(g);
  case 2: return run<Wide, 2>(g);
  case 3: return run<Wide, 3>(g);
  case 4: return run<int, 4>(g);
  default: return run<Wide, 7>(g);
  }
}
const pbt::Suite pbt::suite = {
    "C08", SUITE("concurrent_readers"),
    "1-2 writers and 1-2 readers as fibers preempted at shared-memory accesses drawn "
    "with the case; every answer of every reader judged against the list of all "
    "pushes, the final content and the drain after quiescence included; non-trivial: "
    "at least two preemptions and an event delivered while a writer still had pushes "
    "to do",
    prop, 4000000, 80000000, 100000000, true};
