// C05: concurrent pushes are atomic.
// Writers run as fibers preempted at any shared memory access; the schedule is
// part of the case.
#include "fiber.h"
#include "seqlib.h"
#include <algorithm>

template <class D> long id_of(const D &d);
template <> long id_of<int>(const int &d) { return d; }
template <> long id_of<long>(const long &d) { return d; }
template <> long id_of<Wide>(const Wide &d) { return d.whole() ? d.a[0] : -1; }

struct Push {
  int writer;
  unsigned seq; // within its writer
  timespan t;
  bool stamped, overflow, done;
  uint64_t begin, end; // real-time order
};

template <class D, size_t N> static void run(Src &g) {
  typedef Event<D> E;
  typedef RTML_buffer<E, N> B;
  typedef RTML_writer<B> W;
  fib::reset(g);
  fib::armed = true;
  fib::clock_tick = g.chance(3, 4) ? 1 : 0;
  if (g.chance(1, 8)) // across a multiple of 2^31
    fib::now_ns = ((int64_t)1 << (31 + g.below(2))) - (int64_t)g.below(30);
  Box<B> b(0xAB);
  size_t nw = 2 + g.weighted({4, 4, 2});
  std::vector<std::unique_ptr<Box<W>>> ws;
  fib::share(b.p, sizeof(B));
  for (size_t i = 0; i < nw; i++) {
    ws.emplace_back(new Box<W>(0xCD, *b));
    fib::share(ws[i]->p, sizeof(W));
  }
  // one writer stopped somewhere in a push while another makes very many
  bool bulk = g.chance(1, 40);
  size_t many = 0;
  if (bulk) {
    nw = 2;
    many = (size_t)1 << (g.chance(1, 400) ? 16 : 3 + g.below(6));
    many += g.weighted({6, 2, 1}) - (size_t)g.weighted({6, 2, 1});
  }
  std::vector<Push> ps(256 + many + 2 * N); // on the heap: no scheduling points
  uint64_t tick;
  size_t np = 0;
  tick = 0;
  int stamp_mode = (int)g.weighted({3, 2, 1}); // all, none, mixed
  auto plan = [&](int w, unsigned seq) {
    Push &p = ps[np];
    p = {w, seq, 0, false, false, false, 0, 0};
    p.stamped = stamp_mode == 0 || (stamp_mode == 2 && g.chance(1, 2));
    p.t = p.stamped ? 0 : (timespan)g.below(3);
    return np++;
  };
  auto do_push = [&](size_t id) {
    Push &p = ps[id];
    D d = make_data<D>((long)id + 1);
    E e(d, p.t);
    p.begin = ++tick;
    auto r = p.stamped ? (*ws[p.writer])->push(e) : (*ws[p.writer])->push_all(e);
    p.end = ++tick;
    p.overflow = r == b->BUFFER_OVERFLOW;
    CHECK(p.overflow || r == b->OK, "push returned %d", (int)r);
    p.t = e.getTime();
    p.done = true;
  };
  // what was pushed before, one after the other
  size_t pre = g.chance(1, 2) ? g.below(N + 3) : 0;
  unsigned seqs[8] = {0};
  size_t who = bulk ? 1 : g.below(nw);
  SAY("N=%zu, %zu writers, %s, %zu pushes before\n", (size_t)N, nw,
      stamp_mode == 0 ? "stamping" : stamp_mode == 1 ? "not stamping" : "mixed", pre);
  for (size_t i = 0; i < pre; i++) {
    int w = (int)(g.chance(1, 3) ? g.below(nw) : who);
    do_push(plan(w, seqs[w]++));
  }
  size_t before = np;
  std::vector<std::vector<size_t>> prog(nw);
  for (size_t w = 0; w < nw; w++) {
    size_t k = 1 + g.below(N <= 2 ? 6 : 5);
    if (bulk)
      k = w ? many : 1;
    while (k--)
      prog[w].push_back(plan((int)w, seqs[w]++));
    SAY("writer %zu: %zu pushes\n", w, prog[w].size());
  }
  std::vector<std::function<void()>> fs;
  for (size_t w = 0; w < nw; w++)
    fs.push_back([&, w]() {
      for (size_t id : prog[w])
        do_push(id);
    });
  fib::once = bulk;
#ifdef UNCOUNTED
  fib::watch(b.p, sizeof(B));
#endif
  fib::run(g, fs, 60000 + 200 * many);
  uint64_t sw = fib::switches();
  pbt::count("scheduling points", fib::points());
  pbt::count("preemptions", sw);
  size_t conc = np;
#ifdef UNCOUNTED
  // On this platform the state is replaced without a counter (known_findings.txt):
  // what follows when that happens is judged by a suite of its own.
  if (fib::unnoticed) {
    pbt::label("a state replaced unnoticed");
#if UNCOUNTED == 2
    size_t want = np < N ? np : N, ov = 0;
    for (size_t q = 0; q < np; q++)
      ov += ps[q].overflow;
    bool lost = b->length() != want || ov != np - want;
    CHECK(!lost, "a writer put its state in place of another one that two or more pushes had "
          "come back to unnoticed: events are lost");
#endif
    fib::armed = false;
    return;
  }
#endif
  SAY("%llu preemptions\n", (unsigned long long)sw);
  auto verify = [&](const char *when) {
    size_t want = np < N ? np : N;
    CHECK(b->length() == want, "%s: length %zu with %zu pushes into %zu", when,
          b->length(), np, (size_t)N);
    size_t bo, to;
    b->state(bo, to);
    CHECK(bo <= N && to <= N, "%s: slots %zu..%zu", when, bo, to);
    std::vector<size_t> held;
    std::vector<bool> there(np, false);
    timespan lt = 0;
    for (size_t i = 0; i < want; i++) {
      E e;
      b->read(e, (bo + i) % (N + 1));
      long id = id_of(e.getData()) - 1;
      CHECK(id >= 0 && (size_t)id < np, "%s: held event %zu is none that was pushed "
            "(torn or never stored)", when, i);
      CHECK(e.getTime() == ps[id].t, "%s: held event %ld has time %ld instead of %ld",
            when, id, (long)e.getTime(), (long)ps[id].t);
      CHECK(!there[id], "%s: push %ld is held twice", when, id);
      there[id] = true;
      held.push_back((size_t)id);
      if (stamp_mode == 0) {
        CHECK(i == 0 || lt <= e.getTime(),
              "%s: stamps decrease from %ld to %ld at held event %zu", when, (long)lt,
              (long)e.getTime(), i);
        lt = e.getTime();
      }
    }
    for (size_t i = 0; i < held.size(); i++)
      for (size_t j = i + 1; j < held.size(); j++) {
        Push &x = ps[held[i]], &y = ps[held[j]];
        CHECK(x.writer != y.writer || x.seq < y.seq,
              "%s: pushes of writer %d are held out of order", when, x.writer);
        CHECK(x.begin < y.end, "%s: push %zu is held before push %zu, which was over "
              "before it began", when, held[i], held[j]);
      }
    // whatever is held, everything its writer (or anyone, strictly later) pushed
    // after it is held too
    for (size_t h : held)
      for (size_t q = 0; q < np; q++) {
        bool later = (ps[q].writer == ps[h].writer && ps[q].seq > ps[h].seq) ||
                     ps[q].begin > ps[h].end;
        if (later && !there[q])
          pbt::fail("%s: push %zu is held but the later push %zu is not", when, h, q);
      }
    size_t ov = 0;
    for (size_t q = 0; q < np; q++)
      ov += ps[q].overflow;
    CHECK(ov == np - want, "%s: %zu pushes reported overflow, %zu events were "
          "discarded", when, ov, np - want);
  };
  for (size_t i = 0; i < np; i++)
    CHECK(ps[i].done, "push %zu never returned", i);
  verify("after the concurrent pushes");
  // and everything still works
  size_t more = g.below(N + 2);
  for (size_t i = 0; i < more; i++) {
    int w = (int)g.below(nw);
    do_push(plan(w, seqs[w]++));
  }
  verify("after further pushes");
  fib::armed = false;
  if (conc - before > N)
    pbt::label("more concurrent pushes than capacity");
  if (nw > 2)
    pbt::label("three or more writers");
  if (sw >= 4)
    pbt::label("four or more preemptions");
  if (stamp_mode == 0)
    pbt::label("all stamped");
  if (sw >= 1)
    pbt::nontrivial();
}

static void prop(Src &g) {
  if (g.chance(1, 1000))
    return run<int, 300>(g);
  switch (g.weighted({4, 5, 5, 5, 3, 2})) {
  case 0: return run<int, 1>(g);
  case 1: return run<long, 2>(g);
  case 2: return run<Wide, 2>(g);
  case 3: return run<int, 3>(g);
  case 4: return run<Wide, 4>(g);
  default: return run<long, 9>(g);
  }
}
const pbt::Suite pbt::suite = {
    "C05", SUITE("writers"),
    "2-4 writers with 1-6 pushes each (stamping or not) after a random prefill, run "
    "as fibers preempted at shared-memory accesses drawn with the case (few or many "
    "preemptions); final content, order, stamps, overflow reports and completion "
    "checked; non-trivial: at least one preemption between two runnable writers",
    prop, 4000000, 80000000, 400000000, true};
