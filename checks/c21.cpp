// C21: a running monitor reports the verdict of what the instrumented system did.
// Monitors as rmtld3synth generates them (synchronize, set, evaluate) run
// periodically while producers push; every verdict they compute, and those other
// threads read, are judged against the reference verdict of the pushed events.
#include "monlib.h"
#define EVALS_FIBERS
#define BOUND_0 1
#define BOUND_1 3
#define BOUND_2 9
#define BOUND_3 22
#define BOUND_4 100
#define BOUND_5 1000
#define BOUND_6 3000
#define BOUND_7 10000
#define BOUND_8 200000
#define BOUND_9 4000000000l
#include "evals.h"

struct Push {
  int d;
  timespan t;
  uint64_t begin, end; // logical times, 0: not yet
};
struct Run { // one execution of a monitor
  uint64_t begin, end;
  int verdict;
};
struct Pushes {
  Push p[256];
  size_t n;
  uint64_t tick;
  size_t done;
  ns_t last_end;
} static *const pushes = new Pushes;
struct Runs {
  Run r[4096];
  size_t n;
} static *const runs = new Runs[2];

UNSEEN static size_t push_begin(int d, timespan t) {
  if (pushes->n >= 256)
    pbt::fail("harness: too many pushes");
  pushes->p[pushes->n] = {d, t, ++pushes->tick, 0};
  return pushes->n++;
}
UNSEEN static void push_end(size_t i, timespan t, int w) {
  Push &p = pushes->p[i];
  p.t = t;
  p.end = ++pushes->tick;
  pushes->done++;
  pushes->last_end = fib::now_ns;
  SAY("  %lld ns: producer %d pushed (p%d,%ld)\n", (long long)fib::now_ns, w, p.d, (long)t);
}
UNSEEN static size_t pushes_done() { return pushes->done; }
UNSEEN static ns_t last_push() { return pushes->last_end; }
static ns_t *const last_run_ = new ns_t;
UNSEEN static ns_t last_run() { return *last_run_; }
UNSEEN static uint64_t begins() {
  *last_run_ = fib::now_ns;
  return ++pushes->tick;
}
UNSEEN static uint64_t now_tick() { return ++pushes->tick; }
UNSEEN static void ran(int m, uint64_t begin, int verdict) {
  if (runs[m].n >= 4096)
    pbt::fail("harness: too many executions");
  runs[m].r[runs[m].n++] = {begin, ++pushes->tick, verdict};
  SAY("  %lld ns: monitor %d: %s\n", (long long)fib::now_ns, m, tname(verdict));
}
UNSEEN static size_t runs_since(int m, uint64_t tick) {
  size_t k = 0;
  for (size_t i = 0; i < runs[m].n; i++)
    k += runs[m].r[i].begin > tick;
  return k;
}

template <class T> struct Mon : RTML_monitor<'c', 'o', 'r', 'r'> {
  T &trace;
  const Node *f;
  int m;
  three_valued_type out = T_UNKNOWN;
  timespan tzero;
  Mon(useconds_t p, T &t, const Node *f_, int m_, timespan z)
      : RTML_monitor(p, DEFAULT_SCHED, DEFAULT_PRIORITY), trace(t), f(f_), m(m_), tzero(z) {}
  void run() {
    uint64_t b = begins();
    timespan t = tzero;
    trace.synchronize();
    if (trace.set(t) == 0)
      out = lib_eval(trace, t, f);
    CHECK(t == tzero, "evaluation changed the time it was given");
    ran(m, b, tv(out));
  }
  three_valued_type &getVeredict() { return out; }
};

struct Step {
  ns_t wait;
  int d;
  timespan dt; // given times
};

template <size_t N> static void go(Src &g) {
  typedef Event<proposition> E;
  typedef RTML_buffer<E, N> B;
  typedef RTML_writer<B> W;
  typedef RTML_reader<B> R;
  typedef RMTLD3_reader<R> T;
  typedef Mon<T> M;
  fib::reset(g);
  fib::armed = true;
  pushes->n = pushes->done = 0;
  pushes->tick = 0;
  pushes->last_end = 0;
  *last_run_ = 0;
  runs[0].n = runs[1].n = 0;
  fib::now_ns = any_start(g);
  fib::clock_tick = g.chance(3, 4) ? 1 : 7;
  ns_t eps = 100 + 64 * fib::clock_tick;
  if (g.chance(1, 4)) {
    fib::spurious_num = 1;
    fib::spurious_den = 4;
  }
  bool stalls = g.chance(1, 5);
  static const useconds_t periods[] = {20, 50, 200, 3, 2000, 2000000};
  useconds_t p0 = periods[g.weighted({3, 3, 3, 2, 1, 1})];
  ns_t P = (ns_t)p0 * 1000;
  if (stalls) {
    fib::stall_max_ns = g.chance(1, 2) ? 3 * P : 300;
    fib::stall_den = 8;
  }
  if (g.chance(1, 6))
    fib::preempt = false;
  unsigned nw = 1 + (unsigned)g.chance(1, 3), nm = 1 + (unsigned)g.chance(1, 4);
  bool stamp = nw > 1 || g.chance(1, 2);
  timespan unit = g.chance(1, 2) ? 1 : g.chance(1, 2) ? 40 : 1100;
  unsigned nprops = 2 + (unsigned)g.below(2);
  size_t total = 0, room = N > 14 && (N < 100 || g.chance(1, 2)) ? 14 : N > 80 ? 80 : N;
  bool late_start = g.chance(1, 2);
  std::vector<std::vector<Step>> plan(nw);
  for (unsigned w = 0; w < nw; w++) {
    size_t n = nw == 1 ? 1 + g.below(room) : g.below(room / nw + 1);
    for (size_t i = 0; i < n; i++) {
      Step s;
      s.wait = 0;
      switch (g.weighted({3, 3, 2, 2, 6})) {
      case 0: break;
      case 4: s.wait = -(ns_t)g.below(20); break; // about the next execution's start
      case 1: s.wait = (ns_t)g.below(40); break;
      case 2: s.wait = (ns_t)g.below((uint64_t)P); break;
      default: s.wait = P + (ns_t)g.below((uint64_t)P); break;
      }
      if (i == 0 && late_start)
        s.wait = 210000 + P;
      s.d = (int)g.below(nprops);
      s.dt = (1 + (timespan)g.below(4)) * unit;
      plan[w].push_back(s);
    }
    total += n;
  }
  size_t pre = g.chance(1, 2) ? 0 : g.below(2 * N + 2); // pushed and taken out before
  std::vector<Pool> pools(nm);
  std::vector<Node *> fs(nm);
  std::vector<ns_t> start(nm), on(nm), offset(nm);
  std::vector<timespan> given0(nm);
  unsigned temporal = 0;
  for (unsigned m = 0; m < nm; m++) {
    Gen gen{pools[m], nprops};
    gen.even_bounds = true;
    bool fut = g.chance(3, 4), past = !fut || g.chance(1, 3), dur = g.chance(1, 4);
    unsigned f = fut ? 3 : 0, p = past ? 3 : 0;
    unsigned w[NOPS] = {2, 1, 3, 2, 2, 2 * f, f, f, f, f, f, 2 * p, p, p, p, dur ? 4u : 0u};
    memcpy(gen.ops, w, sizeof w);
    fs[m] = gen.formula(g, room > 34 ? 1 : (unsigned)g.weighted({0, 4, 4, 1}));
    temporal += gen.temporal;
    start[m] = g.chance(1, 2) ? 0 : (ns_t)g.below((uint64_t)(2 * P));
    on[m] = g.chance(1, 2) ? 0 : (ns_t)g.below((uint64_t)P);
    offset[m] = g.chance(1, 3) ? (ns_t)g.below(60) : (ns_t)g.below((uint64_t)(2 * P));
    if (late_start && g.chance(5, 6))
      offset[m] += 210000 + P + (g.chance(1, 2) ? (ns_t)g.below((uint64_t)(3 * P)) : 0);
    given0[m] = 10 + (timespan)g.below(12 * unit);
    SAY("monitor %u, period %u us: ", m, p0);
    show(fs[m]);
    SAY("\n");
  }
  Box<B> b(0xB7);
  fib::share(b.p, sizeof(B));
  { // earlier traffic, so that the events lie anywhere in the ring
    for (size_t i = 0; i < pre; i++) {
      E e((int)g.below(3), stamp ? 1 + (timespan)(i % 5) : 1 + (timespan)g.below(9));
      b->push(e);
      E x;
      b->pull(x);
    }
  }
  std::vector<std::unique_ptr<Box<W>>> ws;
  for (unsigned w = 0; w < nw; w++) {
    ws.emplace_back(new Box<W>(0xCD, *b));
    fib::share(ws[w]->p, sizeof(W));
  }
  std::vector<std::unique_ptr<Box<T>>> ts;
  for (unsigned m = 0; m < nm; m++)
    ts.emplace_back(new Box<T>(0x3C, *b));
  std::vector<std::unique_ptr<Raw<M>>> ms(nm);
  std::vector<std::function<void()>> fibers;
  std::vector<timespan> zero(nm);
  std::vector<std::vector<int>> reads(nm);
  std::vector<int> last(nm);
  timespan gt = 10;
  fibers.push_back([&]() {
    for (unsigned m = 0; m < nm; m++) {
      if (start[m])
        fib::sleep_until(fib::now_ns + start[m]);
      zero[m] = stamp ? clockgettime() + (timespan)offset[m] : given0[m];
      ms[m].reset(new Raw<M>(0x5a));
      fib::share(ms[m]->p, sizeof(M));
      new (ms[m]->p) M(p0, **ts[m], fs[m], (int)m, zero[m]);
      ms[m]->made = true;
      SAY("  %lld ns: monitor %u made, evaluates at %ld\n", (long long)fib::now_ns, m, (long)zero[m]);
      if (on[m])
        fib::sleep_until(fib::now_ns + on[m]);
      ms[m]->p->enable();
    }
    while (pushes_done() < total) {
      fib::sleep_until(fib::now_ns + P / 2 + 1);
      for (unsigned m = 0; m < nm; m++)
        reads[m].push_back(tv(ms[m]->p->getVeredict()));
    }
    ns_t e = last_push();
    uint64_t t = now_tick();
    // the first job may be up to 10 ms after enabling (C17, C18)
    bool timed = !stalls;
    for (unsigned m = 0; m < nm; m++)
      if (!runs_since((int)m, 0))
        timed = false;
    if (timed)
      fib::sleep_until(std::max(e + P + eps, fib::now_ns));
    else
      for (unsigned m = 0; m < nm; m++)
        while (runs_since((int)m, t) < 1 || ms[m]->p->isRunning() == false)
          fib::sleep_until(fib::now_ns + P);
    if (timed)
      pbt::label("one period after the last push");
    for (unsigned m = 0; m < nm; m++)
      last[m] = tv(ms[m]->p->getVeredict());
    for (unsigned m = 0; m < nm; m++)
      ms[m]->p->disable();
    for (unsigned m = 0; m < nm; m++)
      CHECK(ms[m]->p->join() == 0, "join failed");
  });
  for (unsigned w = 0; w < nw; w++)
    fibers.push_back([&, w]() {
      for (auto &s : plan[w]) {
        if (s.wait < 0)
          fib::sleep_until(last_run() + P - s.wait - 10);
        if (s.wait > 0)
          fib::sleep_until(fib::now_ns + s.wait);
        timespan t = 0;
        if (!stamp)
          t = gt += s.dt;
        size_t i = push_begin(s.d, t);
        E e((proposition)s.d, t);
        auto r = stamp ? (*ws[w])->push(e) : (*ws[w])->push_all(e);
        CHECK(r == b->OK, "the push overran the buffer");
        push_end(i, e.getTime(), (int)w);
      }
    });
  fib::run(g, fibers, 20000000);
  fib::armed = false;

  // ---- judge -------------------------------------------------------------------
  std::vector<Push> ps(pushes->p, pushes->p + pushes->n);
  std::sort(ps.begin(), ps.end(), [](const Push &x, const Push &y) { return x.t < y.t; });
  std::vector<Ev> v;
  for (auto &p : ps)
    v.push_back({p.d, p.t});
  for (size_t i = 1; i < v.size(); i++)
    CHECK(v[i - 1].t < v[i].t, "harness: two events at %ld", (long)v[i].t);
  size_t concurrent = 0;
  bool late = false;
  for (unsigned m = 0; m < nm; m++) {
    timespan t = zero[m];
    // the reference verdict with the first n events
    std::vector<int> known(v.size() + 1, 2);
    auto verdict = [&](size_t n) {
      if (known[n] == 2) {
        std::vector<Ev> u(v.begin(), v.begin() + (long)n);
        size_t i = 0;
        while (i + 1 < n && !(u[i].t <= t && t < u[i + 1].t))
          i++;
        if (i + 1 >= n)
          known[n] = 0; // no event in force yet
        else {
          Ref ref(u);
          known[n] = ref.eval(fs[m], i, t);
        }
      }
      return known[n];
    };
    int whole = verdict(v.size());
    bool early = false;
    for (size_t k = 0; k < runs[m].n; k++) {
      Run &r = runs[m].r[k];
      size_t lo = 0, hi = 0;
      while (lo < ps.size() && ps[lo].end < r.begin)
        lo++;
      while (hi < ps.size() && ps[hi].begin < r.end)
        hi++;
      concurrent += hi > lo;
      bool ok = false;
      for (size_t n = lo; n <= hi && !ok; n++)
        ok = verdict(n) == r.verdict;
      CHECK(ok, "execution %zu of monitor %u: the verdict is %s, but with %zu to %zu events it is %s",
            k + 1, m, tname(r.verdict), lo, hi, tname(verdict(lo)));
      CHECK(r.verdict == 0 || r.verdict == whole, "execution %zu of monitor %u: %s is published, "
            "but the verdict of all %zu events is %s", k + 1, m, tname(r.verdict), v.size(), tname(whole));
      early |= r.verdict != 0 && lo < v.size();
    }
    int before = 0;
    for (int x : reads[m]) {
      CHECK(x == 0 || x == whole, "%s was published, but the verdict of the history is %s", tname(x), tname(whole));
      CHECK(before == 0 || x == before, "%s was published after %s", tname(x), tname(before));
      before = x;
    }
    CHECK(last[m] == whole, "a period after the last push monitor %u publishes %s, the verdict of "
          "the history is %s", m, tname(last[m]), tname(whole));
    if (early)
      pbt::label("definite while events still come");
    late |= early;
    pbt::label(tname(whole));
    pbt::count("executions", runs[m].n);
    for (auto &n : pools[m].n)
      if (n.op >= UNTIL)
        pbt::label(op_name[n.op]);
  }
  if (concurrent)
    pbt::label("evaluated while an event was pushed");
  pbt::count("executions concurrent with a push", concurrent);
  if (v.size() >= 50)
    pbt::label("50 events or more");
  if (nw > 1)
    pbt::label("two producers");
  if (nm > 1)
    pbt::label("two monitors");
  if (temporal && (late || concurrent) && v.size() >= 3)
    pbt::nontrivial();
}
static void prop_(Src &g) {
  switch (g.weighted({32, 48, 32, 1})) {
  case 0: go<7>(g); break;
  case 1: go<16>(g); break;
  case 3: go<120>(g); break;
  default: go<34>(g); break;
  }
}
const pbt::Suite pbt::suite = {
    "C21", SUITE("monitoring"),
    "one or two producers pushing at random virtual times while one or two monitors "
    "synchronise, position their trace and evaluate random formulas, under random schedules, "
    "spurious wake-ups and stalls; every verdict computed and read is compared with the "
    "reference verdict of the pushed events; non-trivial: a temporal formula, three or more "
    "events, and an evaluation concurrent with a push or definite before the last one",
    prop_, 2000000, 40000000, 60000000, true};
