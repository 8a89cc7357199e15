// C18: jobs are released at a fixed rate without drift.
// Tasks and monitors run as fibers under a virtual clock that advances only while
// everything sleeps (and a little with every reading of the clock).
#include "monlib.h"

struct Job { // the k-th execution
  ns_t exec;
  useconds_t set; // 0: none
};
struct Set {
  useconds_t p;
  long begin, end; // in the log
};
struct Obs { // one task or monitor, observed
  std::vector<Job> plan;
  std::vector<Set> *sets; // reserved, never grows beyond
  unsigned setting, version;
  useconds_t last;
  int k;
};
static Obs *obs;

struct Periodic {
  virtual ~Periodic() {}
  virtual void enable_() = 0;
  virtual void disable_() = 0;
  virtual void join_() = 0;
  virtual void set_(useconds_t) = 0;
  virtual useconds_t get_() = 0;
};
UNSEEN static void set_begin(int m, useconds_t p) {
  obs[m].setting++;
  obs[m].version++;
  obs[m].sets->push_back({p, (long)notes.len, -1});
  note(SETP, m, (long)p);
  SAY("    to %u us\n", p);
}
UNSEEN static void set_end(int m, size_t i) {
  obs[m].setting--;
  obs[m].version++;
  note(SETP, m, -1);
  (*obs[m].sets)[i].end = (long)notes.len - 1;
  obs[m].last = (*obs[m].sets)[i].p;
}
UNSEEN static size_t nsets(int m) { return obs[m].sets->size(); }
UNSEEN static unsigned version(int m) { return obs[m].setting ? 0 : obs[m].version; }
UNSEEN static useconds_t last_set(int m) { return obs[m].last; }
static void do_set(Periodic &x, int m, useconds_t p) {
  size_t i = nsets(m);
  set_begin(m, p);
  x.set_(p);
  set_end(m, i);
}
static void do_get(Periodic &x, int m) {
  unsigned v = version(m);
  useconds_t want = last_set(m);
  useconds_t p = x.get_();
  if (v && v == version(m))
    CHECK(p == want, "the period is %u although %u was set last", p, want);
}
UNSEEN static int begin_job(int m, Job &j, bool &last) {
  int k = obs[m].k++;
  note(BODY0, m, k);
  last = k + 1 >= (int)obs[m].plan.size();
  j = k < (int)obs[m].plan.size() ? obs[m].plan[k] : Job{0, 0};
  return k;
}
static void job(Periodic &x, int m) {
  Job j;
  bool last;
  begin_job(m, j, last);
  if (j.exec)
    fib::sleep_until(fib::now_ns + j.exec);
  if (j.set)
    do_set(x, m, j.set);
  do_get(x, m);
  if (last)
    x.disable_();
  note(BODY1, m);
}

struct AMonitor : RTML_monitor<'r', 'a', 't', 'e'> {
  Periodic *me;
  int m;
  AMonitor(useconds_t p, int m_) : RTML_monitor(p), me(nullptr), m(m_) {}
  void run() { job(*me, m); }
};
struct OfMonitor : Periodic {
  AMonitor &x;
  OfMonitor(AMonitor &a) : x(a) { a.me = this; }
  void enable_() { x.enable(); }
  void disable_() { x.disable(); }
  void join_() { CHECK(x.join() == 0, "join failed"); }
  void set_(useconds_t p) { x.setPeriod(p); }
  useconds_t get_() { return x.getPeriod(); }
};
struct OfTask : Periodic {
  task *t = nullptr;
  int m;
  OfTask(int m_) : m(m_) {}
  static void *body(void *p) {
    OfTask *me = (OfTask *)p;
    job(*me, me->m);
    return nullptr;
  }
  void enable_() { t->st = ACTIVATE; }
  void disable_() { t->st = ABORT; }
  void join_() {
    void *r;
    CHECK(pthread_join(t->thread, &r) == 0, "join failed");
  }
  void set_(useconds_t p) { t->period = p; }
  useconds_t get_() { return t->period; }
};

static useconds_t any_period(Src &g) {
  switch (g.weighted({4, 3, 3, 2, 2, 1})) {
  case 0: return 1000;
  case 1: return (useconds_t)(10 + g.below(1000));
  case 2: return (useconds_t)(g.below(3000) * 1000 + 1);
  case 3: return 1000000 * (useconds_t)(1 + g.below(4)) + (useconds_t)g.below(3) - 1;
  case 4: return (useconds_t)(1 + g.below(30));
  default: return g.chance(1, 2) ? 4294967295u - (useconds_t)g.below(1000) : (useconds_t)(1 + g.below(4000000000u));
  }
}

static void prop(Src &g) {
  fib::reset(g);
  fib::armed = true;
  fib::now_ns = any_start(g);
  fib::clock_tick = g.weighted({2, 3, 1}) == 0 ? 0 : g.chance(4, 5) ? 1 : 17;
  notes.clear();
  switch (g.weighted({3, 2, 2, 1})) {
  case 0: break;
  case 1: fib::spurious_num = 1; fib::spurious_den = 4; break;
  case 2: fib::spurious_num = 3; fib::spurious_den = 4; break;
  default: fib::spurious_num = 1; fib::spurious_den = 30; break;
  }
  if (g.chance(1, 2))
    fib::preempt = false;
  ns_t eps = 100 + 64 * fib::clock_tick;
  unsigned nm = 1 + (unsigned)g.chance(1, 4);
  std::vector<Obs> os(nm);
  std::vector<std::vector<Set>> sets(nm);
  obs = os.data();
  std::vector<bool> mon(nm);
  std::vector<useconds_t> p0(nm);
  std::vector<ns_t> wait(nm);
  struct Mid { // set by the program, so long after enabling
    ns_t after;
    useconds_t p;
    int m;
  };
  std::vector<Mid> mids;
  for (unsigned m = 0; m < nm; m++) {
    p0[m] = any_period(g);
    mon[m] = g.chance(1, 2);
    wait[m] = (ns_t)(g.chance(1, 2) ? g.below(3 * MS) : 0);
    if (g.chance(1, 300)) // activated long after it was created
      wait[m] = (ns_t)g.below(3000 * MS);
    useconds_t p = p0[m];
    bool many = g.chance(1, 150); // a long history
    unsigned K = 2 + (unsigned)(many ? g.below(500) : g.below(20));
    unsigned backlog = g.chance(1, 10) ? 400 : 3; // periods an overrun may take
    SAY("%s %u: period %u us, %u executions:", mon[m] ? "monitor" : "task", m, p, K);
    unsigned style = (unsigned)g.weighted({2, 3, 3});
    for (unsigned k = 0; k < K; k++) {
      Job j = {0, 0};
      ns_t pn = (ns_t)p * 1000;
      switch (style) {
      case 0: break;
      case 1: // fits
        j.exec = g.chance(1, 3) ? pn - 1000 : (ns_t)g.below((uint64_t)pn * 9 / 10 + 1);
        break;
      default:
        j.exec = g.chance(1, 3) ? pn + (ns_t)g.below((uint64_t)pn * backlog) : g.chance(1, 2) ? 0 : (ns_t)g.below((uint64_t)pn);
        break;
      }
      if (j.exec < 0)
        j.exec = 0;
      if (g.chance(1, 8)) {
        j.set = g.chance(1, 2) ? any_period(g) : std::max<useconds_t>(1, p / 2 + (useconds_t)g.below((uint64_t)p));
        p = j.set;
      }
      SAY(" %lld", (long long)j.exec);
      if (j.set)
        SAY("(sets %u)", j.set);
      os[m].plan.push_back(j);
    }
    SAY("\n");
    sets[m].reserve(200);
    sets[m].push_back({p0[m], -1, -1});
    os[m].sets = &sets[m];
    os[m].setting = 0;
    os[m].version = 1;
    os[m].last = p0[m];
    os[m].k = 0;
    if (g.chance(1, 4))
      for (unsigned n = 1 + (unsigned)g.below(4); n; n--) {
        ns_t span = (ns_t)p0[m] * 1000 * (1 + (ns_t)g.below(6));
        mids.push_back({(ns_t)g.below((uint64_t)span), g.chance(1, 2) ? any_period(g) : std::max<useconds_t>(1, p0[m] / 2 + (useconds_t)g.below((uint64_t)p0[m])), (int)m});
      }
  }
  std::sort(mids.begin(), mids.end(), [](const Mid &a, const Mid &b) { return a.after < b.after; });
  bool set_before = g.chance(1, 5); // a change before enabling
  useconds_t pre = set_before ? any_period(g) : 0;
  std::vector<std::unique_ptr<Raw<AMonitor>>> ms(nm);
  std::vector<std::unique_ptr<Raw<task>>> ts(nm);
  std::vector<std::unique_ptr<Periodic>> ps(nm);
  std::vector<std::function<void()>> fs;
  fs.push_back([&]() {
    for (unsigned m = 0; m < nm; m++) {
      if (mon[m]) {
        ms[m].reset(new Raw<AMonitor>(0x5a));
        fib::share(ms[m]->p, sizeof(AMonitor));
        new (ms[m]->p) AMonitor(p0[m], (int)m);
        ms[m]->made = true;
        ps[m].reset(new OfMonitor(*ms[m]->p));
      } else {
        ts[m].reset(new Raw<task>(0x5a));
        fib::share(ts[m]->p, sizeof(task));
        OfTask *o = new OfTask((int)m);
        ps[m].reset(o);
        o->t = ts[m]->p;
        new (ts[m]->p) task("rate", OfTask::body, DEFAULT_PRIORITY, DEFAULT_SCHED, p0[m], o);
        ts[m]->made = true;
      }
    }
    for (unsigned m = 0; m < nm; m++) {
      do_get(*ps[m], (int)m);
      if (wait[m])
        fib::sleep_until(fib::now_ns + wait[m]);
      if (set_before && m == 0)
        do_set(*ps[m], (int)m, pre);
      note(ENABLE0, (int)m);
      ps[m]->enable_();
      note(ENABLE1, (int)m);
    }
    ns_t t0 = fib::now_ns;
    for (auto &x : mids) {
      if (t0 + x.after > fib::now_ns)
        fib::sleep_until(t0 + x.after);
      do_set(*ps[x.m], x.m, x.p);
      do_get(*ps[x.m], x.m);
    }
    for (unsigned m = 0; m < nm; m++)
      ps[m]->join_();
  });
  fib::run(g, fs, 1000000);
  fib::armed = false;

  // ---- judge -------------------------------------------------------------------
  bool interesting = false;
  for (unsigned m = 0; m < nm; m++) {
    ns_t e0 = 0, e1 = 0, prev_end = 0, lo = 0, hi = 0;
    long e0k = -1, prev_endk = -1;
    unsigned k = 0, overruns = 0, changed = 0;
    for (long i = 0; i < (long)notes.len; i++) {
      Note &n = notes[i];
      if (n.mon != (int)m)
        continue;
      if (n.w == ENABLE0) {
        e0 = n.t;
        e0k = i;
      } else if (n.w == ENABLE1)
        e1 = n.t;
      else if (n.w == BODY1) {
        prev_end = n.t;
        prev_endk = i;
      } else if (n.w == BODY0) {
        k++;
        // the periods this release may have been computed with
        long from = k == 1 ? e0k : prev_endk;
        std::vector<ns_t> cand;
        for (auto &s : sets[m]) {
          if (s.begin > i)
            continue;
          bool over = false;
          for (auto &q : sets[m])
            over |= q.begin > s.end && s.end >= -1 && q.end >= 0 && q.end < from && (&q != &s);
          if (!over)
            cand.push_back((ns_t)s.p * 1000);
        }
        bool ok = false;
        ns_t S = n.t;
        if (k == 1) {
          for (ns_t p : cand)
            if (S >= e0 + p && S <= std::max(e1, e0) + 10 * MS + p + eps)
              ok = true;
          CHECK(ok, "the first execution of %u starts %lld ns after its activation, the period "
                "is %lld ns", m, (long long)(S - e0), (long long)cand[0]);
          lo = S - eps;
          hi = S;
        } else {
          ns_t nlo = 0, nhi = 0;
          for (ns_t p : cand) {
            ns_t early = std::max(lo + p, prev_end), late = std::max(hi + p, prev_end) + eps;
            if (S >= early && S <= late) {
              ns_t a = lo + p, b = hi + p;
              if (S > prev_end + eps) { // it waited for its release
                a = std::max(a, S - eps);
                b = std::min(b, S);
              }
              nlo = ok ? std::min(nlo, a) : a;
              nhi = ok ? std::max(nhi, b) : b;
              ok = true;
            }
          }
          if (!ok) {
            ns_t p = cand[0];
            ns_t r = std::max(lo + p, prev_end);
            pbt::fail("execution %u of %u starts %lld ns %s its release (period %lld ns%s, the "
                      "preceding execution ended %lld ns before)", k, m,
                      (long long)(S < r ? r - S : S - std::max(hi + p, prev_end)), S < r ? "before" : "after",
                      (long long)p, cand.size() > 1 ? " or another" : "", (long long)(S - prev_end));
          }
          lo = nlo;
          hi = nhi;
          if (S <= prev_end + eps)
            overruns++;
        }
        if (cand.size() > 1)
          pbt::label("period changed during a wait");
      }
    }
    changed = (unsigned)sets[m].size() - 1;
    CHECK(k == os[m].plan.size(), "%u executions instead of %zu", k, os[m].plan.size());
    if (overruns)
      pbt::label("overruns");
    if (changed)
      pbt::label("period changed");
    if (p0[m] >= 1000000)
      pbt::label("period of a second or more");
    pbt::label(mon[m] ? "monitor" : "task");
    if (k >= 100)
      pbt::label("100 executions or more");
    if (k >= 4)
      interesting = true;
  }
  if (fib::spurious)
    pbt::label("spurious wake-ups");
  if (fib::switches())
    pbt::label("preempted");
  pbt::count("executions", (uint64_t)std::count_if(notes.begin(), notes.end(), [](const Note &n) { return n.w == BODY0; }));
  if (interesting)
    pbt::nontrivial();
  obs = nullptr;
}
const pbt::Suite pbt::suite = {
    "C18", SUITE("rate"),
    "tasks and monitors with random periods (microseconds to more than an hour), execution "
    "times (fitting and overrunning), period changes (by the job, during waits, before "
    "enabling) and spurious wake-ups under a virtual clock, start times compared with exact "
    "release times; non-trivial: four or more executions",
    prop, 2200000, 50000000, 60000000, true};
