// C17: monitors run only between enable and disable, and always stop on request.
// The program and the monitors' threads are fibers preempted at any access to the
// monitors' memory, under a virtual clock.
#include "monlib.h"

struct Plan { // what a body does
  ns_t exec = 0;
  int self_disable_at = -1; // the execution that disables its own monitor
  bool enables = false;     // calls enable() itself
  bool queries = false;
  int other = -1, other_op = 0, other_at = 0; // the monitor whose lifecycle it drives
};
struct Mon;
static Mon **all_mons; // set when all are created
struct Mon : RTML_monitor<'t', 'e', 's', 't'> {
  int me;
  Plan plan;
  int runs = 0;
  Mon(useconds_t p, int me_, Plan pl) : RTML_monitor(p), me(me_), plan(pl) {}
  Mon(useconds_t p, unsigned pol, unsigned pri, int me_, Plan pl)
      : RTML_monitor(p, pol, pri), me(me_), plan(pl) {}
  void do_enable() {
    note(ENABLE0, me);
    int r = enable();
    note(ENABLE1, me);
    CHECK(r == P_OK, "enable returned %d", r);
  }
  void do_disable() {
    note(DISABLE0, me);
    int r = disable();
    note(DISABLE1, me);
    CHECK(r == P_OK, "disable returned %d", r);
  }
  void do_query() {
    note(QUERY0, me);
    bool r = isRunning();
    note(QUERY1, me, r);
  }
  void do_join() {
    note(JOIN0, me);
    int r = join();
    note(JOIN1, me);
    CHECK(r == 0, "join returned %d", r);
  }

protected:
  void run() {
    note(BODY0, me);
    int k = runs++;
    if (plan.queries && k < 3)
      do_query();
    if (plan.enables && k < 3)
      do_enable();
    if (plan.exec)
      fib::sleep_until(fib::now_ns + plan.exec);
    if (k == plan.self_disable_at)
      do_disable();
    if (plan.other >= 0 && k == plan.other_at && all_mons) {
      Mon *o = all_mons[plan.other];
      switch (plan.other_op) {
      case 1: o->do_enable(); break;
      case 2: o->do_disable(); break;
      default: o->do_query(); break;
      }
    }
    note(BODY1, me);
  }
};

struct Step {
  int op; // 0 wait 1 enable 2 disable 3 query 4 join
  int mon;
  ns_t d;
};

static ns_t periods[] = {1000, 500, 2000, 10000, 20000, 50};
static ns_t slow_periods[] = {1000000, 999999, 600000, 1500000};
static void prop(Src &g) {
  fib::reset(g);
  fib::armed = true;
  fib::clock_tick = 1;
  fib::now_ns = any_start(g);
  ns_t origin = fib::now_ns;
  notes.clear();
  unsigned nmon = 1 + (unsigned)g.weighted({4, 3, 1});
  switch (g.weighted({3, 2, 2, 1})) {
  case 0: break;
  case 1: fib::spurious_num = 1; fib::spurious_den = 4; break;
  case 2: fib::spurious_num = 3; fib::spurious_den = 4; break;
  default: fib::spurious_num = 1; fib::spurious_den = 30; break;
  }
  if (g.chance(1, 2)) {
    fib::stall_den = 1 + (unsigned)g.below(6);
    fib::stall_max_ns = g.chance(1, 2) ? 300000 : g.chance(1, 2) ? 5 * MS : 60 * MS;
  }
  struct Conf {
    useconds_t p;
    Plan plan;
    bool three;
    unsigned char fill;
    bool late; // created by the program later
  };
  std::vector<Conf> cf;
  bool slow = g.chance(1, 40); // periods of seconds
  ns_t pmax = 0, pmin = INT64_MAX, emax = 0;
  for (unsigned i = 0; i < nmon; i++) {
    Conf c;
    c.p = (useconds_t)(slow ? slow_periods[g.below(4)] : periods[g.weighted({4, 2, 2, 2, 1, 1})]);
    ns_t p = c.p * 1000ll;
    switch (g.weighted({5, 2, 1, 1})) {
    case 0: break;
    case 1: c.plan.exec = p / 2; break;
    case 2: c.plan.exec = p + p / 3; break;
    default: c.plan.exec = 1 + (ns_t)g.below((uint64_t)p); break;
    }
    if (g.chance(1, 6))
      c.plan.self_disable_at = (int)g.below(3);
    c.plan.enables = g.chance(1, 6);
    c.plan.queries = g.chance(1, 6);
    if (nmon > 1 && g.chance(1, 5)) {
      c.plan.other = (int)g.below(nmon);
      c.plan.other_op = (int)g.range(1, 3);
      c.plan.other_at = (int)g.below(3);
    }
    c.three = g.chance(1, 3);
    c.fill = g.chance(1, 3) ? 0 : (unsigned char)g.pick({1, 2, 4, 5, 0xa5, 0xff});
    cf.push_back(c);
    pmax = std::max(pmax, p);
    pmin = std::min(pmin, p);
    emax = std::max(emax, c.plan.exec);
    SAY("monitor %u: period %u us, execution %lld ns%s%s, memory filled with %d\n", i, c.p,
        (long long)c.plan.exec, c.plan.self_disable_at >= 0 ? ", disables itself" : "",
        c.plan.enables ? ", enables itself" : "", c.fill);
  }
  // threads of the program: the first creates the monitors and finally disables
  // and joins all of them
  ns_t unit = std::max<ns_t>(pmin, 50000);
  auto steps = [&](unsigned max) {
    std::vector<Step> v;
    for (unsigned n = (unsigned)g.below(max + 1); n; n--) {
      Step s = {(int)g.weighted({5, 4, 2, 4}), (int)g.below(nmon), 0};
      if (s.op == 0) {
        switch (g.weighted({3, 3, 2, 2})) {
        case 0: s.d = (ns_t)g.below(200000); break;
        case 1: s.d = (ns_t)g.below((uint64_t)(3 * unit)); break;
        case 2: s.d = 11 * MS + (ns_t)g.below((uint64_t)(2 * unit)); break;
        default: s.d = unit * (ns_t)g.below(slow ? 3 : 12); break;
        }
      }
      v.push_back(s);
    }
    return v;
  };
  std::vector<Step> mainsteps, other;
  for (unsigned i = 0; i < nmon; i++)
    if (g.chance(1, 2))
      mainsteps.push_back({1, (int)i, 0});
  if (g.chance(1, 3))
    mainsteps.push_back({0, 0, 11 * MS + (ns_t)g.below((uint64_t)(8 * unit))});
  for (auto &s : steps(10))
    mainsteps.push_back(s);
  if (g.chance(1, 100)) // very long before it is enabled
    mainsteps.insert(mainsteps.begin(), {0, 0, (ns_t)g.below((g.chance(1, 10) ? 9000 : 2000) * MS)});
  if (g.chance(1, 60)) // executed many times
    mainsteps.push_back({0, 0, pmin * (ns_t)g.below(slow ? 4 : 400)});
  if (g.chance(1, 60) && fib::stall_max_ns <= 5 * MS) { // enabled many times
    Step s = {1, (int)g.below(nmon), 0};
    mainsteps.insert(mainsteps.begin() + (long)g.below(mainsteps.size() + 1), 2 + g.below(300), s);
  }
  bool second = g.chance(1, 3);
  if (second)
    other = steps(6);
  bool rejoin_order = g.chance(1, 2);
  bool disable_first = g.chance(1, 2); // all disabled before the first is joined
  std::vector<std::unique_ptr<Raw<Mon>>> ms(nmon);
  all_mons = nullptr;
  static Mon **const mp = new Mon *[4]; // heap: no scheduling points
  bool created = false, stop = false;
  bool other_done = !second;
  std::vector<bool> abandoned(nmon, false);
  auto perform = [&](const Step &s) {
    Mon &m = *ms[s.mon]->p;
    switch (s.op) {
    case 0:
      SAY("  %lld ns: wait %lld ns\n", (long long)fib::now_ns, (long long)s.d);
      fib::sleep_until(fib::now_ns + s.d);
      break;
    case 1: m.do_enable(); break;
    case 2: m.do_disable(); break;
    case 3: m.do_query(); break;
    }
  };
  std::vector<std::function<void()>> fs;
  auto exec_of = [&](unsigned i) { return cf[i].plan.exec; };
  fs.push_back([&]() {
    for (unsigned i = 0; i < nmon; i++) {
      auto &c = cf[i];
      // the memory first, so that the construction itself is preempted
      auto &slot = ms[i];
      slot.reset(new Raw<Mon>(c.fill));
      fib::share(slot->p, sizeof(Mon));
      if (c.three)
        new (slot->p) Mon(c.p, (unsigned)SCHED_FIFO, 50u, (int)i, c.plan);
      else
        new (slot->p) Mon(c.p, (int)i, c.plan);
      slot->made = true;
    }
    for (unsigned i = 0; i < nmon; i++)
      mp[i] = ms[i]->p;
    all_mons = mp;
    created = true;
    for (auto &s : mainsteps)
      perform(s);
    while (!other_done)
      fib::sleep_until(fib::now_ns + 100000);
    auto finish = [&](unsigned i) {
      // long enough for a body in progress, a last execution and a period's wait
      ns_t limit = fib::now_ns + cf[i].p * 1000ll + 2 * exec_of(i) + 20 * MS;
      (void)limit;
      ms[i]->p->do_join();
    };
    std::vector<unsigned> order;
    for (unsigned i = 0; i < nmon; i++)
      order.push_back(rejoin_order ? nmon - 1 - i : i);
    fib::idle_limit_ns = fib::now_ns + 4 * pmax + 4 * emax + 3 * 64 * 60 * MS + 1000 * MS;
    if (disable_first)
      for (unsigned i : order)
        ms[i]->p->do_disable();
    for (unsigned i : order) {
      if (!disable_first)
        ms[i]->p->do_disable();
      fib::idle_limit_ns = fib::now_ns + 4 * pmax + 4 * emax + 3 * 64 * 60 * MS + 1000 * MS;
      finish(i);
      ms[i]->p->do_query();
    }
    fib::idle_limit_ns = INT64_MAX;
    fib::sleep_until(fib::now_ns + 3 * pmax + emax);
    for (unsigned i = 0; i < nmon; i++)
      ms[i]->p->do_query();
    stop = true;
  });
  if (second)
    fs.push_back([&]() {
      while (!created)
        fib::sleep_until(fib::now_ns + 50000);
      for (auto &s : other)
        perform(s);
      other_done = true;
    });
  fib::run(g, fs, 12000000);
  fib::armed = false;
  (void)stop;
  (void)origin;

  // ---- judge -------------------------------------------------------------------
  bool ran = false, raced = false;
  for (unsigned i = 0; i < nmon; i++) {
    ns_t p = cf[i].p * 1000ll, m = std::max(p, cf[i].plan.exec);
    long enable0 = -1, enable1 = -1, disable0 = -1, disable1 = -1, join1 = -1;
    unsigned starts = 0, after_disable = 0;
    bool in_body = false;
    std::vector<long> qstart; // isRunning calls in progress (per thread at most one; nested order)
    for (long k = 0; k < (long)notes.size(); k++) {
      Note &n = notes[k];
      if (n.mon != (int)i)
        continue;
      switch (n.w) {
      case ENABLE0: if (enable0 < 0) enable0 = k; break;
      case ENABLE1:
        // enabled unless it had been disabled before
        if (enable1 < 0)
          enable1 = k;
        break;
      case DISABLE0: if (disable0 < 0) disable0 = k; break;
      case DISABLE1: if (disable1 < 0) disable1 = k; break;
      case JOIN0: break;
      case JOIN1: join1 = k; break;
      case BODY0:
        CHECK(enable0 >= 0, "monitor %u is executed although it was never enabled", i);
        CHECK(join1 < 0, "monitor %u is executed after join returned", i);
        CHECK(!in_body, "monitor %u is executed twice at once", i);
        in_body = true;
        starts++;
        if (disable1 >= 0)
          after_disable++;
        CHECK(after_disable <= 1, "%u executions of monitor %u began after it was disabled",
              after_disable, i);
        ran = true;
        break;
      case BODY1: in_body = false; break;
      case QUERY0:
        break;
      case QUERY1: {
        // its call began at the last QUERY0 of this monitor not yet answered: take the
        // earliest pending one (the weaker claim)
        long q = k;
        int open = 0;
        for (long z = k - 1; z >= 0; z--)
          if (notes[z].mon == (int)i) {
            if (notes[z].w == QUERY1)
              open++;
            else if (notes[z].w == QUERY0) {
              q = z;
              if (open-- == 0)
                break;
            }
          }
        if (n.v) {
          CHECK(enable0 >= 0, "monitor %u is running although it was never enabled", i);
          CHECK(join1 < 0 || q < join1, "monitor %u is running after join returned", i);
        } else {
          bool due = enable1 >= 0 && (disable0 < 0) &&
                     notes[q].t >= notes[enable1].t + 10 * MS + notes[q].stall;
          CHECK(!due, "monitor %u is not running %lld ns after it was enabled", i,
                (long long)(notes[q].t - notes[enable1].t));
        }
        if (n.v && disable0 < 0)
          pbt::label("reported as running");
        break;
      }
      case SETP: break;
      }
      // periodic execution while enabled
      if (enable1 >= 0 && (disable0 < 0 || disable0 == k) && (enable0 <= enable1)) {
        ns_t since = n.t - notes[enable1].t - 10 * MS - n.stall;
        if (since > 0) {
          long want = since / m;
          unsigned have = starts + (n.w == BODY0 ? 0 : 0);
          CHECK((long)have >= want, "monitor %u was executed %u times in %lld ns since it was "
                "enabled (period %lld ns, execution %lld ns)", i, have,
                (long long)(n.t - notes[enable1].t), (long long)p, (long long)cf[i].plan.exec);
          if (want >= 3)
            pbt::label("three or more periods");
        }
      }
    }
    CHECK(!in_body, "an execution of monitor %u never ends", i);
    if (enable0 >= 0 && disable0 >= 0 && disable0 > enable0 &&
        notes[disable0].t - notes[enable0].t < 300000)
      pbt::label("disabled right after enabling");
    if (enable0 < 0)
      pbt::label("disabled without ever being enabled");
    if (disable0 >= 0 && enable0 > disable0)
      pbt::label("enabled after disabling");
    (void)raced;
  }
  if (fib::spurious)
    pbt::label("spurious wake-ups");
  if (nmon > 1)
    pbt::label("several monitors");
  if (all_stalls())
    pbt::label("stalled threads");
  unsigned sw = (unsigned)fib::switches();
  pbt::count("scheduling points", fib::points());
  pbt::count("body executions", ran ? std::count_if(notes.begin(), notes.end(), [](const Note &n) { return n.w == BODY0; }) : 0);
  if (ran && sw >= 1)
    pbt::nontrivial();
}
const pbt::Suite pbt::suite = {
    "C17", SUITE("lifecycle"),
    "random programs of one or two threads creating, enabling, disabling, querying and "
    "joining one to three monitors whose bodies may overrun, query, enable or disable "
    "themselves, random preemption at memory accesses, stalls and spurious wake-ups under a "
    "virtual clock; non-trivial: a body was executed and a thread was preempted",
    prop, 3000000, 60000000, 60000000, true};
