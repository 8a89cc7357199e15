// C23: a task or monitor gets the thread it was constructed for.
#include "monlib.h"
#include <climits>

struct Spec {
  bool mon, full;
  int policy, priority;
  useconds_t period;
  unsigned name; // index
  unsigned execs;
};
struct Seen {
  unsigned runs;
  int thread; // that executed it, -1: none
  bool mixed; // by several threads
};
static Seen *seen; // heap: no scheduling points
static Spec *specs;
UNSEEN static bool body(int m) {
  Seen &s = seen[m];
  int me = fib::self();
  if (s.runs && s.thread != me)
    s.mixed = true;
  s.thread = me;
  SAY("  %d is executed by thread %d\n", m, me);
  return ++s.runs >= specs[m].execs;
}

struct Any {
  virtual ~Any() {}
  virtual void enable_() = 0;
  virtual void join_() = 0;
  virtual useconds_t period_() = 0;
  virtual void names_(int m) = 0;
};
static void name_is(const char *id, const char *want, int m) {
  CHECK(strcmp(id, want) == 0, "the id of %d is \"%.20s\" instead of \"%s\"", m, id, want);
}
template <char... n> struct AMon : RTML_monitor<n...>, Any {
  typedef RTML_monitor<n...> B;
  int m;
  AMon(useconds_t p, int m_) : B(p), m(m_) {}
  AMon(useconds_t p, unsigned pol, unsigned pri, int m_) : B(p, pol, pri), m(m_) {}
  void run() {
    if (body(m))
      B::disable();
  }
  void enable_() { B::enable(); }
  void join_() { CHECK(B::join() == 0, "join failed"); }
  useconds_t period_() { return B::getPeriod(); }
  void names_(int m) {
    const char want[] = {n..., 0};
    name_is(B::id, want, m);
  }
};
struct ATask : Any {
  int m;
  const char *name;
  task t;
  static void *job(void *p) {
    ATask *me = (ATask *)p;
    if (body(me->m))
      me->t.st = ABORT;
    return nullptr;
  }
  ATask(const Spec &s, int m_, const char *n)
      : m(m_), name(n), t(n, job, s.priority, s.policy, s.period, this) {}
  void enable_() { t.st = ACTIVATE; }
  void join_() {
    void *r;
    CHECK(pthread_join(t.thread, &r) == 0, "join failed");
  }
  useconds_t period_() { return t.period; }
  void names_(int m) {
    name_is(t.tid, name, m);
    CHECK(t.sched_policy == specs[m].policy && t.priority == specs[m].priority,
          "task %d keeps policy %d, priority %d", m, t.sched_policy, t.priority);
  }
};
struct Holder {
  void *mem;
  Any *a;
  size_t n;
};
#define Q8 'q', 'u', (char)0xc3, (char)0xa4, ' ', 'A', '\n', '8'
static const size_t ROOM = 1024;
template <class T, class... A> static void make(Holder &h, A... a) {
  static_assert(sizeof(T) <= ROOM, "");
  h.n = sizeof(T);
  fib::share(h.mem, sizeof(T));
  h.a = new (h.mem) T(a...);
}
template <char... n> static void monitor(Holder &h, const Spec &s, int m) {
  if (s.full)
    make<AMon<n...>>(h, s.period, (unsigned)s.policy, (unsigned)s.priority, m);
  else
    make<AMon<n...>>(h, s.period, m);
}
static const char *const task_names[] = {"", "a", "task", "monitor of the engine"};

static void prop(Src &g) {
  fib::reset(g);
  fib::armed = true;
  fib::now_ns = 1700000000000000000ll;
  fib::clock_tick = 1;
  if (g.chance(1, 2))
    fib::preempt = false;
  unsigned n = 1 + (unsigned)g.below(g.chance(1, 10) ? 14 : 7);
  std::vector<Spec> sp(n);
  std::vector<Seen> sn(n);
  specs = sp.data();
  seen = sn.data();
  unsigned fulls = 0;
  unsigned char fill = g.pick<unsigned char>({0, 0x5a, 0xff});
  for (unsigned m = 0; m < n; m++) {
    Spec &s = sp[m];
    s.mon = g.chance(2, 3);
    s.full = !s.mon || g.chance(3, 4);
    s.policy = g.pick({SCHED_FIFO, SCHED_RR, SCHED_OTHER});
    s.priority = s.policy == SCHED_OTHER ? 0 : (int)g.range(1, 99);
    s.period = (useconds_t)(g.chance(1, 2) ? 1 + g.below(5000) : 1 + g.below(4294967295u));
    s.name = (unsigned)g.below(8);
    s.execs = 1 + (unsigned)g.below(g.chance(1, 50) ? 300 : 3);
    sn[m] = {0, -1, false};
    fulls += s.full;
    if (s.full)
      SAY("%s %u: policy %d, priority %d, period %u us, name %u\n", s.mon ? "monitor" : "task", m,
          s.policy, s.priority, s.period, s.name);
    else
      SAY("monitor %u: period %u us, name %u\n", m, s.period, s.name);
  }
  std::vector<Holder> h(n);
  std::vector<std::pair<unsigned, fib::Created>> asked(n); // thread index
  std::vector<std::function<void()>> fs;
  fs.push_back([&]() {
    for (unsigned m = 0; m < n; m++) {
      Spec &s = sp[m];
      h[m].mem = ::operator new(ROOM, std::align_val_t(64));
      memset(h[m].mem, fill, ROOM);
      uint64_t before = fib::threads_created;
      if (s.mon)
        switch (s.name) {
        case 0: monitor<>(h[m], s, (int)m); break;
        case 1: monitor<'m'>(h[m], s, (int)m); break;
        case 2: monitor<'m', 'o', 'n', '1'>(h[m], s, (int)m); break;
        case 3: monitor<'m', 'o', 'n', '1', '2'>(h[m], s, (int)m); break;
        case 5: monitor<'m', 'o', 'n', 'i', 't', 'o', 'r', '_', 'o', 'f', '_', 't', 'h', 'e', '_', '%', '1'>(h[m], s, (int)m); break;
        case 6: monitor<Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, 'x'>(h[m], s, (int)m); break;
        case 7: monitor<Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8, Q8>(h[m], s, (int)m); break;
        default: monitor<'f', 'u', 'e', 'l', ' ', 'p', 'u', 'm', 'p'>(h[m], s, (int)m); break;
        }
      else
        make<ATask>(h[m], s, (int)m, task_names[s.name % 4]);
      CHECK(fib::threads_created == before + 1, "constructing %u created %llu threads", m,
            (unsigned long long)(fib::threads_created - before));
      asked[m] = {(unsigned)fib::threads_created, fib::created[fib::threads_created]};
    }
    for (unsigned m = 0; m < n; m++) {
      h[m].a->names_((int)m);
      CHECK(h[m].a->period_() == sp[m].period, "the period of %u is %u", m, h[m].a->period_());
    }
    for (unsigned m = 0; m < n; m++)
      h[m].a->enable_();
    for (unsigned m = 0; m < n; m++) {
      h[m].a->join_();
      h[m].a->names_((int)m);
    }
  });
  fib::run(g, fs, 1000000);
  fib::armed = false;
  for (unsigned m = 0; m < n; m++) {
    Spec &s = sp[m];
    fib::Created &c = asked[m].second;
    const char *what = s.mon ? "monitor" : "task";
#ifndef EFFECTIVE
    CHECK(c.detach == PTHREAD_CREATE_JOINABLE, "the thread of %s %u cannot be joined", what, m);
    CHECK(c.stack >= (size_t)PTHREAD_STACK_MIN, "the thread of %s %u has a stack of %zu bytes", what,
          m, c.stack);
    if (s.full)
      CHECK(c.policy == s.policy && c.priority == s.priority,
            "the thread of %s %u is created with policy %d, priority %d instead of %d, %d", what, m,
            c.policy, c.priority, s.policy, s.priority);
    else
      CHECK(c.priority >= sched_get_priority_min(c.policy) &&
                c.priority <= sched_get_priority_max(c.policy),
            "the thread of monitor %u is created with policy %d and priority %d", m, c.policy,
            c.priority);
    CHECK(sn[m].runs == s.execs && !sn[m].mixed && sn[m].thread == (int)asked[m].first,
          "%s %u: %u of %u executions, by thread %d", what, m, sn[m].runs, s.execs, sn[m].thread);
#else
    if (s.full && s.policy != SCHED_OTHER)
      CHECK(c.inherit == PTHREAD_EXPLICIT_SCHED, "the thread of a %s with a policy and priority of "
            "its own inherits those of its creator", what);
#endif
  }
  for (unsigned m = 0; m < n; m++) {
    if (!sp[m].mon)
      ((ATask *)h[m].mem)->~ATask();
    ::operator delete(h[m].mem, std::align_val_t(64));
  }
  if (fib::switches())
    pbt::label("preempted");
  if (n > 3)
    pbt::label("more than three at once");
  if (n > 1 && fulls)
    pbt::nontrivial();
  seen = nullptr;
  specs = nullptr;
}
const pbt::Suite pbt::suite = {
    "C23", SUITE("threads"),
    "one to seven tasks and monitors with drawn policies, priorities, periods, names and "
    "payloads, constructed in memory of any content, their threads' attributes recorded and "
    "their executions attributed to threads; non-trivial: several at once, one of them with a "
    "policy and priority of its own",
    prop, 1500000, 20000000, 60000000, true};
