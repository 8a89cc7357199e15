// C02: inspection is exact, free of side effects and stays inside the buffer.
// Twin runs: A is inspected between operations, B is not; both must answer the
// same.  A's inspections are compared with a logical model.  Built with ASan and
// the bounds sanitizer.
#include "seqlib.h"
#include "rmtld3/rmtld3.h"
#include "rmtld3/reader.h"

template <class D, size_t N> struct Twin {
  typedef Event<D> E;
  typedef RTML_buffer<E, N> B;
  typedef RTML_writer<B> W;
  typedef RTML_reader<B> R;
  typedef RMTLD3_reader<R> TR;
  Box<B> b;
  std::vector<std::unique_ptr<Box<W>>> w;
  std::vector<std::unique_ptr<Box<R>>> r;
  std::unique_ptr<Box<TR>> tr;
  Twin() : b(0x3C) {}
};

template <class D, size_t N> static void run(Src &g) {
  typedef Event<D> E;
  typedef Twin<D, N> T;
  Twin<D, N> A, B;
  std::deque<Rec<D>> m;
  bool known[N + 1];
  Rec<D> slot[N + 1];
  for (size_t i = 0; i <= N; i++)
    known[i] = false;
  bool direct = g.chance(1, 2); // direct pushes, or pushes through writers
  timespan clock = 1;
  SAY("N=%zu, %s pushes\n", (size_t)N, direct ? "direct" : "writer");
  bool held_insp = false, wrapped_insp = false, oob = false, overflow = false;
  unsigned attached = 0;
  auto attach = [&]() {
    A.w.emplace_back(new Box<typename T::W>(0x11, *A.b));
    B.w.emplace_back(new Box<typename T::W>(0x11, *B.b));
    attached++;
  };
  auto inspect = [&]() {
    switch (g.weighted({3, 3, 3, 2, 2, 2, 2, 1})) {
    case 0: {
      SAY("  A: length\n");
      size_t l = A.b->length();
      CHECK(l == m.size(), "length() is %zu with %zu events held", l, m.size());
      break;
    }
    case 1: { // state + slots
      SAY("  A: state and slots\n");
      size_t bo = 777777, to = 777777;
      auto e0 = A.b->state(bo, to);
      CHECK(e0 == A.b->OK, "state(b,t) returned %d", (int)e0);
      CHECK(bo <= N && to <= N, "state(b,t) reports slots %zu,%zu of 0..%zu", bo,
            to, (size_t)N);
      CHECK((to + N + 1 - bo) % (N + 1) == m.size(),
            "slots %zu..%zu for %zu held events", bo, to, m.size());
      size_t s = bo;
      for (size_t i = 0; i < m.size(); i++) {
        E e;
        auto rr = A.b->read(e, s);
        CHECK(rr == A.b->OK, "read of held slot %zu returned %d", s, (int)rr);
        CHECK(same(e, m[i]), "slot %zu holds time %ld, the %zu-th held event has "
              "time %ld (or other data)", s, (long)e.getTime(), i, (long)m[i].t);
        s = s == N ? 0 : s + 1;
      }
      if (m.size() > 1)
        held_insp = true;
      if (to < bo && to > 0)
        wrapped_insp = true;
      break;
    }
    case 2: { // state with timestamps
      SAY("  A: state with timestamps\n");
      size_t bo = 777777, to = 777777, b2, t2;
      timespanw ts = -3, tt = -3;
      auto e0 = A.b->state(bo, to, ts, tt);
      CHECK(e0 == A.b->OK, "state(b,t,ts,ts_t) returned %d", (int)e0);
      A.b->state(b2, t2);
      CHECK(bo == b2 && to == t2, "the two state() differ: (%zu,%zu) (%zu,%zu)",
            bo, to, b2, t2);
      CHECK((to + N + 1 - bo) % (N + 1) == m.size() && bo <= N && to <= N,
            "state(): slots %zu..%zu for %zu held events", bo, to, m.size());
      E eb, et;
      A.b->read(eb, bo);
      A.b->read(et, to);
      CHECK(ts == (timespanw)eb.getTime(),
            "bottom timestamp %lld, slot %zu has %lld", (long long)ts, bo,
            (long long)eb.getTime());
      CHECK(tt == (timespanw)et.getTime(),
            "top timestamp %lld, slot %zu has %lld", (long long)tt, to,
            (long long)et.getTime());
      if (!m.empty())
        CHECK(ts == (timespanw)m.front().t,
              "bottom timestamp %lld, oldest event %lld", (long long)ts,
              (long long)m.front().t);
      break;
    }
    case 3: { // read any slot
      size_t i;
      switch (g.weighted({4, 3, 2, 1})) {
      case 0: i = g.below(N + 1); break;
      case 1: i = N + g.below(4); break;
      case 2: i = (size_t)0 - 1 - g.below(3); break;
      default: i = g.bits() >> g.below(60); break;
      }
      SAY("  A: read slot %zu\n", i);
      D jd = make_data<D>(-5);
      E e(jd, (timespan)-12345);
      auto rr = A.b->read(e, i);
      if (i <= N) {
        CHECK(rr == A.b->OK, "read(%zu) of 0..%zu returned %d", i, (size_t)N,
              (int)rr);
        if (known[i])
          CHECK(same(e, slot[i]), "slot %zu does not hold what was written to it",
                i);
      } else {
        oob = true;
        CHECK(rr == A.b->OUT_OF_BOUND, "read(%zu) of 0..%zu returned %d", i,
              (size_t)N, (int)rr);
        CHECK(e.getTime() == (timespan)-12345 && e.getData() == jd, "the refused read(%zu) changed the event", i);
      }
      break;
    }
    case 4: // readers
      if (!A.r.empty()) {
        size_t i = g.below(A.r.size());
        SAY("  A: gap() and length() of reader %zu\n", i);
        auto &r = **A.r[i];
        auto g1 = r.gap();
        size_t l1 = r.length();
        auto g2 = r.gap();
        size_t l2 = r.length();
        CHECK(g1 == g2 && l1 == l2, "asking twice: gap %d/%d length %zu/%zu",
              (int)g1, (int)g2, l1, l2);
        if (g.chance(1, 3))
          r.debug();
      }
      break;
    case 5:
      SAY("  A: debug()\n");
      A.b->debug();
      break;
    case 6:
      if (A.tr) {
        SAY("  A: trace reader length/consumed/gap/debug\n");
        auto &t = **A.tr;
        size_t l = t.length(), c = t.consumed();
        t.gap();
        if (g.chance(1, 2))
          t.debug();
        t.get_cursor();
        CHECK(t.length() == l && t.consumed() == c,
              "asking the trace twice differs");
      }
      break;
    case 7: { // an out-of-range write must be refused and change nothing
      size_t i = g.chance(1, 2) ? N + 1 + g.below(3) : (size_t)0 - 1 - g.below(9);
      SAY("  A: write slot %zu\n", i);
      D d = make_data<D>(99);
      E e(d, (timespan)4242);
      auto rr = A.b->write(e, i);
      oob = true;
      CHECK(rr == A.b->OUT_OF_BOUND, "write(%zu) of 0..%zu returned %d", i,
            (size_t)N, (int)rr);
      CHECK(e.getTime() == 4242 && e.getData() == d, "the refused write(%zu) changed the event", i);
      break;
    }
    }
  };
  if (!direct)
    attach();
  if (g.chance(1, 2)) {
    A.r.emplace_back(new Box<typename T::R>(0x22, *A.b));
    B.r.emplace_back(new Box<typename T::R>(0x22, *B.b));
  }
  if (g.chance(1, 3)) {
    A.tr.reset(new Box<typename T::TR>(0x33, *A.b));
    B.tr.reset(new Box<typename T::TR>(0x33, *B.b));
  }
  unsigned maxops = N > 200 ? 16 : 40;
  for (unsigned op = 0; op < maxops && g.more(39, 40); op++) {
    while (g.chance(1, 2))
      inspect();
    size_t k = 1;
    if (g.chance(1, 4))
      k = 1 + g.below(N + 3);
    switch (g.weighted({8, 3, 3, 1, 2, 2, 2, 1, 2})) {
    case 0: {
      long v = any_value(g);
      size_t wi = direct ? 0 : g.below(A.w.size());
      SAY("push x%zu\n", k);
      for (size_t i = 0; i < k; i++) {
        clock += 1 + (timespan)(g.chance(1, 4) ? g.below(5) : 0);
        D d = make_data<D>(v + (long)i);
        E ea(d, clock), eb(d, clock);
        size_t bo, to;
        B.b->state(bo, to); // only to know which slot is overwritten
        known[to <= N ? to : 0] = false;
        auto ra = direct ? A.b->push(ea) : (*A.w[wi])->push_all(ea);
        auto rb = direct ? B.b->push(eb) : (*B.w[wi])->push_all(eb);
        CHECK(ra == rb, "push returned %d, and %d without the inspections",
              (int)ra, (int)rb);
        if (m.size() == N) {
          m.pop_front();
          overflow = true;
        }
        m.push_back({d, clock});
      }
      break;
    }
    case 1:
    case 2: {
      bool pl = g.chance(1, 2);
      SAY("%s x%zu\n", pl ? "pull" : "pop", k);
      for (size_t i = 0; i < k; i++) {
        E ea, eb;
        auto ra = pl ? A.b->pull(ea) : A.b->pop(ea);
        auto rb = pl ? B.b->pull(eb) : B.b->pop(eb);
        CHECK(ra == rb, "%s returned %d, and %d without the inspections",
              pl ? "pull" : "pop", (int)ra, (int)rb);
        CHECK(ea == eb, "%s gave a different event without the inspections",
              pl ? "pull" : "pop");
        if (m.empty())
          break;
        if (pl)
          m.pop_front();
        else
          m.pop_back();
      }
      break;
    }
    case 3:
      if (attached < 3) {
        SAY("attach a writer\n");
        attach();
      }
      break;
    case 4: // slot-wise write (directly filled buffers only)
      if (direct) {
        size_t i = g.below(N + 1);
        D d = make_data<D>(any_value(g));
        timespan t = any_time(g);
        SAY("write slot %zu\n", i);
        size_t bo, to;
        A.b->state(bo, to);
        E ea(d, t), eb(d, t);
        auto ra = A.b->write(ea, i);
        auto rb = B.b->write(eb, i);
        CHECK(ra == A.b->OK && rb == B.b->OK, "write(%zu) of 0..%zu returned %d", i,
              (size_t)N, (int)ra);
        E back;
        CHECK(A.b->read(back, i) == A.b->OK && back.getTime() == t &&
                  back.getData() == d,
              "a write to slot %zu is not read back", i);
        known[i] = true;
        slot[i] = {d, t};
        size_t off = (i + N + 1 - bo) % (N + 1);
        if (off < m.size())
          m[off] = {d, t};
      }
      break;
    case 5:
      if (!A.r.empty()) {
        size_t i = g.below(A.r.size());
        SAY("reader %zu synchronize\n", i);
        auto ra = (*A.r[i])->synchronize(), rb = (*B.r[i])->synchronize();
        CHECK((int)ra == (int)rb,
              "synchronize returned %d, and %d without the inspections", (int)ra,
              (int)rb);
      }
      break;
    case 6:
      if (!A.r.empty()) {
        size_t i = g.below(A.r.size());
        bool pl = g.chance(2, 3);
        SAY("reader %zu %s\n", i, pl ? "pull" : "pop");
        E ea, eb;
        auto ra = pl ? (*A.r[i])->pull(ea) : (*A.r[i])->pop(ea);
        auto rb = pl ? (*B.r[i])->pull(eb) : (*B.r[i])->pop(eb);
        CHECK((int)ra == (int)rb,
              "reader %s returned %d, and %d without the inspections",
              pl ? "pull" : "pop", (int)ra, (int)rb);
        if (ra == T::R::AVAILABLE)
          CHECK(ea == eb, "reader gave a different event without the inspections");
      }
      break;
    case 7:
      if (A.r.size() < 2) {
        SAY("new reader\n");
        A.r.emplace_back(new Box<typename T::R>(0x22, *A.b));
        B.r.emplace_back(new Box<typename T::R>(0x22, *B.b));
      }
      break;
    case 8:
      if (A.tr) {
        SAY("trace reader synchronize, reset, pull\n");
        auto ra = (*A.tr)->synchronize(), rb = (*B.tr)->synchronize();
        CHECK((int)ra == (int)rb, "trace synchronize %d/%d", (int)ra, (int)rb);
        if (g.chance(1, 2)) {
          (*A.tr)->reset();
          (*B.tr)->reset();
        }
        E ea, eb;
        auto pa = (*A.tr)->pull(ea), pb = (*B.tr)->pull(eb);
        CHECK((int)pa == (int)pb && ((int)pa != 0 || ea == eb),
              "trace pull %d/%d", (int)pa, (int)pb);
      }
      break;
    }
  }
  while (g.chance(1, 2))
    inspect();
  for (;;) { // both end up the same
    E ea, eb;
    auto ra = A.b->pull(ea), rb = B.b->pull(eb);
    CHECK(ra == rb && ea == eb, "final contents differ: status %d/%d", (int)ra,
          (int)rb);
    if (m.empty()) {
      CHECK(ra == A.b->EMPTY, "more events than were pushed");
      break;
    }
    CHECK(ra != A.b->EMPTY && same(ea, m.front()), "final contents differ from the "
          "model: status %d time %ld, expected %ld", (int)ra, (long)ea.getTime(),
          (long)m.front().t);
    m.pop_front();
  }
  if (oob)
    pbt::label("out-of-range slot");
  if (wrapped_insp)
    pbt::label("state inspected on a wrapped ring");
  if (overflow)
    pbt::label("overflow");
  if (A.tr)
    pbt::label("trace reader");
  if (held_insp && overflow)
    pbt::nontrivial();
}

// An event type that knows whether it was constructed where it is used.
struct Tracked : Event<int> {
  const void *self;
  Tracked() : Event<int>(), self(this) {}
  Tracked(int d, timespan t) : Event<int>(d, t), self(this) {}
  Tracked(const Tracked &o) : Event<int>(o), self(this) { o.here("copied from"); }
  Tracked &operator=(const Tracked &o) {
    here("assigned to");
    o.here("assigned from");
    Event<int>::operator=(o);
    return *this;
  }
  void here(const char *what) const {
    CHECK(self == this, "a slot that is no event of the buffer was %s", what);
  }
  void debug() const { here("printed"); }
  const int &getData() const {
    here("asked for its data");
    return Event<int>::getData();
  }
  const timespan &getTime() const {
    here("asked for its time");
    return Event<int>::getTime();
  }
};

template <size_t N> static void tracked(Src &g) {
  typedef RTML_buffer<Tracked, N> B;
  Box<B> b(0x5A);
  Box<RTML_writer<B>> w(0x5B, *b);
  Box<RTML_reader<B>> r(0x5C, *b);
  bool direct = g.chance(1, 2);
  size_t held = 0;
  SAY("slots must be constructed events, N=%zu\n", (size_t)N);
  pbt::label("tracked events");
  timespan clock = 1;
  while (g.more(14, 15)) {
    switch (g.weighted({4, 1, 1, 1, 1, 1, 1, 2, 1, 1})) {
    case 0: {
      SAY("push\n");
      Tracked e(1, clock++);
      direct ? b->push(e) : w->push_all(e);
      if (++held > N)
        held = N;
      break;
    }
    case 1: { SAY("pull\n"); Tracked e; b->pull(e); if (held) held--; break; }
    case 2: { SAY("pop\n"); Tracked e; b->pop(e); if (held) held--; break; }
    case 3: { SAY("sync\n"); r->synchronize(); break; }
    case 4: { SAY("reader pull\n"); Tracked e; r->pull(e); break; }
    case 5: { SAY("reader pop\n"); Tracked e; r->pop(e); break; }
    case 6: {
      size_t i = g.below(N + 6);
      SAY("read %zu\n", i);
      Tracked e;
      b->read(e, i);
      break;
    }
    case 7:
      SAY("debug\n");
      b->debug();
      r->debug();
      break;
    case 8: {
      size_t x, y;
      timespanw tx, ty;
      SAY("state\n");
      b->state(x, y, tx, ty);
      break;
    }
    case 9: r->gap(); break;
    }
    CHECK(b->length() == held, "length %zu instead of %zu", b->length(), held);
  }
}

static void prop(Src &g) {
  if (g.chance(1, 10)) {
    switch (g.below(3)) {
    case 0: return tracked<1>(g);
    case 1: return tracked<2>(g);
    default: return tracked<6>(g);
    }
  }
  switch (g.weighted({6, 6, 6, 5, 4, 2, 1})) {
  case 0: return run<int, 1>(g);
  case 1: return run<long, 2>(g);
  case 2: return run<int, 3>(g);
  case 3: return run<int, 5>(g);
  case 4: return run<long, 8>(g);
  case 5: return run<int, 100>(g);
  default: return run<int, 300>(g);
  }
}
const pbt::Suite pbt::suite = {
    "C02",
#if RTMLIB_DEBUG > 0
    "inspect_debug",
#else
    "inspect",
#endif
    "random histories of push/pull/pop/slot writes/reader calls run twice, once "
    "with inspections (length, both state(), slot reads and refused slot accesses, "
    "debug(), gap(), reader length) mixed in at any point; inspections compared "
    "with a model, all other answers between the two runs; ASan and bounds checks "
    "on; non-trivial: slots inspected with several events held in a history with "
    "overflow",
    prop,
#if RTMLIB_DEBUG > 0
    60000, 1500000,
#else
    2500000, 50000000,
#endif
    40000000, true};
