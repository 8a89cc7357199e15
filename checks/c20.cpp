// C20: events compare coherently and keep what they are given.
#include "seqlib.h"
#include <string>

static unsigned nontriv;

template <class D> struct Gen;
template <class D> struct GenLong {
  static D value(Src &g) { return make_data<D>(any_value(g)); }
};
template <> struct Gen<int> : GenLong<int> {};
template <> struct Gen<unsigned char> : GenLong<unsigned char> {};
template <> struct Gen<unsigned> : GenLong<unsigned> {};
template <> struct Gen<long> : GenLong<long> {};
template <> struct Gen<Wide> : GenLong<Wide> {};
template <> struct Gen<Small> : GenLong<Small> {};
template <> struct Gen<std::string> {
  static std::string value(Src &g) {
    return std::string(g.below(40), (char)('a' + g.below(3)));
  }
};
template <> struct Gen<double> {
  static double value(Src &g) { return (double)(long)g.below(9) / 4; }
};
// equality that looks at one part only: event equality follows the data's own
struct Mod {
  int v;
  bool operator==(const Mod &o) const { return v % 4 == o.v % 4; }
};
template <> struct Gen<Mod> {
  static Mod value(Src &g) { return Mod{(int)g.below(12)}; }
};
template <class D> bool kept(const D &a, const D &b) { return a == b; }
template <> bool kept(const Mod &a, const Mod &b) { return a.v == b.v; }
template <> bool kept(const Small &a, const Small &b) { return !memcmp(&a, &b, sizeof a); }

static timespan ev_time(Src &g) {
  switch (g.weighted({6, 2, 2, 1, 1})) {
  case 0: return (timespan)g.below(4);
  case 1: return (timespan)g.range(-3, 3);
  case 2: { // differing only in the upper or only in the lower half
    static const uint64_t k[] = {0, 1, 0x7fffffffull, 0x80000000ull, 0xffffffffull,
                                 0x100000000ull, 0x100000001ull, 0x7fffffff00000000ull,
                                 0x8000000000000000ull, 0x7fffffffffffffffull, ~0ull};
    return (timespan)k[g.below(sizeof k / sizeof *k)];
  }
  case 3: return (timespan)(1700000000000000000ll + (long)g.below(1000));
  default: return (timespan)g.bits();
  }
}

template <class D> static void run(Src &g) {
  typedef Event<D> E;
  static const unsigned n = 4;
  std::vector<std::unique_ptr<Box<E>>> ev;
  std::vector<Rec<D>> m;
  for (unsigned i = 0; i < n; i++) {
    D d = Gen<D>::value(g), d0 = d;
    timespan t = ev_time(g), t0 = t;
    ev.emplace_back(new Box<E>((unsigned char)g.below(256), d, t));
    CHECK(kept(d, d0) && t == t0, "construction changed its arguments");
    m.push_back({d, t});
    SAY("event %u at %ld\n", i, (long)t);
  }
  auto intact = [&](const char *what) {
    for (unsigned i = 0; i < n; i++) {
      const E &c = **ev[i];
      CHECK(c.getTime() == m[i].t, "after %s event %u has time %ld instead of %ld", what, i,
            (long)c.getTime(), (long)m[i].t);
      CHECK(kept(D(c.getData()), m[i].d), "after %s event %u has other data", what, i);
    }
  };
  unsigned changes = 0, cmps = 0;
  for (unsigned k = 3 + (unsigned)g.below(14); k; k--) {
    unsigned i = (unsigned)g.below(n), j = (unsigned)g.below(n);
    E &a = **ev[i], &b = **ev[j];
    const E &ca = a, &cb = b;
    unsigned op = (unsigned)g.weighted({2, 2, 2, 2, 2, 1, 6, 4, 1, 1});
    switch (op) {
    case 0: {
      timespan t = ev_time(g), t0 = t;
      SAY("event %u: setTime(%ld)\n", i, (long)t);
      a.setTime(t);
      CHECK(t == t0, "setTime changed its argument");
      m[i].t = t;
      intact("setTime");
      changes++;
      break;
    }
    case 1: {
      D d = Gen<D>::value(g), d0 = d;
      SAY("event %u: setData\n", i);
      a.setData(d);
      CHECK(kept(d, d0), "setData changed its argument");
      m[i].d = d;
      intact("setData");
      changes++;
      break;
    }
    case 2: {
      D d = Gen<D>::value(g), d0 = d;
      timespan t = ev_time(g), t0 = t;
      SAY("event %u: set(%ld)\n", i, (long)t);
      a.set(d, t);
      CHECK(kept(d, d0) && t == t0, "set changed its arguments");
      m[i] = {d, t};
      intact("set");
      changes++;
      break;
    }
    case 3:
      SAY("event %u = event %u\n", i, j);
      CHECK(&(a = cb) == &a, "assignment does not give the event");
      m[i] = Rec<D>(m[j]);
      intact("an assignment");
      changes++;
      break;
    case 4:
      SAY("event %u = &event %u\n", i, j);
      CHECK(&(a = &cb) == &a, "assignment from a pointer does not give the event");
      m[i] = Rec<D>(m[j]);
      intact("an assignment from a pointer");
      changes++;
      break;
    case 5: {
      SAY("event %u copied from event %u\n", i, j);
      std::unique_ptr<Box<E>> c(new Box<E>(0x55, cb));
      ev[i].swap(c);
      c.reset();
      m[i] = Rec<D>(m[j]);
      intact("a copy");
      changes++;
      break;
    }
    case 6: {
      SAY("event %u ? event %u\n", i, j);
      timespan x = m[i].t, y = m[j].t;
      bool eq = x == y && m[i].d == m[j].d;
      CHECK((ca < cb) == (x < y), "event < event is wrong for %ld, %ld", (long)x, (long)y);
      CHECK((ca <= cb) == (x <= y), "event <= event is wrong for %ld, %ld", (long)x, (long)y);
      CHECK((ca > cb) == (x > y), "event > event is wrong for %ld, %ld", (long)x, (long)y);
      CHECK((ca >= cb) == (x >= y), "event >= event is wrong for %ld, %ld", (long)x, (long)y);
      CHECK((ca == cb) == eq, "event == event is wrong for %ld, %ld", (long)x, (long)y);
      CHECK((ca != cb) == !eq, "event != event is wrong for %ld, %ld, data %s", (long)x, (long)y,
            m[i].d == m[j].d ? "equal" : "different");
      pbt::label(eq ? "equal events" : x == y ? "same time, other data" : m[i].d == m[j].d ? "same data, other time" : "different events");
      intact("a comparison");
      cmps++;
      break;
    }
    case 7: {
      timespan x = m[i].t, y = g.chance(1, 2) ? m[j].t : ev_time(g), y0 = y;
      SAY("event %u ? %ld\n", i, (long)y);
      const timespan &c = y;
#define BOTH(op)                                                                          \
  CHECK((ca op c) == (x op y), "event " #op " time is wrong for %ld, %ld", (long)x, (long)y); \
  CHECK((c op ca) == (y op x), "time " #op " event is wrong for %ld, %ld", (long)y, (long)x);
      BOTH(<) BOTH(<=) BOTH(>) BOTH(>=) BOTH(==) BOTH(!=)
      CHECK(y == y0, "a comparison changed the time");
      intact("a comparison with a time");
      pbt::label(x == y ? "event at the time" : "event and time");
      cmps++;
      break;
    }
    case 8: { // a default event takes what it is given
      Box<E> e((unsigned char)g.below(256));
      timespan t = m[j].t;
      if (g.chance(1, 2)) {
        D d = m[j].d;
        e->setData(d);
        e->setTime(t);
      } else if (g.chance(1, 2))
        *e = &cb;
      else
        *e = cb;
      CHECK(e->getTime() == t && kept(D(e->getData()), m[j].d), "a default event does not keep what it is given");
      intact("using another event");
      changes++;
      break;
    }
    default: { // printing changes nothing
      if (sizeof(D) <= 8 && !std::is_class<D>::value) {
        intact("nothing");
      }
      // its own time and data handed back
      timespan t = ca.getTime();
      a.setTime(t);
      D d = ca.getData();
      a.setData(d);
      a.set(d, ca.getTime());
      intact("setting what it has");
      changes++;
      break;
    }
    }
  }
  if (changes && cmps)
    pbt::nontrivial();
}
static void prop(Src &g) {
  switch (g.below(9)) {
  case 0: return run<int>(g);
  case 1: return run<unsigned char>(g);
  case 2: return run<unsigned>(g);
  case 3: return run<long>(g);
  case 4: return run<Wide>(g);
  case 5: return run<Small>(g);
  case 6: return run<std::string>(g);
  case 7: return run<double>(g);
  default: return run<Mod>(g);
  }
}
const pbt::Suite pbt::suite = {
    "C20", "events",
    "random sequences of construction, assignment, copies, setters and every comparison "
    "over four events, nine payload types and timestamps at word boundaries, compared with "
    "a record of what was given; non-trivial: comparisons in a sequence with changes",
    prop, 4000000, 80000000, 10000000, true};
