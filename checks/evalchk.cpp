// C11-C16: verdicts and durations.
//  11, 12, 13: against the reference semantics in evals.h
//  14: a definite verdict stays as the trace grows
//  15: evaluation changes nothing, and can be repeated in any order
//  16: layout, capacity, time shift and renaming do not matter
#include "evals.h"
#ifndef WHICH
#define WHICH 11
#endif

static bool painting;
// what earlier calls left on the stack must not matter
__attribute__((noinline, no_sanitize("address"))) static void paint() {
  static unsigned n;
  static const unsigned char how[] = {0, 0x7f, 1, 0xff};
  char *p = (char *)__builtin_alloca(40000);
  memset(p, how[n++ % 4], 40000);
  asm volatile("" : : "r"(p) : "memory");
}

template <size_t N> struct Inst {
  typedef Event<int> E;
  typedef RTML_buffer<E, N> B;
  typedef RTML_reader<B> R;
  typedef RMTLD3_reader<R, int> T;
  int lm = 0;
  Box<B> b;
  std::unique_ptr<Box<T>> tr;
  size_t pushed = 0;
  Inst() : b(0xB7) {}
  void build(Src &g, const std::vector<Ev> &v, size_t n) {
    std::vector<Ev> w(v.begin(), v.begin() + (long)n);
    // events that have already left the trace on either side
    size_t before = 0, after = 0, room = N - v.size();
    if (n && room && g.chance(1, 4)) {
      before = g.below((room < 4 ? room : 4) + 1);
      if (before > (size_t)v[0].t)
        before = (size_t)v[0].t;
      if (WHICH != 14)
        after = g.below((room - before < 4 ? room - before : 4) + 1);
      for (size_t k = 1; k <= before; k++)
        w.insert(w.begin(), {(int)g.below(4), v[0].t - (timespan)k});
      for (size_t k = 0; k < after; k++)
        w.push_back({(int)g.below(4), w.back().t + 1 + (timespan)g.below(5)});
    }
    lay_out<E>(g, *b, w);
    pushed = w.size();
    tr.reset(new Box<T>(0x3C, *b, lm));
    (*tr)->synchronize();
    if (before || after) {
      SAY("  %zu events before and %zu after it have left the trace\n", before, after);
      E e;
      while (before--)
        CHECK((*tr)->R::pull(e) == R::AVAILABLE, "the oldest event cannot be pulled");
      while (after--)
        CHECK((*tr)->pop(e) == R::AVAILABLE, "the newest event cannot be popped");
      pbt::label("events have left the trace");
    }
    if (WHICH != 14 && pushed < N && g.chance(1, 4)) {
      size_t left = N - pushed;
      unseen(g, pushed ? w.back().t : 0, 1 + g.below(left < 4 ? left : 4));
    }
  }
  // pushed after the trace was synchronised, so not part of it
  void unseen(Src &g, timespan last, size_t k) {
    while (k-- && pushed < N) {
      last += 1 + (timespan)g.below(5);
      E e((int)g.below(4), last);
      SAY("  (p%d,%ld) is pushed after synchronising\n", (int)e.getData(), (long)last);
      b->push(e);
      pushed++;
    }
    pbt::label("events pushed after synchronising");
  }
  void more(const Ev &x) {
    E e(x.d, x.t);
    b->push(e);
    pushed++;
    (*tr)->synchronize();
  }
  void position(Src &g, timespan t) {
    if (g.chance(1, 2)) {
      size_t c = g.below(N + 1);
      (*tr)->set_cursor(c);
    }
    timespan t0 = t;
    auto s = (*tr)->set(t0);
    CHECK(s == R::AVAILABLE, "positioning at %ld failed", (long)t);
  }
  int verdict(timespan t, const Node *f) {
    timespan t0 = t;
    if (WHICH == 15 && painting)
      paint();
    int x = tv(lib_eval(**tr, t0, f));
    CHECK(t0 == t, "evaluation changed the time it was given");
    return x;
  }
  duration dur(timespan t, const Term *f) {
    timespan t0 = t;
    if (WHICH == 15 && painting)
      paint();
    duration x = lib_term(**tr, t0, f);
    CHECK(t0 == t, "evaluation changed the time it was given");
    return x;
  }
};

static void weights(Gen &gen, Src &g) {
  bool fut = false, past = false, dur = false, ext = false;
  switch (WHICH) {
  case 11: fut = true; break;
  case 12: past = true; fut = g.chance(1, 4); break;
  case 13: ext = true; fut = g.chance(1, 2); past = g.chance(1, 2); dur = g.chance(1, 4); break;
  default: fut = g.chance(3, 4); past = !fut || g.chance(1, 2); dur = g.chance(1, 3); break;
  }
  (void)ext;
  unsigned f = fut ? 3 : 0, p = past ? (WHICH == 12 ? 6 : 3) : 0;
  unsigned w[NOPS] = {2, 1, 3, 2, 2, 2 * f, f, f, f, f, f, 2 * p, p, p, p, dur ? 4u : 0u};
  memcpy(gen.ops, w, sizeof w);
}

template <size_t N> static void run(Src &g) {
  typedef Inst<N> I;
  unsigned nprops = 2 + (unsigned)g.below(2);
  timespan start = 0;
  switch (g.weighted({4, 3, 1, 1})) {
  case 0: start = (timespan)g.below(4); break;
  case 1: start = (timespan)g.below(40); break;
  case 2: start = (timespan)4294967296ll * (1 + (timespan)g.below(3)) - (timespan)g.below(12); break;
  default: start = (timespan)1700000000000000000ll; break;
  }
  size_t max = N < 12 || (N < 1000 && g.chance(1, 16)) ? N : 12;
  size_t len = 2 + g.below(max - 1);
  if (N > 100 && N < 1000) {
    len = 40 + g.below(g.chance(1, 4) ? N - 39 : 100);
    pbt::label("long trace");
  }
  bool huge = g.chance(1, 12);
  std::vector<Ev> v = any_trace(g, len, nprops, start, huge);
  size_t i = g.below(len - 1);
  timespan t = v[i].t + (timespan)(g.chance(1, 2) ? g.below((uint64_t)(v[i + 1].t - v[i].t)) : 0);
  bool outside = WHICH == 15 && g.chance(1, 4);
  if (huge)
    pbt::label("distances beyond 32 bits");
  if (outside) { // no event in force at t, perhaps none at all
    if (g.chance(1, 2)) {
      len = g.chance(1, 2) ? 0 : g.below(len);
      v.resize(len);
    }
    if (g.chance(1, 2))
      t = v.empty() || g.chance(1, 3) ? (timespan)g.below(50)
          : g.chance(1, 2) ? v.back().t + (timespan)g.below(40)
                           : v[0].t - (timespan)g.below((uint64_t)v[0].t < 20 ? (uint64_t)v[0].t + 1 : 20);
  }
  Pool pool;
  Gen gen{pool, nprops};
  gen.huge_bounds = huge;
  weights(gen, g);
  unsigned depth = N > 100 ? 1 + (unsigned)g.below(WHICH == 14 || WHICH == 15 ? 1 : 2) : (unsigned)g.weighted({0, 4, 4, 2});
  Node *f = nullptr;
  Term *d = nullptr;
  bool term = WHICH == 13 || (WHICH >= 14 && g.chance(1, 4));
  if (term) {
    d = pool.term();
    d->op = TDUR;
    d->b = gen.bound(g);
    if (!v.empty() && t + bounds[d->b] >= v.back().t && g.chance(3, 4)) { // rather one that ends within
      unsigned n = 0;
      while (n < NBOUNDS && t + bounds[n] < v.back().t)
        n++;
      if (n)
        d->b = (unsigned)g.below(n);
    }
    d->phi = gen.formula(g, depth - 1);
    gen.temporal++;
  } else
    f = gen.formula(g, depth);
  // the propositions may be any numbers
  int stride = 1, base = 0;
  if (WHICH != 16 && g.chance(1, 3)) {
    stride = 1 << (8 * g.below(4));
    base = (int)g.below(g.chance(1, 2) ? 300 : 1000000000);
    for (auto &x : v)
      x.d = x.d * stride + base;
    for (auto &n : pool.n)
      if (n.op == PROP)
        n.p = n.p * stride + base;
    pbt::label("propositions far apart");
  }
  auto number_props = [&](size_t from) {
    for (size_t k = from; k < pool.n.size(); k++)
      if (pool.n[k].op == PROP)
        pool.n[k].p = pool.n[k].p * stride + base;
  };
  SAY("N=%zu, trace:", N);
  for (auto &x : v)
    SAY(" (p%d,%ld)", x.d, (long)x.t);
  SAY("\nat t=%ld: ", (long)t);
  if (pbt::verbose) {
    f ? show(f) : show(d);
    SAY("\n");
  }
  auto label_verdict = [&](int x) {
    pbt::label(x > 0 ? "true" : x < 0 ? "false" : "unknown");
  };
  auto ops_used = [&]() {
    bool nested = false;
    for (auto &n : pool.n)
      if (n.op >= UNTIL) {
        pbt::label(op_name[n.op]);
        for (auto *s : {n.l, n.r})
          nested |= s && s->op >= UNTIL;
      }
    if (nested)
      pbt::label("temporal within temporal");
  };
  ops_used();

  if (WHICH <= 13) {
    I x;
    x.build(g, v, len);
    x.position(g, t);
    Ref ref(v);
    if (f) {
      int want = ref.eval(f, i, t), got = x.verdict(t, f);
      CHECK(got == want, "the verdict is %s instead of %s", tname(got), tname(want));
      label_verdict(want);
    } else {
      Num want = ref.term(d, i, t);
      duration got = x.dur(t, d);
      CHECK(got.second == want.u, "the duration %lld is flagged %s instead of %s",
            (long long)got.first, got.second ? "unknown" : "known", want.u ? "unknown" : "known");
      if (!want.u) {
        CHECK(got.first == (long long)want.n, "the duration is %lld instead of %lld",
              (long long)got.first, (long long)want.n);
        CHECK(got.first >= 0 && got.first <= bounds[d->b], "the duration is %lld over a "
              "window of %ld", (long long)got.first, bounds[d->b]);
      }
      pbt::label(want.u ? "unknown" : want.n == 0 ? "zero" : want.n == bounds[d->b] ? "full" : "partial");
    }
    pbt::count("formula nodes evaluated by the reference", ref.steps);
    if (gen.temporal && ref.steps >= 4)
      pbt::nontrivial();
  } else if (WHICH == 14) {
    I x;
    x.build(g, v, i + 2);
    bool have = false;
    int verdict = 0;
    duration dv(0, true);
    size_t when = 0;
    bool changed = false;
    for (size_t n = i + 2; n <= len; n++) {
      if (n > i + 2)
        x.more(v[n - 1]);
      if (N > 100) // not after every event of a long trace
        for (size_t k = g.below(20); k && n < len; k--)
          x.more(v[n++]);
      x.position(g, t);
      if (f) {
        int now = x.verdict(t, f);
        SAY("with %zu events: %s\n", n, tname(now));
        if (have)
          CHECK(now == verdict, "%s at %ld with %zu events, but %s with %zu", tname(verdict),
                (long)t, when, tname(now), n);
        changed |= n > i + 2 && now != 0 && !have;
        if (now != 0 && !have) {
          have = true;
          verdict = now;
          when = n;
        }
      } else {
        duration now = x.dur(t, d);
        SAY("with %zu events: %lld %s\n", n, (long long)now.first, now.second ? "unknown" : "");
        if (have)
          CHECK(!now.second && now.first == dv.first, "duration %lld with %zu events, but "
                "%lld%s with %zu", (long long)dv.first, when, (long long)now.first,
                now.second ? " unknown" : "", n);
        changed |= n > i + 2 && !now.second && !have;
        if (!now.second && !have) {
          have = true;
          dv = now;
          when = n;
        }
      }
    }
    if (have && when < len)
      pbt::label("definite before the end of the trace");
    if (changed)
      pbt::label("unknown first, definite later");
    pbt::label(!have ? "never definite" : f ? tname(verdict) : "duration");
    if (gen.temporal && have && when < len)
      pbt::nontrivial();
  } else if (WHICH == 15) {
    I x;
    x.build(g, v, len);
    auto &tr = **x.tr;
    painting = outside;
    if (outside) {
      size_t c = g.below(N + 1);
      tr.set_cursor(c);
      timespan t0 = t;
      if (g.chance(2, 3) && tr.set(t0) != I::R::AVAILABLE)
        pbt::label("no event in force");
      pbt::label(len ? "t anywhere" : "empty trace");
    } else
      x.position(g, t);
    // more formulas to evaluate in between
    std::vector<Node *> fs;
    std::vector<int> first;
    size_t known = pool.n.size();
    for (size_t k = 1 + g.below(3); k; k--)
      fs.push_back(gen.formula(g, 1 + (unsigned)g.below(N > 100 ? 1 : 2)));
    number_props(known);
    struct S {
      size_t cursor, len, cons, rlen, b, t;
      int gap;
      std::vector<Ev> slots;
      bool operator==(const S &o) const {
        if (cursor != o.cursor || len != o.len || cons != o.cons || rlen != o.rlen ||
            b != o.b || t != o.t || gap != o.gap)
          return false;
        for (size_t i = 0; i < slots.size(); i++)
          if (slots[i].d != o.slots[i].d || slots[i].t != o.slots[i].t)
            return false;
        return true;
      }
    };
    auto look = [&]() {
      S s;
      s.cursor = tr.get_cursor();
      s.len = tr.length();
      s.cons = tr.consumed();
      s.rlen = tr.I::R::length();
      s.gap = (int)tr.gap();
      x.b->state(s.b, s.t);
      for (size_t k = 0; k <= N; k++) {
        typename I::E e;
        x.b->read(e, k);
        s.slots.push_back({(int)e.getData(), (timespan)e.getTime()});
      }
      return s;
    };
    S before = look();
    auto unchanged = [&](const char *what) {
      S s = look();
      if (s == before)
        return;
      pbt::fail("%s changed the trace: cursor %zu -> %zu, remaining %zu -> %zu, window %zu -> "
                "%zu, buffer %zu..%zu -> %zu..%zu, gap %d -> %d (or the content of a slot)",
                what, before.cursor, s.cursor, before.len, s.len, before.rlen, s.rlen,
                before.b, before.t, s.b, s.t, before.gap, s.gap);
    };
    int r1 = 0;
    duration d1(0, false);
    auto main_eval = [&](bool again) {
      if (f) {
        int r = x.verdict(t, f);
        if (again)
          CHECK(r == r1, "evaluated again the verdict is %s instead of %s", tname(r), tname(r1));
        r1 = r;
      } else {
        duration r = x.dur(t, d);
        if (again)
          CHECK(r == d1, "evaluated again the duration is %lld%s instead of %lld%s",
                (long long)r.first, r.second ? " unknown" : "", (long long)d1.first,
                d1.second ? " unknown" : "");
        d1 = r;
      }
      unchanged(f ? "evaluating the formula" : "evaluating the duration");
    };
    main_eval(false);
    if (!outside && x.pushed < N && g.chance(1, 4)) { // outside, the cursor may be at any slot
      x.unseen(g, before.slots[(before.t + N) % (N + 1)].t, 1);
      S s = look(), was = before;
      before = s;
      s.slots = was.slots;
      s.t = was.t;
      s.gap = was.gap; // asks the buffer
      CHECK(s == was, "a push changed the window of the trace");
    }
    for (auto *q : fs) {
      first.push_back(x.verdict(t, q));
      unchanged("evaluating another formula");
    }
    main_eval(true);
    for (size_t k = fs.size(); k-- > 0;) {
      int r = x.verdict(t, fs[k]);
      CHECK(r == first[k], "another formula's verdict is %s instead of %s in another order",
            tname(r), tname(first[k]));
      unchanged("evaluating another formula again");
    }
    main_eval(true);
    if (f)
      label_verdict(r1);
    if (gen.temporal && len > 3)
      pbt::nontrivial();
  } else { // 16
    I x;
    SAY("layout 1:\n");
    x.build(g, v, len);
    x.position(g, t);
    timespan shift = 0;
    switch (g.weighted({2, 2, 2, 1})) {
    case 0: break;
    case 1: shift = (timespan)g.below(50); break;
    case 2: shift = (timespan)4294967296ll * (timespan)g.below(3) - (start >= 40 ? (timespan)g.below(20) : 0) + (timespan)g.below(40); break;
    default: shift = (timespan)1000000000000000000ll + (timespan)g.below(1000); break;
    }
    std::vector<int> ren(nprops);
    for (unsigned k = 0; k < nprops; k++)
      ren[k] = (int)k;
    if (g.chance(1, 2))
      for (unsigned k = nprops; k > 1; k--)
        std::swap(ren[k - 1], ren[g.below(k)]);
    int off = g.chance(1, 3) ? (int)g.below(1000) : 0, mult = g.chance(1, 2) ? 1 : 1 << (8 * g.below(4));
    std::vector<Ev> w;
    for (auto &e : v)
      w.push_back({ren[e.d] * mult + off, e.t + shift});
    SAY("layout 2, shifted by %ld:\n", (long)shift);
    int r1 = 0, r2 = 0;
    duration d1(0, 0), d2(0, 0);
    if (f)
      r1 = x.verdict(t, f);
    else
      d1 = x.dur(t, d);
    for (auto &n : pool.n)
      if (n.op == PROP)
        n.p = ren[n.p] * mult + off;
    auto second = [&](auto &y) {
      y.build(g, w, len);
      y.position(g, t + shift);
      if (f)
        r2 = y.verdict(t + shift, f);
      else
        d2 = y.dur(t + shift, d);
    };
    if (g.chance(1, 2)) {
      I y;
      second(y);
    } else {
      SAY("in a buffer of another capacity\n");
      Inst<N == 20 ? 300 : (N > 100 ? 333 : 20)> y;
      second(y);
    }
    if (f) {
      CHECK(r1 == r2, "%s in one layout, %s in the other", tname(r1), tname(r2));
      label_verdict(r1);
    } else
      CHECK(d1.second == d2.second && (d1.second || d1.first == d2.first),
            "duration %lld%s in one layout, %lld%s in the other", (long long)d1.first,
            d1.second ? " unknown" : "", (long long)d2.first, d2.second ? " unknown" : "");
    if (shift)
      pbt::label("shifted in time");
    if (gen.temporal && len > 2)
      pbt::nontrivial();
  }
}

static void prop_(Src &g) {
  if (WHICH != 15 && g.chance(1, 40000)) {
    pbt::label("capacity 70000");
    return run<70000>(g);
  }
#ifndef CAPS
#define CAPS 2
#endif
  if (g.chance(1, 2))
    return run<4>(g);
  if (g.chance(1, 100))
    return run<300>(g);
  return run<20>(g);
}
const pbt::Suite pbt::suite = {
    WHICH == 11 ? "C11" : WHICH == 12 ? "C12" : WHICH == 13 ? "C13" : WHICH == 14 ? "C14" : WHICH == 15 ? "C15" : "C16",
    WHICH == 11 ? "future" : WHICH == 12 ? "past" : WHICH == 13 ? "durations" : WHICH == 14 ? "final" : WHICH == 15 ? "pure" : "layout",
    WHICH == 11 ? "random traces, layouts, instants and nested future formulas, verdict "
                  "compared with the reference semantics; non-trivial: a temporal operator "
                  "and at least four reference steps"
    : WHICH == 12 ? "random traces, layouts, instants and nested past formulas (some with "
                    "future operators), verdict compared with the reference semantics; "
                    "non-trivial: a temporal operator and at least four reference steps"
    : WHICH == 13 ? "random traces, layouts, instants, windows and operands, value and flag "
                    "compared with the integral; non-trivial: at least four reference steps"
    : WHICH == 14 ? "random formulas and durations evaluated at one instant as the trace grows "
                    "event by event; non-trivial: temporal and definite before the last event"
    : WHICH == 15 ? "random formulas and durations evaluated repeatedly and in other orders, "
                    "cursor, window and buffer compared; non-trivial: temporal, more than three "
                    "events"
                  : "the same logical trace laid out twice (rotation, stale slots, capacity, "
                    "cursor, time shift, renaming), verdicts compared; non-trivial: temporal, "
                    "more than two events",
    prop_, WHICH == 15 ? 1500000 : WHICH == 16 ? 3000000 : 4000000, WHICH == 15 ? 30000000 : 80000000, 200000000, true};
