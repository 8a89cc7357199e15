// C03: assigning a buffer makes an independent copy.
// Several buffers with writers and readers of their own; operations, assignments
// and destructions in any order; each buffer compared with its own deque.
#include "seqlib.h"

template <class D, size_t N> static void run(Src &g) {
  typedef Event<D> E;
  typedef RTML_buffer<E, N> B;
  typedef RTML_writer<B> W;
  typedef RTML_reader<B> R;
  struct Buf {
    std::unique_ptr<Box<B>> b;
    std::deque<Rec<D>> m;
    std::vector<std::unique_ptr<Box<W>>> w;
    std::vector<std::unique_ptr<Box<R>>> r;
    bool was_source = false, was_target = false;
    unsigned attached = 0; // writers
    bool detached = false; // one was destroyed: whether it still counts is open
  };
  // the status of a successful operation tells whether two writers are attached
  auto status = [](const Buf &x) {
    return x.attached > 1 ? RTML_buffer<E, N>::UNSAFE : RTML_buffer<E, N>::OK;
  };
  const unsigned NB = 3;
  const bool BIG = N > 1000; // then no choices for every single push
  Buf buf[NB];
  bool direct = g.chance(1, 2);
  timespan clock = 1;
  SAY("N=%zu, %s pushes\n", (size_t)N, direct ? "direct" : "writer");
  auto create = [&](unsigned i) {
    buf[i].b.reset(new Box<B>((unsigned char)(0x40 + i)));
    buf[i].m.clear();
    buf[i].was_source = buf[i].was_target = false;
  };
  auto destroy = [&](unsigned i) {
    buf[i].r.clear();
    buf[i].w.clear();
    buf[i].b.reset();
    buf[i].m.clear();
    buf[i].attached = 0;
    buf[i].detached = false;
  };
  create(0);
  create(1);
  unsigned assigned = 0, after = 0, destroyed = 0, wrapped = 0, self = 0;
  auto push = [&](unsigned i) {
    Buf &x = buf[i];
    clock += 1 + (timespan)(BIG ? 0 : g.below(3));
    D d = make_data<D>(BIG ? (long)clock : any_value(g));
    E e(d, clock);
    bool full = x.m.size() == N;
    typename B::error_t r;
    if (direct) {
      r = (*x.b)->push(e);
      CHECK(full || x.detached || r == status(x), "push on buffer %u with %u writers "
            "attached returned %d", i, x.attached, (int)r);
    } else {
      if (x.w.empty()) {
        x.w.emplace_back(new Box<W>(0x10, **x.b));
        x.attached++;
      }
      r = (*x.w[BIG ? 0 : g.below(x.w.size())])->push_all(e);
    }
    CHECK((r == B::BUFFER_OVERFLOW) == full,
          "push on buffer %u holding %zu of %zu returned %d", i, x.m.size(),
          (size_t)N, (int)r);
    if (full)
      x.m.pop_front();
    x.m.push_back({d, clock});
  };
  auto inspect = [&](unsigned i) {
    Buf &x = buf[i];
    CHECK((*x.b)->length() == x.m.size(), "buffer %u has length %zu instead of %zu",
          i, (*x.b)->length(), x.m.size());
    size_t b, t;
    (*x.b)->state(b, t);
    CHECK(b <= N && t <= N && (t + N + 1 - b) % (N + 1) == x.m.size(),
          "buffer %u: slots %zu..%zu for %zu events", i, b, t, x.m.size());
    if (t < b)
      wrapped++;
    for (size_t k = 0; k < x.m.size(); k++) {
      E e;
      (*x.b)->read(e, (b + k) % (N + 1));
      CHECK(same(e, x.m[k]), "buffer %u: held event %zu has time %ld instead of %ld "
            "(or other data)", i, k, (long)e.getTime(), (long)x.m[k].t);
    }
  };
  if (BIG)
    for (unsigned i = 0; i < 2; i++)
      for (size_t k = N - g.below(9); k; k--)
        push(i);
  for (unsigned op = 0; op < (BIG ? 9 : 40) && g.more(39, 40); op++) {
    unsigned i = (unsigned)g.below(NB);
    if (!buf[i].b) {
      SAY("create %u\n", i);
      create(i);
      continue;
    }
    Buf &x = buf[i];
    size_t k = 1;
    if (g.chance(1, 3))
      k = 1 + g.below(N + 3);
    bool aft = assigned && (x.was_source || x.was_target);
    switch (g.weighted({8, 3, 2, 5, 1, 1, 2, 1})) {
    case 0:
      SAY("push x%zu on %u\n", k, i);
      while (k--)
        push(i);
      after += aft;
      break;
    case 1:
    case 2: {
      bool pl = g.chance(2, 3);
      SAY("%s x%zu on %u\n", pl ? "pull" : "pop", k, i);
      while (k--) {
        E e;
        auto r = pl ? (*x.b)->pull(e) : (*x.b)->pop(e);
        CHECK((r == B::EMPTY) == x.m.empty(), "buffer %u: %s with %zu events "
              "returned %d", i, pl ? "pull" : "pop", x.m.size(), (int)r);
        if (x.m.empty())
          break;
        CHECK(x.detached || r == status(x), "buffer %u: %s with %u writers attached "
              "returned %d", i, pl ? "pull" : "pop", x.attached, (int)r);
        Rec<D> want = pl ? x.m.front() : x.m.back();
        CHECK(same(e, want), "buffer %u: %s gave time %ld instead of %ld (or other "
              "data)", i, pl ? "pull" : "pop", (long)e.getTime(), (long)want.t);
        if (pl)
          x.m.pop_front();
        else
          x.m.pop_back();
      }
      after += aft;
      break;
    }
    case 3: { // assign
      unsigned j = (unsigned)g.below(NB);
      if (!buf[j].b)
        break;
      SAY("buffer %u = buffer %u\n", i, j);
      B &ret = (**x.b = **buf[j].b);
      CHECK(&ret == &**x.b, "assignment does not return its target");
      x.m = buf[j].m;
      x.was_target = buf[j].was_source = true;
      self += i == j;
      assigned++;
      inspect(i);
      inspect(j);
      break;
    }
    case 4:
      if (!direct && x.w.size() < 3) {
        SAY("attach a writer to %u\n", i);
        x.w.emplace_back(new Box<W>(0x77, **x.b));
        x.attached++;
      } else if (!direct) {
        SAY("destroy a writer of %u\n", i);
        x.w.erase(x.w.begin() + g.below(x.w.size()));
        x.detached = true;
      } else if (x.attached < 3) { // as a writer would
        SAY("count a writer on %u\n", i);
        (*x.b)->increment_writer();
        x.attached++;
      }
      break;
    case 5:
      SAY("destroy %u\n", i);
      destroyed += x.was_source;
      destroy(i);
      break;
    case 6: { // a new reader sees exactly what is held, but for the newest
      SAY("fresh reader on %u\n", i);
      Box<R> r(0x66, **x.b);
      r->synchronize();
      size_t n = 0;
      E e;
      while (r->pull(e) == R::AVAILABLE) {
        CHECK(n + 1 < x.m.size() && same(e, x.m[n]),
              "buffer %u: a fresh reader's event %zu has time %ld", i, n,
              (long)e.getTime());
        n++;
      }
      CHECK(n + 1 >= x.m.size(), "buffer %u: a fresh reader got %zu of %zu events",
            i, n, x.m.size());
      after += aft;
      break;
    }
    case 7: // an older reader gives only events the buffer holds
      if (x.r.empty()) {
        x.r.emplace_back(new Box<R>(0x55, **x.b));
        break;
      }
      SAY("older reader on %u\n", i);
      (*x.r[0])->synchronize();
      for (size_t n = 0; n < k; n++) {
        E e;
        if ((*x.r[0])->pull(e) != R::AVAILABLE)
          break;
        bool found = false;
        for (auto &h : x.m)
          found |= same(e, h);
        CHECK(found, "buffer %u: a reader was given an event (time %ld) the buffer "
              "does not hold", i, (long)e.getTime());
      }
      break;
    }
    if (g.chance(1, 3))
      for (unsigned q = 0; q < NB; q++)
        if (buf[q].b)
          inspect(q);
  }
  for (unsigned q = 0; q < NB; q++) {
    if (!buf[q].b)
      continue;
    inspect(q);
    while (!buf[q].m.empty()) {
      E e;
      auto r = (*buf[q].b)->pull(e);
      CHECK(r != B::EMPTY && same(e, buf[q].m.front()),
            "draining buffer %u: status %d time %ld instead of %ld", q, (int)r,
            (long)e.getTime(), (long)buf[q].m.front().t);
      buf[q].m.pop_front();
    }
    for (unsigned o = q + 1; o < NB; o++)
      if (buf[o].b)
        inspect(o);
  }
  if (assigned)
    pbt::label("assigned");
  if (self)
    pbt::label("self-assigned");
  if (destroyed)
    pbt::label("source or target destroyed later");
  if (wrapped)
    pbt::label("wrapped ring");
  if (assigned && after >= 2)
    pbt::nontrivial();
}

static void prop(Src &g) {
  if (g.chance(1, 30000)) {
    pbt::label("capacity 70000");
    return run<int, 70000>(g);
  }
  switch (g.weighted({6, 6, 6, 5, 4, 2, 4})) {
  case 0: return run<int, 1>(g);
  case 1: return run<long, 2>(g);
  case 2: return run<Wide, 3>(g);
  case 3: return run<int, 5>(g);
  case 4: return run<Small, 8>(g);
  case 6: return g.chance(1, 2) ? run<Deep, 2>(g) : run<Deep, 4>(g);
  default: return run<int, 300>(g);
  }
}
const pbt::Suite pbt::suite = {
    "C03", "copies",
    "random histories over three buffers (push directly or through writers, pull, "
    "pop, assign any to any, attach and destroy writers, destroy and recreate "
    "buffers, fresh and older readers); each buffer compared with its own deque; "
    "non-trivial: at least two operations on a source or target after the "
    "assignment",
    prop, 2500000, 60000000, 400000000, true};
