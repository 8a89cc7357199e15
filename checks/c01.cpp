// C01: the buffer is a bounded double-ended queue that overwrites the oldest.
// Oracle: std::deque.
#include "seqlib.h"

template <class D, size_t N> static void run(Src &g) {
  typedef Event<D> E;
  typedef RTML_buffer<E, N> B;
  typedef RTML_writer<B> W;
  Box<B> b(0xA5);
  std::deque<Rec<D>> m;
  std::vector<std::unique_ptr<W>> ws;
  unsigned attached = 0;
  bool each = g.chance(3, 4); // check the length after every operation
  SAY("N=%zu sizeof(data)=%zu\n", (size_t)N, sizeof(D));
  bool overflowed = false, removed_after = false, pulled = false, popped = false;
  size_t total = 0;
  unsigned maxops = N > 200 ? 24 : 60;
  for (unsigned op = 0; op < maxops && g.more(39, 40); op++) {
    size_t what = g.weighted({10, 5, 5, 1, 2});
    // how often: mostly once, sometimes enough to fill or to empty it
    size_t k = 1;
    if (g.chance(1, 3)) {
      k = 1 + g.below(4);
      if (g.chance(1, 3))
        k = N > 2 ? N - 2 + g.below(5) : 1 + g.below(4);
      if (g.chance(1, 8))
        k = 1 + g.below(2 * N + 3);
    }
    if (N > 1000)
      total += k;
    if (total > 5 * N)
      break;
    switch (what) {
    case 0: // push
    {
      long v0 = any_value(g);
      timespan t0 = any_time(g);
      SAY("push x%zu from (%ld,%ld)\n", k, v0, (long)t0);
      for (size_t i = 0; i < k; i++) {
        D d = make_data<D>(v0 + (long)i);
        timespan t = (timespan)((uint64_t)t0 + 3 * i);
        E e(d, t);
        bool full = m.size() == N;
        auto r = b->push(e);
        if (full) {
          CHECK(r == b->BUFFER_OVERFLOW,
                "push on a full buffer returned %d instead of BUFFER_OVERFLOW",
                (int)r);
          m.pop_front();
          overflowed = true;
        } else {
          auto want = attached >= 2 ? b->UNSAFE : b->OK;
          CHECK(r == want, "push on a buffer holding %zu of %zu returned %d",
                m.size(), (size_t)N, (int)r);
        }
        CHECK(e.getTime() == t && e.getData() == d,
              "push changed the event it was given");
        m.push_back({d, t});
        if (each)
          CHECK(b->length() == m.size(), "length %zu instead of %zu after push",
                b->length(), m.size());
      }
      break;
    }
    case 1: // pull
    case 2: // pop
      SAY("%s x%zu\n", what == 1 ? "pull" : "pop", k);
      for (size_t i = 0; i < k; i++) {
        D jd = make_data<D>(-77);
        E out(jd, (timespan)-99);
        auto r = what == 1 ? b->pull(out) : b->pop(out);
        if (m.empty()) {
          CHECK(r == b->EMPTY, "%s on an empty buffer returned %d",
                what == 1 ? "pull" : "pop", (int)r);
          CHECK(out.getTime() == (timespan)-99 && out.getData() == jd,
                "%s on an empty buffer changed its argument",
                what == 1 ? "pull" : "pop");
        } else {
          auto want = attached >= 2 ? b->UNSAFE : b->OK;
          CHECK(r == want, "%s with %zu events held returned %d",
                what == 1 ? "pull" : "pop", m.size(), (int)r);
          Rec<D> x = what == 1 ? m.front() : m.back();
          CHECK(same(out, x), "%s returned time %ld instead of %ld or other data",
                what == 1 ? "pull" : "pop", (long)out.getTime(), (long)x.t);
          if (what == 1)
            m.pop_front(), pulled = true;
          else
            m.pop_back(), popped = true;
          if (overflowed)
            removed_after = true;
        }
        if (each)
          CHECK(b->length() == m.size(), "length %zu instead of %zu", b->length(),
                m.size());
        if (m.empty() && i > 1)
          break;
      }
      break;
    case 3: // attach a writer (it never pushes here)
      if (attached < 4) {
        SAY("attach a writer\n");
        if (g.chance(1, 4))
          b->increment_writer();
        else
          ws.emplace_back(new W(*b));
        attached++;
      }
      break;
    case 4:
      CHECK(b->length() == m.size(), "length %zu instead of %zu", b->length(),
            m.size());
      break;
    }
  }
  // what is left comes out in order
  if (g.chance(3, 4)) {
    CHECK(b->length() == m.size(), "length %zu instead of %zu at the end",
          b->length(), m.size());
    bool fifo = !g.chance(1, 3);
    while (!m.empty()) {
      E out;
      auto r = fifo ? b->pull(out) : b->pop(out);
      CHECK(r == (attached >= 2 ? b->UNSAFE : b->OK),
            "draining: status %d with %zu events left", (int)r, m.size());
      Rec<D> x = fifo ? m.front() : m.back();
      CHECK(same(out, x), "draining: time %ld instead of %ld or other data",
            (long)out.getTime(), (long)x.t);
      if (fifo)
        m.pop_front();
      else
        m.pop_back();
    }
    E out;
    CHECK(b->pull(out) == b->EMPTY && b->pop(out) == b->EMPTY,
          "a drained buffer is not EMPTY");
    CHECK(b->length() == 0, "a drained buffer has length %zu", b->length());
  }
  if (overflowed)
    pbt::label("overflow");
  if (removed_after)
    pbt::label("removal after overflow");
  if (pulled && popped)
    pbt::label("pull and pop");
  if (attached >= 2)
    pbt::label("two or more writers attached");
  if (removed_after && (pulled || popped))
    pbt::nontrivial();
}

static void prop(Src &g) {
  switch (g.weighted({8, 8, 8, 6, 6, 6, 4, 4, 3, 4, 1})) {
  case 0: return run<int, 1>(g);
  case 1: return run<int, 2>(g);
  case 2: return run<long, 3>(g);
  case 3: return run<Wide, 4>(g);
  case 4: return run<Small, 5>(g);
  case 5: return run<unsigned char, 7>(g);
  case 6: return run<Wide, 16>(g);
  case 7: return run<unsigned, 100>(g);
  case 8: return run<int, 300>(g);
  case 9: return g.chance(1, 2) ? run<Deep, 2>(g) : run<Deep, 6>(g);
  default:
    if (g.chance(1, 300)) {
      pbt::label("capacity 70000");
      return run<int, 70000>(g);
    }
    return run<int, 6>(g);
  }
}
const pbt::Suite pbt::suite = {
    "C01", "deque",
    "random operation sequences (push, pull, pop, attach a writer, length; single "
    "and in bulk) on capacities 1..300 and 70000 and seven payload types, compared "
    "with a std::deque after every operation; non-trivial: an event was removed "
    "after the ring had overflowed",
    prop, 3000000, 60000000, 60000000, true};
