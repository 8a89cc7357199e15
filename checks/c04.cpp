// C04: writers used one after another append like a single ideal producer.
// The clock is the harness's: clock_gettime is wrapped, so the stamp a push must
// store is known.
#include "seqlib.h"
#include <ctime>

static timespec vclock;
static timespan last_reading;
static unsigned readings;
static uint64_t tick_ns;
static bool armed;
static clockid_t last_id;
extern "C" int __real_clock_gettime(clockid_t, struct timespec *);
extern "C" int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
  if (!armed)
    return __real_clock_gettime(id, ts);
  *ts = vclock;
  last_id = id;
  last_reading = (timespan)((uint64_t)vclock.tv_sec * 1000000000ull +
                            (uint64_t)vclock.tv_nsec);
  readings++;
  uint64_t n = (uint64_t)vclock.tv_nsec + tick_ns;
  vclock.tv_sec += n / 1000000000;
  vclock.tv_nsec = n % 1000000000;
  return 0;
}

template <class D, size_t N> static void run(Src &g) {
  typedef Event<D> E;
  typedef RTML_buffer<E, N> B;
  typedef RTML_writer<B> W;
  Box<B> b(0xC3);
  std::deque<Rec<D>> m;
  std::vector<std::unique_ptr<Box<W>>> ws;
  vclock.tv_sec = g.chance(1, 2) ? 1700000000 : (time_t)g.below(10);
  vclock.tv_nsec = g.chance(1, 2) ? 999999990 : (long)g.below(1000000000);
  tick_ns = g.chance(1, 2) ? 1 : 1 + g.below(3000000000ull);
  armed = true;
  unsigned used[64];
  unsigned nextid = 0, switches = 0, destroyed_after = 0;
  std::vector<unsigned> ids;
  std::vector<bool> has_pushed;
  int lastw = -1;
  bool ovf = false, removed = false, stamped = false, direct = false;
  (void)used;
  SAY("N=%zu\n", (size_t)N);
  bool look = g.chance(1, 2);
  if (N > 1000) {
    Box<W> w(0x21, *b);
    for (size_t k = N - g.below(9); k; k--) {
      D d = make_data<D>((long)k);
      E e(d, (timespan)k);
      w->push_all(e);
      m.push_back({d, (timespan)k});
    }
  }
  for (unsigned op = 0; op < (N > 1000 ? 12 : 60) && g.more(59, 60); op++) {
    if (ws.empty() || g.chance(1, 8)) {
      if (ws.size() < 5) {
        SAY("attach writer %u\n", nextid);
        ws.emplace_back(new Box<W>((unsigned char)(0x21 * nextid), *b));
        ids.push_back(nextid++);
        has_pushed.push_back(false);
      }
    }
    switch (g.weighted({12, 3, 3, 2, 2})) {
    case 0: {
      size_t k = 1;
      if (g.chance(1, 4))
        k = 1 + g.below(N + 3);
      size_t w = g.below(ws.size());
      bool stamp = g.chance(1, 2);
      bool reuse = g.chance(1, 3); // one event object pushed again and again
      bool turn = g.chance(1, 2);  // a different writer each time
      long v = any_value(g);
      timespan t0 = any_time(g);
      D d0 = make_data<D>(v);
      E shared(d0, t0);
      SAY("%s x%zu writer %u%s%s from (%ld,%ld)\n", stamp ? "push" : "push_all", k,
          ids[w], turn ? " and on, in turn" : "", reuse ? " same object" : "", v,
          (long)t0);
      for (size_t i = 0; i < k; i++) {
        size_t wi = turn ? (w + i) % ws.size() : w;
        D d = make_data<D>(reuse ? v : v + (long)i);
        timespan t = reuse ? t0 : (timespan)((uint64_t)t0 + i);
        E own(d, t);
        E &e = reuse ? shared : own;
        if (reuse)
          t = e.getTime();
        bool full = m.size() == N;
        unsigned before = readings;
        uint64_t c0 = (uint64_t)vclock.tv_sec * 1000000000ull + vclock.tv_nsec;
        auto r = stamp ? (*ws[wi])->push(e) : (*ws[wi])->push_all(e);
        CHECK((r == b->BUFFER_OVERFLOW) == full,
              "push with %zu of %zu events held returned %d", m.size(), (size_t)N,
              (int)r);
        CHECK(full || r == b->OK, "push on a buffer with room returned %d", (int)r);
        if (full) {
          m.pop_front();
          ovf = true;
        }
        if (stamp) {
          CHECK(readings > before, "push did not read the clock");
          CHECK(last_id == CLOCK_REALTIME,
                "the clock read is not the system's real-time clock");
          // exactly one of the readings made during this push
          size_t bo, to;
          b->state(bo, to);
          E got;
          b->read(got, (to + N) % (N + 1));
          t = got.getTime();
          uint64_t c1 = (uint64_t)vclock.tv_sec * 1000000000ull + vclock.tv_nsec;
          CHECK((uint64_t)t >= c0 && (uint64_t)t < c1 &&
                    ((uint64_t)t - c0) % tick_ns == 0,
                "stamp %ld is no clock reading of this push (%llu..%llu by %llu)",
                (long)t, (unsigned long long)c0, (unsigned long long)c1,
                (unsigned long long)tick_ns);
          stamped = true;
        }
        m.push_back({d, t});
        if (lastw >= 0 && lastw != (int)ids[wi])
          switches++;
        lastw = (int)ids[wi];
        has_pushed[wi] = true;
        if (look)
          CHECK(b->length() == m.size(), "length %zu instead of %zu after push",
                b->length(), m.size());
      }
      break;
    }
    case 1: { // destroy a writer
      if (ws.empty())
        break;
      size_t w = g.below(ws.size());
      SAY("destroy writer %u\n", ids[w]);
      destroyed_after += has_pushed[w];
      ws.erase(ws.begin() + w);
      ids.erase(ids.begin() + w);
      has_pushed.erase(has_pushed.begin() + w);
      break;
    }
    case 2: {
      size_t k = 1 + g.below(3);
      bool pl = g.chance(1, 2);
      SAY("%s x%zu\n", pl ? "pull" : "pop", k);
      while (k--) {
        E e;
        auto r = pl ? b->pull(e) : b->pop(e);
        CHECK((r == b->EMPTY) == m.empty(), "%s with %zu events held returned %d",
              pl ? "pull" : "pop", m.size(), (int)r);
        if (m.empty())
          break;
        Rec<D> want = pl ? m.front() : m.back();
        CHECK(same(e, want),
              "%s gave time %ld instead of %ld, or other data",
              pl ? "pull" : "pop", (long)e.getTime(), (long)want.t);
        if (pl)
          m.pop_front();
        else
          m.pop_back();
        removed = true;
      }
      break;
    }
    case 4: { // past the writers
      size_t k = 1 + g.below(3);
      if (g.chance(1, 6))
        k = N + 1;
      long v = any_value(g);
      timespan t = any_time(g);
      SAY("push on the buffer x%zu from (%ld,%ld)\n", k, v, (long)t);
      for (size_t i = 0; i < k; i++) {
        D d = make_data<D>(v + (long)i);
        bool full = m.size() == N;
        auto r = b->push(E(d, t));
        CHECK((r == b->BUFFER_OVERFLOW) == full,
              "push on the buffer with %zu of %zu events held returned %d", m.size(), (size_t)N, (int)r);
        if (full) {
          m.pop_front();
          ovf = true;
        }
        m.push_back({d, t});
        t = (timespan)((uint64_t)t + 1);
      }
      direct = true;
      break;
    }
    case 3: { // exact content
      size_t bo, to;
      b->state(bo, to);
      CHECK(bo <= N && to <= N && (to + N + 1 - bo) % (N + 1) == m.size(),
            "slots %zu..%zu for %zu events", bo, to, m.size());
      for (size_t i = 0; i < m.size(); i++) {
        E e;
        b->read(e, (bo + i) % (N + 1));
        CHECK(same(e, m[i]), "held event %zu has time %ld instead of %ld, or other "
              "data", i, (long)e.getTime(), (long)m[i].t);
      }
      break;
    }
    }
  }
  if (g.chance(1, 2))
    ws.clear();
  CHECK(b->length() == m.size(), "length %zu instead of %zu at the end",
        b->length(), m.size());
  while (!m.empty()) {
    E e;
    auto r = b->pull(e);
    CHECK(r != b->EMPTY && same(e, m.front()),
          "draining: status %d, time %ld instead of %ld", (int)r,
          (long)e.getTime(), (long)m.front().t);
    m.pop_front();
  }
  armed = false;
  if (switches)
    pbt::label("writers took turns");
  if (destroyed_after)
    pbt::label("a writer destroyed after it pushed");
  if (ovf)
    pbt::label("overflow");
  if (removed)
    pbt::label("pull or pop in between");
  if (stamped)
    pbt::label("stamping push");
  if (direct)
    pbt::label("direct push in between");
  if (switches >= 2 && (ovf || removed))
    pbt::nontrivial();
}

static void prop(Src &g) {
  armed = false;
  readings = 0;
  if (g.chance(1, 20000)) {
    pbt::label("capacity 70000");
    return run<int, 70000>(g);
  }
  switch (g.weighted({6, 6, 6, 5, 4, 2, 1, 4})) {
  case 0: return run<int, 1>(g);
  case 1: return run<long, 2>(g);
  case 2: return run<Wide, 3>(g);
  case 3: return run<int, 5>(g);
  case 4: return run<Small, 8>(g);
  case 5: return run<unsigned char, 30>(g);
  case 7: return g.chance(1, 2) ? run<Deep, 2>(g) : run<Deep, 4>(g);
  default: return run<int, 300>(g);
  }
}
const pbt::Suite pbt::suite = {
    "C04", "writers",
    "random histories over up to five writers of one buffer created and destroyed "
    "at any point, stamping and non-stamping pushes in any turn, the same event "
    "object pushed repeatedly, direct pushes, pulls and pops, a virtual clock; compared "
    "with a deque; a push that never returns runs out of fuel; non-trivial: the "
    "pushing writer changed at least twice and events were removed or overwritten",
    prop, 2500000, 50000000, 400000000, true};
