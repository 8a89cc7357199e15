// C19: time arithmetic is exact and normalised.
#include "pbt.h"
#include <cstring>
#include <cstdio>
#include <sys/types.h>
#include "time_compat.h"

using pbt::Src;
typedef __int128 big;
static const big G = 1000000000;

static bool armed;
static struct timespec reading;
static unsigned reads;
static clockid_t last_id;
extern "C" int __real_clock_gettime(clockid_t, struct timespec *);
extern "C" int __wrap_clock_gettime(clockid_t id, struct timespec *t) {
  if (!armed)
    return __real_clock_gettime(id, t);
  reads++;
  last_id = id;
  *t = reading;
  return 0;
}

static big ns(const struct timespec &t) { return (big)t.tv_sec * G + t.tv_nsec; }
static bool normal(const struct timespec &t) { return t.tv_nsec >= 0 && t.tv_nsec < 1000000000; }

static long any_sec(Src &g) {
  switch (g.weighted({4, 4, 2, 2, 2, 1})) {
  case 0: return (long)g.below(4);
  case 1: return (long)g.range(-3, 3);
  case 2: return 1700000000 + (long)g.below(100);
  case 3: return (long)((1ull << (29 + g.below(6))) + g.below(5)) - 2;
  case 4: return -(long)((1ull << (29 + g.below(6))) + g.below(5));
  default: return (long)(g.bits() >> 3) * (g.chance(1, 2) ? 1 : -1);
  }
}
static long any_nsec(Src &g) {
  switch (g.weighted({3, 3, 3, 1, 2})) {
  case 0: return (long)g.below(3);
  case 1: return 999999999 - (long)g.below(3);
  case 2: return (long)g.below(1000000000);
  case 3: return 500000000 + (long)g.range(-1, 1);
  default: return (long)g.below(1000) * 1000000;
  }
}

static struct timespec any(Src &g) {
  struct timespec t;
  t.tv_sec = any_sec(g);
  t.tv_nsec = any_nsec(g);
  return t;
}
static struct timespec near(Src &g, const struct timespec &a) {
  // equal, complement, same second, or anything
  struct timespec t = a;
  switch (g.weighted({1, 2, 2, 3})) {
  case 0: break;
  case 1:
    t.tv_sec = a.tv_sec + (long)g.range(-1, 1);
    t.tv_nsec = (1000000000 - a.tv_nsec) % 1000000000;
    if (g.chance(1, 2) && t.tv_nsec > 0)
      t.tv_nsec--;
    else if (g.chance(1, 2) && t.tv_nsec < 999999999)
      t.tv_nsec++;
    break;
  case 2: t.tv_nsec = any_nsec(g); break;
  default: t = any(g); break;
  }
  return t;
}

static void prop(Src &g) {
  switch (g.weighted({5, 5, 5, 4, 2, 4})) {
  case 0: { // addition, with every way the result may overwrite an operand
    struct timespec a = any(g), b = near(g, a), r = {-7, -7};
    big want = ns(a) + ns(b);
    unsigned alias = (unsigned)g.below(4);
    SAY("(%ld,%ld) + (%ld,%ld), result in %s\n", (long)a.tv_sec, a.tv_nsec, (long)b.tv_sec,
        b.tv_nsec, alias == 0 ? "a third" : alias == 1 ? "the left" : alias == 2 ? "the right" : "both");
    struct timespec a0 = a, b0 = b;
    if (alias == 3)
      want = 2 * ns(a);
    struct timespec *p = &a, *q = alias == 3 ? &a : &b, *d = alias == 0 ? &r : alias == 2 ? &b : &a;
    if (g.chance(1, 2))
      timespecadd(p, q, d);
    else if (a.tv_sec != 12345) // usable as one statement
      timespecadd(p, q, d);
    else
      pbt::fail("not one statement");
    CHECK(ns(*d) == want, "the sum is (%ld,%ld), off by %lld ns", (long)d->tv_sec, d->tv_nsec,
          (long long)(ns(*d) - want));
    CHECK(normal(*d), "the sum is not normalised: %ld ns", d->tv_nsec);
    CHECK(alias == 1 || alias == 3 || !memcmp(&a, &a0, sizeof a), "addition changed its left operand");
    CHECK(alias == 2 || !memcmp(&b, &b0, sizeof b), "addition changed its right operand");
    bool carry = a0.tv_nsec + (alias == 3 ? a0 : b0).tv_nsec >= 1000000000;
    pbt::label(carry ? "addition with carry" : "addition");
    if (carry || alias)
      pbt::nontrivial();
    break;
  }
  case 1: { // subtraction
    struct timespec a = any(g), b = near(g, a), r = {-7, -7};
    big want = ns(a) - ns(b);
    unsigned alias = (unsigned)g.below(4);
    SAY("(%ld,%ld) - (%ld,%ld), result in %s\n", (long)a.tv_sec, a.tv_nsec, (long)b.tv_sec,
        b.tv_nsec, alias == 0 ? "a third" : alias == 1 ? "the left" : alias == 2 ? "the right" : "both");
    struct timespec a0 = a, b0 = b;
    if (alias == 3)
      want = 0;
    struct timespec *p = &a, *q = alias == 3 ? &a : &b, *d = alias == 0 ? &r : alias == 2 ? &b : &a;
    if (g.chance(1, 2))
      timespecsub(p, q, d);
    else if (a.tv_sec != 12345)
      timespecsub(p, q, d);
    else
      pbt::fail("not one statement");
    CHECK(ns(*d) == want, "the difference is (%ld,%ld), off by %lld ns", (long)d->tv_sec,
          d->tv_nsec, (long long)(ns(*d) - want));
    CHECK(normal(*d), "the difference is not normalised: %ld ns", d->tv_nsec);
    CHECK(alias == 1 || alias == 3 || !memcmp(&a, &a0, sizeof a), "subtraction changed its left operand");
    CHECK(alias == 2 || !memcmp(&b, &b0, sizeof b), "subtraction changed its right operand");
    bool borrow = alias != 3 && a0.tv_nsec < b0.tv_nsec;
    pbt::label(borrow ? "subtraction with borrow" : "subtraction");
    if (want < 0)
      pbt::label("negative difference");
    if (borrow || alias)
      pbt::nontrivial();
    break;
  }
  case 2: { // comparison
    struct timespec a = any(g), b = near(g, a);
    SAY("(%ld,%ld) ? (%ld,%ld)\n", (long)a.tv_sec, a.tv_nsec, (long)b.tv_sec, b.tv_nsec);
    big x = ns(a), y = ns(b);
#define CMP(op)                                                                           \
  CHECK((bool)timespeccmp(&a, &b, op) == (x op y), "comparison " #op " is wrong");         \
  CHECK((bool)(!timespeccmp(&b, &a, op)) == !(y op x), "comparison " #op " is wrong, negated");
    CMP(<) CMP(<=) CMP(>) CMP(>=) CMP(==) CMP(!=)
    pbt::label(x == y ? "equal" : a.tv_sec == b.tv_sec ? "same second" : "comparison");
    if ((a.tv_sec < b.tv_sec) == (a.tv_nsec > b.tv_nsec) || a.tv_sec == b.tv_sec)
      pbt::nontrivial();
    break;
  }
  case 3: { // conversion of microseconds
    useconds_t us[3];
    unsigned i = (unsigned)g.below(3);
    for (auto &u : us)
      switch (g.weighted({2, 3, 2, 2})) {
      case 0: u = (useconds_t)g.below(3); break;
      case 1: u = (useconds_t)(1000000u * (uint32_t)g.below(4295) + (uint32_t)g.below(5) - 2); break;
      case 2: u = 0xffffffffu - (useconds_t)g.below(300000); break;
      default: u = (useconds_t)g.bits(); break;
      }
    struct timespec r = {-7, -7};
    unsigned how = (unsigned)g.below(3);
    useconds_t saved = us[i], *p = us;
    SAY("%u us\n", us[i]);
    if (how == 0)
      useconds_t2timespec(&us[i], &r);
    else if (how == 1)
      useconds_t2timespec(p + i, &r);
    else {
      struct timespec rr[2], *q = rr;
      useconds_t2timespec(p + i, q + 1);
      r = rr[1];
    }
    CHECK(us[i] == saved, "conversion changed the period");
    CHECK(ns(r) == (big)us[i] * 1000, "%u us became (%ld,%ld)", us[i], (long)r.tv_sec, r.tv_nsec);
    CHECK(normal(r), "the conversion is not normalised: %ld ns", r.tv_nsec);
    pbt::label("conversion");
    if (us[i] >= 1000000 && us[i] % 1000000)
      pbt::nontrivial();
    break;
  }
  case 4: { // clear and test
    struct timespec a = any(g);
    if (g.chance(1, 4))
      a.tv_sec = 0;
    if (g.chance(1, 4))
      a.tv_nsec = 0;
    SAY("(%ld,%ld)\n", (long)a.tv_sec, a.tv_nsec);
    CHECK((bool)timespecisset(&a) == (ns(a) != 0), "(%ld,%ld) tested for zero", (long)a.tv_sec, a.tv_nsec);
    CHECK((bool)!timespecisset(&a) == (ns(a) == 0), "(%ld,%ld) tested for zero, negated", (long)a.tv_sec, a.tv_nsec);
    timespecclear(&a);
    CHECK(ns(a) == 0 && a.tv_nsec == 0, "cleared to (%ld,%ld)", (long)a.tv_sec, a.tv_nsec);
    CHECK(!timespecisset(&a), "a cleared time is set");
    pbt::label("clear");
    pbt::nontrivial();
    break;
  }
  default: { // the clock
    reading.tv_sec = (long)g.below(9223372036);
    if (g.chance(1, 2))
      reading.tv_sec = (long)g.below(4) + (g.chance(1, 2) ? 1700000000 : g.chance(1, 2) ? 4294967294 : 2147483646);
    reading.tv_nsec = any_nsec(g);
    reads = 0;
    armed = true;
    timespan t = clockgettime();
    armed = false;
    unsigned n = reads;
    big want = ns(reading);
    SAY("clock at (%ld,%ld)\n", (long)reading.tv_sec, reading.tv_nsec);
    CHECK(n == 1 && last_id == CLOCK_REALTIME, "the clock was read %u times, id %d", n, (int)last_id);
    CHECK((big)t == want, "the clock reading is %ld, off by %lld", (long)t, (long long)((big)t - want));
    // an operand of an expression, and twice in one
    armed = true;
    timespan u = clockgettime() - clockgettime();
    armed = false;
    CHECK(u == 0, "two equal readings differ by %ld", (long)u);
    pbt::label("clock");
    pbt::nontrivial();
    break;
  }
  }
}
const pbt::Suite pbt::suite = {
    "C19", "time",
    "second/nanosecond pairs near carries, borrows, word boundaries and zero, all ways the "
    "result may overwrite an operand, all comparison operators, microsecond periods over "
    "their whole range, clock readings, compared with 128-bit integers; non-trivial: carry, "
    "borrow or overwritten operand, comparison decided by nanoseconds or against them, "
    "periods beyond a second with a remainder, clears, clock readings",
    prop, 20000000, 500000000, 1000000, true};
