// A small property-based-testing engine.
//
// A case is a sequence of choices.  The engine draws them at random (or from a
// mutated earlier case that reached new code), records them, and on a failure
// shrinks the recorded sequence; replaying a sequence replays the case.
// Cases run in forked workers, so a crash, a sanitizer report or a loop that
// never ends is a failure like any other, and is shrunk like any other.
#ifndef PBT_H
#define PBT_H
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <string>
#include <vector>

namespace pbt {

struct Src {
  // a number in [0, n); shrinks towards 0
  uint64_t below(uint64_t n);
  // a number in [lo, hi]; shrinks towards lo
  int64_t range(int64_t lo, int64_t hi) {
    return lo + (int64_t)below((uint64_t)hi - (uint64_t)lo + 1);
  }
  // any 64-bit value; shrinks towards 0
  uint64_t bits();
  // true with probability num/den; shrinks to false
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
  // index with the given weights; shrinks to index 0
  size_t weighted(std::initializer_list<unsigned> w);
  template <class T> const T &pick(const std::vector<T> &v) {
    return v[below(v.size())];
  }
  template <class T> T pick(std::initializer_list<T> v) {
    return v.begin()[below(v.size())];
  }
  // true while the case may grow: use for list lengths, "more?" first
  bool more(unsigned num, unsigned den) { return chance(num, den); }
};

extern bool verbose;
// describes the case; only when verbose
void say(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define SAY(...)                                                               \
  do {                                                                         \
    if (pbt::verbose)                                                          \
      pbt::say(__VA_ARGS__);                                                   \
  } while (0)
// the property is broken on this case
[[noreturn]] void fail(const char *fmt, ...)
    __attribute__((format(printf, 1, 2)));
// counted once per case; name must be a string literal
void label(const char *name);
// this case is non-trivial by the suite's rule
void nontrivial();
// the case cannot be judged (counted separately)
void discard_note(const char *why);
// fuel left in this case; harnesses may lower it around one call
extern long fuel;
extern long fuel_per_case;
// extra work done in a case, summed over the run (operations, schedules ...)
void count(const char *name, uint64_t n = 1);

struct Suite {
  const char *id;
  const char *name;
  const char *rule;
  void (*run)(Src &);
  uint64_t quick, thorough; // number of cases
  long fuel;                // instrumented basic blocks per case
  bool silence_stdout;
};
extern const Suite suite; // each harness defines it

uint64_t mix(uint64_t);
} // namespace pbt

#define CHECK(cond, ...)                                                       \
  do {                                                                         \
    if (!(cond))                                                               \
      pbt::fail(__VA_ARGS__);                                                  \
  } while (0)
#endif
