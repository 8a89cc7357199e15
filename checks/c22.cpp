// C22: every build configuration computes the same results.
// The same history of operations is run by every variant of the library (one object
// file each, checks/c22_variant.cpp); what every operation answers is compared with
// the plain variant's answers.
#include "c22.h"
#include "pbt.h"
#include <cstdarg>
#include <memory>
#include <vector>
#include <sys/mman.h>
#include <sanitizer/asan_interface.h>

long c22_clock_now;
extern "C" int c22_clock(int, struct timespec *ts) {
  ts->tv_sec = c22_clock_now / 1000000000;
  ts->tv_nsec = c22_clock_now % 1000000000;
  return 0;
}
// what debug output prints: formatted, then dropped
static uint64_t printed;
extern "C" int c22_quiet(const char *f, ...) {
  char s[300];
  va_list v;
  va_start(v, f);
  int n = vsnprintf(s, sizeof s, f, v);
  va_end(v);
  printed++;
  return n;
}
extern "C" int c22_fquiet(void *, const char *f, ...) {
  char s[300];
  va_list v;
  va_start(v, f);
  int n = vsnprintf(s, sizeof s, f, v);
  va_end(v);
  printed++;
  return n;
}
extern "C" int c22_puts(const char *) { printed++; return 0; }
extern "C" int c22_putchar(int) { printed++; return 0; }
extern "C" unsigned long c22_fwrite(const void *, unsigned long, unsigned long n, void *) { printed++; return n; }
extern "C" int c22_fputs(const char *, void *) { printed++; return 0; }
extern "C" int c22_fputc(int, void *) { printed++; return 0; }

static const size_t ARENA = 1 << 16;
static char *arenas[2];
static size_t used;
extern "C" void *c22_memory(size_t n, bool low) {
  char *&arena = arenas[low];
  if (!arena) {
    arena = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | (low ? MAP_32BIT : 0), -1, 0);
    if (arena == MAP_FAILED || (!low && (uintptr_t)arena >> 32 == 0))
      abort();
  }
  size_t at = (used + 64 + 63) & ~(size_t)63;
  if (at + n + 64 > ARENA)
    abort();
  ASAN_UNPOISON_MEMORY_REGION(arena + used, at - used);
  ASAN_POISON_MEMORY_REGION(arena + used, at - used);
  ASAN_UNPOISON_MEMORY_REGION(arena + at, n);
  ASAN_POISON_MEMORY_REGION(arena + at + n, 64);
  used = at + n;
  return arena + at;
}
extern "C" void c22_forget() { used = 0; }

struct Variant {
  const char *name;
  Runner *run;
  bool hw, narrow, noisy;
};
static const Variant variants[] = {
    {"plain", run_plain, false, false, false},
    {"NDEBUG, -O2", run_ndebug, false, false, false},
    {"C++11, -O0", run_cxx11, false, false, false},
    {"clang++ -O2", run_clang, false, false, false},
    {"RTMLIB_DEBUG=1", run_debug1, false, false, true},
    {"RTMLIB_DEBUG=3", run_debug3, false, false, true},
    {"RTMLIB_ENABLE_DEBUG(V)_RMTLD3", run_rmtld3, false, false, true},
    {"__HW__", run_hw, true, false, false},
    {"__HW__ RTMLIB_DEBUG=3", run_hw_debug, true, false, true},
    {"__riscv NO_THREADS", run_riscv, false, false, false},
    {"__riscv __NUTTX__", run_riscv_nuttx, false, false, false},
    {"__riscv __rtems__", run_riscv_rtems, false, false, false},
    {"__arm__ NO_THREADS", run_arm_bare, false, true, false},
    {"__arm__ __FREERTOS__", run_arm_freertos, false, true, false},
    {"__arm__ __NUTTX__", run_arm_nuttx, false, true, false},
    {"__arm__ __FREERTOS__ RTMLIB_DEBUG=3 and RMTLD3 debug", run_arm_debug, false, true, true},
};
static const char *cmd_name[] = {
    "buffer.push", "buffer.pull", "buffer.pop", "buffer.read", "buffer.write", "buffer.length", "buffer.state",
    "buffer=", "writer created", "writer destroyed", "writer.push", "writer.push_all", "synchronize", "gap",
    "reader.pull", "reader.pop", "reader.length", "trace.reset", "trace.set", "set_cursor", "get_cursor",
    "increment_cursor", "decrement_cursor", "trace.pull", "trace.read", "read_next", "read_previous",
    "trace.length", "consumed", "synchronize+set+formula", "synchronize+set+duration", "compare", "connectives",
    "timespec", "debug"};

static void prop_(Src &g) {
  enum { WILD, PROPER };
  int kind = g.chance(2, 5) ? WILD : PROPER;
  bool big = g.chance(1, 4);
  long now = big ? (g.chance(1, 2) ? 1700000000000000000l : 4294967296l * (1 + (long)g.below(3)) - (long)g.below(9)) : (long)g.below(20);
  if (!big && g.chance(1, 4)) // fits 32 bits, if only just
    now = g.pick<long>({2147483648l - 30, 4294967296l - 2500, 3000000000l, 1l << 24});
  bool top = now > 20 && !big;
  long first = now;
  Pool pool;
  std::vector<Cmd> cs;
  unsigned nprops = 3;
  unsigned made[2] = {0, 0}; // writers ever made, per buffer
  int writes[2] = {-1, -1};  // the buffer writer j writes to
  bool multi = false;
  size_t n = 1 + g.below(kind == WILD ? 50 : 40);
  if (!top && g.chance(1, 100)) // a long history
    n = 200 + g.below(500);
  auto time_of = [&]() -> long {
    if (kind == PROPER || g.chance(2, 3))
      return now += 1 + (long)g.below(g.chance(1, 4) ? 20 : 4);
    long back = (long)g.below(40);
    return back > now ? 0 : now - back;
  };
  bool formulas = false;
  unsigned long pushes = 0;
  if (g.chance(3, 4)) { // a writer right away
    cs.push_back({W_NEW, 0, 0, 0, 0, 0, nullptr, nullptr});
    made[0]++;
    writes[0] = 0;
  }
  while (cs.size() < n) {
    Cmd c = {B_PUSH, (unsigned)g.chance(1, 4), (unsigned)g.chance(1, 3), (unsigned)g.below(nprops), 0, 0, nullptr, nullptr};
    if (kind == PROPER)
      switch (g.weighted({8, 3, 2, 3, 6, 3, 2, 3})) {
      case 0: c.op = W_PUSH_ALL; break;
      case 1: c.op = W_PUSH; break;
      case 2: c.op = B_PUSH; break;
      case 3: c.op = g.chance(1, 2) ? W_NEW : W_DELETE; break;
      case 4: c.op = g.chance(1, 4) ? E_TERM : E_FORMULA; break;
      case 5: c.op = (CmdOp)(R_SYNC + (int)g.below(E_FORMULA - R_SYNC)); break;
      case 6: c.op = g.chance(1, 2) ? B_PULL : B_POP; break;
      default: c.op = (CmdOp)g.below(NCMD); break;
      }
    else
      c.op = (CmdOp)g.below(NCMD);
    if (c.op == B_WRITE && kind == PROPER)
      continue;
    switch (c.op) {
    case B_PUSH: case W_PUSH: case W_PUSH_ALL:
      c.t = time_of();
      pushes++;
      break;
    case B_WRITE: c.t = time_of(); c.u = (long)g.below(9); break;
    case B_READ: case T_SETC: c.u = (long)g.below(9); break;
    case W_NEW:
      if (writes[c.j] < 0) {
        writes[c.j] = (int)c.i;
        if (++made[c.i] > 1)
          multi = true;
      }
      break;
    case W_DELETE: writes[c.j] = -1; break;
    case B_ASSIGN: if (kind == PROPER && g.chance(2, 3)) c.op = B_STATE; break;
    case T_SET: case E_FORMULA: case E_TERM:
      c.t = g.chance(1, 6) ? (long)g.below(60) : now - (long)g.below((uint64_t)(now - first < 40 ? now - first + 1 : 40));
      if (c.t < 0) c.t = 0;
      if (c.op == T_SET)
        break;
      if (kind == WILD) {
        c.op = T_SET;
        break;
      }
      {
        Gen gen{pool, nprops};
        gen.even_bounds = true;
        gen.nbounds = top ? NBOUNDS - 1 : NBOUNDS; // the last one with such times does not fit
        static const unsigned w[NOPS] = {2, 1, 3, 2, 2, 5, 3, 3, 3, 3, 3, 5, 3, 3, 3, 3};
        memcpy(gen.ops, w, sizeof w);
        if (c.op == E_FORMULA)
          c.f = gen.formula(g, (unsigned)g.weighted({1, 4, 3, 1}));
        else
          c.term = gen.term(g, 2);
        formulas = true;
      }
      break;
    case E_CMP: c.t = time_of(); c.u = g.chance(1, 2) ? c.t : time_of(); c.j = (unsigned)g.below(nprops); break;
    case E_CONN: c.i = (unsigned)g.below(3); c.j = (unsigned)g.below(3); c.t = (long)g.below(9); c.u = (long)g.below(9); c.d = (unsigned)g.below(4); break;
    case TIME: c.t = (long)g.below(5000); c.u = (long)g.below(1000000000); c.i = (unsigned)g.below(5000); c.d = (unsigned)g.below(1000000000); c.j = (unsigned)g.below(3000); break;
    case DEBUG: c.t = now; c.d = (unsigned)g.below(4); break;
    default: break;
    }
    cs.push_back(c);
  }
  if (pbt::verbose)
    for (size_t k = 0; k < cs.size(); k++) {
      auto &c = cs[k];
      SAY("%zu: %s (%u,%u) data %u time %ld/%ld ", k, cmd_name[c.op], c.i, c.j, c.d, c.t, c.u);
      if (c.f)
        show(c.f);
      if (c.term)
        show(c.term);
      SAY("\n");
    }
  std::vector<Out> want(cs.size()), got(cs.size());
  bool noisy = g.chance(1, 8);
  unsigned ran = 0;
  for (auto &v : variants) {
    if (!v.run)
      continue;
    if ((v.hw && multi) || (v.narrow && big) || (v.noisy && !noisy))
      continue;
    auto &o = ran ? got : want;
    c22_forget();
    v.run(cs.data(), cs.size(), o.data());
    if (ran++)
      for (size_t k = 0; k < cs.size(); k++)
        for (int i = 0; i < 6; i++)
          CHECK(want[k].v[i] == got[k].v[i], "operation %zu, %s: %ld (answer %d) with %s, %ld in the plain build",
                k, cmd_name[cs[k].op], got[k].v[i], i, v.name, want[k].v[i]);
  }
  unsigned good = 0, defn = 0, over = 0;
  for (size_t k = 0; k < cs.size(); k++) {
    bool e = cs[k].op == E_FORMULA || cs[k].op == E_TERM;
    good += e && want[k].v[0] == 0;
    defn += cs[k].op == E_FORMULA && want[k].v[0] == 0 && want[k].v[3] != 2;
    over += cs[k].op == W_PUSH_ALL && want[k].v[0] == 2;
  }
  if (multi) pbt::label("several writers (not compared with __HW__)");
  if (big) pbt::label("times above 32 bits (not compared with __arm__)");
  if (top) pbt::label("times of 25 to 32 bits");
  if (cs.size() >= 200) pbt::label("200 operations or more");
  if (noisy) pbt::label("debug variants too");
  if (good) pbt::label("formula evaluated");
  if (defn) pbt::label("definite verdict");
  if (over) pbt::label("overflow");
  pbt::count("operations compared", cs.size() * (ran - 1));
  pbt::count("formulas evaluated", good);
  pbt::count("lines of debug output", printed);
  printed = 0;
  if (kind == PROPER ? good > 0 && pushes >= 3 : pushes >= 4)
    pbt::nontrivial();
  (void)formulas;
}
const pbt::Suite pbt::suite = {
    "C22", "variants",
    "random histories of buffer, writer, reader, trace, formula, event and time operations run "
    "by sixteen variants of the library, all answers compared with the plain build's; "
    "non-trivial: a formula evaluated after three pushes, or four pushes in a history with "
    "arbitrary times",
    prop_, 1500000, 20000000, 60000000, true};
