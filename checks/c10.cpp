// C10: the connectives are Kleene's logic in any composition.
// gen_c10.py writes random compositions of the connectives as C++; each is applied
// to random operands and compared with an interpreter of its meaning.
#include "c10.h"
#include "pbt.h"
#include <cstdlib>
#include <cstring>
using pbt::Src;

struct V { // truth: 1 true, -1 false, 0 unknown; or a number that may be unknown
  int t = 0;
  __int128 n = 0;
  bool u = false;
  bool big = false; // outside the duration's type: not judged
};
static void clip(V &v) {
  if (v.n > INT64_MAX || v.n < INT64_MIN)
    v.big = true;
}
static int tv(three_valued_type x) { return x == T_TRUE ? 1 : x == T_FALSE ? -1 : 0; }
static V eval(const char *&s, const Val &v) {
  while (*s == ' ')
    s++;
  V r;
  char op = *s++;
  auto sub = [&]() { return eval(s, v); };
  switch (op) {
  case 'x': r.t = tv(v.x[*s++ - '0']); return r;
  case 'k': { char c = *s++; r.t = c == 'T' ? 1 : c == 'F' ? -1 : 0; return r; }
  case 'y': {
    four_valued_type y = v.y[*s++ - '0'];
    r.t = y == FV_TRUE ? 1 : y == FV_FALSE ? -1 : 0;
    return r;
  }
  case 'd': { const duration &d = v.d[*s++ - '0']; r.n = d.first; r.u = d.second; return r; }
  case 'n': r.n = v.n[*s++ - '0']; return r;
  case 'c': {
    char c = *s++;
    r.u = c == 'F' ? false : c == '|' ? v.c[0] || v.c[1] : v.c[c - '0'];
    return r;
  }
  case '|': { V a = sub(), b = sub(); r.t = a.t > b.t ? a.t : b.t; r.big = a.big | b.big; return r; }
  case '&': { V a = sub(), b = sub(); r.t = a.t < b.t ? a.t : b.t; r.big = a.big | b.big; return r; }
  case '!': { V a = sub(); a.t = -a.t; return a; }
  case '=': return sub();
  case '<': {
    V a = sub(), b = sub();
    r.t = a.u || b.u ? 0 : a.n < b.n ? 1 : -1;
    r.big = a.big | b.big;
    return r;
  }
  case '+': { V a = sub(), b = sub(); r.n = a.n + b.n; r.u = a.u | b.u; r.big = a.big | b.big; clip(r); return r; }
  case '*': { V a = sub(), b = sub(); r.u = a.u | b.u; r.big = a.big | b.big; if (!r.big) r.n = a.n * b.n; clip(r); return r; }
  case 'm': {
    V a = sub();
    V c = sub();
    a.u = c.u;
    if (a.n > INT32_MAX || a.n < INT32_MIN)
      a.big = true; // the sum of two ints is an int before it is a duration
    return a;
  }
  case '?': {
    while (*s == ' ')
      s++;
    bool c;
    if (*s == 't') {
      s++;
      V a = sub();
      c = a.t == 1;
      r.big = a.big;
    } else
      c = sub().u;
    V a = sub(), b = sub();
    bool big = r.big | a.big | b.big;
    r = c ? a : b;
    r.big = big;
    return r;
  }
  }
  abort();
}

static const char *name(int t) { return t > 0 ? "true" : t < 0 ? "false" : "unknown"; }

static void prop(Src &g) {
  Val v;
  const Expr &e = exprs[g.below(nexprs)];
  static const three_valued_type t3[] = {T_TRUE, T_FALSE, T_UNKNOWN};
  static const four_valued_type t4[] = {FV_TRUE, FV_FALSE, FV_UNKNOWN};
  for (auto &x : v.x) x = t3[g.below(3)];
  for (auto &x : v.y) x = t4[g.below(3)];
  for (auto &x : v.c) x = g.chance(1, 2);
  for (auto &x : v.n) x = g.chance(1, 8) ? (int)g.bits() : (int)g.below(6);
  for (auto &x : v.d) {
    long long n;
    switch (g.weighted({6, 2, 1})) {
    case 0: n = (long long)g.below(4); break;
    case 1: n = (long long)g.below(1u << 20) * 4099 - 1000000; break;
    default: n = (long long)g.bits() >> g.below(40); break;
    }
    x = duration((timeabs)n, g.chance(1, 5));
  }
  SAY("%s\n with x = {%s, %s, %s, %s}\n", e.text, name(tv(v.x[0])), name(tv(v.x[1])),
      name(tv(v.x[2])), name(tv(v.x[3])));
  SAY("  d = {%lld%s, %lld%s, %lld%s, %lld%s}, c = {%d, %d}, n = {%d, %d, %d}\n",
      (long long)v.d[0].first, v.d[0].second ? "?" : "", (long long)v.d[1].first,
      v.d[1].second ? "?" : "", (long long)v.d[2].first, v.d[2].second ? "?" : "",
      (long long)v.d[3].first, v.d[3].second ? "?" : "", v.c[0], v.c[1], v.n[0], v.n[1],
      v.n[2]);
  const char *s = e.meaning;
  V want = eval(s, v);
  if (want.big) {
    pbt::label("outside the integer range (not judged)");
    return;
  }
  Out o;
  e.f(v, o);
  if (e.kind == 'd') {
    CHECK(o.n == (long long)want.n && o.u == want.u, "gives %lld%s instead of %lld%s", o.n,
          o.u ? " unknown" : "", (long long)want.n, want.u ? " unknown" : "");
    pbt::label("duration");
  } else {
    int w = e.kind == 't' ? (want.t > 0 ? (int)T_TRUE : want.t < 0 ? (int)T_FALSE : (int)T_UNKNOWN)
                          : (want.t > 0 ? (int)FV_TRUE : want.t < 0 ? (int)FV_FALSE : (int)FV_UNKNOWN);
    CHECK(o.v == w, "gives value %d instead of %s", o.v, name(want.t));
    pbt::label(want.t > 0 ? "true" : want.t < 0 ? "false" : "unknown");
  }
  if (strlen(e.meaning) > 6)
    pbt::nontrivial();
}
const pbt::Suite pbt::suite = {
    "C10", "connectives",
    "random compositions of the connectives and duration terms (generated as C++ from "
    "the seed, several hundred, depth up to 5, operands that are macros, calls or "
    "conditional expressions) applied to random operands and compared with an "
    "interpreter; non-trivial: more than one operator",
    prop, 8000000, 100000000, 1000000, true};
