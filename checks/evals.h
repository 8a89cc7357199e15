// Formulas built at run time, evaluated by the library and by a reference.
#ifndef EVALS_H
#define EVALS_H
#include "tracelib.h"
#include "libeval.h"

int count_until_iterations;

// ---- by the reference --------------------------------------------------------
// truth: 1 true, -1 false, 0 unknown.  v: the retained events; i: the event in
// force (position); t: the instant.
struct Num {
  __int128 n;
  bool u;
};
struct Ref {
  const std::vector<Ev> &v;
  uint64_t steps = 0;
  explicit Ref(const std::vector<Ev> &v_) : v(v_) {}

  int until(const Node *l, bool neg_r, const Node *r, long b, size_t i, timespan t) {
    for (size_t j = i; j < v.size(); j++) {
      if (v[j].t >= t + b)
        return -1;
      int y = eval(r, j, v[j].t);
      if (neg_r)
        y = -y;
      if (y != -1)
        return y;
      int x = l ? eval(l, j, v[j].t) : 1;
      if (x != 1)
        return x;
    }
    return 0;
  }
  int since(const Node *l, bool neg_r, const Node *r, long b, size_t i, timespan t) {
    for (size_t j = i + 1; j-- > 0;) {
      if (v[j].t == t)
        continue;
      if (v[j].t <= t - b)
        return -1;
      int y = eval(r, j, v[j].t);
      if (neg_r)
        y = -y;
      if (y != -1)
        return y;
      int x = l ? eval(l, j, v[j].t) : 1;
      if (x != 1)
        return x;
    }
    return -1;
  }
  int eval(const Node *f, size_t i, timespan t) {
    steps++;
    switch (f->op) {
    case PROP:
      if (i + 1 >= v.size())
        return 0;
      return v[i].d == f->p ? 1 : -1;
    case CONST3: return f->p == 0 ? 1 : f->p == 1 ? -1 : 0;
    case NOT: return -eval(f->l, i, t);
    case OR: { int a = eval(f->l, i, t), b = eval(f->r, i, t); return a > b ? a : b; }
    case AND: { int a = eval(f->l, i, t), b = eval(f->r, i, t); return a < b ? a : b; }
    case UNTIL: case UNTIL_IN: return until(f->l, false, f->r, bounds[f->b], i, t);
    case ALWAYS: return -until(nullptr, true, f->l, bounds[f->b], i, t);
    case EVEQ: case ALEQ: {
      size_t j = i;
      while (j + 1 < v.size() && v[j + 1].t <= t + bounds[f->b])
        j++;
      if (j + 1 >= v.size())
        return 0;
      return eval(f->l, j, v[j].t);
    }
    case EVUNB:
      for (size_t j = i; j < v.size(); j++) {
        int x = eval(f->l, j, v[j].t);
        if (x != -1)
          return x;
      }
      return 0;
    case SINCE: return since(f->l, false, f->r, bounds[f->b], i, t);
    case HIST: return -since(nullptr, true, f->l, bounds[f->b], i, t);
    case PEVEQ: case HEQ: {
      size_t j = i;
      while (j > 0 && v[j].t > t - bounds[f->b])
        j--;
      // is there an event before t at all?
      if (v[0].t >= t)
        return 0;
      return eval(f->l, j, v[j].t);
    }
    case LESS: {
      Num a = term(f->tl, i, t), b = term(f->tr, i, t);
      return a.u || b.u ? 0 : a.n < b.n ? 1 : -1;
    }
    default: abort();
    }
  }
  Num term(const Term *f, size_t i, timespan t) {
    steps++;
    switch (f->op) {
    case TCONST: return {f->n, false};
    case TSUM: { Num a = term(f->l, i, t), b = term(f->r, i, t); return {a.n + b.n, a.u || b.u}; }
    case TMUL: { Num a = term(f->l, i, t), b = term(f->r, i, t); return {a.n * b.n, a.u || b.u}; }
    case TDUR: {
      timespan end = t + bounds[f->b];
      Num r = {0, false};
      size_t j = i;
      for (; j < v.size() && (j == i || v[j].t <= end); j++) {
        int x = eval(f->phi, j, v[j].t);
        if (x == 0)
          r.u = true;
        if (j + 1 >= v.size())
          break;
        timespan a = v[j].t > t ? v[j].t : t, z = v[j + 1].t < end ? v[j + 1].t : end;
        if (x == 1 && z > a)
          r.n += z - a;
      }
      if (v.back().t <= end) // no event after the window
        r.u = true;
      return r;
    }
    }
    abort();
  }
};
inline int tv(three_valued_type x) { return x == T_TRUE ? 1 : x == T_FALSE ? -1 : 0; }
inline const char *tname(int x) { return x > 0 ? "true" : x < 0 ? "false" : "unknown"; }
#endif
