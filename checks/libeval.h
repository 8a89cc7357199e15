// Formulas built at run time, evaluated by the library.
//
// The library's operators are templates over a class E with static eval_phi1/2 and
// a bound.  Here E looks up the formula node being evaluated, so that any formula
// can be built and nested at run time from one set of instantiations.
#ifndef LIBEVAL_H
#define LIBEVAL_H
#include "formula.h"
#include "rmtld3/reader.h"
#include "rmtld3/formulas.h"

// ---- by the library ----------------------------------------------------------
#ifdef EVALS_FIBERS // one of each per fiber, in memory that is no scheduling point
struct Cur {
  const Node *n;
  const Term *t;
};
static Cur *const curs = new Cur[16];
static inline __attribute__((no_sanitize("thread"), noinline)) Cur &cur() { return curs[fib::self()]; }
#define cur_node (cur().n)
#define cur_term (cur().t)
#else
static const Node *cur_node;
static const Term *cur_term;
#endif
template <class T> three_valued_type lib_eval(T &trace, timespan &t, const Node *f);
template <class T> duration lib_term(T &trace, timespan &t, const Term *f);

template <class T> struct PhiE {
  static three_valued_type eval_phi1(T &trace, timespan &t) {
    const Node *me = cur_node;
    auto v = lib_eval(trace, t, me->l);
    cur_node = me;
    return v;
  }
  static three_valued_type eval_phi2(T &trace, timespan &t) {
    const Node *me = cur_node;
    auto v = lib_eval(trace, t, me->r);
    cur_node = me;
    return v;
  }
};
template <class T> struct DurE {
  static three_valued_type eval_phi1(T &trace, timespan &t) {
    const Term *me = cur_term;
    auto v = lib_eval(trace, t, me->phi);
    cur_term = me;
    return v;
  }
};
template <class T> three_valued_type lib_eval(T &trace, timespan &t, const Node *f) {
  typedef PhiE<T> E;
  switch (f->op) {
  case PROP: {
    auto x = prop<T>(trace, (proposition)f->p, t);
    return x;
  }
  case CONST3: return f->p == 0 ? T_TRUE : f->p == 1 ? T_FALSE : T_UNKNOWN;
  case NOT: {
    auto x = lib_eval(trace, t, f->l);
    return b3_not(x);
  }
  case OR: {
    auto x = lib_eval(trace, t, f->l);
    auto y = lib_eval(trace, t, f->r);
    return b3_or(x, y);
  }
  case AND: {
    auto x = lib_eval(trace, t, f->l);
    auto y = lib_eval(trace, t, f->r);
    return b3_and(x, y);
  }
  case LESS: {
    auto x = lib_term(trace, t, f->tl);
    auto y = lib_term(trace, t, f->tr);
    return b3_lessthan(x, y);
  }
  case EVUNB: cur_node = f; return eventually_less_unbounded<T, E>(trace, t);
  default: break;
  }
  cur_node = f;
#define OPS(i)                                                                            \
  case i:                                                                                 \
    switch (f->op) {                                                                      \
    case UNTIL: return until_less<T, E, bounds_at(i)>(trace, t);                          \
    case UNTIL_IN: return until_less<T, E, bounds_at(i), with_in_between>(trace, t);      \
    case ALWAYS: return always_less<T, E, bounds_at(i)>(trace, t);                        \
    case EVEQ: return eventually_equal<T, E, bounds_at(i)>(trace, t);                     \
    case ALEQ: return always_equal<T, E, bounds_at(i)>(trace, t);                         \
    case SINCE: return since_less<T, E, bounds_at(i)>(trace, t);                          \
    case HIST: return historically_less<T, E, bounds_at(i)>(trace, t);                    \
    case PEVEQ: return pasteventually_equal<T, E, bounds_at(i)>(trace, t);                \
    case HEQ: return historically_equal<T, E, bounds_at(i)>(trace, t);                    \
    default: break;                                                                       \
    }                                                                                     \
    break;
#define bounds_at(i) (timespan) BOUND_##i
  switch (f->b) { FOR_BOUNDS(OPS) }
  abort();
}
template <class T> duration lib_term(T &trace, timespan &t, const Term *f) {
  switch (f->op) {
  case TCONST: return make_duration(f->n, false);
  case TSUM: {
    auto x = lib_term(trace, t, f->l);
    auto y = lib_term(trace, t, f->r);
    return sum_dur(x, y);
  }
  case TMUL: {
    auto x = lib_term(trace, t, f->l);
    auto y = lib_term(trace, t, f->r);
    return mult_dur(x, y);
  }
  case TDUR: break;
  }
  cur_term = f;
#define DURS(i)                                                                           \
  case i: return duration_term<T, DurE<T>, bounds_at(i)>(trace, t);
  switch (f->b) { FOR_BOUNDS(DURS) }
  abort();
}
#endif
