// Formulas built at run time: their nodes, printing them, drawing random ones.
// Nothing here depends on the library.
#ifndef FORMULA_H
#define FORMULA_H
#include "pbt.h"
#include <cstring>
#include <deque>
using pbt::Src;

enum Op {
  PROP, CONST3, NOT, OR, AND,                     // not temporal
  UNTIL, UNTIL_IN, ALWAYS, EVEQ, ALEQ, EVUNB,     // future
  SINCE, HIST, PEVEQ, HEQ,                        // past
  LESS,                                           // of two terms
  NOPS
};
enum TermOp { TCONST, TDUR, TSUM, TMUL };
static const char *op_name[] = {"prop", "const", "not", "or", "and", "until", "until_in",
                                "always", "eventually=", "always=", "eventually", "since",
                                "historically", "past_eventually=", "historically=", "<"};

// the bounds the operators are instantiated with
#ifndef BOUND_0
#define BOUND_0 1
#define BOUND_1 2
#define BOUND_2 3
#define BOUND_3 4
#define BOUND_4 6
#define BOUND_5 9
#define BOUND_6 14
#define BOUND_7 22
#define BOUND_8 100
#define BOUND_9 4000000000l
#endif
static const long bounds[] = {BOUND_0, BOUND_1, BOUND_2, BOUND_3, BOUND_4,
                              BOUND_5, BOUND_6, BOUND_7, BOUND_8, BOUND_9};
static const unsigned NBOUNDS = sizeof bounds / sizeof *bounds;
#define FOR_BOUNDS(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9)

struct Node;
struct Term {
  TermOp op = TCONST;
  long long n = 0;
  unsigned b = 0; // index into bounds
  Node *phi = nullptr;
  Term *l = nullptr, *r = nullptr;
};
struct Node {
  Op op = PROP;
  int p = 0;
  unsigned b = 0;
  Node *l = nullptr, *r = nullptr;
  Term *tl = nullptr, *tr = nullptr;
};
struct Pool {
  std::deque<Node> n;
  std::deque<Term> t;
  Node *node() { n.emplace_back(); return &n.back(); }
  Term *term() { t.emplace_back(); return &t.back(); }
};

inline void show(const Node *f);
inline void show(const Term *f) {
  switch (f->op) {
  case TCONST: SAY("%lld", f->n); break;
  case TDUR: SAY("dur[%ld](", bounds[f->b]); show(f->phi); SAY(")"); break;
  case TSUM: case TMUL: SAY("("); show(f->l); SAY(f->op == TSUM ? " + " : " * "); show(f->r); SAY(")"); break;
  }
}
inline void show(const Node *f) {
  if (!pbt::verbose)
    return;
  switch (f->op) {
  case PROP: SAY("p%d", f->p); return;
  case CONST3: SAY("%s", f->p == 0 ? "true" : f->p == 1 ? "false" : "unknown"); return;
  case LESS: SAY("("); show(f->tl); SAY(" < "); show(f->tr); SAY(")"); return;
  default: break;
  }
  SAY("%s", op_name[f->op]);
  if (f->op >= UNTIL && f->op != EVUNB)
    SAY("[%ld]", bounds[f->b]);
  SAY("(");
  show(f->l);
  if (f->r) {
    SAY(", ");
    show(f->r);
  }
  SAY(")");
}

// ---- random formulas ---------------------------------------------------------
// `past` in force: the reference needs an event in force; at the top level and in
// operands there always is one.
struct Gen {
  Pool &pool;
  unsigned nprops;
  unsigned ops[NOPS]; // weights
  unsigned dur_weight = 0;
  bool in_simple = true; // operands of in-between sampling depend on the event in force
  unsigned nodes = 0;
  unsigned temporal = 0;
  bool even_bounds = false, huge_bounds = false;
  unsigned nbounds = NBOUNDS; // even_bounds: the first so many
  unsigned bound(Src &g) {
    if (huge_bounds && g.chance(2, 3))
      return NBOUNDS - 1;
    return even_bounds ? (unsigned)g.below(nbounds) : (unsigned)g.weighted({4, 4, 4, 4, 4, 3, 3, 2, 2, 1});
  }
  Node *leaf(Src &g) {
    Node *n = pool.node();
    nodes++;
    if (g.chance(1, 16)) {
      n->op = CONST3;
      n->p = (int)g.below(3);
    } else {
      n->op = PROP;
      n->p = (int)g.below(nprops);
    }
    return n;
  }
  Term *term(Src &g, unsigned depth) {
    Term *t = pool.term();
    nodes++;
    if (nodes > 14 || g.chance(1, 3)) {
      t->op = TCONST;
      t->n = (long long)g.below(12);
      return t;
    }
    switch (g.weighted({5, 2, 1})) {
    case 0:
      t->op = TDUR;
      t->b = bound(g);
      t->phi = formula(g, depth ? depth - 1 : 0);
      break;
    case 1:
      t->op = TSUM;
      t->l = term(g, depth ? depth - 1 : 0);
      t->r = term(g, depth ? depth - 1 : 0);
      break;
    default:
      t->op = TMUL;
      t->l = term(g, depth ? depth - 1 : 0);
      t->r = pool.term();
      t->r->n = (long long)g.below(4);
      break;
    }
    return t;
  }
  Node *formula(Src &g, unsigned depth, bool simple = false) {
    if (depth == 0 || nodes > 14)
      return leaf(g);
    unsigned total = 0, w[NOPS];
    for (unsigned i = 0; i < NOPS; i++) {
      w[i] = simple && i >= UNTIL ? 0 : ops[i];
      total += w[i];
    }
    uint64_t x = g.below(total);
    unsigned op = 0;
    while (x >= w[op])
      x -= w[op++];
    if (op == PROP || op == CONST3)
      return leaf(g);
    Node *n = pool.node();
    nodes++;
    n->op = (Op)op;
    if (op >= UNTIL)
      temporal++;
    if (op == LESS) {
      n->tl = term(g, depth);
      n->tr = term(g, depth);
      return n;
    }
    if (op >= UNTIL && op != EVUNB)
      n->b = bound(g);
    bool s = simple || op == UNTIL_IN;
    n->l = formula(g, depth - 1, s);
    if (op == OR || op == AND || op == UNTIL || op == UNTIL_IN || op == SINCE)
      n->r = formula(g, depth - 1, s);
    return n;
  }
};
#endif
