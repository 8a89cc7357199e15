#ifndef C10_H
#define C10_H
#include "rmtld3/rmtld3.h"
struct Val {
  three_valued_type x[4];
  four_valued_type y[3];
  duration d[4];
  int n[3];
  bool c[2];
};
struct Out {
  int v = -1;
  long long n = 0;
  bool u = false;
  Out &operator=(three_valued_type t) { v = (int)t; return *this; }
  Out &operator=(four_valued_type t) { v = (int)t; return *this; }
  Out &operator=(const duration &d) { n = d.first; u = d.second; return *this; }
};
struct Expr {
  char kind;
  void (*f)(const Val &, Out &);
  const char *meaning, *text;
};
inline three_valued_type id(three_valued_type a) { return a; }
extern const Expr exprs[];
extern const unsigned nexprs;
#endif
