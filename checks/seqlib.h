// Shared by the sequential checks: event types, capacities, a logical model.
#ifndef SEQLIB_H
#define SEQLIB_H
#include "pbt.h"
#include <cstring>
#include <deque>
#include <memory>
#include <new>
#include <vector>

#include "circularbuffer.h"
#include "reader.h"
#include "writer.h"

using pbt::Src;

// A payload of several words whose copies are made word by word.
struct Wide {
  volatile long a[3]; // volatile: every word is an access of its own
  Wide() { set(0); }
  Wide(long v) { set(v); }
  Wide(const Wide &o) {
    for (int i = 0; i < 3; i++)
      a[i] = o.a[i];
  }
  Wide &operator=(const Wide &o) {
    for (int i = 0; i < 3; i++)
      a[i] = o.a[i];
    return *this;
  }
  void set(long v) {
    a[0] = v;
    a[1] = (long)((unsigned long)v * 31 + 7);
    a[2] = ~v;
  }
  bool whole() const { return a[1] == (long)((unsigned long)a[0] * 31 + 7) && a[2] == ~a[0]; }
  bool operator==(const Wide &o) const {
    return a[0] == o.a[0] && a[1] == o.a[1] && a[2] == o.a[2];
  }
};
struct Small {
  char c[5];
  bool operator==(const Small &o) const { return !memcmp(c, o.c, 5); }
};
// A payload that only its own constructors and assignment can copy: it holds its
// own address and memory of its own.
struct Deep {
  const Deep *self;
  long *v;
  Deep() : self(this), v(new long(0)) {}
  Deep(long x) : self(this), v(new long(x)) {}
  Deep(const Deep &o) : self(this), v(new long(*o.v)) {}
  Deep &operator=(const Deep &o) {
    *v = *o.v;
    return *this;
  }
  ~Deep() { delete v; }
  bool operator==(const Deep &o) const {
    return self == this && o.self == &o && *v == *o.v;
  }
};

template <class D> D make_data(long v);
template <> inline int make_data<int>(long v) { return (int)v; }
template <> inline unsigned make_data<unsigned>(long v) { return (unsigned)v; }
template <> inline long make_data<long>(long v) { return v; }
template <> inline unsigned char make_data<unsigned char>(long v) {
  return (unsigned char)v;
}
template <> inline Wide make_data<Wide>(long v) { return Wide(v); }
template <> inline Deep make_data<Deep>(long v) { return Deep(v); }
template <> inline Small make_data<Small>(long v) {
  Small s;
  memcpy(s.c, &v, 4);
  s.c[4] = (char)(v * 7);
  return s;
}

template <class D> struct Rec { // what the model knows of one event
  D d;
  timespan t;
};
template <class E, class R> bool same(const E &e, const R &r) {
  return e.getTime() == r.t && e.getData() == r.d;
}

// Heap memory filled with a fixed pattern before construction, so that anything
// left uninitialised has the same value on every run.
template <class T> struct Box {
  void *mem;
  T *p;
  template <class... A> explicit Box(unsigned char fill, A &&... a) {
    mem = ::operator new(sizeof(T), std::align_val_t(64));
    memset(mem, fill, sizeof(T));
    p = new (mem) T(static_cast<A &&>(a)...);
  }
  ~Box() { reset(); }
  void reset() {
    if (p)
      p->~T();
    p = nullptr;
    if (mem)
      ::operator delete(mem, std::align_val_t(64));
    mem = nullptr;
  }
  T *operator->() { return p; }
  T &operator*() { return *p; }
  Box(const Box &) = delete;
};

inline timespan any_time(Src &g) {
  switch (g.weighted({6, 2, 1, 1})) {
  case 0:
    return (timespan)g.below(50);
  case 1:
    return (timespan)g.range(-5, 5);
  case 2:
    return (timespan)(1700000000000000000ll + g.below(1000));
  default:
    return (timespan)g.bits();
  }
}
inline long any_value(Src &g) {
  switch (g.weighted({6, 2, 1})) {
  case 0:
    return (long)g.below(5);
  case 1:
    return (long)g.below(1000) - 500;
  default:
    return (long)g.bits();
  }
}
#endif
