// C22: what the variants of the library and the check exchange.
#ifndef C22_H
#define C22_H
#include "formula.h"
enum CmdOp {
  B_PUSH, B_PULL, B_POP, B_READ, B_WRITE, B_LENGTH, B_STATE, B_ASSIGN,
  W_NEW, W_DELETE, W_PUSH, W_PUSH_ALL,
  R_SYNC, R_GAP, R_PULL, R_POP, R_LENGTH,
  T_RESET, T_SET, T_SETC, T_GETC, T_INC, T_DEC, T_PULL, T_READ, T_NEXT, T_PREV, T_LENGTH, T_CONSUMED,
  E_FORMULA, E_TERM, E_CMP, E_CONN, TIME, DEBUG,
  NCMD
};
struct Cmd {
  CmdOp op;
  unsigned i, j;     // which object
  unsigned d;        // data
  long t;            // time, or an index
  long u;
  const Node *f;
  const Term *term;
};
struct Out {
  long v[6];
};
typedef void Runner(const Cmd *c, size_t n, Out *out);
extern "C" {
Runner run_plain, run_ndebug, run_cxx11, run_debug1, run_debug3, run_rmtld3, run_hw, run_riscv, run_riscv_nuttx,
    run_riscv_rtems, run_arm_bare, run_arm_freertos, run_arm_nuttx, run_hw_debug, run_arm_debug;
extern Runner run_clang __attribute__((weak));
extern long c22_clock_now; // what the clock reads
void *c22_memory(size_t n, bool low); // low: below 4 GB; all of it is reclaimed by c22_forget
void c22_forget();
int c22_quiet(const char *, ...);
}
#endif
