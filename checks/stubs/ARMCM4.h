#ifndef ARMCM4_STUB
#define ARMCM4_STUB
#include <stdint.h>
#include <stddef.h>
struct SysTick_stub {
  volatile uint32_t CTRL, LOAD, VAL, CALIB;
};
extern struct SysTick_stub SysTick_regs;
#define SysTick (&SysTick_regs)
#define __NOP() ((void)0)
#endif
