#include <time.h>
extern volatile unsigned long g_system_timer;
