#include <sched.h>
