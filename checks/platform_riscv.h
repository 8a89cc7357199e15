// Included before everything else: the library as it is for RISC-V (RTEMS), compiled
// for this machine.  System headers are read before the platform macros are set.
#include <algorithm>
#include <assert.h>
#include <atomic>
#include <cassert>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <string>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#include <utility>
#include <vector>
#define __riscv 1
#define __rtems__ 1
