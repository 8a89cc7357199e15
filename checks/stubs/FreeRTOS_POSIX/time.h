#include <time.h>
