#include <stdint.h>
#include <stddef.h>
