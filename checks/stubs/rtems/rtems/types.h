#include <sys/types.h>
