#include <errno.h>
