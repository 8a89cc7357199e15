#include <pthread.h>
