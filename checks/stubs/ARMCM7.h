#include "ARMCM4.h"
