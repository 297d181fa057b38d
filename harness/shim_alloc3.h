#define FV_SHIM_ALLOC 3
#include "shim_alloc1.h"
