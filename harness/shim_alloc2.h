#define FV_SHIM_ALLOC 2
#include "shim_alloc1.h"
