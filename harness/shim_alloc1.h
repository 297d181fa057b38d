/* a system without aligned_alloc */
#ifndef FV_SHIM_ALLOC
#define FV_SHIM_ALLOC 1
#endif
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#if defined(HAVE_CONFIG_H)
#include <config.h>
#endif
#undef HAVE_ALIGNED_ALLOC
#if FV_SHIM_ALLOC > 1
#undef HAVE_POSIX_MEMALIGN
#endif
#if FV_SHIM_ALLOC > 2
#undef HAVE_MEMALIGN
#endif
