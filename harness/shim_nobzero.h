/* a system without explicit_bzero */
#define _GNU_SOURCE
#include <string.h>
#include <stdlib.h>
#if defined(HAVE_CONFIG_H)
#include <config.h>
#endif
#undef HAVE_EXPLICIT_BZERO
