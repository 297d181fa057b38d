/* reaches the implementation of rand_bytes that calls randombytes */
#include "shim_urandom.h"
#define HAVE_RANDOMBYTES 1
