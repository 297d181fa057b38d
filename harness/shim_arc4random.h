/* reaches the implementation of rand_bytes that calls arc4random_buf */
#include "shim_urandom.h"
#define HAVE_ARC4RANDOM_BUF 1
