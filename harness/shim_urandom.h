/* reaches the implementation of rand_bytes that reads the random device */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <errno.h>
#include <limits.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/ioctl.h>
#include <linux/random.h>
#include <assert.h>
#if defined(HAVE_CONFIG_H)
#include <config.h>
#endif
#undef HAVE_GETRANDOM
#undef HAVE_ARC4RANDOM_BUF
#undef __GLIBC__
#undef __GLIBC_MINOR__
