/* a compiler about which nothing is known, on a system without host byte order conversions */
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <stdio.h>
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <malloc.h>
#include <endian.h>
#include <byteswap.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/ioctl.h>
#include <sys/random.h>
#undef __has_builtin
#define __has_builtin(b) 0
#undef __has_attribute
#define __has_attribute(b) 0
#undef htobe16
#undef htole16
#undef be16toh
#undef le16toh
#undef htobe32
#undef htole32
#undef be32toh
#undef le32toh
#undef htobe64
#undef htole64
#undef be64toh
#undef le64toh
#undef _GNU_SOURCE
#undef _DEFAULT_SOURCE
#undef _BSD_SOURCE
#undef __GNUC__
#undef __clang__
