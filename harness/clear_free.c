// replaces free: copies the watched block at the moment it is freed
#include <stddef.h>
#include <stdint.h>
#include <string.h>
extern void __libc_free(void*);
static void* volatile P; static volatile size_t N; static uint8_t copy[4096]; static volatile size_t got;
void fv_watch(void* p, size_t n) { P = p; N = n; got = 0; }
const uint8_t* fv_watched(size_t* n) { *n = got; return got ? copy : 0; }
void free(void* p) { if (p && p == P) { memcpy(copy, p, N < sizeof copy ? N : sizeof copy); got = N; P = 0; } __libc_free(p); }
