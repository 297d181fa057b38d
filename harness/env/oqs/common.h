/* stand-in for liboqs' interface, for the build the repository has for it */
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
static inline void* OQS_MEM_aligned_alloc(size_t a, size_t n) { return aligned_alloc(a, (n + a - 1) / a * a); }
static inline void OQS_MEM_aligned_free(void* p) { free(p); }
static inline int OQS_MEM_secure_bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n) ? 1 : 0; }
static inline void OQS_MEM_cleanse(void* p, size_t n) { memset(p, 0, n); __asm__ volatile("" : : "r"(p) : "memory"); }
