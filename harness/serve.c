/* answers calls of the public interface that come in on descriptor 0; see remote.cpp */
#include "faest_128s.h"
#include "faest_128f.h"
#include "faest_192s.h"
#include "faest_192f.h"
#include "faest_256s.h"
#include "faest_256f.h"
#include "faest_em_128s.h"
#include "faest_em_128f.h"
#include "faest_em_192s.h"
#include "faest_em_192f.h"
#include "faest_em_256s.h"
#include "faest_em_256f.h"
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static void in(void* p, size_t n) { char* b = p; while (n) { ssize_t r = read(0, b, n); if (r <= 0) _exit(r ? 4 : 0); b += r; n -= r; } }
static void out(const void* p, size_t n) { const char* b = p; while (n) { ssize_t r = write(1, b, n); if (r <= 0) _exit(4); b += r; n -= r; } }
static void out64(int64_t v) { out(&v, 8); }
int rand_bytes(uint8_t* d, size_t n) { uint8_t k = 'R'; int32_t rc; out(&k, 1); out64(n); in(&rc, 4); in(d, n); return rc; }
typedef struct { uint8_t* p; size_t n; void* base; } buf;
/* every buffer is exactly as large as it says */
static buf get(void) { buf b; uint64_t n; uint8_t null; in(&null, 1); in(&n, 8); b.n = (size_t)n; if (b.n != n) _exit(5); b.base = null ? 0 : malloc(b.n); if (!null && !b.base) _exit(5); b.p = null ? 0 : (uint8_t*)b.base; if (!null) in(b.p, b.n); return b; }
static void put(buf b) { out64(b.p ? b.n : 0); if (b.p) out(b.p, b.n); free(b.base); }
typedef struct {
  int (*keygen)(uint8_t*, uint8_t*);
  int (*sign)(const uint8_t*, const uint8_t*, size_t, uint8_t*, size_t*);
  int (*signr)(const uint8_t*, const uint8_t*, size_t, const uint8_t*, size_t, uint8_t*, size_t*);
  int (*verify)(const uint8_t*, const uint8_t*, size_t, const uint8_t*, size_t);
  int (*validate)(const uint8_t*, const uint8_t*);
  void (*clear)(uint8_t*);
} set;
#define S(l) {faest_##l##_keygen, faest_##l##_sign, faest_##l##_sign_with_randomness, faest_##l##_verify, faest_##l##_validate_keypair, faest_##l##_clear_private_key}
static const set SETS[12] = {S(128s), S(128f), S(192s), S(192f), S(256s), S(256f), S(em_128s), S(em_128f), S(em_192s), S(em_192f), S(em_256s), S(em_256f)};
int main(void) {
  out64(sizeof(size_t));
  for (;;) {
    uint8_t h[2]; int32_t rc = 0; uint64_t l; size_t sl;
    in(h, 2); const set* s = &SETS[h[1]];
    buf a = get(), b = get(), c = get(), d = get(); in(&l, 8); sl = (size_t)l;
    switch (h[0]) {
    case 0: rc = s->keygen(a.p, b.p); break;
    case 1: rc = s->sign(a.p, b.p, b.n, d.p, &sl); break;
    case 2: rc = s->signr(a.p, b.p, b.n, c.p, c.n, d.p, &sl); break;
    case 3: rc = s->verify(a.p, b.p, b.n, d.p, sl); break;
    case 4: rc = s->validate(a.p, b.p); break;
    default: s->clear(a.p);
    }
    uint8_t k = 'D'; out(&k, 1); out(&rc, 4); l = sl; out(&l, 8);
    if (h[0]) { buf t = b; b = d; d = t; }
    put(a); put(b); free(c.base); free(d.base);
  }
}
