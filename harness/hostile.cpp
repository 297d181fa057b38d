// C09: hostile and honest calls; the verdict comes from the sanitizer the binary is built with
// (no model, no C++ containers with out-of-line code: also built with MemorySanitizer)
#include "sets.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <sys/mman.h>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define CHECK_INIT(p, n) __msan_check_mem_is_initialized(p, n)
#endif
#endif
#ifdef FV_MEMCHECK
#include <valgrind/memcheck.h>
#define CHECK_INIT(p, n) do { if (VALGRIND_CHECK_MEM_IS_DEFINED(p, n)) { fflush(stdout); fprintf(stderr, "Use of uninitialised bytes in an output\n"); exit(96); } } while (0)
#endif
#ifndef CHECK_INIT
#define CHECK_INIT(p, n) ((void)0)
#endif
static uint64_t st[2];
static uint64_t u64() { uint64_t z = (st[0] += 0x9e3779b97f4a7c15ULL); z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ULL; z = (z ^ z >> 27) * 0x94d049bb133111ebULL; return z ^ z >> 31; }
static uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
static void fill(void* p, size_t n) { for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = (uint8_t)(u64() >> 13); }
static uint8_t* A(size_t n) { uint8_t* p = (uint8_t*)malloc(n ? n : 1); if (!n) { free(p); p = (uint8_t*)malloc(0); } return p; } // exact size
static unsigned long long evals; static unsigned long long c[16];
static const char* CN[] = {"keygen", "sign", "verify_honest", "verify_random", "verify_mutated", "verify_structured", "verify_bad_length", "validate_random", "sign_invalid_key", "nist", "rejecting_randomness"};
static FILE* hf;
static void D(uint64_t h, const void* p, size_t n) { const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ULL; h ^= h >> 29; } if (hf) fwrite(&h, 8, 1, hf); }
static const uint8_t* stream; static size_t stream_n; static long fail_at = -1;
extern "C" int rand_bytes(uint8_t* d, size_t n) {
  if (fail_at >= 0 && fail_at-- == 0) { fail_at = 0; return -1; }
  if (stream_n >= n) { memcpy(d, stream, n); stream += n; stream_n -= n; return 0; }
  fill(d, n); return 0;
}
typedef unsigned long long ull;
#ifdef FV_NIST
extern "C" {
#define DD(x) int nist_##x##_keypair(unsigned char*, unsigned char*); int nist_##x##_sign(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*); int nist_##x##_open(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*);
DD(128s) DD(128f) DD(192s) DD(192f) DD(256s) DD(256f) DD(em_128s) DD(em_128f) DD(em_192s) DD(em_192f) DD(em_256s) DD(em_256f)
}
struct NI { const char* name; int (*kp)(unsigned char*, unsigned char*); int (*sign)(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*); int (*open)(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*); };
#define E(x) {#x, nist_##x##_keypair, nist_##x##_sign, nist_##x##_open}
static const NI NS[] = {E(128s), E(128f), E(192s), E(192f), E(256s), E(256f), E(em_128s), E(em_128f), E(em_192s), E(em_192f), E(em_256s), E(em_256f)};
#endif
static size_t mlen() { static const size_t L[] = {0, 1, 31, 32, 33, 71, 72, 73, 135, 136, 137, 168, 200, 1000, 5000}; return below(2) ? L[below(15)] : below(300); }

static void verify(const Set& s, int kind, const uint8_t* pk, const uint8_t* m, size_t ml, const uint8_t* sig, size_t sl) {
  int r = s.verify(pk, m, ml, sig, sl);
  CHECK_INIT(&r, sizeof r);
  evals++; c[kind]++; D(kind, sig, sl < s.sig ? sl : s.sig);
  if (kind == 2 && r) printf("I honest signature rejected\n");
}
static void patterns(uint8_t* t, const Set& s) {
  // long runs of extreme bytes at the places where fields start or end
  for (int k = 1 + (int)below(4); k > 0; k--) {
    size_t n = 1 + below(below(2) ? 40 : s.sig / 2), o = below(3) == 0 ? s.sig - n : below(s.sig - n + 1);
    int v = (int)below(4);
    if (v == 0) memset(t + o, 0, n); else if (v == 1) memset(t + o, 0xff, n); else if (v == 2) fill(t + o, n); else memset(t + o, 1 << below(8), n);
  }
}
static void run(const Set& s, unsigned n, unsigned phase) {
  uint8_t *pk = A(s.pk), *sk = A(s.sk);
  for (unsigned k = phase; k < phase + n; k++) {
    int r = s.keygen(pk, sk); CHECK_INIT(&r, sizeof r); CHECK_INIT(pk, s.pk); CHECK_INIT(sk, s.sk); evals++; c[0]++;
    if (r) continue;
    size_t ml = mlen(), rl = below(3) ? below(70) : 0;
    uint8_t *m = A(ml), *rho = A(rl), *sig = A(s.sig); fill(m, ml); fill(rho, rl);
    size_t* sl = (size_t*)malloc(sizeof *sl); *sl = s.sig;
    int e = (int)below(4);
    const uint8_t* mp = ml == 0 && below(2) ? nullptr : m;
    r = e == 0 ? s.sign(sk, mp, ml, sig, sl) : e == 1 ? s.signr(sk, mp, ml, nullptr, 0, sig, sl) : s.signr(sk, mp, ml, rho, rl, sig, sl);
    CHECK_INIT(&r, sizeof r); CHECK_INIT(sl, sizeof *sl); if (!r) CHECK_INIT(sig, s.sig);
    evals++; c[1]++; D(1, sig, s.sig);
    if (!r) verify(s, 2, pk, mp, ml, sig, s.sig);
    // hostile strings; several per signature
    uint8_t* t = A(s.sig);
    bool fast = s.name[strlen(s.name) - 1] == 'f';
    for (unsigned which = 0; which < 4; which++) {
    if (!fast && which != k % 4) continue;
    if (which == 0) { fill(t, s.sig); verify(s, 3, pk, m, ml, t, s.sig); }
    if (which == 1) { memcpy(t, sig, s.sig); for (int q = 1 + (int)below(20); q > 0; q--) t[below(s.sig)] = (uint8_t)u64(); verify(s, 4, pk, m, ml, t, s.sig); }
    if (which == 2) { memcpy(t, sig, s.sig); patterns(t, s); verify(s, 5, pk, m, ml, t, s.sig); }
    if (which == 3) { // extreme index: the challenge and the initialisation vector sit at the end
      memcpy(t, sig, s.sig); size_t lam = s.pk == 32 ? 16 : s.pk == 48 || (s.pk == 64 && s.sk == 56) ? 24 : 32;
      memset(t + s.sig - 16 - lam, below(2) ? 0xff : 0, lam); if (below(2)) memset(t + s.sig - 16, 0xff, 16);
      verify(s, 5, pk, m, ml, t, s.sig);
    }
    }
    for (int q = 0; q < 3; q++) { size_t l = below(3) ? below(s.sig) : q == 0 ? 0 : s.sig - 1; uint8_t* z = A(l); memcpy(z, sig, l); verify(s, 6, pk, m, ml, z, l); free(z); }
    // keys
    uint8_t *pk2 = A(s.pk), *sk2 = A(s.sk);
    for (int q = 0; q < 6; q++) {
      fill(pk2, s.pk); fill(sk2, s.sk); if (q == 1) memset(sk2, 0, s.sk); if (q == 2) memset(sk2, 0xff, s.sk); if (q == 3) memcpy(pk2, pk, s.pk), memcpy(sk2, sk, s.sk), pk2[below(s.pk)] ^= 1;
      r = s.validate(pk2, sk2); CHECK_INIT(&r, sizeof r); evals++; c[7]++; D(7, sk2, s.sk);
      if (r == 1) { size_t z = s.sig; int r2 = s.signr(sk2, m, ml, rho, rl, t, &z); CHECK_INIT(&r2, sizeof r2); evals++; c[8]++; }
    }
    // randomness that is rejected, then accepted; failing
    uint8_t zer[10 * 64]; memset(zer, 0, sizeof zer); fill(zer + s.sk * 3, s.sk); stream = zer; stream_n = s.sk * 5;
    r = s.keygen(pk2, sk2); evals++; c[10]++; stream_n = 0;
    fail_at = (long)below(2); r = s.keygen(pk2, sk2); CHECK_INIT(&r, sizeof r); fail_at = -1;
    fail_at = 0; *sl = s.sig; r = s.sign(sk, m, ml, t, sl); CHECK_INIT(&r, sizeof r); fail_at = -1;
    s.clear(sk2); CHECK_INIT(sk2, s.sk);
#ifdef FV_NIST
    if (k % 3 == 0) {
      const NI* ni = nullptr; for (auto& x : NS) if (!strcmp(x.name, s.name)) ni = &x;
      uint8_t* sm = A(ml + s.sig); ull smlen = 0, ol = 0; memcpy(sm, m, ml);
      ni->sign(sm, &smlen, below(2) ? sm : m, ml, sk);
      uint8_t* o = A(ml); ni->open(o, &ol, sm, smlen, pk); sm[below(ml + s.sig)] ^= 4; ni->open(o, &ol, sm, smlen, pk);
      size_t l2 = below(s.sig); uint8_t* sh = A(l2); memcpy(sh, sm, l2 < ml + s.sig ? l2 : 0); ni->open(o, &ol, sh, l2, pk);
      free(sh); free(o); free(sm); evals++; c[9]++;
    }
#endif
    free(pk2); free(sk2); free(t); free(m); free(rho); free(sig); free(sl);
  }
  free(pk); free(sk);
}
int main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  const char* h = getenv("FV_HASHES"); if (h) hf = fopen(h, "wb");
  const char* sd = getenv("VERIF_SEED");
  st[0] = (sd ? strtoull(sd, nullptr, 10) : 1) * 0x9e3779b97f4a7c15ULL + 77 * strtoull(argv[3], nullptr, 10);
  for (const char* q = argv[2]; *q; q++) st[0] = st[0] * 131 + *q;
  if (!strcmp(argv[1], "big")) { // message lengths around 2^32 through the public API
    const Set& s = set_of(argv[2]);
    size_t total = ((size_t)1 << 32) + 4096;
    uint8_t* m = (uint8_t*)mmap(nullptr, total, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) return 3;
    uint8_t *pk = A(s.pk), *sig = A(s.sig); fill(pk, s.pk); fill(sig, s.sig);
    size_t l = strtoull(argv[4], nullptr, 10);
    s.verify(pk, m, l, sig, s.sig); evals++; printf("N long_message 1\n"); D(99, &l, 8); printf("S verify of a message of %zu bytes returned\n", l);
  } else {
    const Set& s = set_of(argv[2]);
    run(s, atoi(argv[4]), atoi(argv[3]));
    printf("S %s %s: %llu calls, honest, random, mutated, structured, short, invalid keys\n", FV_VARIANT, s.name, evals);
  }
  printf("E %llu\n", evals);
  for (int i = 0; i < 11; i++) if (c[i]) printf("N %s %llu\n", CN[i], c[i]);
  if (hf) fclose(hf);
  printf("DONE\n"); fflush(stdout);
  return 0;
}
