/* C23: a user of the installed headers and of the library; valid C99 and C++. Prints what it finds. */
#include "faest_128s.h"
#include "faest_128f.h"
#include "faest_192s.h"
#include "faest_192f.h"
#include "faest_256s.h"
#include "faest_256f.h"
#include "faest_em_128s.h"
#include "faest_em_128f.h"
#include "faest_em_192s.h"
#include "faest_em_192f.h"
#include "faest_em_256s.h"
#include "faest_em_256f.h"
#include "faest_em_256f.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef struct {
  const char* name; size_t pk, sk, sig;
  int (FAEST_CALLING_CONVENTION *keygen)(uint8_t*, uint8_t*);
  int (FAEST_CALLING_CONVENTION *sign)(const uint8_t*, const uint8_t*, size_t, uint8_t*, size_t*);
  int (FAEST_CALLING_CONVENTION *signr)(const uint8_t*, const uint8_t*, size_t, const uint8_t*, size_t, uint8_t*, size_t*);
  int (FAEST_CALLING_CONVENTION *verify)(const uint8_t*, const uint8_t*, size_t, const uint8_t*, size_t);
  int (FAEST_CALLING_CONVENTION *validate)(const uint8_t*, const uint8_t*);
  void (FAEST_CALLING_CONVENTION *clear)(uint8_t*);
} set_t;
#define ROW(l, U) {#l, FAEST_##U##_PUBLIC_KEY_SIZE, FAEST_##U##_PRIVATE_KEY_SIZE, FAEST_##U##_SIGNATURE_SIZE, faest_##l##_keygen, faest_##l##_sign, faest_##l##_sign_with_randomness, faest_##l##_verify, faest_##l##_validate_keypair, faest_##l##_clear_private_key}
static const set_t T[12] = {ROW(128s, 128S), ROW(128f, 128F), ROW(192s, 192S), ROW(192f, 192F), ROW(256s, 256S), ROW(256f, 256F), ROW(em_128s, EM_128S), ROW(em_128f, EM_128F), ROW(em_192s, EM_192S), ROW(em_192f, EM_192F), ROW(em_256s, EM_256S), ROW(em_256f, EM_256F)};
#if (FAEST_128S_SIGNATURE_SIZE <= 0) || (FAEST_EM_256F_PUBLIC_KEY_SIZE <= 0)
#error "the sizes are usable in the preprocessor"
#endif
static uint8_t fixed_size[FAEST_128S_SIGNATURE_SIZE];   /* and in array bounds */
static void bad(const char* s, const char* what) { printf("BAD %s %s\n", s, what); }
#define CAN 64
static uint8_t* buf(size_t n, int fill) { uint8_t* p = (uint8_t*)malloc(n + 2 * CAN); memset(p, 0xc5, n + 2 * CAN); memset(p + CAN, fill, n); return p + CAN; }
static void done(const char* s, const char* what, uint8_t* p, size_t n) {
  size_t i; p -= CAN;
  for (i = 0; i < CAN; i++) if (p[i] != 0xc5 || p[CAN + n + i] != 0xc5) { bad(s, what); break; }
  free(p);
}
int main(int argc, char** argv) {
  int i, k, fast; size_t j, l, l2;
  (void)fixed_size;
  for (i = 0; i < 12; i++) {
    const set_t* s = &T[i];
    uint8_t *pk, *sk, *a, *b; uint8_t* seen;
    static const uint8_t msg[37] = "a message signed by a consumer", rho[32] = {1, 2, 3};
    if (argc > 1 && strcmp(argv[1], s->name)) continue;
    printf("SIZES %s %lu %lu %lu\n", s->name, (unsigned long)s->pk, (unsigned long)s->sk, (unsigned long)s->sig);
    fast = s->sig != 5006 && strchr(s->name, 's') == NULL;
    seen = (uint8_t*)calloc(1, s->pk + s->sk);
    pk = sk = NULL;
    for (k = 0; k < 6; k++) {   /* every byte of both keys is written */
      int fill = k % 2 ? 0xff : 0;
      if (pk) { done(s->name, "outside-pk", pk, s->pk); done(s->name, "outside-sk", sk, s->sk); }
      pk = buf(s->pk, fill); sk = buf(s->sk, fill);
      if (s->keygen(pk, sk)) bad(s->name, "keygen");
      for (j = 0; j < s->pk; j++) if (pk[j] != fill) seen[j] = 1;
      for (j = 0; j < s->sk; j++) if (sk[j] != fill) seen[s->pk + j] = 1;
      if (s->validate(pk, sk)) bad(s->name, "validate");
    }
    for (j = 0; j < s->pk + s->sk; j++) if (!seen[j]) { bad(s->name, "key-byte-never-written"); break; }
    free(seen);
    printf("DID %s keygen\n", s->name);
    a = buf(s->sig, 0); b = buf(s->sig, 0xff);
    l = s->sig; l2 = s->sig + 1000;
    if (s->signr(sk, msg, sizeof msg, rho, sizeof rho, a, &l) || l != s->sig) bad(s->name, "sign_with_randomness");
    if (s->signr(sk, msg, sizeof msg, rho, sizeof rho, b, &l2) || l2 != s->sig) bad(s->name, "sign_with_randomness-larger-buffer");
    if (memcmp(a, b, s->sig)) bad(s->name, "signature-byte-not-written");
    printf("DID %s sign_with_randomness\n", s->name);
    l = s->sig - 1;
    if (s->signr(sk, msg, sizeof msg, rho, sizeof rho, b, &l) == 0) bad(s->name, "short-buffer-accepted");
    l = s->sig;
    if (s->sign(sk, msg, sizeof msg, b, &l) || l != s->sig) bad(s->name, "sign");
    printf("DID %s sign\n", s->name);
    if (s->verify(pk, msg, sizeof msg, a, s->sig) || s->verify(pk, msg, sizeof msg, b, s->sig)) bad(s->name, "verify");
    if (s->verify(pk, msg, sizeof msg, a, s->sig - 1) == 0 || s->verify(pk, msg, sizeof msg, a, s->sig + 1) == 0) bad(s->name, "other-length-accepted");
    b[s->sig - 1] ^= 1; if (s->verify(pk, msg, sizeof msg, b, s->sig) == 0) bad(s->name, "last-signature-byte-ignored"); b[s->sig - 1] ^= 1;
    if (fast) { b[0] ^= 1; if (s->verify(pk, msg, sizeof msg, b, s->sig) == 0) bad(s->name, "first-signature-byte-ignored"); b[0] ^= 1; }
    pk[s->pk - 1] ^= 1; if (s->verify(pk, msg, sizeof msg, a, s->sig) == 0) bad(s->name, "last-public-byte-ignored");
    if (s->validate(pk, sk) == 0) bad(s->name, "last-public-byte-ignored-by-validate"); pk[s->pk - 1] ^= 1;
    pk[0] ^= 1; if (fast && s->verify(pk, msg, sizeof msg, a, s->sig) == 0) bad(s->name, "first-public-byte-ignored");
    if (s->validate(pk, sk) == 0) bad(s->name, "first-public-byte-ignored-by-validate"); pk[0] ^= 1;
    sk[s->sk - 1] ^= 1; if (s->validate(pk, sk) == 0) bad(s->name, "last-private-byte-ignored"); sk[s->sk - 1] ^= 1;
    sk[0] ^= 1; if (s->validate(pk, sk) == 0) bad(s->name, "first-private-byte-ignored"); sk[0] ^= 1;
    printf("DID %s verify\nDID %s validate_keypair\n", s->name, s->name);
    s->clear(sk);
    for (j = 0; j < s->sk; j++) if (sk[j]) { bad(s->name, "clear"); break; }
    printf("DID %s clear_private_key\n", s->name);
    done(s->name, "outside-pk", pk, s->pk); done(s->name, "outside-sk", sk, s->sk); done(s->name, "outside-signature", a, s->sig); done(s->name, "outside-signature", b, s->sig);
  }
  printf("DONE\n");
  return 0;
}
