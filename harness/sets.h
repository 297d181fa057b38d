// Table of the public API of the 12 parameter sets.
#pragma once
#include "faest_128s.h"
#include "faest_128f.h"
#include "faest_192s.h"
#include "faest_192f.h"
#include "faest_256s.h"
#include "faest_256f.h"
#include "faest_em_128s.h"
#include "faest_em_128f.h"
#include "faest_em_192s.h"
#include "faest_em_192f.h"
#include "faest_em_256s.h"
#include "faest_em_256f.h"
#include <stddef.h>
#include <stdint.h>
#include <string>
struct Set {
  const char* name;
  size_t pk, sk, sig;
  int (*keygen)(uint8_t*, uint8_t*);
  int (*sign)(const uint8_t*, const uint8_t*, size_t, uint8_t*, size_t*);
  int (*signr)(const uint8_t*, const uint8_t*, size_t, const uint8_t*, size_t, uint8_t*, size_t*);
  int (*verify)(const uint8_t*, const uint8_t*, size_t, const uint8_t*, size_t);
  int (*validate)(const uint8_t*, const uint8_t*);
  void (*clear)(uint8_t*);
};
#define FV_SET(l, U) \
  {#l, FAEST_##U##_PUBLIC_KEY_SIZE, FAEST_##U##_PRIVATE_KEY_SIZE, FAEST_##U##_SIGNATURE_SIZE, faest_##l##_keygen, \
   faest_##l##_sign, faest_##l##_sign_with_randomness, faest_##l##_verify, faest_##l##_validate_keypair, faest_##l##_clear_private_key}
static const Set SETS[12] = {
    FV_SET(128s, 128S), FV_SET(128f, 128F), FV_SET(192s, 192S), FV_SET(192f, 192F), FV_SET(256s, 256S), FV_SET(256f, 256F),
    FV_SET(em_128s, EM_128S), FV_SET(em_128f, EM_128F), FV_SET(em_192s, EM_192S), FV_SET(em_192f, EM_192F),
    FV_SET(em_256s, EM_256S), FV_SET(em_256f, EM_256F)};
inline const Set& set_of(const std::string& n) {
  for (auto& s : SETS) if (n == s.name) return s;
  abort();
}
