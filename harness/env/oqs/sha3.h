#pragma once
#include <oqs/common.h>
#include "sha3/KeccakHash.h"
/* released contexts are overwritten: nothing may be taken from them */
typedef struct { Keccak_HashInstance i; } OQS_SHA3_shake128_inc_ctx;
static inline void OQS_SHA3_shake128_inc_init(OQS_SHA3_shake128_inc_ctx* c) { Keccak_HashInitialize_SHAKE128(&c->i); }
static inline void OQS_SHA3_shake128_inc_absorb(OQS_SHA3_shake128_inc_ctx* c, const uint8_t* d, size_t n) { Keccak_HashUpdate(&c->i, d, n << 3); }
static inline void OQS_SHA3_shake128_inc_finalize(OQS_SHA3_shake128_inc_ctx* c) { Keccak_HashFinal(&c->i, NULL); }
static inline void OQS_SHA3_shake128_inc_squeeze(uint8_t* d, size_t n, OQS_SHA3_shake128_inc_ctx* c) { Keccak_HashSqueeze(&c->i, d, n << 3); }
static inline void OQS_SHA3_shake128_inc_ctx_release(OQS_SHA3_shake128_inc_ctx* c) { memset(c, 0xdd, sizeof(*c)); }
typedef struct { Keccak_HashInstance i; } OQS_SHA3_shake256_inc_ctx;
static inline void OQS_SHA3_shake256_inc_init(OQS_SHA3_shake256_inc_ctx* c) { Keccak_HashInitialize_SHAKE256(&c->i); }
static inline void OQS_SHA3_shake256_inc_absorb(OQS_SHA3_shake256_inc_ctx* c, const uint8_t* d, size_t n) { Keccak_HashUpdate(&c->i, d, n << 3); }
static inline void OQS_SHA3_shake256_inc_finalize(OQS_SHA3_shake256_inc_ctx* c) { Keccak_HashFinal(&c->i, NULL); }
static inline void OQS_SHA3_shake256_inc_squeeze(uint8_t* d, size_t n, OQS_SHA3_shake256_inc_ctx* c) { Keccak_HashSqueeze(&c->i, d, n << 3); }
static inline void OQS_SHA3_shake256_inc_ctx_release(OQS_SHA3_shake256_inc_ctx* c) { memset(c, 0xdd, sizeof(*c)); }
