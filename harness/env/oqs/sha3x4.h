#pragma once
#include <oqs/sha3.h>
typedef struct { Keccak_HashInstance i[4]; } OQS_SHA3_shake128_x4_inc_ctx;
static inline void OQS_SHA3_shake128_x4_inc_init(OQS_SHA3_shake128_x4_inc_ctx* c) { for (int k = 0; k < 4; k++) Keccak_HashInitialize_SHAKE128(&c->i[k]); }
static inline void OQS_SHA3_shake128_x4_inc_absorb(OQS_SHA3_shake128_x4_inc_ctx* c, const uint8_t* d0, const uint8_t* d1, const uint8_t* d2, const uint8_t* d3, size_t n) { const uint8_t* d[4] = {d0, d1, d2, d3}; for (int k = 0; k < 4; k++) Keccak_HashUpdate(&c->i[k], d[k], n << 3); }
static inline void OQS_SHA3_shake128_x4_inc_finalize(OQS_SHA3_shake128_x4_inc_ctx* c) { for (int k = 0; k < 4; k++) Keccak_HashFinal(&c->i[k], NULL); }
static inline void OQS_SHA3_shake128_x4_inc_squeeze(uint8_t* d0, uint8_t* d1, uint8_t* d2, uint8_t* d3, size_t n, OQS_SHA3_shake128_x4_inc_ctx* c) { uint8_t* d[4] = {d0, d1, d2, d3}; for (int k = 0; k < 4; k++) Keccak_HashSqueeze(&c->i[k], d[k], n << 3); }
static inline void OQS_SHA3_shake128_x4_inc_ctx_release(OQS_SHA3_shake128_x4_inc_ctx* c) { memset(c, 0xdd, sizeof(*c)); }
typedef struct { Keccak_HashInstance i[4]; } OQS_SHA3_shake256_x4_inc_ctx;
static inline void OQS_SHA3_shake256_x4_inc_init(OQS_SHA3_shake256_x4_inc_ctx* c) { for (int k = 0; k < 4; k++) Keccak_HashInitialize_SHAKE256(&c->i[k]); }
static inline void OQS_SHA3_shake256_x4_inc_absorb(OQS_SHA3_shake256_x4_inc_ctx* c, const uint8_t* d0, const uint8_t* d1, const uint8_t* d2, const uint8_t* d3, size_t n) { const uint8_t* d[4] = {d0, d1, d2, d3}; for (int k = 0; k < 4; k++) Keccak_HashUpdate(&c->i[k], d[k], n << 3); }
static inline void OQS_SHA3_shake256_x4_inc_finalize(OQS_SHA3_shake256_x4_inc_ctx* c) { for (int k = 0; k < 4; k++) Keccak_HashFinal(&c->i[k], NULL); }
static inline void OQS_SHA3_shake256_x4_inc_squeeze(uint8_t* d0, uint8_t* d1, uint8_t* d2, uint8_t* d3, size_t n, OQS_SHA3_shake256_x4_inc_ctx* c) { uint8_t* d[4] = {d0, d1, d2, d3}; for (int k = 0; k < 4; k++) Keccak_HashSqueeze(&c->i[k], d[k], n << 3); }
static inline void OQS_SHA3_shake256_x4_inc_ctx_release(OQS_SHA3_shake256_x4_inc_ctx* c) { memset(c, 0xdd, sizeof(*c)); }
