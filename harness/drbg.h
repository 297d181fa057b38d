// AES-256 CTR_DRBG without derivation function (SP 800-90A), independent of tools/rng.c
#pragma once
#include "fv.h"
namespace fv {
struct Drbg {
  Bytes key = Bytes(32), v = Bytes(16);
  static void inc(Bytes& v) { for (int j = 15; j >= 0 && !++v[j]; j--) {} }
  static void block(const Bytes& k, const Bytes& in, uint8_t* out) { M::Rijndael(8, 4, k.data()).encrypt(in.data(), out, nullptr); }
  void update(const uint8_t* data) {
    Bytes t(48);
    for (int i = 0; i < 3; i++) { inc(v); block(key, v, &t[16 * i]); }
    if (data) for (int i = 0; i < 48; i++) t[i] ^= data[i];
    key.assign(t.begin(), t.begin() + 32); v.assign(t.begin() + 32, t.end());
  }
  void init(const uint8_t* entropy, const uint8_t* pers) {
    Bytes s(entropy, entropy + 48);
    if (pers) for (int i = 0; i < 48; i++) s[i] ^= pers[i];
    key.assign(32, 0); v.assign(16, 0);
    update(s.data());
  }
  void gen(uint8_t* out, size_t n) {
    M::Rijndael c(8, 4, key.data());
    for (size_t i = 0; i < n; i += 16) { inc(v); uint8_t b[16]; c.encrypt(v.data(), b, nullptr); memcpy(out + i, b, n - i < 16 ? n - i : 16); }
    update(nullptr);
  }
};
} // namespace fv
