// challenges whose repetitions select special leaves
#pragma once
#include "fv.h"
#include "model.h"
namespace fv {
inline void put_index(Bytes& ch, unsigned bit, unsigned d, uint32_t v) {
  for (unsigned j = 0; j < d; j++) { unsigned x = bit + j; ch[x / 8] = (uint8_t)((ch[x / 8] & ~(1 << (x % 8))) | ((v >> j & 1) << (x % 8))); }
}
inline void pack_challenge(Rng& R, const M::Par& P, Bytes& ch) {
  R.fill(ch.data(), P.lb);
  unsigned bit = 0, same = R.below(3) ? ~0u : R.below(11);
  for (unsigned i = 0; i < P.tau; i++) {
    unsigned d = P.depth(i), N = 1u << d, b = R.below(d); uint32_t v = (uint32_t)R.below(N);
    switch (same != ~0u ? same : R.below(12)) {
    case 0: v = 0; break;
    case 1: v = N - 1; break;
    case 2: v = 1u << b; break;
    case 3: v = (N - 1) ^ (1u << b); break;
    case 4: v &= ~((1u << b) - 1); break;   // low bits clear
    case 5: v &= (1u << b) - 1; break;      // high bits clear
    case 6: v |= (1u << b) - 1; break;
    case 7: v |= (N - 1) & ~((1u << b) - 1); break;
    case 8: v &= ~(d > 8 ? 0xffu : 0xfu); break;
    case 9: v = N / 2 - 1 + R.below(3); break;
    case 10: v &= ~3u; v |= R.below(4); break;
    default: break;
    }
    put_index(ch, bit, d, v & (N - 1)); bit += d;
  }
}
} // namespace fv
