// Monitor and fault/value injection at the hash output boundary (link with --wrap=Keccak_HashSqueeze).
// Every injection is confirmed from the outside (by the field of the signature it must reach); where it
// is not confirmed the case is not counted.
#pragma once
#include "fv.h"
extern "C" {
#include "KeccakHash.h"
int __real_Keccak_HashSqueeze(Keccak_HashInstance* inst, unsigned char* data, size_t bits);
}
namespace fv {
struct Squeeze {
  bool on = false;
  long calls = 0;
  const void* last_ctx = nullptr; size_t last_bits = 0;
  std::vector<size_t> sizes;            // bytes of every call
  Bytes last_out;                       // natural output of the last call
  // injections
  const uint8_t* iv = nullptr; bool iv_done = false; size_t lambda = 0;
  long at = -1; const uint8_t* value = nullptr; size_t value_len = 0; bool at_done = false; // replace output of call
  long flip_call = -1; size_t flip_bit = 0; bool flip_done = false;                       // flip one output bit
  void begin() {
    on = true; calls = 0; last_ctx = nullptr; last_bits = 0; sizes.clear(); last_out.clear();
    iv_done = at_done = flip_done = false;
  }
  void end() { on = false; }
  void clear() { *this = Squeeze(); }
};
inline Squeeze& sq() { static thread_local Squeeze s; return s; }
} // namespace fv
extern "C" int __wrap_Keccak_HashSqueeze(Keccak_HashInstance* inst, unsigned char* data, size_t bits) {
  int r = __real_Keccak_HashSqueeze(inst, data, bits);
  fv::Squeeze& s = fv::sq();
  if (!s.on) return r;
  bool first = inst != s.last_ctx;
  // a 16 byte squeeze that continues one of lambda bits: the IV
  if (s.iv && !first && s.last_bits == s.lambda && bits == 128 && !s.iv_done) {
    memcpy(data, s.iv, 16);
    s.iv_done = true;
  }
  s.last_out.assign(data, data + bits / 8);
  if (s.at == s.calls && s.value && s.value_len == bits / 8) { memcpy(data, s.value, s.value_len); s.at_done = true; }
  if (s.flip_call == s.calls && s.flip_bit < bits) { data[s.flip_bit / 8] ^= 1 << (s.flip_bit % 8); s.flip_done = true; }
  s.sizes.push_back(bits / 8);
  s.last_ctx = inst; s.last_bits = bits; s.calls++;
  return r;
}
