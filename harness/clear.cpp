// C22: memory of and around a private key after clearing it, live, on a dead stack frame and in a freed block
#include "fv.h"
#include "sets.h"
#include <ucontext.h>
using namespace fv;
static Rng R(1);
extern "C" void fv_watch(void* p, size_t n);        // clear_free.c: the block freed next is copied on free
extern "C" const uint8_t* fv_watched(size_t* n);
static Bytes fill_(size_t n) { Bytes b(n); switch (R.below(5)) { case 0: memset(b.data(), 0xff, n); break; case 1: for (auto& x : b) x = 0x80; break; case 2: b[R.below(n)] = 1; break; default: R.fill(b.data(), n); } return b; }
static void live(const Set& s, unsigned n) {
  for (unsigned k = 0; k < n; k++) {
    size_t al = k % 64, tail = 200; Bytes key = fill_(s.sk), pad = R.bytes(al + s.sk + tail + 64);
    uint8_t* base = (uint8_t*)aligned_alloc(64, (pad.size() + 127) / 64 * 64); memcpy(base, pad.data(), pad.size()); uint8_t* p = base + al + 64 * (k & 1) * 0; memcpy(p, key.data(), s.sk);
    s.clear(p); eval(); distinct(s.name, key, Bytes(), al); count("cleared");
    bool z = true, same = true; for (size_t i = 0; i < s.sk; i++) z = z && p[i] == 0;
    for (size_t i = 0; i < pad.size(); i++) if (base + i < p || base + i >= p + s.sk) same = same && base[i] == pad[i];
    if (!z) viol(std::string("not-erased-") + s.name, "alignment %zu: %s left", al, H(p, s.sk).c_str());
    if (!same) viol(std::string("writes-outside-") + s.name, "alignment %zu", al);
    free(base);
    Guard g(key, k & 1); memcpy(g.p, key.data(), s.sk); s.clear(g.p); if (g.bytes() != Bytes(s.sk)) viol(std::string("not-erased-") + s.name, "guarded"); eval(); count("cleared_at_guard");
  }
}
// volatile source, so that the key is not known to the compiler
static volatile uint8_t source[256];
static uint8_t sink;
#define VICTIM(l, U) \
  __attribute__((noinline)) static void stack_##l() { uint8_t sk[FAEST_##U##_PRIVATE_KEY_SIZE]; for (size_t i = 0; i < sizeof sk; i++) sk[i] = source[i]; uint8_t a = 0; for (size_t i = 0; i < sizeof sk; i++) a ^= sk[i] * (i + 1); sink = a; faest_##l##_clear_private_key(sk); } \
  __attribute__((noinline)) static void heap_##l() { uint8_t* sk = (uint8_t*)malloc(FAEST_##U##_PRIVATE_KEY_SIZE); for (size_t i = 0; i < FAEST_##U##_PRIVATE_KEY_SIZE; i++) sk[i] = source[i]; uint8_t a = 0; for (size_t i = 0; i < FAEST_##U##_PRIVATE_KEY_SIZE; i++) a ^= sk[i] * (i + 1); sink = a; fv_watch(sk, FAEST_##U##_PRIVATE_KEY_SIZE); faest_##l##_clear_private_key(sk); free(sk); } \
  __attribute__((noinline)) static void uncleared_##l() { uint8_t sk[FAEST_##U##_PRIVATE_KEY_SIZE]; volatile uint8_t* v = sk; for (size_t i = 0; i < sizeof sk; i++) v[i] = source[i]; sink = v[3]; }
VICTIM(128s, 128S) VICTIM(128f, 128F) VICTIM(192s, 192S) VICTIM(192f, 192F) VICTIM(256s, 256S) VICTIM(256f, 256F)
VICTIM(em_128s, EM_128S) VICTIM(em_128f, EM_128F) VICTIM(em_192s, EM_192S) VICTIM(em_192f, EM_192F) VICTIM(em_256s, EM_256S) VICTIM(em_256f, EM_256F)
#define ENT(l) {#l, stack_##l, heap_##l, uncleared_##l}
static const struct { const char* name; void (*st)(); void (*hp)(); void (*un)(); } VIC[] = {ENT(128s), ENT(128f), ENT(192s), ENT(192f), ENT(256s), ENT(256f), ENT(em_128s), ENT(em_128f), ENT(em_192s), ENT(em_192f), ENT(em_256s), ENT(em_256f)};
static ucontext_t mainc, vic;
static size_t on_stack(void (*f)(), const Bytes& key) {   // longest piece of the key left on the stack f ran on
  const size_t N = 64 * 1024; Bytes st(N); getcontext(&vic); vic.uc_stack.ss_sp = st.data(); vic.uc_stack.ss_size = N; vic.uc_link = &mainc; makecontext(&vic, f, 0); swapcontext(&mainc, &vic);
  size_t best = 0;
  for (size_t o = 0; o + 4 <= key.size(); o++) { uint8_t* q = st.data(); size_t left = N; while ((q = (uint8_t*)memmem(q, left, &key[o], 4))) { size_t l = 4; while (o + l < key.size() && q + l < st.data() + N && q[l] == key[o + l]) l++; if (l > best) best = l; q++; left = st.data() + N - q; } }
  return best;
}
static void dead(unsigned n) {
  for (auto& v : VIC) {
    const Set& s = set_of(v.name);
    for (unsigned k = 0; k < n; k++) {
      Bytes key = R.bytes(s.sk); for (size_t i = 0; i < s.sk; i++) source[i] = key[i];
      if (on_stack(v.un, key) < s.sk) count("detector_blind"); else count("detector_sees_uncleared");
      size_t l = on_stack(v.st, key); eval(); distinct(v.name, key); count("dead_frames");
      // registers of the copy loop may be spilled; half of the key is more than any of them
      if (l > 8) viol(std::string("dead-frame-") + v.name, "%zu bytes of the key remain on the stack after it was cleared", l);
      v.hp(); size_t wn; const uint8_t* w = fv_watched(&wn); eval(); if (!w || wn != s.sk) { count("free_not_seen"); continue; } count("freed_blocks");
      for (size_t i = 0; i < wn; i++) if (w[i]) { viol(std::string("freed-block-") + v.name, "%s handed to free after clearing", H(w, wn).c_str()); break; }
    }
  }
}
int main(int argc, char** argv) {
  std::string m = argv[1]; unsigned n = atoi(argv[2]); R = Rng(envseed(), m.size());
  if (m == "live") for (auto& s : SETS) live(s, n);
  if (m == "dead") dead(n);
  sample("%s %s: all sets, %u keys each", FV_VARIANT, m.c_str(), n);
  return finish();
}
