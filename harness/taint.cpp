// C12: secrets are marked undefined; memcheck reports every jump or address that depends on them
#include "sets.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <valgrind/memcheck.h>
extern "C" {
#include "KeccakHash.h"
#include "aes.h"
}
typedef std::vector<uint8_t> Bytes;
static uint64_t st;
static uint64_t u64() { uint64_t z = (st += 0x9e3779b97f4a7c15ULL); z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ULL; z = (z ^ z >> 27) * 0x94d049bb133111ebULL; return z ^ z >> 31; }
static void fill(void* p, size_t n) { for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = (uint8_t)(u64() >> 13); }
static Bytes rnd(size_t n) { Bytes b(n); fill(b.data(), n); return b; }
static void secret(void* p, size_t n) { VALGRIND_MAKE_MEM_UNDEFINED(p, n); }
static void open_(void* p, size_t n) { VALGRIND_MAKE_MEM_DEFINED(p, n); }
// randomness handed to the library is secret
static Bytes stream; static size_t spos; static bool taint_rand;
extern "C" int rand_bytes(uint8_t* d, size_t n) {
  for (size_t i = 0; i < n; i++) d[i] = spos < stream.size() ? stream[spos++] : (uint8_t)u64();
  if (taint_rand) secret(d, n);
  return 0;
}
// values the finished signature contains are public: the challenge and the initialisation vector
static const uint8_t* pub = nullptr; static size_t publen; static size_t lam; static unsigned long published;
extern "C" int __real_Keccak_HashSqueeze(Keccak_HashInstance*, unsigned char*, size_t);
extern "C" int __wrap_Keccak_HashSqueeze(Keccak_HashInstance* i, unsigned char* d, size_t bits) {
  int r = __real_Keccak_HashSqueeze(i, d, bits);
  size_t n = bits / 8;
  if (pub && n <= 4096) {
    uint8_t c[4096]; memcpy(c, d, n); open_(c, n);
    const uint8_t* ch = pub + publen - 16 - lam; const uint8_t* iv = pub + publen - 16;
    if (n == lam && !memcmp(c, ch, lam)) { open_(d, n); published++; }
    if (n == 5 * lam + 8 || n == 3 * lam + 8) { open_(d, n); published++; } // the earlier challenges: the verifier derives them from the signature
    for (size_t o = 0; o + 16 <= n; o++) if (!memcmp(c + o, iv, 16)) { open_(d + o, 16); published++; }
  }
  return r;
}
static unsigned long long evals;
static FILE* hf;
static void D(const char* what, const void* p, size_t n) { uint64_t h = 1; for (const char* q = what; *q; q++) h = h * 131 + *q; const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ULL; h ^= h >> 29; } if (hf) fwrite(&h, 8, 1, hf); evals++; printf("N %s 1\n", what); }
int main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  const char* h = getenv("FV_HASHES"); if (h) hf = fopen(h, "wb");
  const char* sd = getenv("VERIF_SEED");
  std::string mode = argv[1];
  const Set& s = set_of(argv[2]);
  st = (sd ? strtoull(sd, nullptr, 10) : 1) * 0x9e3779b97f4a7c15ULL + 77 * strtoull(argv[3], nullptr, 10);
  for (const char* q = argv[2]; *q; q++) st = st * 131 + *q;
  unsigned n = atoi(argv[4]);
  size_t inlen = s.pk / 2, keylen = s.sk - inlen; lam = keylen;
  bool probe = mode == "probe"; // confirms that the detector is alive
  for (unsigned k = 0; k < n; k++) {
    Bytes pk(s.pk), sk(s.sk);
    stream.clear(); spos = 0;
    if (s.keygen(pk.data(), sk.data())) return 3;
    Bytes sk0 = sk, pk0 = pk;
    if (probe) {
      static volatile int sink; secret(&sk[inlen], keylen);
      if (sk[inlen] & 1) asm volatile("nop" ::: "memory");
      static volatile int tab[256]; sink = tab[sk[inlen + 1]];
      D("probe", sk0.data(), sk0.size());
      continue;
    }
    if (mode == "keys" || mode == "all") {
      // key generation, first candidate accepted and after redraws
      for (int bad = 0; bad < 2; bad++) {
        Bytes p(s.pk), q(s.sk);
        stream = bad ? rnd(s.sk * 3) : Bytes(); stream.insert(stream.end(), sk0.begin(), sk0.end()); spos = 0;
        taint_rand = true; int rc = s.keygen(p.data(), q.data()); taint_rand = false;
        open_(&rc, sizeof rc); open_(p.data(), p.size()); open_(q.data(), q.size());
        if (rc) return 3;
        D(bad ? "keygen_redraws" : "keygen", q.data(), q.size());
        // validation
        Bytes t = q, tp = p;
        secret(&t[inlen], keylen);
        int v = s.validate(tp.data(), t.data()); open_(&v, sizeof v);
        if (v) return 3;
        D("validate", q.data(), q.size());
        tp[u64() % tp.size()] ^= 1;
        v = s.validate(tp.data(), t.data()); open_(&v, sizeof v);
        D("validate_mismatch", tp.data(), tp.size());
        s.clear(t.data());
      }
    }
    if (mode == "prg" || mode == "all") {
      // the generator with a secret key, as used in the trees and the correlation
      for (size_t len : {(size_t)1, (size_t)lam, 2 * lam, (size_t)(130 + u64() % 300)}) {
        Bytes key = rnd(lam), iv = rnd(16), out(len), k0 = key;
        secret(key.data(), lam);
        prg(key.data(), iv.data(), out.data(), lam * 8, len);
        open_(out.data(), len); D("prg", k0.data(), lam);
      }
    }
    if (mode == "sign" || mode == "all") {
      Bytes msg = rnd(33 + k * 50), rho = rnd(lam), sig(s.sig);
      bool internal = k % 2;
      size_t sl = s.sig;
      stream = rho; spos = 0;
      int rc = internal ? s.sign(sk.data(), msg.data(), msg.size(), sig.data(), &sl) : s.signr(sk.data(), msg.data(), msg.size(), rho.data(), rho.size(), sig.data(), &sl);
      if (rc) return 3;
      Bytes pubsig = sig; pub = pubsig.data(); publen = pubsig.size();
      Bytes msg2 = msg, rho2 = rho, sk2 = sk;
      secret(msg2.data(), msg2.size()); secret(rho2.data(), rho2.size()); secret(&sk2[inlen], keylen);
      stream = rho; spos = 0; sl = s.sig; taint_rand = true;
      rc = internal ? s.sign(sk2.data(), msg2.data(), msg2.size(), sig.data(), &sl) : s.signr(sk2.data(), msg2.data(), msg2.size(), rho2.data(), rho2.size(), sig.data(), &sl);
      taint_rand = false; pub = nullptr;
      open_(&rc, sizeof rc); open_(&sl, sizeof sl); open_(sig.data(), sig.size());
      if (rc || sig != pubsig) printf("I signing again gave another signature\n");
      D("sign", sig.data(), sig.size());
      printf("N published_values %lu\n", published);
    }
    printf("S %s %s %s: no jump or address depended on %zu secret key bytes\n", FV_VARIANT, s.name, mode.c_str(), keylen);
  }
  printf("E %llu\n", evals);
  if (hf) fclose(hf);
  printf("DONE\n"); fflush(stdout);
  return 0;
}
