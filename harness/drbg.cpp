// C24: tools/rng.c against SP 800-90A
#define FV_NO_RAND
#include "drbg.h"
extern "C" {
#include "rng.h"
}
using namespace fv;
int main(int argc, char** argv) {
  std::string m = argv[1]; unsigned n = atoi(argv[2]); Rng R(envseed(), 24 + n + (argc > 3 ? 1000 * strtoull(argv[3], nullptr, 0) : 0));
  if (m == "long") {   // one request beyond 2^31 bytes, checked block by block
    size_t len = strtoull(argv[3], nullptr, 0); uint8_t* p = (uint8_t*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) die("mmap");
    Bytes e = R.bytes(48); Drbg d; d.init(e.data(), nullptr); randombytes_init(e.data(), nullptr, 256); randombytes(p, len);
    M::Rijndael c(8, 4, d.key.data()); Bytes v = d.v;
    for (size_t i = 0; i < len; i += 16) { Drbg::inc(v); if (i % (1 << 20) < 64 || len - i < 4096 || (i > (1ull << 31) - 256 && i < (1ull << 31) + 256)) { uint8_t b[16]; c.encrypt(v.data(), b, nullptr); eval(); size_t k = len - i < 16 ? len - i : 16; if (memcmp(p + i, b, k)) { viol("long-request", "%zu bytes: block at %zu differs", len, i); break; } } }
    d.v = v; d.update(nullptr); uint8_t a[40], b[40]; d.gen(a, 40); randombytes(b, 40); eval();
    if (memcmp(a, b, 40)) viol("after-long-request", "%zu bytes: the next request differs", len);
    count("long_requests"); distinct("long", e, Bytes(), len); sample("request of %zu bytes", len); return finish();
  }
  Drbg z; z.init(Bytes(48).data(), nullptr);   // with an all-zero seed: the value the seed is added to
  for (unsigned k = 0; k < n; k++) {
    Bytes e = R.below(6) ? R.bytes(48) : edge_bytes(R, 48), pers = R.below(6) ? R.bytes(48) : edge_bytes(R, 48);
    bool up = R.below(2), carry = R.below(2);
    if (carry) {   // the seed decides key and counter: a counter about to carry over several bytes
      Bytes v(16, 0xff); unsigned from = R.below(16); for (unsigned i = 0; i < from; i++) v[i] = R.u64(); v[15] = 0xff - R.below(8); if (R.below(2)) v[14] = 0xff - R.below(3);
      for (int i = 0; i < 16; i++) e[32 + i] = z.v[i] ^ v[i] ^ (up ? pers[32 + i] : 0);
      count("counter_carries");
    }
    Drbg d; d.init(e.data(), up ? pers.data() : nullptr);
    Bytes e0 = e, p0 = pers; Guard ge(e), gp(pers);
    randombytes_init(ge.p, up ? gp.p : nullptr, R.below(2) ? 256 : (int)R.below(300));
    eval(); if (ge.bytes() != e0 || gp.bytes() != p0) viol("init-input-changed", "seed=%s", H(e).c_str());
    unsigned reqs = 1 + R.below(12); Bytes trace;
    for (unsigned q = 0; q < reqs; q++) {
      size_t len; switch (R.below(5)) { case 0: len = R.below(20); break; case 1: len = 16 * R.below(20); break; case 2: len = 16 * R.below(20) + R.below(3) + 15; break; case 3: len = R.below(600); break; default: len = R.below(40) ? 48 : R.below(70000); }
      Bytes w(len); d.gen(w.data(), len);
      Guard g(len, R.below(2)); g.fill(0x5a); int rc = randombytes(g.p, len);
      eval(); count("requests"); trace.push_back(len); trace.push_back(len >> 8);
      if (rc) viol("request-error", "returns %d", rc);
      if (g.bytes() != w) { size_t i = 0; while (g.p[i] == w[i]) i++; viol(carry ? "stream-carry" : "stream", "seed=%s personalisation=%s request %u of %zu bytes: byte %zu differs", H(e).c_str(), up ? H(pers).c_str() : "none", q, len, i); break; }
    }
    distinct("drbg", e, trace, up); if (up) count("personalised");
  }
  sample("%u seeds", n);
  return finish();
}
