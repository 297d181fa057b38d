// C12, second monitor: the sequence of basic blocks, load and store addresses of the library (recorded by the
// compiler's coverage instrumentation) must be the same for different secrets when everything the signature
// publishes is forced to be the same.
#define FV_NO_RAND
#include "sets.h"
#include "fv.h"
#include <sys/wait.h>
extern "C" {
#include "KeccakHash.h"
}
using namespace fv;
struct Ev { uint64_t pc, addr; };
static constexpr size_t MAXCP = 1 << 20, WIN = 1 << 14;
struct Out {
  uint64_t h, n, ncp; int rc, rc2; uint64_t injected; uint64_t win_from; uint64_t nwin;
  uint8_t blob[4096]; uint64_t cp[MAXCP]; Ev win[WIN];
};
static Out* out; static bool on; static uint64_t curh, curn, win_from = ~0ull;
static inline __attribute__((always_inline)) void ev(uint64_t pc, uint64_t a) {
  if (!on) return;
  curh = (curh ^ pc) * 0x9e3779b97f4a7c15ull; curh = (curh ^ (curh >> 31) ^ a) * 0xbf58476d1ce4e5b9ull;
  if ((++curn % WIN) == 0 && out->ncp < MAXCP) out->cp[out->ncp++] = curh;
  if (curn >= win_from && out->nwin < WIN) out->win[out->nwin++] = Ev{pc, a};
}
#define RA ((uint64_t)__builtin_return_address(0))
extern "C" {
void __sanitizer_cov_trace_pc() { ev(RA, 0); }
void __sanitizer_cov_trace_pc_indir(uintptr_t x) { ev(RA, x); }
#define LS(n) void __sanitizer_cov_load##n(void* p) { ev(RA, (uint64_t)p); } void __sanitizer_cov_store##n(void* p) { ev(RA, (uint64_t)p); }
LS(1) LS(2) LS(4) LS(8) LS(16)
}
// randomness: what the case prescribes
static const uint8_t* rb; static size_t rbn, rbp; static uint64_t rbx = 1;
extern "C" int rand_bytes(uint8_t* d, size_t n) { for (size_t i = 0; i < n; i++) d[i] = rbp < rbn ? rb[rbp++] : (uint8_t)((rbx = rbx * 6364136223846793005ull + 1442695040888963407ull) >> 56); return 0; }
// published values forced to be the same
static size_t lam; static bool force; static long calls, at3 = -1; static const void* lastctx; static size_t lastn;
static uint8_t fiv[16], fch[3][256]; static bool fsalt; static uint64_t injected;
static const uint8_t* want3; // looking for the call that yields this
extern "C" int __real_Keccak_HashSqueeze(Keccak_HashInstance*, unsigned char*, size_t);
extern "C" int __wrap_Keccak_HashSqueeze(Keccak_HashInstance* i, unsigned char* d, size_t bits) {
  int r = __real_Keccak_HashSqueeze(i, d, bits);
  bool o = on; on = false;
  size_t n = bits / 8; long c = calls++;
  if (force) {
    if (n == 16 && i == lastctx && lastn == lam) { memcpy(d, fiv, 16); injected |= 1; }
    if (n == 5 * lam + 8) { memcpy(d, fch[0], n); injected |= 2; }
    if (n == 3 * lam + 8) { memcpy(d, fch[1], n); injected |= 4; }
    if (want3 && n == lam && !memcmp(d, want3, lam)) at3 = c;
    if (c == at3 && !want3 && n == lam) { memcpy(d, fch[2], lam); injected |= 8; }
  }
  lastctx = i; lastn = n;
  on = o;
  return r;
}
template <class F> static bool child(F&& f, uint64_t from) {
  memset(out, 0, offsetof(Out, blob));
  pid_t p = fork();
  if (!p) { win_from = from; curh = curn = 0; injected = 0; out->ncp = out->nwin = 0; f(); on = false; out->h = curh; out->n = curn; out->injected = injected; _exit(0); }
  int st; waitpid(p, &st, 0);
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
// runs f in a child for each secret and compares the traces. Nothing is allocated between the forks, so that every
// child starts from the same heap.
struct Case { Bytes secret; std::string what; };
struct Got { uint64_t h, n, ncp, injected; int rc; bool ok; };
static Got got[1024]; static uint64_t cp0[MAXCP]; static Ev wa[WIN];
template <class F> static void compare(const char* op, const Set& s, const std::vector<Case>& cs, F f, uint64_t inj) {
  long first = -1, bad = -1; uint64_t from = 0, na = 0;
  auto usable = [&](const Got& g) { return g.ok && !g.rc && !(inj & 9 & ~g.injected); };
  for (size_t k = 0; k < cs.size() && k < 1024; k++) {
    bool ok = child([&] { f(cs[k].secret); }, ~0ull);
    got[k] = Got{out->h, out->n, out->ncp, out->injected, out->rc, ok};
    if (!usable(got[k])) continue;
    if (first < 0) { first = k; memcpy(cp0, out->cp, out->ncp * 8); continue; }
    if (bad < 0 && (got[k].h != got[first].h || got[k].n != got[first].n)) {
      bad = k;
      size_t d = 0; while (d < out->ncp && d < got[first].ncp && cp0[d] == out->cp[d]) d++;
      from = d * WIN + 1;
    }
  }
  if (bad >= 0) {
    child([&] { f(cs[first].secret); }, from); na = out->nwin; memcpy(wa, out->win, na * sizeof(Ev));
    child([&] { f(cs[bad].secret); }, from);
    size_t j = 0; while (j < na && j < out->nwin && wa[j].pc == out->win[j].pc && wa[j].addr == out->win[j].addr) j++;
    Ev x = j < na ? wa[j] : Ev{}, y = j < out->nwin ? out->win[j] : Ev{};
    viol(std::string("trace-") + op + "-" + s.name,
         "%s %s: the %s differs at event %llu between two secrets (%s: %s | %s: %s); pcs=%llx,%llx,%llx addresses %llx %llx", s.name, op,
         x.pc == y.pc ? "address accessed" : "path taken", (unsigned long long)(from + j), cs[first].what.c_str(), M::hex(cs[first].secret).c_str(), cs[bad].what.c_str(), M::hex(cs[bad].secret).c_str(),
         (unsigned long long)(j ? wa[j - 1].pc : 0), (unsigned long long)x.pc, (unsigned long long)y.pc, (unsigned long long)x.addr, (unsigned long long)y.addr);
  }
  for (size_t k = 0; k < cs.size() && k < 1024; k++) {
    eval();
    if (!got[k].ok) { inconclusive("%s: child failed", op); return; }
    if ((got[k].injected & inj) != inj) count("not_injected");
    if (!usable(got[k])) { count("unusable"); continue; }
    count((std::string("traced_") + op).c_str()); count("trace_events", got[k].n); count((std::string("secret_") + cs[k].what).c_str());
    distinct(op, cs[k].secret, Bytes(), got[k].n);
  }
  if (first >= 0) sample("%s %s %s: %zu secrets, %llu events each", FV_VARIANT, s.name, op, cs.size(), (unsigned long long)got[first].n);
}
int main(int argc, char** argv) {
  std::string mode = argv[1];
  const Set& s = set_of(argv[2]);
  Rng r(envseed() * 7919 + strtoull(argv[3], 0, 10), M::hex((const uint8_t*)argv[2], strlen(argv[2])).size() * 131 + argv[2][0] + argv[2][strlen(argv[2]) - 1] * 3);
  size_t n = atoi(argv[4]);
  out = (Out*)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  size_t inlen = s.pk / 2, keylen = s.sk - inlen; lam = keylen;
  static uint8_t pk[256], sk[256], sig[65536]; size_t sl = s.sig;
  rep(); // everything that allocates lazily does so before the first fork
  auto validsk = [&](Bytes c) { static uint8_t p[256], q[256]; rb = c.data(); rbn = c.size(); rbp = 0; int rc = s.keygen(p, q); return rc == 0 && !memcmp(q, c.data(), c.size()); };
  auto pub_of = [&](const Bytes& c) { rb = c.data(); rbn = c.size(); rbp = 0; s.keygen(pk, sk); };
  // secrets: keys with a common public input; random, mostly zero, mostly ones, single byte patterns
  Bytes base(s.sk); r.fill(base.data(), base.size());
  auto keys = [&](size_t want) {
    std::vector<Case> v; size_t tries = 0;
    while (v.size() < want && tries++ < want * 60) {
      Bytes c = base; const char* w = "random"; uint8_t* k = &c[inlen];
      switch (tries % 4) {
      case 0: r.fill(k, keylen); break;
      case 1: memset(k, 0, keylen); for (int i = 0; i < 4; i++) k[r.below(keylen)] = 1 << r.below(8); w = "sparse"; break;
      case 2: memset(k, 0xff, keylen); for (int i = 0; i < 4; i++) k[r.below(keylen)] ^= 1 << r.below(8); w = "dense"; break;
      default: memset(k, (int)r.below(256), keylen); k[r.below(keylen)] = (uint8_t)r.below(256); w = "repeated";
      }
      if (validsk(c)) v.push_back({c, w});
    }
    return v;
  };
  if (mode == "probe") { // the recorder is alive: two messages of different length must give different traces
    pub_of(keys(1)[0].secret); force = false;
    uint64_t h[2];
    for (int i = 0; i < 2; i++) { child([&] { on = true; s.validate(i ? pk : sk, sk); if (i) s.validate(pk, sk); }, ~0ull); h[i] = out->h; count("trace_events", out->n); if (!out->n) die("no events"); }
    if (h[0] == h[1]) die("the recorder does not distinguish");
    count("probe"); return finish();
  }
  if (mode == "keys") {
    auto ks = keys(n);
    compare("keygen", s, ks, [&](const Bytes& c) { rb = c.data(); rbn = c.size(); rbp = 0; on = true; int rc = s.keygen(pk, sk); on = false; out->rc = rc || memcmp(sk, c.data(), s.sk); }, 0);
    compare("validate", s, ks, [&](const Bytes& c) { pub_of(c); on = true; int rc = s.validate(pk, sk); on = false; out->rc = rc; }, 0);
    compare("clear", s, ks, [&](const Bytes& c) { memcpy(sk, c.data(), s.sk); on = true; s.clear(sk); on = false; out->rc = 0; }, 0);
  }
  if (mode == "sign") {
    auto ks = keys(n);
    size_t mlen = 1 + r.below(400), rlen = r.below(2) ? lam : r.below(100);
    Bytes m0(mlen), r0(rlen); r.fill(m0.data(), mlen); r.fill(r0.data(), rlen);
    r.fill(fiv, 16); for (auto& x : fch) r.fill(x, sizeof x);
    force = true;
    // which squeeze yields the last challenge
    pub_of(ks[0].secret); sl = s.sig; calls = 0;
    if (s.signr(sk, m0.data(), mlen, r0.data(), rlen, sig, &sl)) die("sign");
    static uint8_t ch[64]; memcpy(ch, sig + s.sig - 16 - lam, lam);
    want3 = ch; calls = 0; s.signr(sk, m0.data(), mlen, r0.data(), rlen, sig, &sl); want3 = nullptr;
    if (at3 < 0) { inconclusive("the squeeze of the last challenge was not found"); return finish(); }
    // secret, message and randomness vary together: a case is sk || m || rho
    std::vector<Case> cs;
    for (size_t k = 0; k < ks.size(); k++) {
      Bytes m = m0, q = r0;
      if (k % 4 == 1) { std::fill(m.begin(), m.end(), 0); std::fill(q.begin(), q.end(), 0); }
      if (k % 4 == 2) { std::fill(m.begin(), m.end(), 0xff); std::fill(q.begin(), q.end(), 0xff); }
      if (k % 4 == 3) { r.fill(m.data(), m.size()); r.fill(q.data(), q.size()); }
      Bytes c = ks[k].secret; c.insert(c.end(), m.begin(), m.end()); c.insert(c.end(), q.begin(), q.end());
      cs.push_back({c, ks[k].what});
    }
    static uint8_t mb[512], qb[128];
    bool internal = r.below(2) && rlen == lam;
    compare("sign", s, cs, [&](const Bytes& c) {
      force = false; Bytes k(c.begin(), c.begin() + s.sk); pub_of(k); force = true;
      memcpy(mb, c.data() + s.sk, mlen); memcpy(qb, c.data() + s.sk + mlen, rlen);
      rb = qb; rbn = rlen; rbp = 0; calls = 0; lastctx = nullptr; sl = s.sig;
      on = true;
      int rc = internal ? s.sign(sk, mb, mlen, sig, &sl) : s.signr(sk, mb, mlen, qb, rlen, sig, &sl);
      on = false; out->rc = rc || memcmp(sig + s.sig - 16, fiv, 16) || memcmp(sig + s.sig - 16 - lam, fch[2], lam); }, 15);
  }
  return finish();
}
