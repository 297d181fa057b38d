// C07 argument contract
#include "fv.h"
#include "sets.h"
#include <csignal>
#include <csetjmp>
using namespace fv;
static Rng R(1);
// a fault inside a call is a violation of the case that caused it
static sigjmp_buf jb; static volatile sig_atomic_t armed; static volatile uintptr_t fault_addr;
static void onsegv(int, siginfo_t* si, void*) { fault_addr = (uintptr_t)si->si_addr; if (armed) siglongjmp(jb, 1); _exit(139); }
template <class F> static int call(const Set& s, const std::string& what, F f) {
  if (sigsetjmp(jb, 1)) { armed = 0; viol(std::string("fault:") + s.name + ":" + what, "memory fault at %#zx", (size_t)fault_addr); return -999; }
  armed = 1; int r = f(); armed = 0;
  return r;
}
// buffer with canaries: n usable bytes at p, the rest of the mapping is watched
struct Buf {
  Guard g; uint8_t* p; size_t n; uint8_t pat; Bytes before;
  Buf(size_t n_, size_t pre, size_t post, bool front) : g(n_ + pre + post, front), p(g.p + pre), n(n_) {
    pat = (uint8_t)(1 + R.below(255));
    size_t body = g.len - 8192; uint8_t* base = g.map + 4096;
    for (size_t i = 0; i < body; i++) base[i] = (uint8_t)(pat + 31 * i);
    before = Bytes(base, base + body);
  }
  // bytes changed outside [p, p+upto)
  long stray(size_t upto) {
    uint8_t* base = g.map + 4096;
    for (size_t i = 0; i < before.size(); i++)
      if (base[i] != before[i] && !(base + i >= p && base + i < p + upto)) return (long)(base + i - p);
    return -1000000000;
  }
  void set(const Bytes& b) { memcpy(p, b.data(), b.size()); before = Bytes(g.map + 4096, g.map + g.len - 4096); }
};
static const long NONE = -1000000000;
struct Place { size_t pre, post; bool front; };
static Place place() {
  Place q; q.front = R.below(2); q.pre = q.front && R.below(2) ? 0 : R.below(20); q.post = !q.front && R.below(2) ? 0 : R.below(20);
  return q;
}
#define BUF(name, n) Place name##_pl = place(); Buf name(n, name##_pl.pre, name##_pl.post, name##_pl.front)

static void judge(const Set& s, const char* what, const std::string& args, int rc, bool must_fail, std::initializer_list<std::pair<Buf*, size_t>> bufs) {
  eval(); count(what);
  distinct(mix(mix(mix(5, s.name, strlen(s.name)), what, strlen(what)), args.data(), args.size()));
  std::string k = std::string(s.name) + ":" + what;
  if (rc == -999) return;
  if (must_fail && rc == 0) viol("bad-argument-accepted:" + k, "%s", args.c_str());
  if (!must_fail && rc != 0) viol("good-argument-refused:" + k, "%s rc=%d", args.c_str(), rc);
  int i = 0;
  for (auto& b : bufs) {
    if (!b.first) { i++; continue; }
    long o = b.first->stray(b.second);
    if (o != NONE) viol((b.second ? "write-out-of-bounds:" : must_fail ? "write-despite-error:" : "input-modified:") + k, "%s rc=%d argument %d at offset %ld of %zu", args.c_str(), rc, i, o, b.first->n);
    i++;
  }
  sample("%s %s(%s) = %d", s.name, what, args.c_str(), rc);
}
static std::string A(const char* f, ...) { char b[300]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

static void nulls(const Set& s, const M::Par& p) {
  Bytes vpk(p.pk), vsk(p.sk), vsig(p.sig), vmsg = R.bytes(20);
  rnd().reset(R.u64()); s.keygen(vpk.data(), vsk.data());
  size_t sl = p.sig; s.signr(vsk.data(), vmsg.data(), 20, nullptr, 0, vsig.data(), &sl);
  for (int m = 0; m < 4; m++) {
    BUF(pk, p.pk); BUF(sk, p.sk);
    rnd().reset(R.u64());
    int rc = call(s, "keygen", [&] { return s.keygen(m & 1 ? nullptr : pk.p, m & 2 ? nullptr : sk.p); });
    judge(s, "keygen", A("pk %s, sk %s", m & 1 ? "null" : "ok", m & 2 ? "null" : "ok"), rc, m != 0, {{&pk, m ? 0 : p.pk}, {&sk, m ? 0 : p.sk}});
  }
  for (int m = 0; m < 4; m++) {
    BUF(pk, p.pk); BUF(sk, p.sk); pk.set(vpk); sk.set(vsk);
    int rc = call(s, "validate", [&] { return s.validate(m & 1 ? nullptr : pk.p, m & 2 ? nullptr : sk.p); });
    judge(s, "validate", A("pk %s, sk %s", m & 1 ? "null" : "ok", m & 2 ? "null" : "ok"), rc, m != 0, {{&pk, 0}, {&sk, 0}});
  }
  // sign: every combination of missing or short things
  const size_t caps[] = {p.sig, 0, 1, p.sig / 2, p.sig - 16, p.sig - 1};
  for (int entry = 0; entry < 2; entry++)
    for (int m = 0; m < 16; m++)
      for (size_t cap : caps)
        for (int rm = 0; rm < (entry ? 5 : 1); rm++) {
          // rm: 0 rho ok, 1 null/0, 2 null/1, 3 null/16, 4 null/huge
          size_t rl = rm == 0 ? 16 : rm == 1 ? 0 : rm == 2 ? 1 : rm == 3 ? 16 : (size_t)-1;
          bool bad = (m & 7) || cap < p.sig || rm >= 2;
          if (!bad) { if (m & 8 ? entry : R.below(2)) continue; }   // a few successes here, more below
          BUF(sk, p.sk); BUF(msg, 20); BUF(rho, 16); BUF(sig, cap); BUF(len, sizeof(size_t));
          sk.set(vsk); msg.set(vmsg); rho.set(R.bytes(16));
          size_t v = cap; len.set(Bytes((uint8_t*)&v, (uint8_t*)&v + sizeof v));
          const uint8_t* mp = m & 8 ? nullptr : msg.p; size_t ml = m & 8 ? 0 : 20;
          size_t aligned = cap; // the length object itself has to be aligned; the canary copy only when it is
          size_t* lp = ((uintptr_t)len.p & (sizeof(size_t) - 1)) ? &aligned : (size_t*)len.p;
          rnd().reset(R.u64());
          std::string d = A("sk %s, sig %s cap %zu, len %s, msg %s, rho mode %d", m & 1 ? "null" : "ok", m & 2 ? "null" : "ok", cap, m & 4 ? "null" : "ok", m & 8 ? "null/0" : "ok", rm);
          int rc = call(s, entry ? "signr" : "sign", [&] {
            const uint8_t* a = m & 1 ? nullptr : sk.p; uint8_t* o = m & 2 ? nullptr : sig.p; size_t* l = m & 4 ? nullptr : lp;
            return entry ? s.signr(a, mp, ml, rm ? nullptr : rho.p, rl, o, l) : s.sign(a, mp, ml, o, l);
          });
          judge(s, entry ? "signr" : "sign", d, rc, bad, {{&sk, 0}, {&msg, 0}, {&rho, 0}, {&sig, bad ? 0 : p.sig}, {&len, bad ? 0 : sizeof(size_t)}});
          if (bad && aligned != cap) viol(std::string("write-despite-error:") + s.name + ":length", "%s", d.c_str());
          if (!bad && rc == 0 && !(m & 4) && *lp != p.sig) viol(std::string("length:") + s.name, "%s: %zu", d.c_str(), *lp);
        }
  // verify: lengths and nulls; the buffer holds exactly as much as may be touched
  std::vector<size_t> lens = {0, 1, 16, p.sig / 2, p.sig - 17, p.sig - 16, p.sig - 2, p.sig - 1, p.sig, p.sig + 1, p.sig + 16, 2 * p.sig, 65535, 65536, (size_t)1 << 32, ((size_t)1 << 32) + p.sig, ((size_t)1 << 16) + p.sig, ((size_t)1 << 31) + p.sig, (size_t)-1, (size_t)0 - p.sig};
  for (auto& o : SETS) if (o.sig != p.sig) lens.push_back(o.sig);
  for (int k = 0; k < 12; k++) lens.push_back(R.below(3 * p.sig));
  for (size_t l : lens)
    for (int m = 0; m < 8; m++) {
      bool bad = (m & 3) || l != p.sig;
      if (!bad && m) continue;
      BUF(pk, p.pk); BUF(msg, 20); size_t have = l < p.sig ? l : p.sig; BUF(sig, have);
      pk.set(vpk); msg.set(vmsg); sig.set(Bytes(vsig.begin(), vsig.begin() + have));
      int rc = call(s, "verify", [&] { return s.verify(m & 1 ? nullptr : pk.p, m & 4 ? nullptr : msg.p, m & 4 ? 0 : 20, m & 2 ? nullptr : sig.p, l); });
      judge(s, "verify", A("pk %s, sig %s len %zu, msg %s", m & 1 ? "null" : "ok", m & 2 ? "null" : "ok", l, m & 4 ? "null/0" : "ok"), rc, bad, {{&pk, 0}, {&msg, 0}, {&sig, 0}});
    }
}
// successful calls: exactly the documented bytes, independent of what was there and how much was announced
static void good(const Set& s, const M::Par& p, unsigned n) {
  for (unsigned k = 0; k < n; k++) {
    BUF(pk, p.pk); BUF(sk, p.sk);
    uint64_t seed = R.u64();
    rnd().reset(seed);
    int rc = call(s, "keygen", [&] { return s.keygen(pk.p, sk.p); });
    judge(s, "keygen", A("placement %u", k), rc, false, {{&pk, p.pk}, {&sk, p.sk}});
    if (rc) continue;
    Bytes vpk(pk.p, pk.p + p.pk), vsk(sk.p, sk.p + p.sk);
    { // other memory, other contents, same result
      BUF(pk2, p.pk); BUF(sk2, p.sk); rnd().reset(seed); s.keygen(pk2.p, sk2.p);
      if (memcmp(pk2.p, pk.p, p.pk) || memcmp(sk2.p, sk.p, p.sk)) viol(std::string("placement-dependent:") + s.name + ":keygen", "seed %llu", (unsigned long long)seed);
    }
    size_t ml = edge_len(R); Bytes m = R.bytes(ml), rho = R.bytes(R.below(3) ? R.below(100) : 0);
    int entry = k % 3; bool alias = ml && R.below(4) == 0;
    size_t extra = (const size_t[]){0, 1, 15, 4096, 100000, 0}[R.below(6)], announce = p.sig + extra;
    if (R.below(6) == 0) announce = (size_t)-1 - R.below(2);
    if (R.below(12) == 0) announce = ((size_t)1 << 32) + R.below(5);
    Bytes first;
    for (int rep = 0; rep < (k % 2 ? 2 : 1); rep++) {
      BUF(gsk, p.sk); BUF(gm, ml); BUF(gr, rho.size()); BUF(sig, p.sig + extra);
      gsk.set(vsk); gm.set(m); gr.set(rho);
      mprotect(gsk.g.map + 4096, gsk.g.len - 8192, PROT_READ); mprotect(gm.g.map + 4096, gm.g.len - 8192, PROT_READ); mprotect(gr.g.map + 4096, gr.g.len - 8192, PROT_READ);
      size_t len = announce; rnd().reset(seed + 1);
      const uint8_t* mp = alias ? gsk.p : gm.p; size_t mlen = alias ? p.sk : ml; // inputs may overlap each other
      const uint8_t* rp = rho.empty() && R.below(2) ? nullptr : gr.p;
      rc = call(s, "sign", [&] { return entry ? s.signr(gsk.p, mp, mlen, entry == 2 ? nullptr : rp, entry == 2 ? 0 : rho.size(), sig.p, &len) : s.sign(gsk.p, mp, mlen, sig.p, &len); });
      judge(s, "sign_ok", A("entry %d msg %zu%s rho %zu announced %zu", entry, mlen, alias ? " (the key itself)" : "", rho.size(), announce), rc, false, {{&gsk, 0}, {&gm, 0}, {&gr, 0}, {&sig, p.sig}});
      if (rc) continue;
      if (len != p.sig) viol(std::string("length:") + s.name, "announced %zu, reported %zu", announce, len);
      Bytes sg(sig.p, sig.p + p.sig);
      if (rep == 0) first = sg;
      else if (first != sg) viol(std::string("placement-dependent:") + s.name + ":sign", "seed %llu entry %d", (unsigned long long)seed, entry);
      if (rep) continue;
      BUF(vp, p.pk); BUF(vs, p.sig); vp.set(vpk); vs.set(sg); bool broken = R.below(2);
      if (broken) { Bytes t = sg; t[R.below(p.sig)] ^= 1 << R.below(8); vs.set(t); }
      mprotect(vp.g.map + 4096, vp.g.len - 8192, PROT_READ); mprotect(vs.g.map + 4096, vs.g.len - 8192, PROT_READ);
      rc = call(s, "verify", [&] { return s.verify(vp.p, mp, mlen, vs.p, p.sig); });
      judge(s, broken ? "verify_bad" : "verify_ok", A("msg %zu", mlen), rc, broken, {{&vp, 0}, {&vs, 0}, {&gm, 0}});
    }
  }
}
int main(int argc, char** argv) {
  std::string mode = argv[1];
  const Set& s = set_of(argv[2]);
  const M::Par& p = M::par(argv[2]);
  R = Rng(envseed(), mix(7, argv[1], strlen(argv[1])) ^ mix(3, argv[2], strlen(argv[2])) ^ strtoull(argv[3], nullptr, 10));
  if (s.pk != p.pk || s.sk != p.sk || s.sig != p.sig) { viol(std::string("sizes:") + s.name, "pk %zu sk %zu sig %zu", s.pk, s.sk, s.sig); return finish(); }
  static uint8_t alt[65536]; stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa = {}; sa.sa_sigaction = onsegv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
  if (mode == "nulls") nulls(s, p);
  else good(s, p, strtoul(argv[4], nullptr, 10));
  return finish();
}
