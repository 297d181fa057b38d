// C11: many threads; the race detector and the comparison with undisturbed calls decide
#include "fv.h"
#include "sets.h"
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <thread>
#include <unistd.h>
extern "C" {
#include "KeccakHash.h"
}
using namespace fv;
typedef unsigned long long ull;
#ifdef FV_NIST
extern "C" {
#define DD(x) int nist_##x##_keypair(unsigned char*, unsigned char*); int nist_##x##_sign(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*); int nist_##x##_open(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*);
DD(128s) DD(128f) DD(192s) DD(192f) DD(256s) DD(256f) DD(em_128s) DD(em_128f) DD(em_192s) DD(em_192f) DD(em_256s) DD(em_256f)
}
struct NI { const char* name; int (*kp)(unsigned char*, unsigned char*); int (*sign)(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*); int (*open)(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*); };
#define E(x) {#x, nist_##x##_keypair, nist_##x##_sign, nist_##x##_open}
static const NI NS[] = {E(128s), E(128f), E(192s), E(192f), E(256s), E(256f), E(em_128s), E(em_128f), E(em_192s), E(em_192f), E(em_256s), E(em_256f)};
#endif
// delays inside operations, at the hash boundary: no synchronisation is added
static thread_local Rng* jitter = nullptr;
extern "C" int __real_Keccak_HashSqueeze(Keccak_HashInstance*, unsigned char*, size_t);
extern "C" int __wrap_Keccak_HashSqueeze(Keccak_HashInstance* i, unsigned char* d, size_t n) {
  if (jitter) { uint64_t k = jitter->below(400); if (k == 0) usleep(50 + jitter->below(400)); else if (k < 6) sched_yield(); }
  return __real_Keccak_HashSqueeze(i, d, n);
}
static std::atomic<unsigned> ticket{0}; // relaxed: orders nothing, only numbers the events
static uint32_t evlog[1 << 16];
static void event(unsigned thread, unsigned op, bool end) {
  unsigned t = ticket.fetch_add(1, std::memory_order_relaxed);
  if (t < sizeof evlog / sizeof *evlog) evlog[t] = thread << 16 | op << 1 | end;
}
struct Shared { const Set* s; const M::Par* p; Bytes pk, sk, msg, sig, bad; };
struct Op { int kind; unsigned set; uint64_t seed; Bytes result; };
static std::vector<Shared> sh;
static Bytes exec(const Op& o) {
  const Shared& h = sh[o.set]; const Set& s = *h.s;
  Bytes r; size_t sl = s.sig; int rc = -77;
  rnd().reset(o.seed);
  auto put = [&](int v) { r.push_back((uint8_t)v); r.push_back((uint8_t)(v >> 8)); };
  switch (o.kind) {
  case 0: { Bytes pk(s.pk), sk(s.sk); rc = s.keygen(pk.data(), sk.data()); r = pk; r.insert(r.end(), sk.begin(), sk.end()); put(rc); put(s.validate(pk.data(), sk.data())); s.clear(sk.data()); r.insert(r.end(), sk.begin(), sk.end()); break; }
  case 1: { r.resize(s.sig); rc = s.sign(h.sk.data(), h.msg.data(), h.msg.size(), r.data(), &sl); put(rc); put((int)sl); break; }
  case 2: { Bytes rho(24); Rng(o.seed).fill(rho.data(), 24); r.resize(s.sig); rc = s.signr(h.sk.data(), h.msg.data(), h.msg.size(), rho.data(), o.seed % 25, r.data(), &sl); put(rc); put((int)sl); break; }
  case 3: put(s.verify(h.pk.data(), h.msg.data(), h.msg.size(), h.sig.data(), h.sig.size())); break;
  case 4: put(s.verify(h.pk.data(), h.msg.data(), h.msg.size(), h.bad.data(), h.bad.size())); break;
  case 5: put(s.validate(h.pk.data(), h.sk.data())); put(s.validate(h.pk.data(), h.pk.data())); break;
  case 6: { Bytes rho(24); Rng(o.seed).fill(rho.data(), 24); r.resize(s.sig); Bytes m = h.msg; m.push_back((uint8_t)o.seed); rc = s.signr(h.sk.data(), m.data(), m.size(), rho.data(), 24, r.data(), &sl); put(rc); put(s.verify(h.pk.data(), m.data(), m.size(), r.data(), sl)); break; }
#ifdef FV_NIST
  case 7: {
    const NI* n = nullptr; for (auto& x : NS) if (!strcmp(x.name, s.name)) n = &x;
    ull a = 0, b = 0; r.resize(h.msg.size() + s.sig); rc = n->sign(r.data(), &a, h.msg.data(), h.msg.size(), h.sk.data());
    Bytes m(h.msg.size()); int rc2 = n->open(m.data(), &b, r.data(), r.size(), h.pk.data()); r.insert(r.end(), m.begin(), m.end()); put(rc); put(rc2); put((int)a); put((int)b); break; }
#endif
  }
  return r;
}
int main(int argc, char** argv) {
  // mode nthreads nops salt sets...
  std::string mode = argv[1];
  unsigned nt = atoi(argv[2]), no = atoi(argv[3]);
  Rng R(envseed(), 77 + strtoull(argv[4], nullptr, 10));
  bool recheck = mode.back() != '!';   // the plain build repeats every call alone
  if (!recheck) mode.pop_back();
  bool heavy = mode != "light";
  for (int i = 5; i < argc; i++) {
    Shared h; h.s = &set_of(argv[i]); h.p = &M::par(argv[i]);
    h.pk.resize(h.p->pk); h.sk.resize(h.p->sk); h.msg = R.bytes(R.below(200));
    // keys and signature come from the model, so that the library's first use is the concurrent one
    do h.sk = R.bytes(h.p->sk); while (!M::derive_pk(*h.p, h.sk, h.pk));
    h.sig = heavy ? M::sign(*h.p, h.sk, h.msg, R.bytes(16)) : Bytes(h.p->sig, 3);
    h.bad = h.sig; h.bad[R.below(h.bad.size())] ^= 1;
    sh.push_back(h);
  }
  std::vector<std::vector<Op>> plan(nt);
  std::vector<Rng> jit;
  for (unsigned t = 0; t < nt; t++) {
    jit.push_back(Rng(R.u64()));
    for (unsigned k = 0; k < no; k++) {
      Op o; o.set = mode == "own" ? t % sh.size() : R.below(sh.size());
      o.kind = !heavy ? (R.below(2) ? 0 : 5) : (int)R.below(8);
#ifndef FV_NIST
      if (o.kind == 7) o.kind = 6;
#endif
      if (heavy && k == 0 && t < 4) o.kind = t % 2 ? 3 : 1; // everyone starts inside the same function
      o.seed = R.u64(); plan[t].push_back(o);
    }
  }
  pthread_barrier_t bar; pthread_barrier_init(&bar, nullptr, nt);
  std::vector<std::thread> th;
  for (unsigned t = 0; t < nt; t++) th.emplace_back([&, t] {
    jitter = &jit[t];
    pthread_barrier_wait(&bar);
    for (unsigned k = 0; k < no; k++) { event(t, plan[t][k].kind, false); plan[t][k].result = exec(plan[t][k]); event(t, plan[t][k].kind, true); }
  });
  for (auto& t : th) t.join();
  jitter = nullptr;
  // how interleaved it was: operations of other threads that began while one was running
  unsigned n = ticket.load(); if (n > sizeof evlog / sizeof *evlog) n = sizeof evlog / sizeof *evlog;
  ull overlaps = 0; unsigned running = 0, peak = 0;
  for (unsigned i = 0; i < n; i++) { if (evlog[i] & 1) running--; else { overlaps += running; running++; if (running > peak) peak = running; } }
  count("overlapping_pairs", overlaps);
  distinct(mix(11, evlog, n * 4));
  sample("%u threads x %u operations (%s): %llu overlapping pairs, %u at once", nt, no, mode.c_str(), overlaps, peak);
  // the same calls alone
  for (unsigned t = 0; t < nt; t++)
    for (auto& o : plan[t]) {
      static const char* K[] = {"keygen", "sign", "signr", "verify", "verify_bad", "validate", "sign_verify", "nist"};
      eval(); count(K[o.kind]); distinct("th", o.result, Bytes(), o.seed);
      if (heavy && o.kind == 3 && (o.result[0] || o.result[1])) viol(std::string("verify-concurrent:") + sh[o.set].s->name, "valid signature rejected in thread %u", t);
      if (!recheck) continue;
      Bytes again = exec(o);
      if (again != o.result) viol(std::string("differs:") + sh[o.set].s->name + ":" + K[o.kind], "thread %u of %u, seed %llu: result differs from that of the same call alone (%s / %s)", t, nt, (ull)o.seed, H(o.result, 24).c_str(), H(again, 24).c_str());
    }
  return finish();
}
