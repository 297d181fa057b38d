// C10: every allocation of the process is recorded while a library call runs
#include "fv.h"
#include "sets.h"
#include <atomic>
#include <dirent.h>
#include <malloc.h>
#include <pthread.h>
#include <openssl/evp.h>
using namespace fv;
static volatile bool track = false;
static long live_blocks = 0; static long long live_bytes = 0; static unsigned long long allocs = 0, frees = 0;
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
static void* in(void* p) { if (track && p) { live_blocks++; allocs++; live_bytes += malloc_usable_size(p); } return p; }
static void out(void* p) { if (track && p) { live_blocks--; frees++; live_bytes -= malloc_usable_size(p); } }
void* malloc(size_t n) { return in(__libc_malloc(n)); }
void free(void* p) { out(p); __libc_free(p); }
void* calloc(size_t a, size_t b) { return in(__libc_calloc(a, b)); }
void* realloc(void* p, size_t n) { out(p); return in(__libc_realloc(p, n)); }
void* memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
int posix_memalign(void** p, size_t a, size_t n) { *p = in(__libc_memalign(a, n)); return *p ? 0 : 12; }
}
static Rng R(1);
static int fds() { DIR* d = opendir("/proc/self/fd"); int n = 0; while (readdir(d)) n++; closedir(d); return n; }
static long maps() { FILE* f = fopen("/proc/self/statm", "r"); long v = 0; if (fscanf(f, "%ld", &v) != 1) v = 0; fclose(f); return v; }
template <class F> static void measure(const Set& s, const char* what, F f) {
  f(); // first use may fill caches of the crypto library
  for (int t = 0;; t++) {
    int fd0 = fds(); long vm0 = maps();
    live_blocks = 0; live_bytes = 0; allocs = frees = 0;
    track = true; f(); track = false;
    long b = live_blocks; long long by = live_bytes; unsigned long long a = allocs;
    int fd1 = fds(); long vm1 = maps();
    eval(); count(what); count("allocations_observed", a); count("releases_observed", frees);
    distinct(mix(mix(mix(1, s.name, strlen(s.name)), what, strlen(what)), &a, 8) + R.u64() % 1);
    sample("%s %s: %llu allocations, all released; %d descriptors", s.name, what, a, fd1);
    bool leak = b > 0 || by > 0, fdl = fd1 > fd0, vml = vm1 > vm0 + 2000;
    if (b < 0) inconclusive("%s %s: %ld more releases than acquisitions", s.name, what, -b);
    if (!leak && !fdl && !vml) return;
    if (t == 3) { // again and again, so not a cache
      viol(std::string(leak ? "leak:" : fdl ? "descriptor:" : "mapping:") + s.name + ":" + what, "each call keeps %ld blocks / %lld bytes, descriptors %d->%d, pages %ld->%ld", b, by, fd0, fd1, vm0, vm1);
      return;
    }
  }
}
int main(int argc, char** argv) {
  const Set& s = set_of(argv[1]);
  const M::Par& p = M::par(argv[1]);
  R = Rng(envseed(), mix(3, argv[1], strlen(argv[1])) ^ strtoull(argv[2], nullptr, 10));
  bool slow = atoi(argv[3]), mini = atoi(argv[3]) == 2;
  unsigned rounds = atoi(argv[4]);
  for (unsigned round = 0; round < rounds; round++) {
    Bytes pk(p.pk), sk(p.sk), sig(p.sig), msg = R.bytes(R.below(400)), rho = R.bytes(R.below(50)), t, pk2(p.pk), sk2(p.sk), inv, q;
    rnd().reset(R.u64()); s.keygen(pk.data(), sk.data());
    do inv = R.bytes(p.sk); while (M::derive_pk(p, inv, q));
    size_t sl = p.sig; uint64_t sd = R.u64();
    measure(s, "keygen", [&] { rnd().reset(sd); s.keygen(pk2.data(), sk2.data()); });
    Bytes st; for (int i = 0; i < 5; i++) st.insert(st.end(), inv.begin(), inv.end());
    Bytes stc;
    measure(s, "keygen_redraw", [&] { bool tr = track; track = false; rnd().reset(sd); rnd().stream = st; track = tr; s.keygen(pk2.data(), sk2.data()); tr = track; track = false; rnd().reset(sd); track = tr; });
    rnd().reset(sd);
    measure(s, "keygen_no_randomness", [&] { rnd().calls = 0; rnd().fail_at = 0; s.keygen(pk2.data(), sk2.data()); rnd().fail_at = -1; });
    measure(s, "keygen_late_failure", [&] { bool tr = track; track = false; rnd().reset(sd); rnd().stream = st; track = tr; rnd().fail_at = 3; s.keygen(pk2.data(), sk2.data()); rnd().fail_at = -1; });
    rnd().reset(sd);
    measure(s, "keygen_null", [&] { s.keygen(nullptr, sk2.data()); s.keygen(pk2.data(), nullptr); });
    measure(s, "validate_ok", [&] { s.validate(pk.data(), sk.data()); });
    measure(s, "validate_mismatch", [&] { s.validate(pk2.data(), sk.data()); });
    measure(s, "validate_invalid", [&] { s.validate(pk.data(), inv.data()); });
    measure(s, "validate_null", [&] { s.validate(nullptr, sk.data()); s.validate(pk.data(), nullptr); });
    int r1 = 0, r2 = 0, v = 0;
    if (!slow || round % 2 == 0) measure(s, "sign", [&] { sl = p.sig; r1 = s.sign(sk.data(), msg.data(), msg.size(), sig.data(), &sl); });
    if (!slow || round % 2 == 1) measure(s, "signr", [&] { sl = p.sig; r2 = s.signr(sk.data(), msg.data(), msg.size(), rho.data(), rho.size(), sig.data(), &sl); });
    if (!mini) measure(s, "signr_none", [&] { sl = p.sig; r2 |= s.signr(sk.data(), msg.data(), msg.size(), nullptr, 0, sig.data(), &sl); });
    if (r1 || r2) inconclusive("signing failed");
    measure(s, "sign_short", [&] { sl = p.sig - 1; s.sign(sk.data(), msg.data(), 1, sig.data(), &sl); });
    measure(s, "sign_invalid", [&] { sl = p.sig; s.sign(inv.data(), msg.data(), 1, sig.data(), &sl); s.signr(inv.data(), msg.data(), 1, rho.data(), rho.size(), sig.data(), &sl); });
    measure(s, "sign_no_randomness", [&] { rnd().calls = 0; rnd().fail_at = 0; sl = p.sig; s.sign(sk.data(), msg.data(), 1, sig.data(), &sl); rnd().fail_at = -1; });
    sl = p.sig; rnd().reset(sd); s.signr(sk.data(), msg.data(), msg.size(), nullptr, 0, sig.data(), &sl);
    measure(s, "verify_ok", [&] { v = s.verify(pk.data(), msg.data(), msg.size(), sig.data(), sig.size()); });
    if (v) inconclusive("honest signature rejected");
    // rejection at different points of the verifier
    struct { const char* n; size_t o, l; } F[] = {{"reject_c", p.off_c, p.off_u - p.off_c}, {"reject_u", p.off_u, p.lb + 2}, {"reject_d", p.off_d, p.l / 8}, {"reject_a", p.off_a, p.lb}, {"reject_pdec", p.off_pdec(0), p.lb * p.depth(0)}, {"reject_com", p.off_com(p.tau - 1), 2 * p.lb}, {"reject_chall", p.off_chall, p.lb}, {"reject_iv", p.off_iv, 16}};
    int k = 0;
    for (auto& f : F) {
      if (slow && (k++ + round + s.sig) % (mini ? 8 : 3)) continue;
      t = sig; t[f.o + R.below(f.l)] ^= 1 << R.below(8);
      measure(s, f.n, [&] { v = s.verify(pk.data(), msg.data(), msg.size(), t.data(), t.size()); });
      if (!v) inconclusive("altered signature accepted");
    }
    // nothing may stay behind for each thread that used the library
    measure(s, "thread", [&] {
      struct A { const Set& s; Bytes &pk, &sk, &pk2, &sk2, &msg, &sig, &q; bool slow; } a{s, pk, sk, pk2, sk2, msg, sig, t, slow};
      pthread_t th;
      if (pthread_create(&th, nullptr, [](void* x) -> void* {
        A& a = *(A*)x; a.s.validate(a.pk.data(), a.sk.data()); a.s.verify(a.pk.data(), a.msg.data(), a.msg.size(), a.sig.data(), a.sig.size());
        if (!a.slow) { size_t sl = a.sig.size(); a.s.signr(a.sk.data(), a.msg.data(), a.msg.size(), nullptr, 0, a.q.data(), &sl); a.s.verify(a.pk2.data(), a.msg.data(), a.msg.size(), a.sig.data(), a.sig.size()); }
        return nullptr; }, &a)) die("thread");
      pthread_join(th, nullptr);
    });
    if (mini) break;
    t = sig; memset(&t[p.off_chall], 0xff, p.lb);
    measure(s, "reject_chall_ones", [&] { s.verify(pk.data(), msg.data(), msg.size(), t.data(), t.size()); });
    memset(&t[p.off_chall], 0, p.lb);
    measure(s, "reject_chall_zero", [&] { s.verify(pk.data(), msg.data(), msg.size(), t.data(), t.size()); });
    if (!slow) {
      measure(s, "reject_message", [&] { s.verify(pk.data(), msg.data(), msg.size() / 2, sig.data(), sig.size()); });
      measure(s, "reject_key", [&] { s.verify(pk2.data(), msg.data(), msg.size(), sig.data(), sig.size()); });
      R.fill(t.data(), t.size());
      measure(s, "reject_random", [&] { s.verify(pk.data(), msg.data(), msg.size(), t.data(), t.size()); });
    }
    measure(s, "reject_length", [&] { s.verify(pk.data(), msg.data(), msg.size(), sig.data(), sig.size() - 1); s.verify(pk.data(), msg.data(), msg.size(), sig.data(), 0); });
    measure(s, "verify_null", [&] { s.verify(nullptr, msg.data(), 1, sig.data(), sig.size()); s.verify(pk.data(), msg.data(), 1, nullptr, sig.size()); });
    measure(s, "clear", [&] { s.clear(sk2.data()); });
  }
  return finish();
}
