// C26: the result of a call depends on its arguments and the randomness drawn only
#include "fv.h"
#include "sets.h"
#include <errno.h>
#include <fenv.h>
#include <locale.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <alloca.h>
#ifdef FV_OSSL_ERR
#include <openssl/err.h>
#endif
using namespace fv;
static Rng R(1);
enum { KEYGEN, SIGN, SIGNR, VERIFY, VALIDATE, CLEAR };
static const char* NAME[] = {"keygen", "sign", "sign_with_randomness", "verify", "validate", "clear"};
struct Case { const Set* s; int op; Bytes a, b, c, d; size_t len = 0; uint64_t rs = 0; long fail = -1; bool rnull = false; };
struct Res { int rc = 0; size_t len = 0; Bytes o1, o2; unsigned long drawn = 0;
  bool operator==(const Res& x) const { return rc == x.rc && len == x.len && o1 == x.o1 && o2 == x.o2 && drawn == x.drawn; } };

static uint8_t arena[6][120000] __attribute__((aligned(64)));
struct Place { int mode; uint8_t fill; };
struct Buf { Guard* g = nullptr; uint8_t* p = nullptr; Bytes heap;
  Buf(const Place& pl, unsigned slot, size_t n, const uint8_t* src) {
    if (pl.mode == 0 && n + 64 <= sizeof arena[0]) p = arena[slot];        // the address of the previous call
    else if (pl.mode == 1 && n + 64 <= sizeof arena[0]) p = arena[slot] + R.below(64);
    else if (pl.mode == 2) { g = new Guard(n, R.below(2)); p = g->p; }
    else { size_t o = R.below(64); heap.assign(n + o + 1, pl.fill); p = heap.data() + o; }
    if (src) { if (n) memcpy(p, src, n); } else memset(p, pl.fill, n);
  }
  ~Buf() { delete g; } };
static Res run(const Case& c, const Place& pl) {
  const Set& s = *c.s; Res r; rnd().reset(c.rs); rnd().fail_at = c.fail; rnd().keep = true;
  switch (c.op) {
  case KEYGEN: { Buf pk(pl, 0, s.pk, nullptr), sk(pl, 1, s.sk, nullptr); r.rc = s.keygen(pk.p, sk.p); if (!r.rc) { r.o1.assign(pk.p, pk.p + s.pk); r.o2.assign(sk.p, sk.p + s.sk); } break; }
  case SIGN: case SIGNR: {
    Buf sk(pl, 0, s.sk, c.a.data()), m(pl, 1, c.b.size(), c.b.data()), rho(pl, 2, c.c.size(), c.c.data()), sg(pl, 3, c.len, nullptr); size_t l = c.len;
    r.rc = c.op == SIGN ? s.sign(sk.p, m.p, c.b.size(), sg.p, &l) : s.signr(sk.p, m.p, c.b.size(), c.rnull ? nullptr : rho.p, c.c.size(), sg.p, &l);
    if (!r.rc) { r.len = l; r.o1.assign(sg.p, sg.p + (l < c.len ? l : c.len)); } break; }
  case VERIFY: { Buf pk(pl, 0, s.pk, c.a.data()), m(pl, 1, c.b.size(), c.b.data()), sg(pl, 2, c.d.size(), c.d.data()); r.rc = s.verify(pk.p, m.p, c.b.size(), sg.p, c.d.size()); break; }
  case VALIDATE: { Buf pk(pl, 0, s.pk, c.a.data()), sk(pl, 1, s.sk, c.b.data()); r.rc = s.validate(pk.p, sk.p); break; }
  case CLEAR: { Buf sk(pl, 0, s.sk, c.a.data()); s.clear(sk.p); r.o1.assign(sk.p, sk.p + s.sk); break; }
  }
  r.drawn = rnd().consumed.size(); rnd().fail_at = -1; return r;
}
// in a process that has not called the library before
static Res pristine(const Case& c) {
  int fd[2]; if (pipe(fd)) die("pipe"); fflush(stdout); pid_t pid = fork(); if (pid < 0) die("fork");
  if (!pid) {
    close(fd[0]); Res r = run(c, Place{3, 0}); size_t h[5] = {(size_t)(long)r.rc, r.len, r.o1.size(), r.o2.size(), r.drawn};
    auto w = [&](const void* p, size_t n) { const char* q = (const char*)p; while (n) { ssize_t k = write(fd[1], q, n); if (k <= 0) _exit(1); q += k; n -= k; } };
    w(h, sizeof h); w(r.o1.data(), r.o1.size()); w(r.o2.data(), r.o2.size()); _exit(0);
  }
  close(fd[1]); Bytes in; uint8_t b[65536]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) in.insert(in.end(), b, b + k); close(fd[0]);
  int st; waitpid(pid, &st, 0); Res r; size_t h[5];
  if (in.size() < sizeof h) { viol(std::string("first-call-crash:") + NAME[c.op] + ":" + c.s->name, "status %x", st); return r; }
  memcpy(h, in.data(), sizeof h); r.rc = (int)(long)h[0]; r.len = h[1]; r.o1.assign(&in[sizeof h], &in[sizeof h] + h[2]); r.o2.assign(&in[sizeof h] + h[2], &in[sizeof h] + h[2] + h[3]); r.drawn = h[4]; return r;
}
static Case make(const Set& s, const M::Par& p, int kind) {
  Case c; c.s = &s; c.rs = R.u64(); Bytes sk, pk; do sk = R.bytes(p.sk); while (!M::derive_pk(p, sk, pk));
  c.b = R.bytes(R.below(3) ? R.below(300) : 0); c.c = R.bytes(R.below(100)); c.len = s.sig;
  switch (kind) {
  case 0: c.op = KEYGEN; break;
  case 1: c.op = SIGN; c.a = sk; break;
  case 2: c.op = SIGNR; c.a = sk; c.rnull = R.below(3) == 0; if (c.rnull) c.c.clear(); if (R.below(3) == 0) c.len += R.below(1000); break;
  case 3: case 4: { c.op = VERIFY; c.a = pk; c.d.resize(s.sig); size_t l = s.sig; Case g = c; g.op = SIGNR; g.a = sk; Res r = pristine(g); c.d = r.o1; c.d.resize(s.sig); if (kind == 4) c.d[R.below(c.d.size())] ^= 1 << R.below(8); break; }
  case 5: c.op = VALIDATE; c.a = pk; c.b = sk; break;
  case 6: c.op = VALIDATE; c.a = pk; c.b = sk; if (R.below(2)) c.a[R.below(c.a.size())] ^= 1 << R.below(8); else c.b[R.below(c.b.size())] ^= 1 << R.below(8); break;
  case 7: c.op = SIGNR; { Bytes z; do { c.a = R.bytes(p.sk); if (R.below(2)) c.a[p.ublk] = c.a[p.ublk + 1] = c.a[p.ublk + p.lb - 4 + R.below(4)] = 0; } while (M::derive_pk(p, c.a, z)); } break;   // an invalid key
  case 8: c.op = SIGNR; c.a = sk; c.len = R.below(2) ? s.sig - 1 : R.below(s.sig); break;
  case 9: c.op = KEYGEN; c.fail = R.below(3); break;
  case 10: c.op = SIGN; c.a = sk; c.fail = 0; break;
  case 11: c.op = VERIFY; c.a = pk; c.d = R.bytes(R.below(2) ? s.sig - 1 : s.sig + 1); break;
  default: c.op = CLEAR; c.a = sk;
  }
  return c;
}
static void __attribute__((noinline)) dirty_stack(unsigned v) { size_t n = 900000; volatile uint8_t* p = (volatile uint8_t*)alloca(n); if (v == 256) for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(i * 37 + (i >> 8)); else memset((void*)p, v, n); }
static void dirty_heap(unsigned v) {
  mallopt(M_PERTURB, v); std::vector<void*> q; for (int i = 0; i < 40; i++) { size_t n = 1 + (size_t)(R.below(1) ? 0 : R.below(3) ? R.below(2000) : R.below(3000000)); void* p = malloc(n); memset(p, v ? v : (int)R.below(256), n); q.push_back(p); }
  for (size_t i = 0; i < q.size(); i++) std::swap(q[i], q[R.below(q.size())]); for (void* p : q) free(p);
}
static const Set& fast() { static const char* F[] = {"128f", "em_128f", "128f", "em_128f", "192f", "em_192f", "256f", "em_256f"}; return set_of(F[R.below(8)]); }
struct Thr { const Case* c; Place pl; Res r; uint64_t seed; };
static void* thr(void* v) { Thr* t = (Thr*)v; t->r = run(*t->c, t->pl); return nullptr; }

// one thing that happened before, or is different now; returns its name
static const char* disturb(const Case& c, int& state) {
  const Set& s = *c.s; bool cheap = s.sig < 7000 && s.name[strlen(s.name) - 1] == 'f' || R.below(4) == 0;
  const Set& o = R.below(2) || !cheap ? s : fast(); const M::Par& p = M::par(o.name);
  auto go = [&](int k) { Case x = make(o, p, k); run(x, Place{(int)R.below(2), (uint8_t)R.below(256)}); };
  switch (R.below(22)) {
  case 0: go(9); return "failed-keygen";
  case 1: go(10); return "failed-sign";
  case 2: go(7); return "invalid-key";
  case 3: go(8); return "short-buffer";
  case 4: go(11); return "wrong-length";
  case 5: go(6); return "bad-pair";
  case 6: for (int i = 1 + R.below(300); i; i--) go(R.below(2) ? 0 : 5); return "many-calls";
  case 7: if (cheap) go(2); return "other-sign";
  case 8: if (cheap) go(4); return "rejected-signature";
  case 9: case 10: {   // almost this call, at the same addresses
    Case x = c; Bytes* f[] = {&x.a, &x.b, &x.c, &x.d}; Bytes& b = *f[R.below(4)]; if (c.s->sig > 7000 && R.below(2) && c.op != VALIDATE && c.op != KEYGEN) return "none";
    if (x.op == KEYGEN) x.rs++; else if (!b.empty()) b[R.below(2) ? b.size() - 1 : R.below(b.size())] ^= 1 << R.below(8);
    run(x, Place{0, (uint8_t)R.below(256)}); return "almost-equal-call"; }
  case 11: if (cheap) run(c, Place{0, 7}); return "equal-call";
  case 12: { static const char* L[] = {"C", "POSIX", "C.UTF-8", "tr_TR.UTF-8", "de_DE.UTF-8", ""}; setlocale(LC_ALL, L[R.below(6)]); return "locale"; }
  case 13: { static const int M_[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}; fesetround(M_[R.below(4)]); return "rounding"; }
  case 14: errno = R.below(140); return "errno";
  case 15: state |= 1; return "thread";
  case 16: state |= 2; return "child";
  case 17: { char k[30]; snprintf(k, sizeof k, "FAEST_%llu", (unsigned long long)R.below(100)); setenv(k, "1", 1); setenv("TZ", R.below(2) ? "UTC" : "Asia/Tokyo", 1); return "environment"; }
  case 18: state |= 4; return "no-descriptors";
  case 19: { if (chdir(R.below(2) ? "/" : "/tmp")) {} return "directory"; }
  case 20: {
#ifdef FV_OSSL_ERR
    ERR_put_error(6, 0, 100 + R.below(50), "x", 1);
#endif
    return "error-queue"; }
  default: s.keygen(nullptr, nullptr); s.sign(nullptr, nullptr, 0, nullptr, nullptr); s.verify(nullptr, nullptr, 0, nullptr, s.sig); s.validate(nullptr, nullptr); return "null-arguments";
  }
}
static void compare(const Case& c, const Res& ref, const Res& r, const std::string& how) {
  eval();
  if (r == ref) { count((std::string("same_") + NAME[c.op]).c_str()); return; }
  viol(std::string("differs:") + NAME[c.op] + ":" + c.s->name, "first call: rc=%d len=%zu out=%s drawn=%lu; now: rc=%d len=%zu out=%s drawn=%lu; %s; a=%s b=%s c=%s", ref.rc, ref.len, H(ref.o1, 24).c_str(), ref.drawn, r.rc, r.len, H(r.o1, 24).c_str(), r.drawn, how.c_str(), H(c.a).c_str(), H(c.b).c_str(), H(c.c).c_str());
}
static void history(const Set& s, const M::Par& p, unsigned n) {
  std::vector<Case> cs; std::vector<Res> ref;
  for (int k = 0; k < 13; k++) for (int i = k < 5 && k ? 1 : 2; i; i--) { cs.push_back(make(s, p, k)); ref.push_back(pristine(cs.back())); }
  for (size_t i = 0; i < cs.size(); i++) {
    if (cs[i].op == CLEAR && ref[i].o1 != Bytes(s.sk)) viol(std::string("clear:") + s.name, "not cleared");
    uint64_t h = mix(mix(i, ref[i].o1.data(), ref[i].o1.size()), ref[i].o2.data(), ref[i].o2.size()); int x[2] = {ref[i].rc, (int)ref[i].drawn}; h = mix(h, x, 8);
    printf("T %s-%zu-%s %016llx\n", s.name, i, NAME[cs[i].op], (unsigned long long)h);
  }
  for (unsigned k = 0; k < n; k++) {
    size_t i = R.below(cs.size()); const Case& c = cs[i]; int state = 0; std::string how;
    for (int d = R.below(5); d; d--) { const char* w = disturb(c, state); how += std::string(how.empty() ? "" : ",") + w; count((std::string("after_") + w).c_str()); }
    unsigned v = R.below(257); dirty_heap(R.below(256)); Place pl{(int)R.below(4), (uint8_t)R.below(256)};
    rlimit rl, old; if (state & 4) { getrlimit(RLIMIT_NOFILE, &old); rl = old; rl.rlim_cur = 0; setrlimit(RLIMIT_NOFILE, &rl); }
    Res r;
    if (state & 1) { Thr t{&c, pl, Res(), 0}; pthread_t th; if (pthread_create(&th, nullptr, thr, &t)) die("thread"); pthread_join(th, nullptr); r = t.r; }
    else if (state & 2 && !(state & 4)) r = pristine(c);   // a child of this, no longer fresh, process
    else { dirty_stack(v); r = run(c, pl); }
    if (state & 4) setrlimit(RLIMIT_NOFILE, &old);
    compare(c, ref[i], r, "place=" + std::to_string(pl.mode) + " after " + how);
    uint64_t h = mix(mix(7, s.name, strlen(s.name)), how.data(), how.size()); h = mix(h, &i, sizeof i); h = mix(h, &pl, 4); distinct(h);
    if (k < 3) sample("%s %s after %s: equal=%d", s.name, NAME[c.op], how.c_str(), r == ref[i]);
  }
  fesetround(FE_TONEAREST); setlocale(LC_ALL, "C");
}
// many calls, more than any small counter holds, then everything again
static void many(const Set& s, const M::Par& p, unsigned n) {
  std::vector<Case> cs; std::vector<Res> ref;
  for (int k = 0; k < 13; k++) { cs.push_back(make(s, p, k)); ref.push_back(pristine(cs.back())); }
  std::vector<size_t> cheap;
  for (size_t i : {0, 5, 6, 7, 8, 9, 10, 11, 12}) { timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a); run(cs[i], Place{0, 3}); clock_gettime(CLOCK_MONOTONIC, &b); double t = (b.tv_sec - a.tv_sec) * 1e3 + (b.tv_nsec - a.tv_nsec) / 1e6; if (t < 2) cheap.push_back(i); if (getenv("FV_TIMES")) fprintf(stderr, "%zu %s %.3f ms\n", i, NAME[cs[i].op], t); }
  timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0); unsigned limit = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough") ? 600 : 25;
  for (unsigned k = 0; k < n; k++) {
    if (k % 64 == 0 && k >= 2500) { clock_gettime(CLOCK_MONOTONIC, &t1); if (t1.tv_sec - t0.tv_sec > limit) break; }
    for (size_t i : cheap) { Res r = run(cs[i], Place{0, 3}); if (!(r == ref[i])) { compare(cs[i], ref[i], r, "after " + std::to_string(k) + " rounds of calls"); return; } }
    count("rounds");
  }
  for (size_t i = 0; i < cs.size(); i++) compare(cs[i], ref[i], run(cs[i], Place{0, 3}), "after " + std::to_string(n) + " rounds of calls");
  bool f = s.name[strlen(s.name) - 1] == 'f'; unsigned m = !f ? 5 : s.sig < 7000 ? 1100 : 70;
  for (unsigned k = 0; k < m; k++) for (size_t i : {1, 3}) { Res r = run(cs[i], Place{0, 3}); if (!(r == ref[i])) { compare(cs[i], ref[i], r, "after " + std::to_string(k) + " signatures and verifications"); return; } eval(); count("repetitions"); }
  distinct("many", ref[0].o1);
}
// immediately before it, at the same addresses, a call that differs in one place of one argument
static void adjacent(const Set& s, const M::Par& p, unsigned n) {
  std::vector<Case> cs; std::vector<Res> ref;
  for (int k = 1; k < 7; k++) for (int i = 0; i < 3; i++) {
    Case c = make(s, p, k);
    if (i && k < 5) { Bytes b = R.bytes(i == 1 ? 33 + R.below(300) : 300 + R.below(5000)); Case g = c; g.b = b;
      if (c.op == VERIFY) { Bytes sk, pk; do sk = R.bytes(p.sk); while (!M::derive_pk(p, sk, pk)); g.op = SIGNR; g.a = sk; g.d.clear(); c.a = pk; c.d = pristine(g).o1; c.d.resize(s.sig); if (k == 4) c.d[R.below(c.d.size())] ^= 1 << R.below(8); }
      c.b = b; }
    cs.push_back(c); ref.push_back(pristine(c));
  }
  for (unsigned k = 0; k < n; k++) {
    size_t i = R.below(cs.size()); const Case& c = cs[i]; Case x = c; std::string how; Place pl{0, (uint8_t)R.below(256)};
    if (R.below(4) == 0) { run(c, pl); how = "equal call, "; }
    for (unsigned t = 1 + R.below(2); t; t--) {
      Bytes* f[] = {&x.b, &x.a, &x.b, &x.c, &x.d, &x.b}; unsigned w = R.below(6); Bytes& b = *f[w]; const char* N[] = {"b", "a", "b", "c", "d", "b"}; how += N[w];
      const Case& y = cs[R.below(cs.size())]; const Bytes* g[] = {&y.b, &y.a, &y.b, &y.c, &y.d, &y.b};
      if (b.empty()) { if (w == 3 && x.op == SIGNR) b = R.bytes(1 + R.below(40)); continue; }
      switch (R.below(8)) {
      case 0: b[0] ^= 1 << R.below(8); how += ":first"; break;
      case 1: b[b.size() - 1] ^= 1 << R.below(8); how += ":last"; break;
      case 2: case 3: case 4: { size_t q = R.below(b.size()); b[q] ^= 1 << R.below(8); how += ":" + std::to_string(q); break; }
      case 5: b = R.bytes(b.size()); how += ":all"; break;
      case 6: if (w != 1 && w != 4) { if (R.below(2)) b.pop_back(); else b.push_back(R.below(256)); how += ":length"; } else b[b.size() / 2] ^= 0x10; break;
      default: if ((w != 1 && w != 4) || g[w]->size() == b.size()) b = *g[w]; how += ":other"; break;
      }
    }
    if (R.below(4) == 0 && (x.op == SIGN || x.op == SIGNR || x.op == VERIFY)) {   // another kind of call with this message
      x.op = x.op == VERIFY ? SIGN : x.op == SIGN ? SIGNR : VERIFY; how += std::string(", as ") + NAME[x.op];
      Bytes sk, pk; do sk = R.bytes(p.sk); while (!M::derive_pk(p, sk, pk)); x.a = x.op == VERIFY ? pk : sk; x.len = s.sig; if (x.op == VERIFY) { const Case* y = &cs[6 + R.below(6)]; x.d = y->d; }
    }
    run(x, pl); compare(c, ref[i], run(c, pl), "right after a call that differs in " + how); count("adjacent");
    distinct(mix(mix(i, how.data(), how.size()), x.b.data(), x.b.size()));
    if (k < 3) sample("%s %s right after a call that differs in %s", s.name, NAME[c.op], how.c_str());
  }
}
int main(int argc, char** argv) {
  std::string m = argv[1]; const Set& s = set_of(argv[2]); const M::Par& p = M::par(s.name); unsigned idx = atoi(argv[3]), n = atoi(argv[4]);
  R = Rng(envseed() * 131 + 26, mix(idx, argv[2], strlen(argv[2])) ^ mix(1, m.data(), m.size()));
  if (m == "history") history(s, p, n); else if (m == "adjacent") adjacent(s, p, n); else many(s, p, n);
  return finish();
}
