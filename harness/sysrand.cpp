// C21 (b): the system random source underneath, with scripted outcomes (link with --wrap of every way to reach it)
#define FV_NO_RAND
#include "fv.h"
#include "sets.h"
#include <errno.h>
#include <fcntl.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <stdarg.h>
extern "C" {
#include "randomness.h"
ssize_t __real_getrandom(void*, size_t, unsigned);
int __real_getentropy(void*, size_t);
void __real_arc4random_buf(void*, size_t);
ssize_t __real_read(int, void*, size_t);
int __real_open(const char*, int, ...);
int __real_open64(const char*, int, ...);
int __real_ioctl(int, unsigned long, ...);
int __real_close(int);
}
using namespace fv;
static Rng R(1);
struct Out { int err; long n; }; // err: fail with errno; else deliver at most n bytes (-1: all)
struct Src { bool on = false, file_ok = false; std::vector<Out> script; size_t pos = 0; Bytes delivered; unsigned asked = 0, bad = 0; size_t bytes_asked = 0; int fd = -1; unsigned opened = 0, closed = 0; Out last{EIO, 0}; Rng rng{1}; };
static Src S;
static long answer(void* dst, size_t n) {
  if (S.asked > 200000) { viol("sysrand-spins", "the source was asked 200000 times in one call"); finish(); _exit(0); }
  S.asked++; S.bytes_asked += n; Out o = S.pos < S.script.size() ? S.script[S.pos++] : S.last;
  if (o.err) { S.bad++; errno = o.err; return -1; }
  size_t k = o.n < 0 || (size_t)o.n > n ? n : (size_t)o.n; if (k < n) S.bad++;
  S.rng.fill(dst, k); S.delivered.insert(S.delivered.end(), (uint8_t*)dst, (uint8_t*)dst + k); return (long)k;
}
extern "C" {
ssize_t __wrap_getrandom(void* p, size_t n, unsigned f) { return S.on ? answer(p, n) : __real_getrandom(p, n, f); }
int __wrap_getentropy(void* p, size_t n) { if (!S.on) return __real_getentropy(p, n); long r = answer(p, n); if (r >= 0 && (size_t)r < n) { errno = EIO; return -1; } return r < 0 ? -1 : 0; }
void __wrap_arc4random_buf(void* p, size_t n) { if (!S.on) return __real_arc4random_buf(p, n); S.asked++; S.bytes_asked += n; S.rng.fill(p, n); S.delivered.insert(S.delivered.end(), (uint8_t*)p, (uint8_t*)p + n); }
#ifdef FV_SURE
void randombytes(unsigned char* p, unsigned long long n) { __wrap_arc4random_buf(p, n); }
#endif
int __wrap_open(const char* p, int fl, ...) { if (!S.on) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return __real_open(p, fl, m); } S.asked++; if (!S.file_ok) { S.bad++; errno = ENOENT; return -1; } S.opened++; return S.fd = 987654; }
int __wrap_open64(const char* p, int fl, ...) { if (!S.on) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return __real_open64(p, fl, m); } S.asked++; if (!S.file_ok) { S.bad++; errno = ENOENT; return -1; } S.opened++; return S.fd = 987654; }
ssize_t __wrap_read(int fd, void* p, size_t n) { return S.on && fd == S.fd ? answer(p, n) : __real_read(fd, p, n); }
int __wrap_ioctl(int fd, unsigned long r, ...) { va_list a; va_start(a, r); void* p = va_arg(a, void*); va_end(a); if (S.on && fd == S.fd) { if (p) *(int*)p = 256; return 0; } return __real_ioctl(fd, r, p); }
int __wrap_close(int fd) { if (S.on && fd == S.fd) { S.closed++; return 0; } return __real_close(fd); }
int __wrap_fcntl(int fd, int, ...) { return 0; }
}
static void arm(const std::vector<Out>& s, Out last) { S = Src(); S.rng = Rng(R.u64()); S.script = s; S.last = last;
#ifdef FV_FILE
  S.file_ok = true;
#endif
  S.on = true; }
static bool inside(const Bytes& hay, const Bytes& needle) { return memmem(hay.data(), hay.size(), needle.data(), needle.size()) != nullptr; }
static std::string show(const std::vector<Out>& s, Out l) { std::string t; for (auto& o : s) t += o.err ? "E" + std::to_string(o.err) + " " : std::to_string(o.n) + " "; return t + "then " + (l.err ? "E" + std::to_string(l.err) : std::to_string(l.n)); }
// one scripted situation; must_fail: no source ever delivers enough
static void judge(const std::vector<Out>& sc, Out last, bool must_fail, bool must_work, const Set* s) {
  std::string what = show(sc, last);
  for (size_t n : {size_t(1), size_t(16), size_t(24), size_t(32), size_t(56), size_t(64)}) {
    if (R.below(3)) continue;
    Bytes d(n, 0xa5); arm(sc, last); int r = rand_bytes(d.data(), n); S.on = false; eval(); count(r ? "rand_bytes_failed" : "rand_bytes_ok"); distinct("rb", d, Bytes(), n);
    if (S.opened != S.closed) viol("sysrand-descriptor-leak", "%s: %u opened %u closed", what.c_str(), S.opened, S.closed);
    if (!S.asked) { count("source_not_observed"); continue; }
    if (r == 0) { if (must_fail && (sc.empty() || (long)n > sc[0].n)) viol("sysrand-failure-ignored", "%zu bytes, source: %s", n, what.c_str()); else if (!inside(S.delivered, d)) viol("sysrand-bytes-not-from-source", "%zu bytes, source: %s, got %s", n, what.c_str(), H(d).c_str()); }
    else if (must_work || !S.bad && !must_fail) viol("sysrand-spurious-failure", "%zu bytes, source: %s", n, what.c_str());
    count("sysrand_scripts");
  }
  Bytes pk(s->pk, 0xa5), sk(s->sk, 0xa5); arm(sc, last); int r = s->keygen(pk.data(), sk.data()); S.on = false; eval(); distinct("kg", sk, pk);
  if (S.asked) {
    count(r ? "keygen_failed" : "keygen_ok"); if (r && must_work) viol(std::string("keygen-spurious-failure-") + s->name, "source: %s", what.c_str());
    if (r == 0) { if (must_fail) viol(std::string("keygen-failure-ignored-") + s->name, "source: %s", what.c_str()); else if (!inside(S.delivered, sk)) viol(std::string("keygen-leftovers-") + s->name, "source: %s sk %s", what.c_str(), H(sk).c_str()); if (s->validate(pk.data(), sk.data())) viol(std::string("keygen-invalid-") + s->name, "x"); }
  } else count("source_not_observed");
  if (std::string(s->name).back() == 'f') {
    Bytes psk(s->sk), ppk(s->pk); rand_bytes(psk.data(), 1); while (s->keygen(ppk.data(), psk.data())) {}
    Bytes sig(s->sig, 0xa5), msg = R.bytes(20); size_t l = s->sig; arm(sc, last); r = s->sign(psk.data(), msg.data(), msg.size(), sig.data(), &l); S.on = false; eval();
    if (S.asked) { count(r ? "sign_failed" : "sign_ok"); if (r && must_work) viol(std::string("sign-spurious-failure-") + s->name, "source: %s", what.c_str()); if (r == 0 && must_fail) viol(std::string("sign-failure-ignored-") + s->name, "source: %s", what.c_str());
      size_t lb = M::par(s->name).lb; if (r == 0 && S.delivered.size() < lb) viol(std::string("sign-leftovers-") + s->name, "source: %s, %zu bytes delivered", what.c_str(), S.delivered.size());
      if (r == 0 && s->verify(ppk.data(), msg.data(), msg.size(), sig.data(), l)) viol(std::string("sign-invalid-") + s->name, "x");
    } else count("source_not_observed");
  }
}
static void fresh(const Set& s) {
  // no two results share randomness: repeated calls, after fork, in both processes
  std::vector<Bytes> seen; auto put = [&](const Bytes& b, const char* how) { for (auto& x : seen) if (x == b || !memcmp(x.data(), b.data(), 16)) viol(std::string("repeated-randomness-") + s.name, "%s", how); seen.push_back(b); count("fresh_draws"); eval(); distinct("fr", b); };
  for (int i = 0; i < 40; i++) { Bytes pk(s.pk), sk(s.sk); if (s.keygen(pk.data(), sk.data())) die("keygen"); put(sk, "keygen"); }
  for (int i = 0; i < 6; i++) { int p[2]; if (pipe(p)) die("pipe"); pid_t c = fork(); if (!c) { Bytes pk(s.pk), sk(s.sk); s.keygen(pk.data(), sk.data()); if (write(p[1], sk.data(), s.sk) != (ssize_t)s.sk) _exit(1); _exit(0); }
    Bytes pk(s.pk), sk(s.sk), ck(s.sk); if (s.keygen(pk.data(), sk.data())) die("keygen"); size_t got = 0; while (got < s.sk) { ssize_t r = __real_read(p[0], &ck[got], s.sk - got); if (r <= 0) die("child"); got += r; } waitpid(c, nullptr, 0); __real_close(p[0]); __real_close(p[1]); put(sk, "parent after fork"); put(ck, "child after fork"); count("forks"); }
  // every call asks the source for at least the key's worth of bytes
  for (int i = 0; i < 20; i++) { Bytes pk(s.pk), sk(s.sk); arm({}, Out{0, -1}); int r = s.keygen(pk.data(), sk.data()); S.on = false; eval(); if (!S.asked) { count("source_not_observed"); continue; } count("requests_measured"); if (r || S.bytes_asked < s.sk || !inside(S.delivered, sk)) viol(std::string("keygen-request-") + s.name, "%d, %zu bytes asked", r, S.bytes_asked); }
}
int main(int argc, char** argv) {
  std::string m = argv[1]; const Set& s = set_of(argv[2]); R = Rng(envseed(), mix(m.size(), argv[2], strlen(argv[2])));
#ifdef FV_SURE
  // a source that cannot fail: nothing may fail, and every byte comes from it
  if (m == "script") { for (int i = 0; i < 40; i++) judge({}, Out{0, -1}, false, true, &s); sample("%s: source that cannot fail", s.name); return finish(); }
#endif
  if (m == "script") {
    for (int e : {EIO, ENOSYS, EPERM, EFAULT, EINVAL, ENODEV}) judge({}, Out{e, 0}, true, false, &s);
    judge({}, Out{0, -1}, false, true, &s);
#ifndef FV_FILE
    for (int e : {EIO, ENOSYS, EPERM}) for (long k : {0L, 1L, 7L, 15L, 16L, 23L, 24L, 31L}) judge({Out{0, k}}, Out{e, 0}, false, false, &s);
    for (long k = 0; k < 64; k++) judge({Out{0, k}}, Out{0, -1}, false, false, &s);
    judge({Out{EINTR, 0}, Out{EINTR, 0}}, Out{0, -1}, false, false, &s); judge({Out{EAGAIN, 0}}, Out{0, -1}, false, false, &s);
#else
    judge({Out{EINTR, 0}, Out{EAGAIN, 0}}, Out{0, -1}, false, true, &s);
    for (long k : {1L, 2L, 7L, 16L, 31L}) { judge({Out{0, k}}, Out{0, -1}, false, true, &s); judge({Out{0, k}}, Out{EIO, 0}, k < 16 && false, false, &s); judge({}, Out{0, k}, false, true, &s); }
    // end of file
    for (long k : {0L, 1L, 15L}) { judge({Out{0, k}}, Out{0, 0}, true, false, &s); }
    S.file_ok = false;
#endif
    sample("%s: scripted outcomes of the system source", s.name);
  }
  if (m == "fresh") fresh(s);
  return finish();
}
