// The public interface, answered by another program (serve.c, built for another machine), named by FV_SERVER.
#define FV_NO_RAND
#include "fv.h"
#include "sets.h"
#include <signal.h>
#include <sys/wait.h>
extern "C" int rand_bytes(uint8_t*, size_t);
static int to = -1, from = -1; static pid_t pid;
// the sanitizer of the other program has its say; its end is this program's end
[[noreturn]] static void ended() { int st = 0; fflush(stdout); waitpid(pid, &st, 0); fprintf(stderr, "the server ended with status %x\n", st); if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); } int r = WEXITSTATUS(st); if (r == 0 || r == 4 || r == 5 || r == 6) fv::die("server"); _exit(r == 3 ? 97 : r); }
static void out(const void* p, size_t n) { const char* b = (const char*)p; while (n) { ssize_t r = write(to, b, n); if (r <= 0) ended(); b += r; n -= r; } }
static void in(void* p, size_t n) { char* b = (char*)p; while (n) { ssize_t r = read(from, b, n); if (r <= 0) ended(); b += r; n -= r; } }
static void start() {
  if (pid) return;
  signal(SIGPIPE, SIG_IGN);
  int a[2], b[2]; if (pipe(a) || pipe(b)) fv::die("pipe");
  pid = fork(); if (pid < 0) fv::die("fork");
  if (!pid) { dup2(a[0], 0); dup2(b[1], 1); for (int i = 3; i < 64; i++) close(i); execl(getenv("FV_SERVER"), "server", (char*)nullptr); _exit(6); }
  close(a[0]); close(b[1]); to = a[1]; from = b[0]; uint64_t w; in(&w, 8); printf("N word_bytes_%llu 1\n", (unsigned long long)w);
}
struct A { const void* p; size_t n; };
static int ask(uint8_t op, uint8_t set, A a, A b, A c, A d, size_t* l, uint8_t* oa, uint8_t* ob) {
  start(); uint8_t h[2] = {op, set}; out(h, 2);
  for (const A& x : {a, b, c, d}) { uint8_t z = !x.p; uint64_t n = x.n; out(&z, 1); out(&n, 8); if (x.p) out(x.p, x.n); }
  uint64_t len = l ? *l : 0; out(&len, 8);
  for (;;) {
    uint8_t k; in(&k, 1);
    if (k == 'R') { uint64_t n; in(&n, 8); fv::Bytes r(n); int32_t rc = rand_bytes(r.data(), n); out(&rc, 4); out(r.data(), n); continue; }
    if (k != 'D') fv::die("protocol");
    int32_t rc; in(&rc, 4); in(&len, 8); if (l) *l = len;
    for (uint8_t* o : {oa, ob}) { uint64_t n; in(&n, 8); fv::Bytes r(n); if (n) in(r.data(), n); if (o && n) memcpy(o, r.data(), n); }
    return rc;
  }
}
#define F(i, l, U) \
  extern "C" int faest_##l##_keygen(uint8_t* pk, uint8_t* sk) { return ask(0, i, {pk, FAEST_##U##_PUBLIC_KEY_SIZE}, {sk, FAEST_##U##_PRIVATE_KEY_SIZE}, {0, 0}, {0, 0}, nullptr, pk, sk); } \
  extern "C" int faest_##l##_sign(const uint8_t* sk, const uint8_t* m, size_t n, uint8_t* s, size_t* sl) { return ask(1, i, {sk, FAEST_##U##_PRIVATE_KEY_SIZE}, {m, n}, {0, 0}, {s, FAEST_##U##_SIGNATURE_SIZE}, sl, nullptr, s); } \
  extern "C" int faest_##l##_sign_with_randomness(const uint8_t* sk, const uint8_t* m, size_t n, const uint8_t* r, size_t rn, uint8_t* s, size_t* sl) { return ask(2, i, {sk, FAEST_##U##_PRIVATE_KEY_SIZE}, {m, n}, {r, rn}, {s, FAEST_##U##_SIGNATURE_SIZE}, sl, nullptr, s); } \
  extern "C" int faest_##l##_verify(const uint8_t* pk, const uint8_t* m, size_t n, const uint8_t* s, size_t sl) { return ask(3, i, {pk, FAEST_##U##_PUBLIC_KEY_SIZE}, {m, n}, {0, 0}, {s, sl}, &sl, nullptr, nullptr); } \
  extern "C" int faest_##l##_validate_keypair(const uint8_t* pk, const uint8_t* sk) { return ask(4, i, {pk, FAEST_##U##_PUBLIC_KEY_SIZE}, {sk, FAEST_##U##_PRIVATE_KEY_SIZE}, {0, 0}, {0, 0}, nullptr, nullptr, nullptr); } \
  extern "C" void faest_##l##_clear_private_key(uint8_t* sk) { ask(5, i, {sk, FAEST_##U##_PRIVATE_KEY_SIZE}, {0, 0}, {0, 0}, {0, 0}, nullptr, sk, nullptr); }
F(0, 128s, 128S) F(1, 128f, 128F) F(2, 192s, 192S) F(3, 192f, 192F) F(4, 256s, 256S) F(5, 256f, 256F)
F(6, em_128s, EM_128S) F(7, em_128f, EM_128F) F(8, em_192s, EM_192S) F(9, em_192f, EM_192F) F(10, em_256s, EM_256S) F(11, em_256f, EM_256F)
