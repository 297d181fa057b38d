// Shared pieces of the monitors: reporting, workload generation, guarded buffers, random source.
#pragma once
#include "model.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>

namespace fv {
using M::Bytes;
using M::Rng;

struct Rep {
  unsigned long long evals = 0;
  std::map<std::string, unsigned long long> cnt;
  FILE* hf = nullptr;
  unsigned nviol = 0, nsample = 0;
  std::mutex mu;
  Rep() {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    const char* p = getenv("FV_HASHES");
    if (p) hf = fopen(p, "wb");
  }
};
inline Rep& rep() { static Rep r; return r; }
inline void eval(unsigned long long n = 1) { std::lock_guard<std::mutex> g(rep().mu); rep().evals += n; }
inline void count(const char* k, unsigned long long n = 1) { std::lock_guard<std::mutex> g(rep().mu); rep().cnt[k] += n; }
inline uint64_t mix(uint64_t h, const void* p, size_t n) {
  const uint8_t* b = (const uint8_t*)p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; h ^= h >> 29; }
  return h ^ (n * 0x9e3779b97f4a7c15ull);
}
// records a distinct non-trivial case
inline void distinct(uint64_t h) {
  std::lock_guard<std::mutex> g(rep().mu);
  if (rep().hf) fwrite(&h, 8, 1, rep().hf);
}
inline void distinct(const char* tag, const Bytes& a, const Bytes& b = Bytes(), uint64_t x = 0) {
  uint64_t h = mix(0xcbf29ce484222325ull, tag, strlen(tag));
  h = mix(h, a.data(), a.size()); h = mix(h, b.data(), b.size()); h = mix(h, &x, 8);
  distinct(h);
}
inline void sample(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline void sample(const char* f, ...) {
  std::lock_guard<std::mutex> g(rep().mu);
  if (rep().nsample++ >= 3) return;
  char b[700]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  printf("S %s\n", b);
}
// key identifies the violation; the detail must allow a replay
inline void viol(const std::string& key, const char* f, ...) __attribute__((format(printf, 2, 3)));
inline void viol(const std::string& key, const char* f, ...) {
  std::lock_guard<std::mutex> g(rep().mu);
  if (rep().nviol++ >= 40) return;
  static char b[8000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  for (char* p = b; *p; p++) if (*p == '\n') *p = ' ';
  printf("V %s\t%s\n", key.c_str(), b);
  fflush(stdout);
}
inline void inconclusive(const char* f, ...) {
  char b[700]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  printf("I %s\n", b);
}
inline int finish() {
  Rep& r = rep();
  printf("E %llu\n", r.evals);
  for (auto& k : r.cnt) printf("N %s %llu\n", k.first.c_str(), k.second);
  if (r.hf) { fclose(r.hf); r.hf = nullptr; }
  printf("DONE\n");
  fflush(stdout);
  return 0;
}
[[noreturn]] inline void die(const char* m) { fprintf(stderr, "FV-HARNESS %s\n", m); fflush(stdout); _exit(3); }

inline uint64_t envseed() { const char* s = getenv("VERIF_SEED"); return s ? strtoull(s, nullptr, 10) : 1; }

// ---- buffers that end (or start) at an unmapped page
struct Guard {
  uint8_t* map = nullptr; size_t len = 0, n = 0; uint8_t* p = nullptr;
  // front=false: byte p[n] is unmapped; front=true: byte p[-1] is unmapped
  explicit Guard(size_t n_, bool front = false) : n(n_) {
    size_t ps = 4096, body = (n + ps - 1) / ps * ps;
    if (!body) body = ps;
    len = body + 2 * ps;
    map = (uint8_t*)mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (map == MAP_FAILED) die("mmap");
    if (mprotect(map + ps, body, PROT_READ | PROT_WRITE)) die("mprotect");
    p = front ? map + ps : map + ps + body - n;
  }
  Guard(const Bytes& b, bool front = false) : Guard(b.size(), front) { if (n) memcpy(p, b.data(), n); }
  Guard(const Guard&) = delete;
  Guard& operator=(const Guard&) = delete;
  void readonly() { mprotect(map + 4096, len - 8192, PROT_READ); }
  void fill(uint8_t v) { memset(p, v, n); }
  Bytes bytes() const { return Bytes(p, p + n); }
  ~Guard() { munmap(map, len); }
};

// ---- random source of the library under test
struct RandSrc {
  Rng rng{1};
  std::vector<Bytes> script; size_t pos = 0; // blocks handed out in order, then rng
  std::vector<size_t> requests; std::vector<Bytes> handed;
  Bytes stream; size_t spos = 0;    // byte stream handed out first, however the requests are cut
  Bytes consumed; bool keep = false;
  long fail_at = -1; long calls = 0; bool partial = false; bool record = false;
  void reset(uint64_t seed, uint64_t sub = 0) {
    rng = Rng(seed, sub); script.clear(); pos = 0; requests.clear(); handed.clear(); stream.clear(); spos = 0; consumed.clear();
    fail_at = -1; calls = 0; partial = false;
  }
  int get(uint8_t* dst, size_t n) {
    long c = calls++;
    if (record) requests.push_back(n);
    if (fail_at >= 0 && c >= fail_at) {
      if (partial && n > 1) rng.fill(dst, n / 2);
      return -1;
    }
    if (spos < stream.size()) {
      size_t k = stream.size() - spos; if (k > n) k = n;
      memcpy(dst, &stream[spos], k); spos += k;
      if (k < n) rng.fill(dst + k, n - k);
    } else if (pos < script.size()) {
      const Bytes& b = script[pos++];
      memset(dst, 0, n);
      memcpy(dst, b.data(), b.size() < n ? b.size() : n);
    } else rng.fill(dst, n);
    if (keep) consumed.insert(consumed.end(), dst, dst + n);
    if (record) handed.push_back(Bytes(dst, dst + n));
    return 0;
  }
};
inline RandSrc& rnd() { static thread_local RandSrc r; return r; }

// message lengths around the borders of every buffer the hash and the API see
// lengths around the powers of two, 0..3*(hi-6)
inline size_t pow_len(unsigned i) { return (size_t(64) << (i / 3)) + i % 3 - 1; }
inline size_t edge_len(Rng& r) {
  static const size_t B[] = {0, 1, 2, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 135, 136, 137, 167, 168, 169, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 65537};
  switch (r.below(4)) {
  case 0: return B[r.below(sizeof B / sizeof *B)];
  case 1: return r.below(700);
  case 2: return r.below(40);
  default: return r.below(4) ? r.below(r.below(8) ? 3000 : 200000) : pow_len(r.below(42));
  }
}
inline Bytes edge_bytes(Rng& r, size_t n) {
  Bytes b(n);
  switch (r.below(6)) {
  case 0: break;
  case 1: if (n) memset(b.data(), 0xff, n); break;
  case 2: if (n) b[r.below(n)] = 1 << r.below(8); break;
  default: r.fill(b.data(), n);
  }
  return b;
}
inline std::string H(const Bytes& b, size_t max = 80) {
  if (b.size() <= max) return M::hex(b);
  return M::hex(b.data(), max) + "..(" + std::to_string(b.size()) + ")";
}
inline std::string H(const uint8_t* p, size_t n) { return H(Bytes(p, p + n)); }
} // namespace fv
#ifndef FV_NO_RAND
extern "C" int rand_bytes(uint8_t* dst, size_t n) { return fv::rnd().get(dst, n); }
#endif
