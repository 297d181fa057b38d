// C14: the hash layer against an independent SHAKE. Compiled in parts: the single hash, the four-way hash, the
// random oracles (FV_X4, FV_RO), so that a part whose internal interface changed can be left out.
#include "fv.h"
#include <sys/syscall.h>
#include <openssl/evp.h>
extern "C" {
#include "hash_shake.h"
#ifdef FV_RO
#include "random_oracle.h"
#endif
}
using namespace fv;
static Rng R(1);
static unsigned shk(unsigned sec) { return sec == 128 ? 128 : 256; }
static unsigned rate(unsigned sec) { return sec == 128 ? 168 : 136; }
static const unsigned SEC[] = {128, 192, 256};
// lengths around the borders of the sponge
static size_t len_(unsigned sec) {
  size_t r = rate(sec);
  switch (R.below(6)) {
  case 0: return R.below(12);
  case 1: return r * R.below(6) + R.below(3) - (R.below(2) ? 0 : 0);
  case 2: { size_t k = r * (1 + R.below(5)); return k - 1 + R.below(3); }
  case 3: return R.below(300);
  case 4: return R.below(2500);
  default: return R.below(R.below(10) ? 700 : 70000);
  }
}
static std::vector<size_t> cuts(size_t n, unsigned sec) {
  std::vector<size_t> v; size_t r = rate(sec), pos = 0; unsigned style = R.below(6);
  if (style == 0) { v.push_back(n); return v; }
  while (pos < n) {
    size_t k;
    switch (style) {
    case 1: k = 1; if (n > 3000) k = 1 + R.below(97); break;
    case 2: k = R.below(3) ? R.below(r + 2) : 0; break;
    case 3: k = r - 1 + R.below(3); break;                    // about one block
    case 4: k = (r - pos % r) + R.below(3) - 1; break;        // ends next to a block border
    default: k = R.below(n - pos + 1);
    }
    if (k > n - pos) k = n - pos;
    v.push_back(k); pos += k;
  }
  if (R.below(3) == 0) v.push_back(0);
  return v;
}
static Bytes data_(size_t n) { return edge_bytes(R, n); }
static std::string V(const std::vector<size_t>& v) { std::string s; for (size_t i = 0; i < v.size() && i < 40; i++) s += std::to_string(v[i]) + ","; return s; }
static void single(unsigned n) {
  for (unsigned k = 0; k < n; k++) {
    unsigned sec = SEC[R.below(3)];
    size_t in = len_(sec), outn = len_(sec);
    Bytes x = data_(in), all;
    M::Xof o(shk(sec));
    hash_context c; memset(&c, (int)R.below(256), sizeof c);
    std::vector<size_t> ci = cuts(in, sec), co = cuts(outn, sec);
    bool prefix = R.below(3) == 0; uint8_t pf = (uint8_t)R.below(256);
    if (prefix) { hash_init_prefix(&c, sec, pf); o.absorb(&pf, 1); } else hash_init(&c, sec);
    size_t pos = 0;
    for (size_t cut : ci) {
      if (R.below(12) == 0) { uint16_t v = (uint16_t)(R.below(3) ? R.u64() : R.below(2) ? 0x00ff : 0xff00); hash_update_uint16_le(&c, v); uint8_t b[2] = {(uint8_t)v, (uint8_t)(v >> 8)}; o.absorb(b, 2); count("uint16"); }
      if (R.below(8) == 0) { Guard g(Bytes(x.begin() + pos, x.begin() + pos + cut), R.below(2)); g.readonly(); hash_update(&c, g.p, cut); }
      else { size_t mis = R.below(16); Bytes b(cut + mis); if (cut) memcpy(b.data() + mis, &x[pos], cut); hash_update(&c, b.data() + mis, cut); }
      if (cut) o.absorb(&x[pos], cut);
      pos += cut; count("absorb_calls");
    }
    hash_final(&c); o.finish();
    Bytes want(outn), got; if (outn) o.squeeze(want.data(), outn);
    for (size_t cut : co) {
      Bytes b;
      if (R.below(8) == 0) { Guard g(cut, R.below(2)); g.fill(0xa5); hash_squeeze(&c, g.p, cut); b = g.bytes(); }
      else { size_t mis = R.below(16); Bytes t(mis + cut + 9, 0xa5); hash_squeeze(&c, t.data() + mis, cut); for (size_t i = 0; i < 9; i++) if (t[mis + cut + i] != 0xa5 || (i < mis && t[i] != 0xa5)) viol("shake-writes-outside", "security %u squeeze of %zu", sec, cut); b.assign(t.begin() + mis, t.begin() + mis + cut); }
      got.insert(got.end(), b.begin(), b.end()); count("squeeze_calls");
    }
    hash_clear(&c);
    eval(); distinct("single", x, want, sec * 1000003 + ci.size() * 1009 + co.size());
    if (got != want) viol("shake", "security %u prefix %d absorb %zu as %s squeeze %zu as %s data %s", sec, prefix ? pf : -1, in, V(ci).c_str(), outn, V(co).c_str(), H(x, 300).c_str());
    if (k == 0) sample("SHAKE security %u, %zu bytes in %zu pieces, %zu bytes out in %zu pieces", sec, in, ci.size(), outn, co.size());
    // two contexts in turn do not disturb each other
    if (R.below(4) == 0) {
      unsigned s2 = SEC[R.below(3)]; Bytes y = data_(len_(s2)); hash_context a, b; hash_init(&a, sec); hash_init(&b, s2);
      size_t i = 0, j = 0;
      while (i < x.size() || j < y.size()) {
        size_t ka = R.below(200), kb = R.below(200); if (ka > x.size() - i) ka = x.size() - i; if (kb > y.size() - j) kb = y.size() - j;
        hash_update(&a, x.data() + i, ka); hash_update(&b, y.data() + j, kb); i += ka; j += kb;
      }
      hash_final(&a); hash_final(&b); Bytes p(64), q(64); hash_squeeze(&a, p.data(), 64); hash_squeeze(&b, q.data(), 64); hash_clear(&a); hash_clear(&b);
      eval(); count("interleaved");
      if (p != M::shake(shk(sec), x, 64) || q != M::shake(shk(s2), y, 64)) viol("shake-interleaved", "security %u/%u lengths %zu/%zu", sec, s2, x.size(), y.size());
      // a copied context continues independently
      hash_context d, e; hash_init(&d, sec); hash_update(&d, x.data(), x.size() / 2); e = d;
      hash_update(&d, x.data() + x.size() / 2, x.size() - x.size() / 2); hash_update(&e, y.data(), y.size());
      hash_final(&d); hash_final(&e); hash_squeeze(&d, p.data(), 64); hash_squeeze(&e, q.data(), 64);
      Bytes z(x.begin(), x.begin() + x.size() / 2); z.insert(z.end(), y.begin(), y.end());
      if (p != M::shake(shk(sec), x, 64) || q != M::shake(shk(sec), z, 64)) viol("shake-copied-context", "security %u", sec);
    }
  }
}
// every (absorbed length, squeezed length) near the first blocks, in one piece
static void grid(unsigned sec) {
  size_t r = rate(sec);
  Bytes x = R.bytes(3 * r + 8);
  for (size_t in = 0; in <= 3 * r + 4; in++) {
    Bytes a(x.begin(), x.begin() + in), w = M::shake(shk(sec), a, 2 * r + 9), g(2 * r + 9);
    hash_context c; hash_init(&c, sec); hash_update(&c, a.data(), in); hash_final(&c);
    size_t cut = R.below(2 * r + 9);
    hash_squeeze(&c, g.data(), cut); hash_squeeze(&c, g.data() + cut, g.size() - cut); hash_clear(&c);
    eval(); count("grid");
    distinct("grid", w, Bytes(), sec * 100000 + cut);
    if (g != w) viol("shake-grid", "security %u absorbed %zu squeezed %zu+%zu", sec, in, cut, g.size() - cut);
    // cut of the absorption at every position for this length
    size_t p = R.below(in + 1);
    hash_init(&c, sec); hash_update(&c, a.data(), p); hash_update(&c, a.data() + p, in - p); hash_final(&c); hash_squeeze(&c, g.data(), g.size()); hash_clear(&c);
    if (g != w) viol("shake-grid", "security %u absorbed %zu+%zu", sec, p, in - p);
  }
}
// long inputs without the memory: one window mapped again and again
struct Long {
  uint8_t* p; size_t n; static constexpr size_t W = 1 << 26;
  explicit Long(size_t n_, bool rnd_) : n(n_) {
    int fd = (int)syscall(SYS_memfd_create, "fv", 0); if (fd < 0 || ftruncate(fd, W)) die("memfd");
    size_t m = (n + W - 1) / W * W;
    uint8_t* b = (uint8_t*)mmap(nullptr, m, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) die("mmap");
    for (size_t o = 0; o < m; o += W) if (mmap(b + o, W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) die("mmap");
    close(fd); if (rnd_) R.fill(b, W);
    p = b;
  }
};
static void big(unsigned sec, size_t n, bool squeeze) {
  uint8_t a[64], w[64];
  hash_context c; hash_init(&c, sec);
  EVP_MD_CTX* e = EVP_MD_CTX_new(); EVP_DigestInit_ex(e, sec == 128 ? EVP_shake128() : EVP_shake256(), nullptr);
  if (!squeeze) {
    size_t pre = 1 + R.below(130); Long l(n + pre, true);
    hash_update(&c, l.p, pre); hash_update(&c, l.p + pre, n);
    EVP_DigestUpdate(e, l.p, n + pre); EVP_DigestFinalXOF(e, w, 64);
    hash_final(&c); hash_squeeze(&c, a, 64);
    if (memcmp(a, w, 64)) viol("shake-long-input", "security %u absorbed %zu+%zu", sec, pre, n);
    count("long_input");
  } else {
    // output of n bytes at once, then 64 more; the model produces the stream piece by piece
    Long l(n, false); hash_update(&c, (const uint8_t*)"abc", 3); hash_final(&c);
    M::Xof o(shk(sec)); o.absorb("abc", 3); o.finish();
    size_t pre = 1 + R.below(64); hash_squeeze(&c, a, pre); o.squeeze(w, pre);
    hash_squeeze(&c, l.p, n); hash_squeeze(&c, a, 64);
    Bytes t(1 << 20); size_t left = n; Bytes last(Long::W);
    for (size_t pos = 0; left; ) { size_t k = t.size() < left ? t.size() : left; o.squeeze(t.data(), k); memcpy(&last[pos % Long::W], t.data(), k); pos += k; left -= k; }
    o.squeeze(w, 64);
    if (memcmp(a, w, 64)) viol("shake-long-output", "security %u: bytes after %zu", sec, n);
    if (memcmp(last.data(), l.p, Long::W)) viol("shake-long-output", "security %u: last bytes of %zu", sec, n);
    count("long_output");
  }
  EVP_MD_CTX_free(e); hash_clear(&c);
  eval(); distinct("big", Bytes(w, w + 64)); sample("security %u: %s of %zu bytes in one call", sec, squeeze ? "output" : "input", n);
}
#ifdef FV_X4
static void x4(unsigned n) {
  for (unsigned k = 0; k < n; k++) {
    unsigned sec = SEC[R.below(3)]; size_t in = len_(sec) % 4000, outn = len_(sec) % 3000;
    Bytes x[4]; for (auto& b : x) b = data_(in);
    if (R.below(4) == 0) { x[1] = x[0]; if (in) x[1][R.below(in)] ^= 1; }
    std::vector<M::Xof> o(4, M::Xof(shk(sec)));
    hash_context_x4 c; memset(&c, (int)R.below(256), sizeof c);
    uint8_t pf = (uint8_t)R.below(256); bool prefix = R.below(3) == 0;
    if (prefix) { hash_init_prefix_x4(&c, sec, pf); for (auto& l : o) l.absorb(&pf, 1); } else hash_init_x4(&c, sec);
    std::vector<size_t> ci = cuts(in, sec), co = cuts(outn, sec);
    size_t pos = 0; bool guards = k % 16 == 0;
    for (size_t cut : ci) {
      unsigned extra = R.below(14);
      if (extra == 0) { uint16_t v = (uint16_t)R.u64(); hash_update_x4_uint16_le(&c, v); uint8_t b[2] = {(uint8_t)v, (uint8_t)(v >> 8)}; for (auto& l : o) l.absorb(b, 2); count("x4_uint16"); }
      if (extra == 1) { uint16_t v[4]; for (int i = 0; i < 4; i++) { v[i] = (uint16_t)R.u64(); uint8_t b[2] = {(uint8_t)v[i], (uint8_t)(v[i] >> 8)}; o[i].absorb(b, 2); } hash_update_x4_uint16s_le(&c, v); count("x4_uint16s"); }
      if (extra == 2) { Bytes b = data_(R.below(400)); Guard g(b, R.below(2)); g.readonly(); hash_update_x4_1(&c, g.p, b.size()); for (auto& l : o) l.absorb(b.data(), b.size()); count("x4_same"); }
      Guard* g[4] = {}; Bytes gb[4]; const uint8_t* p[4];
      for (int i = 0; i < 4; i++) { size_t mis = R.below(3) ? 0 : R.below(9); Bytes b(mis + cut); if (cut) memcpy(&b[mis], &x[i][pos], cut); if (guards) { g[i] = new Guard(b, false); g[i]->readonly(); p[i] = g[i]->p + mis; } else { gb[i] = b; p[i] = gb[i].data() + mis; } if (cut) o[i].absorb(&x[i][pos], cut); }
      if (R.below(2)) hash_update_x4(&c, p, cut); else hash_update_x4_4(&c, p[0], p[1], p[2], p[3], cut);
      for (auto q : g) delete q;
      pos += cut; count("x4_absorb_calls");
    }
    hash_final_x4(&c); for (auto& l : o) l.finish();
    Bytes got[4], want[4];
    for (int i = 0; i < 4; i++) { want[i].resize(outn); if (outn) o[i].squeeze(want[i].data(), outn); }
    for (size_t cut : co) {
      Guard* g[4] = {}; Bytes gb[4]; uint8_t* p[4];
      for (int i = 0; i < 4; i++) { size_t mis = R.below(9); if (guards) { g[i] = new Guard(cut, R.below(2)); p[i] = g[i]->p; } else { gb[i].assign(cut + mis + 1, 0); p[i] = gb[i].data() + mis; } }
      if (R.below(2)) hash_squeeze_x4(&c, p, cut); else hash_squeeze_x4_4(&c, p[0], p[1], p[2], p[3], cut);
      for (int i = 0; i < 4; i++) got[i].insert(got[i].end(), p[i], p[i] + cut);
      for (auto q : g) delete q;
      count("x4_squeeze_calls");
    }
    hash_clear_x4(&c);
    for (int i = 0; i < 4; i++) {
      eval(); distinct("x4", x[i], want[i], sec * 10 + i);
      if (got[i] != want[i]) viol("shake-x4-lane" + std::to_string(i), "security %u lane %d prefix %d absorb %zu as %s squeeze %zu as %s", sec, i, prefix ? pf : -1, in, V(ci).c_str(), outn, V(co).c_str());
    }
    if (k == 0) sample("four lanes, security %u, %zu bytes in %zu pieces, %zu out in %zu", sec, in, ci.size(), outn, co.size());
  }
}
static void bigx4(unsigned sec, size_t n) {
  hash_context_x4 c; hash_init_x4(&c, sec);
  uint8_t o[4][64], w[64];
    size_t pre = 1 + R.below(130), m = n; n += pre; Long l(n + 8, true);
  hash_update_x4_4(&c, l.p, l.p + 1, l.p + 2, l.p + 3, pre); hash_update_x4_4(&c, l.p + pre, l.p + 1 + pre, l.p + 2 + pre, l.p + 3 + pre, m); hash_final_x4(&c); hash_squeeze_x4_4(&c, o[0], o[1], o[2], o[3], 64); hash_clear_x4(&c);
  for (int i = 3; i < 4; i++) {
    EVP_MD_CTX* e = EVP_MD_CTX_new(); EVP_DigestInit_ex(e, sec == 128 ? EVP_shake128() : EVP_shake256(), nullptr); EVP_DigestUpdate(e, l.p + i, n); EVP_DigestFinalXOF(e, w, 64); EVP_MD_CTX_free(e);
    eval(); distinct("bigx4", Bytes(w, w + 64));
    if (memcmp(w, o[i], 64)) viol("shake-x4-long-input", "security %u lane %d length %zu", sec, i, n);
  }
  count("x4_long_input"); sample("security %u: four lanes of %zu bytes in one call", sec, n);
}
#endif
#ifdef FV_RO
static void ro(unsigned n) {
  for (unsigned k = 0; k < n; k++) {
    unsigned sec = SEC[R.below(3)]; Bytes x = data_(len_(sec)); size_t a = R.below(300), b = R.below(300);
    std::vector<size_t> ci = cuts(x.size(), sec);
    auto feed = [&](auto f) { size_t pos = 0; for (size_t c : ci) { f(x.data() + pos, c); pos += c; } };
    Bytes g(a), h(b), w;
    switch (R.below(5)) {
    case 0: { H0_context_t c; H0_init(&c, sec); feed([&](const uint8_t* p, size_t l) { H0_update(&c, p, l); }); H0_final(&c, g.data(), a, h.data(), b); g.insert(g.end(), h.begin(), h.end()); w = M::H(sec, 0, {x}, a + b); count("H0"); break; }
    case 1: { H1_context_t c; H1_init(&c, sec); feed([&](const uint8_t* p, size_t l) { H1_update(&c, p, l); }); H1_final(&c, g.data(), a); w = M::H(sec, 1, {x}, a); count("H1"); break; }
    case 2: { H2_context_t c; H2_init(&c, sec); feed([&](const uint8_t* p, size_t l) { H2_update(&c, p, l); }); H2_final(&c, g.data(), a); w = M::H(sec, 2, {x}, a); count("H2"); break; }
    case 3: { H3_context_t c; H3_init(&c, sec); feed([&](const uint8_t* p, size_t l) { H3_update(&c, p, l); }); Bytes iv(16); H3_final(&c, g.data(), a, iv.data()); g.insert(g.end(), iv.begin(), iv.end()); w = M::H(sec, 3, {x}, a + 16); count("H3"); break; }
    default: {
      H0_context_x4_t c; H0_x4_init(&c, sec); Bytes y[4]; for (auto& q : y) q = data_(x.size());
      size_t pos = 0; for (size_t l : ci) { H0_x4_update(&c, y[0].data() + pos, y[1].data() + pos, y[2].data() + pos, y[3].data() + pos, l); pos += l; }
      Bytes s[4], m[4]; for (int i = 0; i < 4; i++) { s[i].resize(a + 1); m[i].resize(b + 1); }
      H0_x4_final(&c, s[0].data(), s[1].data(), s[2].data(), s[3].data(), a, m[0].data(), m[1].data(), m[2].data(), m[3].data(), b); count("H0_x4");
      g.clear(); w.clear();
      for (int i = 0; i < 4; i++) { g.insert(g.end(), s[i].begin(), s[i].begin() + a); g.insert(g.end(), m[i].begin(), m[i].begin() + b); Bytes t = M::H(sec, 0, {y[i]}, a + b); w.insert(w.end(), t.begin(), t.end()); }
    } }
    eval(); distinct("ro", x, w, a * 1000 + b);
    if (g != w) viol("random-oracle", "security %u absorbed %zu as %s outputs %zu %zu", sec, x.size(), V(ci).c_str(), a, b);
  }
}
#endif
int main(int argc, char** argv) {
  std::string m = argv[1]; uint64_t a = strtoull(argv[2], 0, 10), b = argc > 3 ? strtoull(argv[3], 0, 10) : 0;
  R = Rng(envseed(), a * 131 + m.size() * 7 + b);
  if (m == "single") single((unsigned)b);
  if (m == "grid") grid((unsigned)a);
  if (m == "big") big((unsigned)a, b, false);
  if (m == "bigout") big((unsigned)a, b, true);
#ifdef FV_X4
  if (m == "x4") x4((unsigned)b);
  if (m == "bigx4") bigx4((unsigned)a, b);
#endif
#ifdef FV_RO
  if (m == "ro") ro((unsigned)b);
#endif
  return finish();
}
