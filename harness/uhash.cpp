// C17: universal hashes against their formulas, linearity, dependence on every bit, incremental = one-shot
#include "fv.h"
extern "C" {
#include "universal_hashing.h"
}
using namespace fv;
static Rng R(1);
static Bytes val(size_t n) {
  Bytes b(n);
  switch (R.below(7)) {
  case 0: memset(b.data(), 0xff, n); break;
  case 1: if (n) b[R.below(n)] = 1 << R.below(8); break;
  case 2: if (n) { size_t k = R.below(n); for (size_t i = k; i < n; i++) b[i] = (uint8_t)R.u64(); } break;
  default: R.fill(b.data(), n);
  }
  return b;
}
static Bytes seed_(unsigned N, unsigned k) { // k field elements and one of 64 bits
  Bytes s(k * N / 8 + 8);
  R.fill(s.data(), s.size());
  if (R.below(4) == 0) { unsigned i = (unsigned)R.below(k + 1); size_t o = i * N / 8, l = i == k ? 8 : N / 8; uint8_t v = R.below(2) ? 0xff : 0; memset(&s[o], v, l); if (R.below(2)) s[o] ^= 1; }
  if (R.below(10) == 0) memset(s.data(), R.below(2) ? 0xff : 0, s.size());
  return s;
}
typedef void (*VH)(uint8_t*, const uint8_t*, const uint8_t*, unsigned);
static VH vh(unsigned N) { return N == 128 ? vole_hash_128 : N == 192 ? vole_hash_192 : vole_hash_256; }
static Bytes call(unsigned N, const Bytes& sd, const Bytes& x, unsigned ell) {
  Bytes o(N / 8 + 2);
  switch (R.below(8)) {
  case 0: { Guard gs(sd, R.below(2)), gx(x, R.below(2)), go(o.size(), R.below(2)); gs.readonly(); gx.readonly(); go.fill(0x99); vole_hash(go.p, gs.p, gx.p, ell, N); count("guarded"); return go.bytes(); }
  case 1: vh(N)(o.data(), sd.data(), x.data(), ell); return o;
  case 2: { size_t m = 1 + R.below(15); Bytes s2(m), x2(m), o2(m + o.size() + 4, 0x31); s2.insert(s2.end(), sd.begin(), sd.end()); x2.insert(x2.end(), x.begin(), x.end()); vole_hash(o2.data() + m, s2.data() + m, x2.data() + m, ell, N);
      for (size_t i = 0; i < 4; i++) if (o2[m + o.size() + i] != 0x31) viol("vole_hash-writes-outside", "%u", N); count("unaligned"); return Bytes(o2.begin() + m, o2.begin() + m + o.size()); }
  default: vole_hash(o.data(), sd.data(), x.data(), ell, N); return o;
  }
}
static void vole(unsigned N, unsigned ell, unsigned n) {
  size_t xl = (ell + 2 * N + 16) / 8; std::string key = "vole_hash-" + std::to_string(N);
  for (unsigned k = 0; k < n; k++) {
    Bytes sd = seed_(N, 5), x = val(xl), y = val(xl);
    Bytes w = M::vole_hash(N, sd.data(), x.data(), ell), g = call(N, sd, x, ell);
    eval(2); distinct("vole", sd, x, ell);
    if (g != w) viol(key, "ell %u seed %s x %s: %s instead of %s", ell, H(sd, 200).c_str(), H(x, 900).c_str(), H(g).c_str(), H(w).c_str());
    Bytes z = x; for (size_t i = 0; i < xl; i++) z[i] ^= y[i];
    Bytes gy = call(N, sd, y, ell), gz = call(N, sd, z, ell); for (size_t i = 0; i < gz.size(); i++) gz[i] ^= gy[i] ^ g[i];
    if (gz != Bytes(gz.size())) viol(key + "-linear", "ell %u seed %s", ell, H(sd, 200).c_str());
    count("vole_hash");
  }
  sample("vole_hash %u bits, ell %u: %u inputs, formula and linearity", N, ell, n);
}
// every input bit reaches the digest, in the prescribed way
static void volebits(unsigned N, unsigned ell) {
  size_t xl = (ell + 2 * N + 16) / 8; Bytes sd = R.bytes(5 * N / 8 + 8), z(xl);
  for (size_t b = 0; b < 8 * xl; b++) {
    z[b / 8] = 1 << (b % 8); Bytes g(N / 8 + 2); vole_hash(g.data(), sd.data(), z.data(), ell, N); eval();
    if (g == Bytes(g.size())) viol("vole_hash-ignores-bit-" + std::to_string(N), "ell %u bit %zu seed %s", ell, b, H(sd, 200).c_str());
    if (b % 16 == 0 && g != M::vole_hash(N, sd.data(), z.data(), ell)) viol("vole_hash-" + std::to_string(N), "ell %u bit %zu", ell, b);
    z[b / 8] = 0;
  }
  distinct("volebits", sd, Bytes(), ell); count("vole_input_bits", 8 * xl);
  // every byte of the seed matters for some input
  Bytes x = R.bytes(xl), w(N / 8 + 2); vole_hash(w.data(), sd.data(), x.data(), ell, N);
  for (size_t b = 0; b < 8 * sd.size(); b++) { Bytes s = sd, g(N / 8 + 2); s[b / 8] ^= 1 << (b % 8); vole_hash(g.data(), s.data(), x.data(), ell, N); eval();
    // the last field elements only enter through their first 16 bits of product, still a bilinear form of all bits
    if (g == w && g == M::vole_hash(N, s.data(), x.data(), ell)) count("seed_bit_no_effect"); else if (g != M::vole_hash(N, s.data(), x.data(), ell)) viol("vole_hash-" + std::to_string(N), "seed bit %zu", b); else count("seed_bits"); }
}
template <unsigned N> struct Z;
#define ZD(N) template <> struct Z<N> { typedef bf##N##_t T; typedef zk_hash_##N##_ctx C; static T load(const uint8_t* p) { return bf##N##_load(p); } static T add(T a, T b) { return bf##N##_add(a, b); } \
  static void init(C* c, const uint8_t* s) { zk_hash_##N##_init(c, s); } static void up(C* c, T v) { zk_hash_##N##_update(c, v); } static void fin(uint8_t* h, C* c, T v) { zk_hash_##N##_finalize(h, c, v); } \
  static void one(uint8_t* h, const uint8_t* s, const T* x, unsigned n) { zk_hash_##N(h, s, x, n); } };
ZD(128) ZD(192) ZD(256)
template <unsigned N> static void zk(unsigned n, unsigned maxlen, const std::vector<unsigned>& lens) {
  typedef typename Z<N>::T T; std::string key = "zk_hash-" + std::to_string(N);
  size_t cap = 4096; T* xs = (T*)aligned_alloc(64, (cap * sizeof(T) + 63) / 64 * 64); T* ys = (T*)aligned_alloc(64, (cap * sizeof(T) + 63) / 64 * 64);
  auto run = [&](const Bytes& sd, const T* x, unsigned len, T last) { typename Z<N>::C c; memset(&c, (int)R.below(256), sizeof c); Z<N>::init(&c, sd.data()); for (unsigned i = 0; i < len; i++) Z<N>::up(&c, x[i]); Bytes h(N / 8 + 4, 0x4d); Z<N>::fin(h.data(), &c, last); for (int i = 0; i < 4; i++) if (h[N / 8 + i] != 0x4d) viol(key + "-writes-outside", "%u", len); h.resize(N / 8); return h; };
  for (unsigned k = 0; k < n; k++) {
    unsigned len = k < lens.size() ? lens[k] : (unsigned)R.below(maxlen); if (len + 1 > cap) len = cap - 1;
    Bytes sd = seed_(N, 3); Guard gs(sd, R.below(2)); gs.readonly();
    std::vector<M::F> fx(len + 1), fy(len + 1);
    for (unsigned i = 0; i <= len; i++) { Bytes a = val(N / 8), b = val(N / 8); fx[i] = M::fload(N, a.data()); fy[i] = M::fload(N, b.data()); xs[i] = Z<N>::load(a.data()); ys[i] = Z<N>::load(b.data()); }
    M::ZkHash m(N, sd.data()); for (unsigned i = 0; i < len; i++) m.update(fx[i]);
    Bytes w(N / 8); M::fstore(N, w.data(), m.finalize(fx[len]));
    Bytes g = run(sd, xs, len, xs[len]);
    eval(3); distinct("zk", sd, w, len); count("zk_hash");
    if (g != w) viol(key, "%u elements, seed %s: %s instead of %s", len, H(sd, 200).c_str(), H(g).c_str(), H(w).c_str());
    Bytes o(N / 8); Z<N>::one(o.data(), gs.p, xs, len);
    if (o != g) viol(key + "-one-shot", "%u elements", len);
    // linear
    Bytes gy = run(sd, ys, len, ys[len]); for (unsigned i = 0; i <= len; i++) ys[i] = Z<N>::add(xs[i], ys[i]);
    Bytes gz = run(sd, ys, len, ys[len]); for (size_t i = 0; i < gz.size(); i++) gz[i] ^= gy[i] ^ g[i];
    if (gz != Bytes(gz.size())) viol(key + "-linear", "%u elements", len);
    // two contexts in turn
    typename Z<N>::C a, b; Z<N>::init(&a, sd.data()); Z<N>::init(&b, gs.p);
    for (unsigned i = 0; i < len; i++) { Z<N>::up(&a, xs[i]); Z<N>::up(&b, ys[i]); }
    Bytes ha(N / 8), hb(N / 8); Z<N>::fin(ha.data(), &a, xs[len]); Z<N>::fin(hb.data(), &b, ys[len]);
    for (size_t i = 0; i < hb.size(); i++) hb[i] ^= gy[i];
    if (ha != g || hb != g) viol(key + "-interleaved", "%u elements", len);
    // one element changed
    if (len) { unsigned j = (unsigned)R.below(len + 1); uint8_t e[32] = {0}; e[R.below(N / 8)] = 1 << R.below(8); T sv = xs[j]; xs[j] = Z<N>::add(xs[j], Z<N>::load(e)); Bytes gc = run(sd, xs, len, xs[len]); xs[j] = sv;
      fx[j] = M::fadd(fx[j], M::fload(N, e)); M::ZkHash m2(N, sd.data()); for (unsigned i = 0; i < len; i++) m2.update(fx[i]); M::fstore(N, w.data(), m2.finalize(fx[len]));
      if (gc != w) viol(key, "element %u of %u changed", j, len); if (gc != g) count("zk_element_matters"); }
  }
  sample("zk_hash %u bits: %u inputs of up to %u elements", N, n, maxlen);
  free(xs); free(ys);
}
int main(int argc, char** argv) {
  std::string m = argv[1]; unsigned a = atoi(argv[2]), b = atoi(argv[3]), n = argc > 4 ? atoi(argv[4]) : 0, x = argc > 5 ? atoi(argv[5]) : 0;
  R = Rng(envseed(), a * 977 + m.size() * 131 + b * 7 + x * 65537);
  if (m == "vole") vole(a, b, n);
  if (m == "volebits") volebits(a, b);
  if (m == "zk") {
    std::vector<unsigned> lens = {0, 1, 2, 199, 200, 201, 416, 500, 160, 192, 224, 288, 448, 512};
    if (x) lens.clear();
    if (a == 128) zk<128>(n, b, lens); if (a == 192) zk<192>(n, b, lens); if (a == 256) zk<256>(n, b, lens);
  }
  return finish();
}
