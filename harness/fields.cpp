// C16: field arithmetic against bit-serial arithmetic
#include "fv.h"
extern "C" {
#include "fields.h"
}
using namespace fv;
static Rng R(1);
template <unsigned N> struct Fd;
#define FD(N) template <> struct Fd<N> { typedef bf##N##_t T; \
  static T load(const uint8_t* p) { return bf##N##_load(p); } static void store(uint8_t* p, const T& x) { bf##N##_store(p, x); } \
  static T mul(const T& a, const T& b) { return bf##N##_mul(a, b); } static T mul64(const T& a, uint64_t b) { return bf##N##_mul_64(a, b); } \
  static T mulbit(const T& a, unsigned b) { return (T)bf##N##_mul_bit(a, (uint8_t)b); } static T add(const T& a, const T& b) { return bf##N##_add(a, b); } \
  static T sum(const T* p) { return bf##N##_sum_poly(p); } static T comb(const T* p) { return bf##N##_byte_combine(p); } static T combbits(uint8_t x) { return bf##N##_byte_combine_bits(x); } \
  static T f64(uint64_t x) { return bf##N##_from_bf64(x); } static T f8(uint8_t x) { return bf##N##_from_bf8(x); } static T fbit(uint8_t x) { return bf##N##_from_bit(x); } \
  static T zero() { return bf##N##_zero(); } static T one() { return bf##N##_one(); } };
FD(128) FD(192) FD(256)
template <unsigned N> static Bytes by(const typename Fd<N>::T& x) { Bytes b(N / 8 + 8, 0x3c); Fd<N>::store(b.data(), x); for (int i = 0; i < 8; i++) if (b[N / 8 + i] != 0x3c) viol("store-writes-outside", "%u", N); b.resize(N / 8); return b; }
template <unsigned N> static typename Fd<N>::T ld(const M::F& f) { uint8_t b[40]; memset(b, 0xee, sizeof b); size_t o = R.below(8); M::fstore(N, b + o, f); return Fd<N>::load(b + o); }
template <unsigned N> static bool same(const typename Fd<N>::T& x, const M::F& f) { Bytes b(N / 8); M::fstore(N, b.data(), f); return by<N>(x) == b; }
template <unsigned N> static std::string hx(const M::F& f) { Bytes b(N / 8); M::fstore(N, b.data(), f); return M::hex(b); }
template <unsigned N> static M::F rndf() {
  M::F f = M::fz(); unsigned W = N / 64;
  switch (R.below(8)) {
  case 0: for (unsigned i = 0; i < W; i++) f.w[i] = ~0ull; break;
  case 1: f.w[R.below(W)] = 1ull << R.below(64); break;
  case 2: { for (unsigned i = 0; i < W; i++) f.w[i] = ~0ull; f.w[R.below(W)] ^= 1ull << R.below(64); break; }
  case 3: f.w[R.below(W)] = R.u64(); break;
  case 4: f.w[W - 1] = R.u64() | 1ull << 63; break;
  case 5: if (R.below(4) == 0) break; f.w[0] = R.below(256); break;
  default: for (unsigned i = 0; i < W; i++) f.w[i] = R.u64();
  }
  return f;
}
template <unsigned N> static void basis() {
  for (unsigned i = 0; i < N; i++) {
    M::F a = M::fz(); a.w[i / 64] = 1ull << (i % 64); auto x = ld<N>(a);
    for (unsigned j = 0; j < N; j++) {
      M::F b = M::fz(); b.w[j / 64] = 1ull << (j % 64);
      eval(); if (!same<N>(Fd<N>::mul(x, ld<N>(b)), M::fmul(N, a, b))) { viol("mul-" + std::to_string(N), "x^%u * x^%u", i, j); return; }
    }
    for (unsigned j = 0; j < 64; j++) { M::F b = M::fz(); b.w[0] = 1ull << j; eval(); if (!same<N>(Fd<N>::mul64(x, b.w[0]), M::fmul(N, a, b))) { viol("mul_64-" + std::to_string(N), "x^%u * x^%u", i, j); return; } }
    distinct("basis", Bytes(), Bytes(), N * 1000 + i);
  }
  count("basis_products", N * N); sample("GF(2^%u): all %u products of basis elements", N, N * N);
}
template <unsigned N> static void bytesx() {
  for (unsigned a = 0; a < 256; a++) {
    M::F e = M::fz(); for (unsigned i = 0; i < 8; i++) if (a >> i & 1) e = M::fadd(e, M::falpha(N, i));
    auto x = Fd<N>::combbits((uint8_t)a); eval();
    if (!same<N>(x, e)) viol("byte_combine_bits-" + std::to_string(N), "%02x", a);
    for (unsigned b = 0; b < 256; b++) {
      auto y = Fd<N>::combbits((uint8_t)b); eval();
      if (by<N>(Fd<N>::mul(x, y)) != by<N>(Fd<N>::combbits(M::gf8_mul((uint8_t)a, (uint8_t)b)))) { viol("embedding-mul-" + std::to_string(N), "%02x*%02x", a, b); return; }
      if (by<N>(Fd<N>::add(x, y)) != by<N>(Fd<N>::combbits(a ^ b))) { viol("embedding-add-" + std::to_string(N), "%02x+%02x", a, b); return; }
    }
    M::F f = M::fz(); f.w[0] = a; M::F g = M::fz(); g.w[0] = a & 1;
    if (!same<N>(Fd<N>::f8((uint8_t)a), f)) viol("from_bf8-" + std::to_string(N), "%02x", a);
    if (!same<N>(Fd<N>::fbit((uint8_t)a), g)) viol("from_bit-" + std::to_string(N), "%02x", a);
    distinct("bytes", Bytes(), Bytes(), N * 1000 + a);
  }
  if (!same<N>(Fd<N>::zero(), M::fz()) || !same<N>(Fd<N>::one(), M::fone())) viol("constants-" + std::to_string(N), "zero or one");
  count("embedding_pairs", 65536);
}
template <unsigned N> static void random_(unsigned n) {
  typedef typename Fd<N>::T T;
  struct Al { T v[N]; }; Al* xs = (Al*)aligned_alloc(64, (sizeof(Al) + 63) / 64 * 64); if (!xs) die("alloc");
  std::vector<M::F> fs(N);
  for (unsigned k = 0; k < n; k++) {
    M::F a = rndf<N>(), b = rndf<N>(), c = rndf<N>(); T x = ld<N>(a), y = ld<N>(b), z = ld<N>(c);
    eval(6); Bytes ab = by<N>(x); distinct("rnd", ab, by<N>(y), N);
    std::string s = std::to_string(N);
    if (!same<N>(x, a)) viol("load-store-" + s, "%s", hx<N>(a).c_str());
    T p = Fd<N>::mul(x, y);
    if (!same<N>(p, M::fmul(N, a, b))) viol("mul-" + s, "%s * %s", hx<N>(a).c_str(), hx<N>(b).c_str());
    if (by<N>(Fd<N>::mul(y, x)) != by<N>(p)) viol("mul-commutes-" + s, "%s * %s", hx<N>(a).c_str(), hx<N>(b).c_str());
    if (by<N>(Fd<N>::mul(x, Fd<N>::add(y, z))) != by<N>(Fd<N>::add(p, Fd<N>::mul(x, z)))) viol("distributes-" + s, "%s %s %s", hx<N>(a).c_str(), hx<N>(b).c_str(), hx<N>(c).c_str());
    if (!same<N>(Fd<N>::add(x, y), M::fadd(a, b))) viol("add-" + s, "%s + %s", hx<N>(a).c_str(), hx<N>(b).c_str());
    // results of results, without passing through memory
    M::F ab_ = M::fmul(N, M::fadd(M::fmul(N, a, b), c), a);
    if (!same<N>(Fd<N>::mul(Fd<N>::add(Fd<N>::mul(x, y), z), x), ab_)) viol("mul-add-" + s, "%s %s %s", hx<N>(a).c_str(), hx<N>(b).c_str(), hx<N>(c).c_str());
    uint64_t q = R.below(4) ? R.u64() : R.below(2) ? ~0ull : 1ull << R.below(64); M::F qf = M::fz(); qf.w[0] = q;
    if (!same<N>(Fd<N>::mul64(x, q), M::fmul(N, a, qf))) viol("mul_64-" + s, "%s * %016llx", hx<N>(a).c_str(), (unsigned long long)q);
    if (!same<N>(Fd<N>::f64(q), qf)) viol("from_bf64-" + s, "%016llx", (unsigned long long)q);
    unsigned bit = (unsigned)R.below(2);
    if (!same<N>(Fd<N>::mulbit(x, bit), bit ? a : M::fz())) viol("mul_bit-" + s, "%s * %u", hx<N>(a).c_str(), bit);
    if (k % 8 == 0) {
      M::F sp = M::fz(), cb = M::fz();
      for (unsigned i = 0; i < N; i++) { fs[i] = rndf<N>(); xs->v[i] = ld<N>(fs[i]); M::F e = M::fz(); e.w[i / 64] = 1ull << (i % 64); sp = M::fadd(sp, M::fmul(N, fs[i], e)); if (i < 8) cb = M::fadd(cb, M::fmul(N, fs[i], M::falpha(N, i))); }
      if (!same<N>(Fd<N>::sum(xs->v), sp)) viol("sum_poly-" + s, "random terms");
      if (!same<N>(Fd<N>::comb(xs->v), cb)) viol("byte_combine-" + s, "random terms");
      // a single nonzero term
      unsigned w = (unsigned)R.below(N); for (unsigned i = 0; i < N; i++) xs->v[i] = i == w ? x : Fd<N>::zero();
      M::F e = M::fz(); e.w[w / 64] = 1ull << (w % 64);
      if (!same<N>(Fd<N>::sum(xs->v), M::fmul(N, a, e))) viol("sum_poly-" + s, "term %u only", w);
      w = (unsigned)R.below(8); for (unsigned i = 0; i < 8; i++) xs->v[i] = i == w ? x : Fd<N>::zero();
      if (!same<N>(Fd<N>::comb(xs->v), M::fmul(N, a, M::falpha(N, w)))) viol("byte_combine-" + s, "term %u only", w);
      eval(4); count("sums");
    }
    if (k % 16 == 0) { // exact number of bytes moved
      Guard g(ab, R.below(2)); g.readonly(); T v = Fd<N>::load(g.p); Guard o(N / 8, R.below(2)); Fd<N>::store(o.p, v); if (o.bytes() != ab) viol("load-store-" + s, "guarded"); count("guarded");
    }
  }
  count("random_operands", n); free(xs);
}
static void small(unsigned n) {
  for (unsigned a = 0; a < 256; a++) {
    for (unsigned b = 0; b < 256; b++) { eval(); if (bf8_mul((bf8_t)a, (bf8_t)b) != M::gf8_mul((uint8_t)a, (uint8_t)b)) viol("mul-8", "%02x*%02x", a, b); if (bf8_add((bf8_t)a, (bf8_t)b) != (a ^ b)) viol("add-8", "%02x+%02x", a, b); }
    if (bf8_inv((bf8_t)a) != M::gf8_inv((uint8_t)a)) viol("inv-8", "%02x", a);
    uint8_t t[2] = {(uint8_t)a, 0x55}, o[2] = {1, 0x55}; bf8_store(o, bf8_load(t)); if (o[0] != a || o[1] != 0x55) viol("load-store-8", "%02x", a);
    if (bf8_from_bit((uint8_t)a) != (a & 1)) viol("from_bit-8", "%02x", a);
    distinct("gf8", Bytes(), Bytes(), a);
  }
  count("gf8_products", 65536);
  for (unsigned k = 0; k < n + 4096; k++) {
    M::F a = rndf<64>(), b = rndf<64>(); if (k < 4096) { a = b = M::fz(); a.w[0] = 1ull << (k / 64); b.w[0] = 1ull << (k % 64); }
    eval(); distinct("gf64", Bytes(), Bytes(), a.w[0] * 31 + b.w[0]);
    if (bf64_mul(a.w[0], b.w[0]) != M::fmul(64, a, b).w[0]) viol("mul-64", "%016llx*%016llx", (unsigned long long)a.w[0], (unsigned long long)b.w[0]);
    if (bf64_add(a.w[0], b.w[0]) != (a.w[0] ^ b.w[0]) || bf64_from_bit((uint8_t)a.w[0]) != (a.w[0] & 1)) viol("add-64", "%016llx", (unsigned long long)a.w[0]);
    uint8_t t[17]; memset(t, 0x44, 17); size_t o = R.below(8); bf64_store(t + o, a.w[0]); for (unsigned i = 0; i < 8; i++) if (t[o + i] != (uint8_t)(a.w[0] >> 8 * i)) viol("store-64", "%016llx", (unsigned long long)a.w[0]);
    if (bf64_load(t + o) != a.w[0] || t[o + 8] != 0x44) viol("load-64", "%016llx", (unsigned long long)a.w[0]);
  }
  count("gf64_products", n + 4096);
}
int main(int argc, char** argv) {
  std::string m = argv[1]; unsigned a = atoi(argv[2]), n = atoi(argv[3]), x = argc > 4 ? atoi(argv[4]) : 0;
  R = Rng(envseed(), a * 977 + m.size() * 131 + x * 7 + 5);
  if (m == "small") small(n);
  if (m == "basis") { if (a == 128) basis<128>(); if (a == 192) basis<192>(); if (a == 256) basis<256>(); }
  if (m == "bytes") { if (a == 128) bytesx<128>(); if (a == 192) bytesx<192>(); if (a == 256) bytesx<256>(); }
  if (m == "random") { if (a == 128) random_<128>(n); if (a == 192) random_<192>(n); if (a == 256) random_<256>(n); }
  return finish();
}
