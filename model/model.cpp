#include "model.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <openssl/evp.h>
#include <stdexcept>

namespace M {

// ---------------------------------------------------------------- parameters
size_t Par::off_pdec(unsigned i) const {
  size_t o = off_open;
  for (unsigned j = 0; j < i; j++) o += (depth(j) + 2) * lb;
  return o;
}
size_t Par::off_com(unsigned i) const { return off_pdec(i) + depth(i) * lb; }

static Par mk(const char* name, unsigned lambda, bool em, unsigned tau) {
  Par p;
  p.name = name; p.lambda = lambda; p.em = em; p.tau = tau;
  p.lb = lambda / 8;
  p.Nk = lambda / 32;
  p.Nb = em ? p.Nk : 4;
  p.R  = p.Nk + 6;
  p.beta = em ? 1 : (lambda + 127) / 128;
  // number of key schedule S-boxes
  unsigned words = 4 * (p.R + 1), ks = 0;
  if (!em)
    for (unsigned k = p.Nk; k < words; k++)
      if (k % p.Nk == 0 || (p.Nk > 6 && k % p.Nk == 4)) ks += 4;
  p.Ske  = ks;
  p.Senc = p.R * p.Nb * 4;
  p.Lke  = em ? 0 : lambda + 8 * ks;
  p.Lenc = 32 * p.Nb * (p.R - 1) + (em ? lambda : 0);
  p.l    = p.Lke + p.beta * p.Lenc;
  p.k0 = (lambda + tau - 1) / tau;
  p.k1 = lambda / tau;
  p.t0 = lambda % tau;
  p.t1 = tau - p.t0;
  p.ell_hat = p.l + 2 * lambda + 16;
  p.ell_hat_bytes = p.ell_hat / 8;
  p.ublk = p.em ? p.lb : 16 * p.beta; // OWF input/output size
  p.pk = 2 * p.ublk;
  p.sk = p.ublk + p.lb;
  p.off_c = 0;
  p.off_u = (tau - 1) * p.ell_hat_bytes;
  p.off_d = p.off_u + p.lb + 2;
  p.off_a = p.off_d + p.l / 8;
  p.off_open = p.off_a + p.lb;
  p.off_chall = p.off_open;
  for (unsigned i = 0; i < tau; i++) p.off_chall += (p.depth(i) + 2) * p.lb;
  p.off_iv = p.off_chall + p.lb;
  p.sig = p.off_iv + 16;
  return p;
}

const std::vector<Par>& params() {
  static const std::vector<Par> v = {
      mk("128s", 128, false, 11),    mk("128f", 128, false, 16),    mk("192s", 192, false, 16),
      mk("192f", 192, false, 24),    mk("256s", 256, false, 22),    mk("256f", 256, false, 32),
      mk("em_128s", 128, true, 11),  mk("em_128f", 128, true, 16),  mk("em_192s", 192, true, 16),
      mk("em_192f", 192, true, 24),  mk("em_256s", 256, true, 22),  mk("em_256f", 256, true, 32)};
  return v;
}
const Par& par(const std::string& n) {
  for (auto& p : params()) if (n == p.name) return p;
  throw std::runtime_error("no parameter set " + n);
}
std::string sig_field(const Par& p, size_t pos) {
  if (pos < p.off_u) return "c[" + std::to_string(pos / p.ell_hat_bytes) + "]";
  if (pos < p.off_d) return "u_tilde";
  if (pos < p.off_a) return "d";
  if (pos < p.off_open) return "a_tilde";
  if (pos < p.off_chall) {
    for (unsigned i = 0; i < p.tau; i++) {
      if (pos < p.off_com(i)) return "pdec[" + std::to_string(i) + "][" + std::to_string((pos - p.off_pdec(i)) / p.lb) + "]";
      if (pos < p.off_com(i) + 2 * p.lb) return "com[" + std::to_string(i) + "]";
    }
  }
  if (pos < p.off_iv) return "chall_3";
  return pos < p.sig ? "iv" : "beyond";
}

// ---------------------------------------------------------------- Keccak
static inline uint64_t rol(uint64_t x, unsigned n) { return n ? (x << n) | (x >> (64 - n)) : x; }
struct KTab {
  uint64_t rc[24]; unsigned rho[25]; unsigned pi[25];
  KTab() {
    // LFSR round constants
    uint8_t lfsr = 1;
    for (int r = 0; r < 24; r++) {
      rc[r] = 0;
      for (int j = 0; j <= 6; j++) {
        bool out = lfsr & 1;
        lfsr = (lfsr & 0x80) ? (uint8_t)((lfsr << 1) ^ 0x71) : (uint8_t)(lfsr << 1);
        if (out) rc[r] ^= 1ULL << ((1 << j) - 1);
      }
    }
    for (int i = 0; i < 25; i++) rho[i] = 0;
    unsigned x = 1, y = 0;
    for (unsigned t = 0; t < 24; t++) {
      rho[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64;
      unsigned ny = (2 * x + 3 * y) % 5; x = y; y = ny;
    }
    for (unsigned xx = 0; xx < 5; xx++)
      for (unsigned yy = 0; yy < 5; yy++) pi[xx + 5 * yy] = yy + 5 * ((2 * xx + 3 * yy) % 5);
  }
};
static const KTab KT;
void keccak_f(uint64_t a[25]) {
  for (int r = 0; r < 24; r++) {
    uint64_t c[5], b[25];
    for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
    for (int x = 0; x < 5; x++) {
      uint64_t d = c[(x + 4) % 5] ^ rol(c[(x + 1) % 5], 1);
      for (int y = 0; y < 25; y += 5) a[x + y] ^= d;
    }
    for (int i = 0; i < 25; i++) b[KT.pi[i]] = rol(a[i], KT.rho[i]);
    for (int y = 0; y < 25; y += 5)
      for (int x = 0; x < 5; x++) a[x + y] = b[x + y] ^ (~b[(x + 1) % 5 + y] & b[(x + 2) % 5 + y]);
    a[0] ^= KT.rc[r];
  }
}
Xof::Xof(unsigned bits) : rate(bits == 128 ? 168 : 136), pos(0), squeezing(false) { memset(st, 0, sizeof st); }
static inline void xb(uint64_t* st, unsigned i, uint8_t v) { st[i / 8] ^= (uint64_t)v << (8 * (i % 8)); }
void Xof::absorb(const void* p, size_t n) {
  const uint8_t* b = (const uint8_t*)p;
  while (n) {
    if (pos % 8 == 0 && n >= 8 && rate - pos >= 8) {
      uint64_t v; memcpy(&v, b, 8); st[pos / 8] ^= v; pos += 8; b += 8; n -= 8;
    } else { xb(st, pos++, *b++); n--; }
    if (pos == rate) { keccak_f(st); pos = 0; }
  }
}
void Xof::finish() { xb(st, pos, 0x1f); xb(st, rate - 1, 0x80); keccak_f(st); pos = 0; squeezing = true; }
void Xof::squeeze(void* p, size_t n) {
  uint8_t* b = (uint8_t*)p;
  while (n--) {
    if (pos == rate) { keccak_f(st); pos = 0; }
    *b++ = (uint8_t)(st[pos / 8] >> (8 * (pos % 8))); pos++;
  }
}
Bytes shake(unsigned bits, const Bytes& in, size_t outlen) {
  Xof x(bits); x.absorb(in.data(), in.size()); x.finish();
  Bytes o(outlen); x.squeeze(o.data(), outlen); return o;
}
Bytes H(unsigned lambda, uint8_t dom, const std::vector<Bytes>& parts, size_t outlen) {
  Xof x(lambda == 128 ? 128 : 256);
  for (auto& p : parts) x.absorb(p.data(), p.size());
  x.absorb(&dom, 1); x.finish();
  Bytes o(outlen); x.squeeze(o.data(), outlen); return o;
}

// ---------------------------------------------------------------- GF(2^8), Rijndael
uint8_t gf8_mul(uint8_t a, uint8_t b) {
  unsigned r = 0, x = a;
  for (int i = 0; i < 8; i++) { if (b >> i & 1) r ^= x; x <<= 1; if (x & 0x100) x ^= 0x11b; }
  return (uint8_t)r;
}
uint8_t gf8_inv(uint8_t a) {
  if (!a) return 0;
  for (int i = 1; i < 256; i++) if (gf8_mul(a, (uint8_t)i) == 1) return (uint8_t)i;
  return 0;
}
struct STab { uint8_t s[256], m2[256], m3[256];
  STab() { for (int i = 0; i < 256; i++) { uint8_t t = gf8_inv((uint8_t)i), r = 0x63;
      for (int k = 0; k < 5; k++) r ^= (uint8_t)((t << k) | (t >> (8 - k)));
      s[i] = r; m2[i] = gf8_mul((uint8_t)i, 2); m3[i] = gf8_mul((uint8_t)i, 3); } } };
static const STab ST;
uint8_t sbox(uint8_t x) { return ST.s[x]; }

thread_local std::vector<int>* zlog = nullptr;
thread_local int zbase = 0;
#define ZHIT(x) do { if (zlog) zlog->push_back(x); } while (0)
Rijndael::Rijndael(unsigned nk, unsigned nb, const uint8_t* key) : Nk(nk), Nb(nb), zero_in_ks(false) {
  R = (Nk > Nb ? Nk : Nb) + 6;
  unsigned n = Nb * (R + 1);
  rk.resize(4 * (n < Nk ? Nk : n));
  memcpy(rk.data(), key, 4 * Nk);
  uint8_t rc = 1;
  for (unsigned i = Nk; i < n; i++) {
    uint8_t t[4]; memcpy(t, &rk[4 * (i - 1)], 4);
    if (i % Nk == 0) {
      uint8_t u = t[0]; t[0] = t[1]; t[1] = t[2]; t[2] = t[3]; t[3] = u;
      for (auto& b : t) { if (!b) { zero_in_ks = true; ZHIT((int)(100000 + 4 * i + (&b - t))); } b = ST.s[b]; }
      t[0] ^= rc; rc = ST.m2[rc];
    } else if (Nk > 6 && i % Nk == 4)
      for (auto& b : t) { if (!b) { zero_in_ks = true; ZHIT((int)(100000 + 4 * i + (&b - t))); } b = ST.s[b]; }
    for (int j = 0; j < 4; j++) rk[4 * i + j] = rk[4 * (i - Nk) + j] ^ t[j];
  }
}
static unsigned shift_of(unsigned Nb, unsigned row) {
  if (Nb == 8) { static const unsigned s[4] = {0, 1, 3, 4}; return s[row]; }
  return row;
}
void Rijndael::encrypt(const uint8_t* in, uint8_t* out, bool* zero, Bytes* states) const {
  uint8_t s[32], t[32];
  unsigned n = 4 * Nb;
  for (unsigned i = 0; i < n; i++) s[i] = in[i] ^ rk[i];
  for (unsigned r = 1; r <= R; r++) {
    for (unsigned i = 0; i < n; i++) { if (!s[i] && zero) { *zero = true; ZHIT(zbase + (int)(100 * r + i)); } s[i] = ST.s[s[i]]; }
    for (unsigned c = 0; c < Nb; c++)
      for (unsigned row = 0; row < 4; row++) t[4 * c + row] = s[4 * ((c + shift_of(Nb, row)) % Nb) + row];
    if (r < R) {
      if (states) states->insert(states->end(), t, t + n);
      for (unsigned c = 0; c < Nb; c++)
        for (unsigned row = 0; row < 4; row++)
          s[4 * c + row] = ST.m2[t[4 * c + row]] ^ ST.m3[t[4 * c + (row + 1) % 4]] ^ t[4 * c + (row + 2) % 4] ^ t[4 * c + (row + 3) % 4];
    } else memcpy(s, t, n);
    for (unsigned i = 0; i < n; i++) s[i] ^= rk[n * r + i];
  }
  memcpy(out, s, n);
}

// the model's PRG runs on OpenSSL's AES-ECB over an explicit big-endian 128-bit counter
void prg(unsigned lambda, const uint8_t* key, const uint8_t* iv, uint8_t* out, size_t n) {
  static thread_local EVP_CIPHER_CTX* ctx[3] = {nullptr, nullptr, nullptr};
  static const EVP_CIPHER* ciph[3] = {EVP_aes_128_ecb(), EVP_aes_192_ecb(), EVP_aes_256_ecb()};
  unsigned w = lambda / 64 - 2;
  if (!ctx[w]) { ctx[w] = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(ctx[w], ciph[w], nullptr, nullptr, nullptr); EVP_CIPHER_CTX_set_padding(ctx[w], 0); }
  EVP_EncryptInit_ex(ctx[w], nullptr, nullptr, key, nullptr);
  size_t blocks = (n + 15) / 16;
  uint8_t small[64]; Bytes big; uint8_t* buf = small;
  if (blocks > 4) { big.resize(blocks * 16); buf = big.data(); }
  unsigned __int128 ctr = 0;
  for (int i = 0; i < 16; i++) ctr = ctr << 8 | iv[i];
  for (size_t b = 0; b < blocks; b++, ctr++)
    for (int i = 0; i < 16; i++) buf[16 * b + i] = (uint8_t)(ctr >> (8 * (15 - i)));
  int len = 0;
  if (EVP_EncryptUpdate(ctx[w], buf, &len, buf, (int)(16 * blocks)) != 1 || len != (int)(16 * blocks)) abort();
  memcpy(out, buf, n);
}

bool owf(const Par& p, const uint8_t* key, const uint8_t* in, uint8_t* out) {
  bool zero = false;
  if (p.em) {
    Rijndael c(p.Nk, p.Nb, in);
    c.encrypt(key, out, &zero);
    for (size_t i = 0; i < p.lb; i++) out[i] ^= key[i];
  } else {
    Rijndael c(p.Nk, 4, key);
    zero = c.zero_in_ks;
    for (unsigned b = 0; b < p.beta; b++) { zbase = 10000 * (int)b; c.encrypt(in + 16 * b, out + 16 * b, &zero); }
    zbase = 0;
  }
  return !zero;
}

// ---------------------------------------------------------------- binary fields
static uint64_t poly(unsigned n) { return n == 64 ? 0x1b : n == 256 ? 0x425 : 0x87; }
F fmul(unsigned n, const F& a, const F& b) {
  unsigned nw = n / 64;
  uint64_t r[4] = {0, 0, 0, 0}, x[4];
  memcpy(x, a.w, sizeof x);
  for (unsigned i = 0; i < n; i++) {
    uint64_t m = -(b.w[i / 64] >> (i % 64) & 1);
    for (unsigned j = 0; j < nw; j++) r[j] ^= x[j] & m;
    uint64_t top = -(x[nw - 1] >> 63);
    for (unsigned j = nw - 1; j > 0; j--) x[j] = x[j] << 1 | x[j - 1] >> 63;
    x[0] = (x[0] << 1) ^ (top & poly(n));
  }
  F o = fz();
  for (unsigned j = 0; j < nw; j++) o.w[j] = r[j];
  return o;
}
F fload(unsigned n, const uint8_t* p) {
  F r = fz();
  for (unsigned i = 0; i < n / 8; i++) r.w[i / 8] |= (uint64_t)p[i] << (8 * (i % 8));
  return r;
}
void fstore(unsigned n, uint8_t* p, const F& a) {
  for (unsigned i = 0; i < n / 8; i++) p[i] = (uint8_t)(a.w[i / 8] >> (8 * (i % 8)));
}
// The images of the AES-field generator z are roots of x^8+x^4+x^3+x+1 in the big field; the
// specification fixes one root per field (its hex value), all higher powers follow.
static F alpha1(unsigned n);
F falpha(unsigned n, unsigned i) {
  static F tab[3][8]; static bool init = false;
  if (!init) {
    for (unsigned k = 0; k < 3; k++) {
      unsigned nn = 128 + 64 * k;
      tab[k][0] = fone();
      for (int j = 1; j < 8; j++) tab[k][j] = fmul(nn, tab[k][j - 1], alpha1(nn));
      // root check
      F t = fmul(nn, tab[k][7], tab[k][1]);
      t = fadd(fadd(t, tab[k][4]), fadd(fadd(tab[k][3], tab[k][1]), fone()));
      if (!feq(t, fz())) { fprintf(stderr, "model: alpha is not a root (%u)\n", nn); abort(); }
    }
    init = true;
  }
  return tab[n / 64 - 2][i];
}
static F alpha1(unsigned n) {
#include "alpha.inc"
}
// sum of bits times alpha^i

// ---------------------------------------------------------------- universal hashes
Bytes vole_hash(unsigned lambda, const uint8_t* sd, const uint8_t* x, unsigned ell) {
  unsigned lb = lambda / 8;
  F r0 = fload(lambda, sd), r1 = fload(lambda, sd + lb), r2 = fload(lambda, sd + 2 * lb),
    r3 = fload(lambda, sd + 3 * lb), s = fload(lambda, sd + 4 * lb);
  F t = fload(64, sd + 5 * lb);
  size_t n = (ell + lambda) / 8;                 // bytes of x0
  size_t blocks = (n + lb - 1) / lb;             // zero padded to a multiple of lambda
  Bytes x0(blocks * lb, 0); memcpy(x0.data(), x, n);
  F h0 = fz();
  for (size_t i = 0; i < blocks; i++) h0 = fadd(fmul(lambda, h0, s), fload(lambda, &x0[i * lb]));
  F h1 = fz();
  for (size_t i = 0; i < blocks * lb; i += 8) h1 = fadd(fmul(64, h1, t), fload(64, &x0[i]));
  F h2 = fadd(fmul(lambda, r0, h0), fmul(lambda, r1, h1));
  F h3 = fadd(fmul(lambda, r2, h0), fmul(lambda, r3, h1));
  Bytes o(2 * lb); fstore(lambda, o.data(), h2); fstore(lambda, o.data() + lb, h3);
  o.resize(lb + 2);
  for (size_t i = 0; i < lb + 2; i++) o[i] ^= x[n + i];
  return o;
}
ZkHash::ZkHash(unsigned l, const uint8_t* sd) : lambda(l) {
  unsigned lb = l / 8;
  r0 = fload(l, sd); r1 = fload(l, sd + lb); s = fload(l, sd + 2 * lb); t = fload(64, sd + 3 * lb);
  h0 = h1 = fz();
}
void ZkHash::update(const F& v) { h0 = fadd(fmul(lambda, h0, s), v); h1 = fadd(fmul(lambda, h1, t), v); }
F ZkHash::finalize(const F& x1) const { return fadd(fadd(fmul(lambda, r0, h0), fmul(lambda, r1, h1)), x1); }

// ---------------------------------------------------------------- vector commitments
static void leaf(unsigned lambda, const uint8_t* node, const uint8_t* iv, Bytes& sd, Bytes& com) {
  unsigned lb = lambda / 8;
  Xof x(lambda == 128 ? 128 : 256);
  uint8_t z = 0;
  x.absorb(node, lb); x.absorb(iv, 16); x.absorb(&z, 1); x.finish();
  sd.resize(lb); com.resize(2 * lb);
  x.squeeze(sd.data(), lb); x.squeeze(com.data(), 2 * lb);
}
static Bytes hash_coms(unsigned lambda, const std::vector<Bytes>& com) {
  Xof x(lambda == 128 ? 128 : 256);
  for (auto& c : com) x.absorb(c.data(), c.size());
  uint8_t one = 1; x.absorb(&one, 1); x.finish();
  Bytes h(lambda / 4); x.squeeze(h.data(), h.size()); return h;
}
VC vc_commit(unsigned lambda, const uint8_t* root, const uint8_t* iv, unsigned depth) {
  VC v; v.depth = depth; v.lb = lambda / 8;
  size_t N = (size_t)1 << depth, lb = v.lb;
  v.nodes.resize((2 * N - 1) * lb);
  memcpy(v.nodes.data(), root, lb);
  for (size_t i = 0; i + 1 < N; i++) prg(lambda, &v.nodes[i * lb], iv, &v.nodes[(2 * i + 1) * lb], 2 * lb);
  v.sd.resize(N); v.com.resize(N);
  for (size_t j = 0; j < N; j++) leaf(lambda, &v.nodes[(N - 1 + j) * lb], iv, v.sd[j], v.com[j]);
  v.h = hash_coms(lambda, v.com);
  return v;
}
void vc_open(const VC& v, unsigned idx, Bytes& pdec, Bytes& com) {
  size_t N = (size_t)1 << v.depth, lb = v.lb;
  pdec.assign(v.depth * lb, 0);
  size_t node = N - 1 + idx; // climb from the leaf: siblings, deepest last
  for (unsigned lvl = v.depth; lvl > 0; lvl--) {
    size_t sib = (node & 1) ? node + 1 : node - 1;
    memcpy(&pdec[(lvl - 1) * lb], &v.nodes[sib * lb], lb);
    node = (node - 1) / 2;
  }
  com = v.com[idx];
}
VCRec vc_reconstruct(unsigned lambda, const uint8_t* iv, unsigned depth, unsigned idx, const uint8_t* pdec, const uint8_t* com) {
  size_t N = (size_t)1 << depth, lb = lambda / 8;
  VCRec r; r.nodes.assign((2 * N - 1) * lb, 0);
  std::vector<char> known(2 * N - 1, 0);
  size_t node = N - 1 + idx;
  for (unsigned lvl = depth; lvl > 0; lvl--) {
    size_t sib = (node & 1) ? node + 1 : node - 1;
    memcpy(&r.nodes[sib * lb], pdec + (lvl - 1) * lb, lb); known[sib] = 1;
    node = (node - 1) / 2;
  }
  for (size_t i = 0; i + 1 < N; i++)
    if (known[i]) { prg(lambda, &r.nodes[i * lb], iv, &r.nodes[(2 * i + 1) * lb], 2 * lb); known[2 * i + 1] = known[2 * i + 2] = 1; }
  r.sd.resize(N); std::vector<Bytes> coms(N);
  for (size_t j = 0; j < N; j++) {
    if (j == idx) { coms[j].assign(com, com + 2 * lb); r.sd[j].assign(lb, 0); }
    else { if (!known[N - 1 + j]) abort(); leaf(lambda, &r.nodes[(N - 1 + j) * lb], iv, r.sd[j], coms[j]); }
  }
  r.h = hash_coms(lambda, coms);
  return r;
}
void convert_to_vole(unsigned lambda, const uint8_t* iv, const std::vector<Bytes>& sd, bool sd0_bot, unsigned depth,
                     size_t outlen, Bytes& u, std::vector<Bytes>& v) {
  // u = sum_x prg(sd_x); v_j = sum over x with bit j set
  size_t N = (size_t)1 << depth;
  u.assign(outlen, 0); v.assign(depth, Bytes(outlen, 0));
  Bytes r(outlen);
  for (size_t x = sd0_bot ? 1 : 0; x < N; x++) {
    prg(lambda, sd[x].data(), iv, r.data(), outlen);
    for (size_t b = 0; b < outlen; b++) u[b] ^= r[b];
    for (unsigned j = 0; j < depth; j++)
      if (x >> j & 1) { uint8_t* d = v[j].data(); for (size_t b = 0; b < outlen; b++) d[b] ^= r[b]; }
  }
}
unsigned chal_dec(const Par& p, const uint8_t* chall, unsigned i) {
  unsigned lo = i < p.t0 ? i * p.k0 : p.t0 * p.k0 + (i - p.t0) * p.k1;
  unsigned r = 0;
  for (unsigned j = 0; j < p.depth(i); j++) r |= (unsigned)(chall[(lo + j) / 8] >> ((lo + j) % 8) & 1) << j;
  return r;
}
VoleP vole_commit(const Par& p, const uint8_t* root, const uint8_t* iv, size_t n) {
  VoleP o; o.vc.resize(p.tau);
  Bytes keys(p.tau * p.lb); prg(p.lambda, root, iv, keys.data(), keys.size());
  std::vector<Bytes> u(p.tau), hs;
  for (unsigned i = 0; i < p.tau; i++) {
    o.vc[i] = vc_commit(p.lambda, &keys[i * p.lb], iv, p.depth(i));
    std::vector<Bytes> v; convert_to_vole(p.lambda, iv, o.vc[i].sd, false, p.depth(i), n, u[i], v);
    for (auto& c : v) o.V.push_back(c);
    hs.push_back(o.vc[i].h);
  }
  o.u = u[0];
  for (unsigned i = 1; i < p.tau; i++) { Bytes c(n); for (size_t b = 0; b < n; b++) c[b] = u[0][b] ^ u[i][b]; o.c.push_back(c); }
  o.hcom = H(p.lambda, 1, hs, 2 * p.lb);
  return o;
}
VoleV vole_reconstruct(const Par& p, const uint8_t* iv, const uint8_t* chall, const std::vector<Bytes>& pdec, const std::vector<Bytes>& com, size_t n) {
  VoleV o; std::vector<Bytes> hs;
  for (unsigned i = 0; i < p.tau; i++) {
    unsigned idx = chal_dec(p, chall, i), d = p.depth(i);
    VCRec r = vc_reconstruct(p.lambda, iv, d, idx, pdec[i].data(), com[i].data());
    std::vector<Bytes> sd(r.sd.size());
    for (size_t j = 1; j < sd.size(); j++) sd[j] = r.sd[j ^ idx];
    Bytes u; std::vector<Bytes> q; convert_to_vole(p.lambda, iv, sd, true, d, n, u, q);
    for (auto& c : q) o.Q.push_back(c);
    hs.push_back(r.h);
  }
  o.hcom = H(p.lambda, 1, hs, 2 * p.lb);
  return o;
}

// ---------------------------------------------------------------- circuit
Bytes extend_witness(const Par& p, const uint8_t* key, const uint8_t* in) {
  Bytes w;
  if (p.em) {
    w.assign(key, key + p.lb);
    Rijndael c(p.Nk, p.Nb, in); uint8_t o[32]; c.encrypt(key, o, nullptr, &w);
  } else {
    Rijndael c(p.Nk, 4, key);
    w.assign(key, key + p.lb);
    for (unsigned k = p.Nk; k < 4 * (p.R + 1); k++)
      if (k % p.Nk == 0 || (p.Nk > 6 && k % p.Nk == 4)) w.insert(w.end(), &c.rk[4 * k], &c.rk[4 * k] + 4);
    uint8_t o[16];
    for (unsigned b = 0; b < p.beta; b++) c.encrypt(in + 16 * b, o, nullptr, &w);
  }
  if (w.size() * 8 != p.l) abort();
  return w;
}

// A wire bit is affine over committed bits: value (0/1) and tag (prover) or key (verifier).
// mode P: tag = sum of v; constants have tag 0.  mode V: tag = q; constant c has q = c*Delta.
struct Bit { uint8_t val; F tag; };
typedef std::vector<Bit> Wires; // 8 per byte
struct Circ {
  const Par& p; bool verifier; F delta;
  std::function<void(const F& av, const F& at, const F& bv, const F& bt)> emit; // a*b = 1
  Bit konst(uint8_t c) const { Bit b; b.val = c & 1; b.tag = (verifier && (c & 1)) ? delta : fz(); return b; }
  static Bit add(const Bit& a, const Bit& b) { Bit r; r.val = a.val ^ b.val; r.tag = fadd(a.tag, b.tag); return r; }
  Wires kbyte(uint8_t c) const { Wires w; for (int i = 0; i < 8; i++) w.push_back(konst(c >> i & 1)); return w; }
  static Wires xorw(const Wires& a, const Wires& b) { Wires w(a.size()); for (size_t i = 0; i < a.size(); i++) w[i] = add(a[i], b[i]); return w; }
  static Wires slice(const Wires& a, size_t byte, size_t n = 1) { return Wires(a.begin() + 8 * byte, a.begin() + 8 * (byte + n)); }
  // multiplication by 2 in the AES field
  static Wires x2(const Wires& a) {
    Wires r(8);
    for (int i = 0; i < 8; i++) r[i] = i ? a[i - 1] : a[7];
    r[1] = add(r[1], a[7]); r[3] = add(r[3], a[7]); r[4] = add(r[4], a[7]);
    return r;
  }
  // from the S-box output to the inverse of its input
  Wires inv_affine(const Wires& y) const {
    Wires r(8);
    for (int i = 0; i < 8; i++) r[i] = add(add(y[(i + 7) % 8], y[(i + 5) % 8]), y[(i + 2) % 8]);
    r[0] = add(r[0], konst(1)); r[2] = add(r[2], konst(1));
    return r;
  }
  void lift(const Wires& a, F& v, F& t) const {
    v = t = fz();
    for (int i = 0; i < 8; i++) { if (a[i].val) v = fadd(v, falpha(p.lambda, i)); t = fadd(t, fmul(p.lambda, a[i].tag, falpha(p.lambda, i))); }
  }
  void mult_one(const Wires& in, const Wires& inv) { F av, at, bv, bt; lift(in, av, at); lift(inv, bv, bt); emit(av, at, bv, bt); }
  // encryption: x = cipher input wires, ks = round keys wires, w = committed states, out = cipher output wires
  void encryption(const Wires& x, const Wires& ks, const Wires& w, const Wires& out) {
    unsigned nb = p.Nb, n = 4 * nb;
    for (unsigned r = 0; r < p.R; r++) {
      // S-box inputs of round r
      std::vector<Wires> in(n), so(n);
      for (unsigned i = 0; i < n; i++) {
        Wires k = slice(ks, n * r + i);
        if (r == 0) in[i] = xorw(slice(x, i), k);
        else {
          unsigned c = i / 4, row = i % 4; size_t base = n * (r - 1) + 4 * c;
          Wires a0 = slice(w, base + row), a1 = slice(w, base + (row + 1) % 4), a2 = slice(w, base + (row + 2) % 4), a3 = slice(w, base + (row + 3) % 4);
          in[i] = xorw(xorw(xorw(x2(a0), xorw(x2(a1), a1)), xorw(a2, a3)), k);
        }
      }
      for (unsigned c = 0; c < nb; c++)
        for (unsigned row = 0; row < 4; row++) {
          unsigned src = 4 * ((c + shift_of(nb, row)) % nb) + row; // S-box feeding position (c,row) after ShiftRows
          so[src] = r + 1 < p.R ? slice(w, n * r + 4 * c + row)
                                : xorw(slice(out, 4 * c + row), slice(ks, n * p.R + 4 * c + row));
        }
      for (unsigned i = 0; i < n; i++) mult_one(in[i], inv_affine(so[i]));
    }
  }
  void run(const Wires& w, const uint8_t* in, const uint8_t* out) {
    auto consts = [&](const uint8_t* b, size_t n) { Wires r; for (size_t i = 0; i < n; i++) { Wires k = kbyte(b[i]); r.insert(r.end(), k.begin(), k.end()); } return r; };
    if (p.em) {
      Rijndael c(p.Nk, p.Nb, in);
      Wires key = slice(w, 0, p.lb), st(w.begin() + p.lambda, w.end());
      Wires o = xorw(consts(out, p.lb), key);
      encryption(key, consts(c.rk.data(), 4 * p.Nb * (p.R + 1)), st, o);
      return;
    }
    // key schedule
    Wires ks(32 * 4 * (p.R + 1));
    std::copy(w.begin(), w.begin() + p.lambda, ks.begin());
    size_t pos = p.lb; uint8_t rc = 1;
    for (unsigned k = p.Nk; k < 4 * (p.R + 1); k++) {
      bool full = k % p.Nk == 0, half = p.Nk > 6 && k % p.Nk == 4;
      Wires cur;
      if (full || half) {
        cur = slice(w, pos, 4); pos += 4;
      } else cur = xorw(slice(ks, 4 * (k - p.Nk), 4), slice(ks, 4 * (k - 1), 4));
      std::copy(cur.begin(), cur.end(), ks.begin() + 32 * k);
      if (full || half) {
        Wires so = xorw(cur, slice(ks, 4 * (k - p.Nk), 4));
        for (unsigned b = 0; b < 4; b++) {
          Wires y = slice(so, b);
          if (full && b == 0) { y = xorw(y, kbyte(rc)); rc = ST.m2[rc]; }
          mult_one(slice(ks, 4 * (k - 1) + (full ? (b + 1) % 4 : b)), inv_affine(y));
        }
      }
    }
    for (unsigned b = 0; b < p.beta; b++) {
      Wires st(w.begin() + p.Lke + b * p.Lenc, w.begin() + p.Lke + (b + 1) * p.Lenc);
      encryption(consts(in + 16 * b, 16), ks, st, consts(out + 16 * b, 16));
    }
  }
};
static F row_of(const Par& p, const std::vector<Bytes>& V, size_t row) {
  F r = fz();
  for (unsigned c = 0; c < p.lambda; c++) r.w[c / 64] |= (uint64_t)(V[c][row / 8] >> (row % 8) & 1) << (c % 64);
  return r;
}
static F sum_rows(const Par& p, const std::vector<Bytes>& V, size_t from) {
  // sum_i row_{from+i} * X^i : Horner
  F x = fz(); x.w[0] = 2; F r = fz();
  for (size_t i = p.lambda; i-- > 0;) r = fadd(fmul(p.lambda, r, x), row_of(p, V, from + i));
  return r;
}
unsigned violated(const Par& p, const Bytes& w, const uint8_t* in, const uint8_t* out) {
  unsigned bad = 0;
  Wires ww(p.l);
  for (unsigned i = 0; i < p.l; i++) ww[i] = Bit{(uint8_t)(w[i / 8] >> (i % 8) & 1), fz()};
  Circ c{p, false, fz(), nullptr};
  c.emit = [&](const F& a, const F&, const F& b, const F&) { if (!feq(fmul(p.lambda, a, b), fone())) bad++; };
  c.run(ww, in, out);
  return bad;
}
void prove(const Par& p, const Bytes& w, const Bytes& u, const std::vector<Bytes>& V, const uint8_t* in, const uint8_t* out,
           const uint8_t* chall2, Bytes& a_tilde, Bytes& b_tilde) {
  Wires ww(p.l);
  for (unsigned i = 0; i < p.l; i++) ww[i] = Bit{(uint8_t)(w[i / 8] >> (i % 8) & 1), row_of(p, V, i)};
  ZkHash h0(p.lambda, chall2), h1(p.lambda, chall2);
  Circ c{p, false, fz(), nullptr};
  c.emit = [&](const F& a, const F& va, const F& b, const F& vb) {
    // (va + a D)(vb + b D) - D^2 = va vb + (a vb + b va) D, using a b = 1.  The specification defines the
    // linear coefficient as (a+va)(b+vb) - 1 - va vb, which differs when a b != 1
    F a0 = fmul(p.lambda, va, vb);
    h0.update(a0);
    h1.update(fadd(fadd(fmul(p.lambda, fadd(a, va), fadd(b, vb)), fone()), a0));
  };
  c.run(ww, in, out);
  F us = fload(p.lambda, &u[p.l / 8]), vs = sum_rows(p, V, p.l);
  a_tilde.resize(p.lb); b_tilde.resize(p.lb);
  fstore(p.lambda, a_tilde.data(), h1.finalize(us));
  fstore(p.lambda, b_tilde.data(), h0.finalize(vs));
}
Bytes verify_proof(const Par& p, const Bytes& d, const std::vector<Bytes>& Q, const uint8_t* chall2, const uint8_t* chall3,
                   const uint8_t* a_tilde, const uint8_t* in, const uint8_t* out) {
  F delta = fload(p.lambda, chall3);
  Wires ww(p.l);
  for (unsigned i = 0; i < p.l; i++) {
    F q = row_of(p, Q, i);
    if (d[i / 8] >> (i % 8) & 1) q = fadd(q, delta);
    ww[i] = Bit{0, q};
  }
  ZkHash hb(p.lambda, chall2);
  F d2 = fmul(p.lambda, delta, delta);
  Circ c{p, true, delta, nullptr};
  c.emit = [&](const F&, const F& qa, const F&, const F& qb) { hb.update(fadd(fmul(p.lambda, qa, qb), d2)); };
  c.run(ww, in, out);
  F r = fadd(hb.finalize(sum_rows(p, Q, p.l)), fmul(p.lambda, fload(p.lambda, a_tilde), delta));
  Bytes o(p.lb); fstore(p.lambda, o.data(), r); return o;
}

// ---------------------------------------------------------------- signature scheme
Bytes sign_stmt(const Par& p, const uint8_t* key, const uint8_t* in, const uint8_t* out, const Bytes& msg, const Bytes& rho, const SignOpts& o) {
  unsigned L = p.lambda; size_t n = p.ell_hat_bytes;
  Bytes bin(in, in + p.ublk), bout(out, out + p.ublk), bkey(key, key + p.lb);
  Bytes mu = H(L, 1, {bin, bout, msg}, 2 * p.lb);
  Bytes ri = H(L, 3, {bkey, mu, rho}, p.lb + 16);
  Bytes root(ri.begin(), ri.begin() + p.lb), iv(ri.begin() + p.lb, ri.end());
  if (o.iv) iv.assign(o.iv, o.iv + 16);
  if (o.root) root.assign(o.root, o.root + p.lb);
  VoleP v = vole_commit(p, root.data(), iv.data(), n);
  if (o.vole) o.vole(v);
  Bytes cs; for (auto& c : v.c) cs.insert(cs.end(), c.begin(), c.end());
  Bytes ch1 = H(L, 2, {mu, v.hcom, cs, iv}, 5 * p.lb + 8);
  Bytes ut = vole_hash(L, ch1.data(), v.u.data(), p.l);
  std::vector<Bytes> vt; for (auto& c : v.V) vt.push_back(vole_hash(L, ch1.data(), c.data(), p.l));
  Bytes hv = H(L, 1, vt, 2 * p.lb);
  Bytes w = extend_witness(p, key, in);
  if (o.witness) o.witness(w);
  Bytes d(p.l / 8); for (size_t i = 0; i < d.size(); i++) d[i] = w[i] ^ v.u[i];
  Bytes ch2 = H(L, 2, {ch1, ut, hv, d}, 3 * p.lb + 8);
  Bytes at, bt; prove(p, w, v.u, v.V, in, out, ch2.data(), at, bt);
  Bytes ch3 = H(L, 2, {ch2, at, bt}, p.lb);
  Bytes s; s.reserve(p.sig);
  auto put = [&](const Bytes& b) { s.insert(s.end(), b.begin(), b.end()); };
  put(cs); put(ut); put(d); put(at);
  for (unsigned i = 0; i < p.tau; i++) { Bytes pd, cm; vc_open(v.vc[i], chal_dec(p, ch3.data(), i), pd, cm); put(pd); put(cm); }
  put(ch3); put(iv);
  if (s.size() != p.sig) abort();
  return s;
}
Bytes sign(const Par& p, const Bytes& sk, const Bytes& msg, const Bytes& rho, const SignOpts& o) {
  uint8_t out[32];
  if (!owf(p, &sk[p.ublk], &sk[0], out)) return Bytes();
  return sign_stmt(p, &sk[p.ublk], &sk[0], out, msg, rho, o);
}
bool verify(const Par& p, const Bytes& pk, const Bytes& msg, const Bytes& s) {
  if (s.size() != p.sig) return false;
  unsigned L = p.lambda; size_t n = p.ell_hat_bytes;
  Bytes in(pk.begin(), pk.begin() + p.ublk), out(pk.begin() + p.ublk, pk.begin() + p.pk);
  Bytes mu = H(L, 1, {in, out, msg}, 2 * p.lb);
  auto cut = [&](size_t o, size_t len) { return Bytes(s.begin() + o, s.begin() + o + len); };
  Bytes cs = cut(0, p.off_u), ut = cut(p.off_u, p.lb + 2), d = cut(p.off_d, p.l / 8), at = cut(p.off_a, p.lb),
        ch3 = cut(p.off_chall, p.lb), iv = cut(p.off_iv, 16);
  std::vector<Bytes> pd, cm;
  for (unsigned i = 0; i < p.tau; i++) { pd.push_back(cut(p.off_pdec(i), p.depth(i) * p.lb)); cm.push_back(cut(p.off_com(i), 2 * p.lb)); }
  VoleV v = vole_reconstruct(p, iv.data(), ch3.data(), pd, cm, n);
  Bytes ch1 = H(L, 2, {mu, v.hcom, cs, iv}, 5 * p.lb + 8);
  std::vector<Bytes> qt; unsigned col = 0;
  for (unsigned i = 0; i < p.tau; i++) {
    unsigned del = chal_dec(p, ch3.data(), i);
    for (unsigned j = 0; j < p.depth(i); j++, col++) {
      bool on = del >> j & 1;
      if (i && on) for (size_t b = 0; b < n; b++) v.Q[col][b] ^= cs[(i - 1) * n + b];
      Bytes q = vole_hash(L, ch1.data(), v.Q[col].data(), p.l);
      if (on) for (size_t b = 0; b < q.size(); b++) q[b] ^= ut[b];
      qt.push_back(q);
    }
  }
  Bytes hv = H(L, 1, qt, 2 * p.lb);
  Bytes ch2 = H(L, 2, {ch1, ut, hv, d}, 3 * p.lb + 8);
  Bytes bt = verify_proof(p, d, v.Q, ch2.data(), ch3.data(), at.data(), in.data(), out.data());
  return H(L, 2, {ch2, at, bt}, p.lb) == ch3;
}
bool derive_pk_zeros(const Par& p, const Bytes& sk, Bytes& pk, std::vector<int>& zeros) {
  zeros.clear(); zlog = &zeros;
  bool ok = derive_pk(p, sk, pk);
  zlog = nullptr;
  if (p.em) { std::vector<int> z; for (int v : zeros) if (v < 100000) z.push_back(v); zeros = z; }
  return ok;
}
bool derive_pk(const Par& p, const Bytes& sk, Bytes& pk) {
  pk.assign(p.pk, 0); memcpy(pk.data(), sk.data(), p.ublk);
  return owf(p, &sk[p.ublk], &sk[0], &pk[p.ublk]);
}

// ---------------------------------------------------------------- misc
static uint64_t sm(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ULL); z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ULL; z = (z ^ z >> 27) * 0x94d049bb133111ebULL; return z ^ z >> 31; }
Rng::Rng(uint64_t seed, uint64_t stream) { uint64_t x = seed * 0x2545F4914F6CDD1DULL + 0x1234567; x ^= sm(stream); for (auto& v : s) v = sm(x); }
uint64_t Rng::u64() {
  auto rl = [](uint64_t x, int k) { return x << k | x >> (64 - k); };
  uint64_t r = rl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rl(s[3], 45);
  return r;
}
void Rng::fill(void* p, size_t n) { uint8_t* b = (uint8_t*)p; while (n) { uint64_t v = u64(); size_t k = n < 8 ? n : 8; memcpy(b, &v, k); b += k; n -= k; } }
std::string hex(const uint8_t* p, size_t n) { static const char* d = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; } return s; }
Bytes unhex(const std::string& s) { Bytes b; for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t)strtoul(s.substr(i, 2).c_str(), nullptr, 16)); return b; }
} // namespace M
