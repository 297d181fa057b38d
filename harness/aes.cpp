// C15: block ciphers, key schedules, zero indication, counter mode
#include "fv.h"
#include <openssl/evp.h>
extern "C" {
#include "aes.h"
}
using namespace fv;
static Rng R(1);
struct Ci { const char* name; unsigned nk, nb; int (*init)(aes_round_keys_t*, const uint8_t*); int (*enc)(const aes_round_keys_t*, const uint8_t*, uint8_t*); };
static const Ci CI[] = {
    {"aes128", 4, 4, aes128_init_round_keys, aes128_encrypt_block}, {"aes192", 6, 4, aes192_init_round_keys, aes192_encrypt_block},
    {"aes256", 8, 4, aes256_init_round_keys, aes256_encrypt_block}, {"rijndael192", 6, 6, rijndael192_init_round_keys, rijndael192_encrypt_block},
    {"rijndael256", 8, 8, rijndael256_init_round_keys, rijndael256_encrypt_block}};
static Bytes val(size_t n) {
  Bytes b(n);
  switch (R.below(7)) {
  case 0: memset(b.data(), (int)R.below(256), n); break;
  case 1: b[R.below(n)] = (uint8_t)R.u64(); break;
  case 2: memset(b.data(), 0xff, n); b[R.below(n)] ^= 1 << R.below(8); break;
  case 3: for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i + R.below(2)); break;
  default: R.fill(b.data(), n);
  }
  return b;
}
static void ossl(const Ci& c, const uint8_t* key, const uint8_t* in, uint8_t* out) {
  EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); int l;
  EVP_EncryptInit_ex(x, c.nk == 4 ? EVP_aes_128_ecb() : c.nk == 6 ? EVP_aes_192_ecb() : EVP_aes_256_ecb(), nullptr, key, nullptr);
  EVP_CIPHER_CTX_set_padding(x, 0); EVP_EncryptUpdate(x, out, &l, in, 16); EVP_CIPHER_CTX_free(x);
}
static void blocks(const Ci& c, unsigned n) {
  size_t kl = 4 * c.nk, bl = 4 * c.nb;
  for (unsigned k = 0; k < n; k++) {
    Bytes key = val(kl);
    M::Rijndael m(c.nk, c.nb, key.data());
    aes_round_keys_t rk; memset(&rk, (int)R.below(256), sizeof rk);
    int z = c.init(&rk, key.data());
    eval(); distinct(c.name, key);
    if ((z != 0) != m.zero_in_ks) viol(std::string("key-schedule-zero-") + c.name, "key %s: reported %d, a zero %s", H(key).c_str(), z, m.zero_in_ks ? "exists" : "does not exist");
    count(m.zero_in_ks ? "ks_zero" : "ks_nonzero");
    for (unsigned r = 0; r <= m.R; r++) for (unsigned w = 0; w < c.nb; w++)
      if (memcmp(rk.round_keys[r][w], &m.rk[(r * c.nb + w) * 4], 4)) { viol(std::string("round-key-") + c.name, "key %s round %u word %u", H(key).c_str(), r, w); r = 99; break; }
    for (int t = 0; t < 6; t++) {
      Bytes in = val(bl), w(bl), g(bl); bool zz = false;
      m.encrypt(in.data(), w.data(), &zz);
      if (c.nb == 4) { uint8_t o[16]; ossl(c, key.data(), in.data(), o); if (memcmp(o, w.data(), 16)) die("the model disagrees with OpenSSL"); }
      int q;
      if (R.below(4) == 0) { g = in; q = c.enc(&rk, g.data(), g.data()); count("in_place"); }
      else if (R.below(4) == 0) { Guard gi(in, R.below(2)), go(bl, R.below(2)); gi.readonly(); q = c.enc(&rk, gi.p, go.p); g = go.bytes(); count("guarded"); }
      else q = c.enc(&rk, in.data(), g.data());
      eval(); distinct(c.name, key, in);
      if (g != w) viol(std::string("block-") + c.name, "key %s block %s: %s instead of %s", H(key).c_str(), H(in).c_str(), H(g).c_str(), H(w).c_str());
      if ((q != 0) != zz) viol(std::string("zero-indication-") + c.name, "key %s block %s: reported %d, a zero %s", H(key).c_str(), H(in).c_str(), q, zz ? "exists" : "does not exist");
      count(zz ? "sbox_zero" : "sbox_nonzero");
    }
  }
  sample("%s: %u keys, round keys, blocks and zero indications equal", c.name, n);
}
// a block whose only zero S-box input is at a chosen (round, byte): decrypt from there by search over random states
static void locations(const Ci& c, unsigned want) {
  size_t kl = 4 * c.nk, bl = 4 * c.nb; std::map<int, unsigned> seen; unsigned total = (unsigned)(M::Rijndael(c.nk, c.nb, Bytes(kl).data()).R * bl);
  for (unsigned k = 0; k < want * 40 && seen.size() < total; k++) {
    Bytes key = R.bytes(kl); M::Rijndael m(c.nk, c.nb, key.data()); aes_round_keys_t rk; c.init(&rk, key.data());
    for (int t = 0; t < 24; t++) {
      Bytes in = R.bytes(bl), w(bl), g(bl); bool zz = false;
      if (R.below(3) == 0) { size_t b = R.below(bl); in[b] = m.rk[b]; } // zero in the first round
      Bytes st; m.encrypt(in.data(), w.data(), &zz, &st);
      int q = c.enc(&rk, in.data(), g.data()); eval();
      if ((q != 0) != zz || g != w) viol(std::string("zero-indication-") + c.name, "key %s block %s: reported %d", H(key).c_str(), H(in).c_str(), q);
      // the S-box outputs of a zero are 0x63: locate the single one (round states after ShiftRows of all but the last round)
      int where = -1, cnt = 0; for (size_t i = 0; i < st.size(); i++) if (st[i] == 0x63) { cnt++; where = (int)i; }
      if (zz && cnt == 1) seen[where]++;
      if (zz && cnt == 0) seen[-(1 + (int)R.below(1))]++; // last round
    }
  }
  count("zero_locations", seen.size());
}
static void chains(const Ci& c, unsigned n) {
  size_t kl = 4 * c.nk, bl = 4 * c.nb; Bytes key = R.bytes(kl), a = R.bytes(bl), b = a;
  for (unsigned i = 0; i < n; i++) {
    M::Rijndael m(c.nk, c.nb, key.data()); aes_round_keys_t rk; c.init(&rk, key.data());
    for (int j = 0; j < 50; j++) { bool z; m.encrypt(a.data(), a.data(), &z); c.enc(&rk, b.data(), b.data()); eval(); }
    if (a != b) { viol(std::string("chain-") + c.name, "after %u", i); return; }
    for (size_t j = 0; j < kl; j++) key[j] ^= a[j % bl];
  }
  distinct("chain", a); count("chains");
}
static void inc(unsigned n) {
  for (unsigned k = 0; k < n; k++) {
    Bytes iv = val(16); size_t t = R.below(17); for (size_t i = 0; i < t; i++) iv[15 - i] = 0xff;
    if (R.below(4) == 0) { memset(iv.data(), 0xff, 16); if (R.below(2)) iv[R.below(16)] = 0xfe; }
    Bytes w = iv; for (int i = 15; i >= 0; i--) if (++w[i]) break;
    Guard g(iv, R.below(2)); aes_increment_iv(g.p); eval(); distinct("inc", iv); count("increments");
    if (g.bytes() != w) viol("increment", "%s -> %s", H(iv).c_str(), H(g.bytes()).c_str());
  }
}
static Bytes xiv() {
  Bytes iv = R.bytes(16);
  switch (R.below(8)) {
  case 0: memset(iv.data(), 0xff, 16); break;
  case 1: { size_t k = 1 + R.below(16); memset(&iv[16 - k], 0xff, k); iv[15] -= (uint8_t)R.below(20); break; }
  case 2: memset(iv.data(), 0xff, 16); iv[15] = (uint8_t)(0xff - R.below(256)); break;
  case 3: memset(&iv[12], 0xff, 4); iv[15] -= (uint8_t)R.below(8); break;      // 32-bit border
  case 4: memset(&iv[8], 0xff, 8); iv[15] -= (uint8_t)R.below(8); break;       // 64-bit border
  case 5: memset(iv.data(), 0, 16); iv[R.below(16)] = (uint8_t)R.u64(); break;
  case 6: iv[15] = (uint8_t)(0xff - R.below(4)); iv[14] = 0xff; break;
  default:;
  }
  return iv;
}
static void prgs(unsigned sec, unsigned n, unsigned len0, unsigned maxlen) {
  for (unsigned k = 0; k < n; k++) {
    Bytes key = val(sec / 8), iv = xiv(); size_t len = maxlen ? R.below(maxlen) : len0 + k;
    Bytes w(len); M::prg(sec, key.data(), iv.data(), w.data(), len);
    Bytes g;
    if (R.below(3) == 0) { Guard gk(key, R.below(2)), gi(iv, R.below(2)), go(len, R.below(2)); gk.readonly(); gi.readonly(); go.fill(0x5a); prg(gk.p, gi.p, go.p, sec, len); g = go.bytes(); count("guarded"); }
    else { size_t mis = R.below(16); Bytes t(mis + len + 16, 0x77); Bytes k0 = key, i0 = iv; prg(key.data(), iv.data(), t.data() + mis, sec, len); g.assign(t.begin() + mis, t.begin() + mis + len);
      for (size_t i = 0; i < 16; i++) if (t[mis + len + i] != 0x77) viol("prg-writes-outside", "level %u length %zu", sec, len);
      if (key != k0 || iv != i0) viol("prg-changes-input", "level %u length %zu", sec, len); }
    eval(); distinct("prg", key, iv, len); count("prg"); if (iv[12] == 0xff && iv[13] == 0xff && iv[14] == 0xff) count("prg_carry");
    if (g != w) { size_t i = 0; while (g[i] == w[i]) i++; viol("prg-" + std::to_string(sec), "key %s iv %s length %zu: first difference at %zu", H(key).c_str(), H(iv).c_str(), len, i); }
    if (k == 1) sample("level %u iv %s length %zu", sec, H(iv).c_str(), len);
  }
}
int main(int argc, char** argv) {
  std::string m = argv[1]; unsigned a = atoi(argv[2]), n = atoi(argv[3]), x = argc > 4 ? atoi(argv[4]) : 0;
  R = Rng(envseed(), a * 977 + m.size() * 131 + x * 7 + 5);
  if (m == "blocks") blocks(CI[a], n);
  if (m == "locations") locations(CI[a], n);
  if (m == "chains") chains(CI[a], n);
  if (m == "inc") inc(n);
  if (m == "prglen") prgs(a, n, x, 0);
  if (m == "prg") prgs(a, n, 0, x);
  return finish();
}
