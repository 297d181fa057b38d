// Independent executable model of FAEST v1 (the oracle of the monitors).
// Shares no code with the repository: own Keccak (or OpenSSL's), OpenSSL AES,
// own Rijndael, bit-serial field arithmetic, one generic constraint system.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace M {
typedef std::vector<uint8_t> Bytes;

struct Par {
  const char* name;   // "128s", "em_128s"
  unsigned lambda;    // security parameter
  bool em;
  unsigned tau;
  // derived
  unsigned R, Nk, Nb, beta, Ske, Senc, Lke, Lenc, l, k0, k1, t0, t1;
  size_t lb, ell_hat, ell_hat_bytes, ublk, pk, sk, sig;
  // signature layout (offsets)
  size_t off_c, off_u, off_d, off_a, off_open, off_chall, off_iv;
  unsigned depth(unsigned i) const { return i < t0 ? k0 : k1; }
  size_t off_pdec(unsigned i) const;
  size_t off_com(unsigned i) const;
};
extern const std::vector<Par>& params();
const Par& par(const std::string& name);
// name of the field of the signature that holds byte `pos`
std::string sig_field(const Par& p, size_t pos);

// hashing
void keccak_f(uint64_t st[25]);
struct Xof {
  uint64_t st[25]; unsigned rate, pos; bool squeezing;
  explicit Xof(unsigned bits);           // 128 or 256
  void absorb(const void* p, size_t n);
  void finish();
  void squeeze(void* p, size_t n);
};
Bytes shake(unsigned bits, const Bytes& in, size_t outlen);
// H_dom(parts...) of FAEST at security level lambda
Bytes H(unsigned lambda, uint8_t dom, const std::vector<Bytes>& parts, size_t outlen);

// block ciphers
struct Rijndael { // Nk key words, Nb block words
  unsigned Nk, Nb, R; std::vector<uint8_t> rk; bool zero_in_ks;
  Rijndael(unsigned Nk, unsigned Nb, const uint8_t* key);
  // zero: set if a zero byte enters an S-box. states: after each ShiftRows but the last
  void encrypt(const uint8_t* in, uint8_t* out, bool* zero, Bytes* states = nullptr) const;
};
uint8_t sbox(uint8_t);
void prg(unsigned lambda, const uint8_t* key, const uint8_t* iv, uint8_t* out, size_t n);
bool owf(const Par&, const uint8_t* key, const uint8_t* input, uint8_t* output);

// fields: element of GF(2^n), n in 8,64,128,192,256
struct F { uint64_t w[4]; };
inline F fz() { return F{{0, 0, 0, 0}}; }
inline F fone() { return F{{1, 0, 0, 0}}; }
inline F fadd(F a, const F& b) { for (int i = 0; i < 4; i++) a.w[i] ^= b.w[i]; return a; }
inline bool feq(const F& a, const F& b) { return a.w[0]==b.w[0]&&a.w[1]==b.w[1]&&a.w[2]==b.w[2]&&a.w[3]==b.w[3]; }
F fmul(unsigned n, const F& a, const F& b);
F fload(unsigned n, const uint8_t* p);
void fstore(unsigned n, uint8_t* p, const F& a);
F falpha(unsigned n, unsigned i); // i-th power of the embedding of the AES field generator, i<8
uint8_t gf8_mul(uint8_t a, uint8_t b);
uint8_t gf8_inv(uint8_t a);

// universal hashes
Bytes vole_hash(unsigned lambda, const uint8_t* sd, const uint8_t* x, unsigned ell);
struct ZkHash {
  unsigned lambda; F r0, r1, s, t, h0, h1;
  ZkHash(unsigned lambda, const uint8_t* sd);
  void update(const F& v);
  F finalize(const F& x1) const;
};

// vector commitment
struct VC {
  unsigned depth; size_t lb; Bytes nodes; // heap order
  std::vector<Bytes> sd, com; Bytes h;
};
VC vc_commit(unsigned lambda, const uint8_t* root, const uint8_t* iv, unsigned depth);
void vc_open(const VC&, unsigned idx, Bytes& pdec, Bytes& com);
struct VCRec { std::vector<Bytes> sd; Bytes h; Bytes nodes; };
VCRec vc_reconstruct(unsigned lambda, const uint8_t* iv, unsigned depth, unsigned idx,
                     const uint8_t* pdec, const uint8_t* com);
// VOLE from 2^depth seeds; sd0 unknown -> u meaningless
void convert_to_vole(unsigned lambda, const uint8_t* iv, const std::vector<Bytes>& sd, bool sd0_bot,
                     unsigned depth, size_t outlen, Bytes& u, std::vector<Bytes>& v);
unsigned chal_dec(const Par&, const uint8_t* chall, unsigned i);
struct VoleP { Bytes hcom, u; std::vector<Bytes> c, V; std::vector<VC> vc; };
VoleP vole_commit(const Par&, const uint8_t* root, const uint8_t* iv, size_t ell_hat_bytes);
struct VoleV { Bytes hcom; std::vector<Bytes> Q; };
VoleV vole_reconstruct(const Par&, const uint8_t* iv, const uint8_t* chall, const std::vector<Bytes>& pdec,
                       const std::vector<Bytes>& com, size_t ell_hat_bytes);

// circuit
Bytes extend_witness(const Par&, const uint8_t* key, const uint8_t* in);
// number of violated constraints of the witness
unsigned violated(const Par&, const Bytes& w, const uint8_t* in, const uint8_t* out);
// V: lambda columns
void prove(const Par&, const Bytes& w, const Bytes& u, const std::vector<Bytes>& V, const uint8_t* in,
           const uint8_t* out, const uint8_t* chall2, Bytes& a_tilde, Bytes& b_tilde);
Bytes verify_proof(const Par&, const Bytes& d, const std::vector<Bytes>& Q, const uint8_t* chall2,
                   const uint8_t* chall3, const uint8_t* a_tilde, const uint8_t* in, const uint8_t* out);

struct SignOpts {
  const uint8_t* iv = nullptr;       // override the IV
  const uint8_t* root = nullptr;     // override the root key
  std::function<void(Bytes&)> witness; // tamper with the extended witness before committing to it
  // tamper with the VOLE commitment material before it is hashed
  std::function<void(VoleP&)> vole;
};
// signs for the statement (in,out) with OWF key `key` (which need not satisfy it)
Bytes sign_stmt(const Par&, const uint8_t* key, const uint8_t* in, const uint8_t* out, const Bytes& msg,
                const Bytes& rho, const SignOpts& o = SignOpts());
// as the API: sk = input || key. Empty on a key the API must reject
Bytes sign(const Par&, const Bytes& sk, const Bytes& msg, const Bytes& rho, const SignOpts& o = SignOpts());
bool verify(const Par&, const Bytes& pk, const Bytes& msg, const Bytes& sig);
bool derive_pk(const Par&, const Bytes& sk, Bytes& pk);
// also lists which S-boxes see a zero: 100000+4*word+byte in the key schedule, 10000*block+100*round+byte in a cipher
bool derive_pk_zeros(const Par&, const Bytes& sk, Bytes& pk, std::vector<int>& zeros);

// deterministic generator for workloads (splitmix/xoshiro)
struct Rng {
  uint64_t s[4];
  explicit Rng(uint64_t seed, uint64_t stream = 0);
  uint64_t u64();
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  void fill(void* p, size_t n);
  Bytes bytes(size_t n) { Bytes b(n); fill(b.data(), n); return b; }
};
std::string hex(const uint8_t* p, size_t n);
inline std::string hex(const Bytes& b) { return hex(b.data(), b.size()); }
Bytes unhex(const std::string& s);
} // namespace M
