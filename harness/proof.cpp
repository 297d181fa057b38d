// C20: proof values of both sides over an ideal correlation; single faults of witness, statement and every constraint
#include "fv.h"
extern "C" {
#include "faest_aes.h"
#include "instances.h"
}
using namespace fv;
static Rng R(1);
static faest_paramid_t pid(const std::string& s) {
  static const char* N[] = {"", "128s", "128f", "192s", "192f", "256s", "256f", "em_128s", "em_128f", "em_192s", "em_192f", "em_256s", "em_256f"};
  for (int i = 1; i <= 12; i++) if (s == N[i]) return (faest_paramid_t)i;
  die("set");
}
struct Cols { Bytes buf; std::vector<uint8_t*> p; size_t n; Cols(unsigned k, size_t n) : buf(k * n), p(k), n(n) { set(); } Cols(const Cols& o) : buf(o.buf), p(o.p.size()), n(o.n) { set(); }
  void set() { for (unsigned i = 0; i < p.size(); i++) p[i] = &buf[i * n]; } std::vector<Bytes> cols() const { std::vector<Bytes> v; for (unsigned i = 0; i < p.size(); i++) v.push_back(Bytes(&buf[i * n], &buf[i * n] + n)); return v; } };
struct Ctx { const M::Par& P; faest_paramset_t ps; size_t en, wl; unsigned lb; Ctx(const std::string& s) : P(M::par(s)), ps(faest_get_paramset(pid(s))), en(P.ell_hat_bytes), wl(P.l / 8), lb(P.lb) {} };
static Bytes chall2(const Ctx& c) { Bytes b = R.bytes(3 * c.lb + 8); if (R.below(16) == 0) memset(&b[R.below(3) * c.lb], (int)R.u64(), c.lb); return b; }
// a key, its statement
static void statement(const Ctx& c, Bytes& key, Bytes& in, Bytes& out) {
  for (;;) {
    key = R.bytes(c.lb); in = R.bytes(c.P.ublk); out.assign(c.P.ublk, 0);
    switch (R.below(8)) { case 0: memset(key.data(), (int)R.u64(), c.lb); break; case 1: memset(in.data(), (int)R.u64(), in.size()); break; case 2: key.assign(c.lb, 0); key[R.below(c.lb)] = 1 << R.below(8); break; }
    if (M::owf(c.P, key.data(), in.data(), out.data())) return;
  }
}
static void lib_prove(const Ctx& c, const Bytes& w, const Bytes& u, const Cols& V, const Bytes& in, const Bytes& out, const Bytes& ch2, Bytes& a, Bytes& b) {
  Cols v2 = V; Bytes o(2 * c.lb + 16, 0x61); Guard gw(w, R.below(2)), gu(u, R.below(2)), gi(in, R.below(2)), go(out, R.below(2)), gc(ch2, R.below(2));
  gw.readonly(); gu.readonly(); gi.readonly(); go.readonly(); gc.readonly();
  aes_prove(gw.p, gu.p, v2.p.data(), gi.p, go.p, gc.p, &o[0], &o[c.lb + 8], &c.ps);
  for (int i = 0; i < 8; i++) if (o[c.lb + i] != 0x61 || o[2 * c.lb + 8 + i] != 0x61) { viol(std::string("prove-writes-outside-") + c.P.name, "x"); break; }
  a.assign(o.begin(), o.begin() + c.lb); b.assign(o.begin() + c.lb + 8, o.begin() + 2 * c.lb + 8);
}
static Bytes lib_verify(const Ctx& c, const Bytes& d, const Cols& Q, const Bytes& ch2, const Bytes& ch3, const Bytes& a, const Bytes& in, const Bytes& out) {
  Cols q2 = Q; Guard gd(d, R.below(2)), gi(in, R.below(2)), go(out, R.below(2)), gc(ch2, R.below(2)), g3(ch3, R.below(2)), ga(a, R.below(2));
  gd.readonly(); gi.readonly(); go.readonly(); gc.readonly(); g3.readonly(); ga.readonly();
  uint8_t* r = aes_verify(gd.p, q2.p.data(), gc.p, g3.p, ga.p, gi.p, go.p, &c.ps);
  Bytes b(r, r + c.lb); free(r); return b;
}
static Cols correlate(const Ctx& c, const Bytes& u, const Cols& V, const Bytes& ch3) {
  Cols Q = V; for (unsigned i = 0; i < c.P.lambda; i++) if (ch3[i / 8] >> (i % 8) & 1) for (size_t j = 0; j < c.en; j++) Q.p[i][j] ^= u[j];
  return Q;
}
static Bytes mask(const Ctx& c, const Bytes& w, const Bytes& u) { Bytes d(c.wl); for (size_t i = 0; i < c.wl; i++) d[i] = w[i] ^ u[i]; return d; }
static Bytes delta(const Ctx& c, bool any) {
  Bytes b = R.bytes(c.lb); if (any) switch (R.below(8)) { case 0: b.assign(c.lb, 0); break; case 1: b.assign(c.lb, 0xff); break; case 2: b.assign(c.lb, 0); b[R.below(c.lb)] = 1 << R.below(8); break; }
  return b;
}
static void complete(const std::string& set, unsigned n, bool model) {
  Ctx c(set); Bytes key, in, out, a, b, ma, mb;
  for (unsigned k = 0; k < n; k++) {
    statement(c, key, in, out);
    Bytes w = M::extend_witness(c.P, key.data(), in.data());
    uint8_t* lw = aes_extend_witness(key.data(), in.data(), &c.ps); eval(); count("witnesses");
    if (memcmp(lw, w.data(), c.wl)) viol("witness-" + set, "key %s in %s", H(key).c_str(), H(in).c_str());
    free(lw);
    Bytes u = R.bytes(c.en), ch2 = chall2(c), ch3 = delta(c, true); Cols V(c.P.lambda, c.en); R.fill(V.buf.data(), V.buf.size());
    if (R.below(6) == 0) memset(V.buf.data(), (int)R.u64(), V.buf.size());
    if (R.below(6) == 0) memset(u.data(), (int)R.u64(), u.size());
    lib_prove(c, w, u, V, in, out, ch2, a, b); Cols Q = correlate(c, u, V, ch3); Bytes d = mask(c, w, u);
    Bytes q = lib_verify(c, d, Q, ch2, ch3, a, in, out); eval(2); count("proofs"); distinct(set.c_str(), a, b);
    if (q != b) viol("incomplete-" + set, "key %s in %s delta %s chall2 %s", H(key).c_str(), H(in).c_str(), H(ch3).c_str(), H(ch2, 200).c_str());
    if (model && k % 2 == 0) {
      M::prove(c.P, w, u, V.cols(), in.data(), out.data(), ch2.data(), ma, mb); count("model_proofs"); eval();
      if (a != ma || b != mb) viol("proof-" + set, "%s differs: key %s in %s chall2 %s", a != ma ? "a" : "b", H(key).c_str(), H(in).c_str(), H(ch2, 200).c_str());
    }
  }
  sample("%s: %u honest proofs agree, key %s", set.c_str(), n, H(key).c_str());
}
// the verifying side on arbitrary values
static void arbitrary(const std::string& set, unsigned n) {
  Ctx c(set);
  for (unsigned k = 0; k < n; k++) {
    Bytes d = R.bytes(c.wl), ch2 = chall2(c), ch3 = delta(c, true), a = R.bytes(c.lb), in = R.bytes(c.P.ublk), out = R.bytes(c.P.ublk); Cols Q(c.P.lambda, c.en); R.fill(Q.buf.data(), Q.buf.size());
    switch (R.below(6)) { case 0: memset(d.data(), (int)R.u64(), d.size()); break; case 1: memset(Q.buf.data(), (int)R.u64(), Q.buf.size()); break; case 2: memset(in.data(), (int)R.u64(), in.size()); break; case 3: memset(out.data(), (int)R.u64(), in.size()); break; }
    Bytes q = lib_verify(c, d, Q, ch2, ch3, a, in, out), m = M::verify_proof(c.P, d, Q.cols(), ch2.data(), ch3.data(), a.data(), in.data(), out.data()); eval(); count("arbitrary_verifications"); distinct(set.c_str(), q, d);
    if (q != m) viol("verification-value-" + set, "in %s out %s delta %s", H(in).c_str(), H(out).c_str(), H(ch3).c_str());
  }
}
// every bit of witness (lo..lo+n) and, when stmt, of the statement
static void bits(const std::string& set, unsigned lo, unsigned n, bool stmt, unsigned stride = 1) {
  Ctx c(set); Bytes key, in, out, a, b; statement(c, key, in, out); Bytes w = M::extend_witness(c.P, key.data(), in.data());
  Bytes u = R.bytes(c.en), ch2 = R.bytes(3 * c.lb + 8), ch3 = R.bytes(c.lb); Cols V(c.P.lambda, c.en); R.fill(V.buf.data(), V.buf.size()); Cols Q = correlate(c, u, V, ch3);
  if (!stmt) for (unsigned i = lo; i < lo + n && i < c.P.l; i++) {
    if ((i + i / 8 * 3 + envseed()) % stride) continue;
    Bytes w2 = w; w2[i / 8] ^= 1 << (i % 8); lib_prove(c, w2, u, V, in, out, ch2, a, b); Bytes q = lib_verify(c, mask(c, w2, u), Q, ch2, ch3, a, in, out);
    eval(); count("witness_bits"); distinct(set.c_str(), q, key, i);
    if (q == b) viol("unbound-witness-" + set, "bit %u of %u key %s in %s", i, c.P.l, H(key).c_str(), H(in).c_str());
  } else {
    lib_prove(c, w, u, V, in, out, ch2, a, b); Bytes d = mask(c, w, u);
    if (lib_verify(c, d, Q, ch2, ch3, a, in, out) != b) viol("incomplete-" + set, "key %s in %s", H(key).c_str(), H(in).c_str());
    for (unsigned i = lo; i < 16 * c.P.ublk; i += n) {
      Bytes i2 = in, o2 = out; (i < 8 * c.P.ublk ? i2 : o2)[i / 8 % c.P.ublk] ^= 1 << (i % 8); Bytes q = lib_verify(c, d, Q, ch2, ch3, a, i2, o2); eval(); count("statement_bits"); distinct(set.c_str(), q, key, i);
      if (q == b) viol("unbound-statement-" + set, "bit %u of the public %s", i, i < 8 * c.P.ublk ? "input" : "output");
      if (i / n % 3) continue;
      // proved for the wrong statement as well
      Bytes a2, b2; lib_prove(c, w, u, V, i2, o2, ch2, a2, b2); q = lib_verify(c, d, Q, ch2, ch3, a2, i2, o2); eval(); count("wrong_statements_proved");
      if (q == b2) viol("unbound-statement-" + set, "bit %u of the public %s, on both sides", i, i < 8 * c.P.ublk ? "input" : "output");
    }
    // one bit of a~, of d, of the correlation
    for (int k = 0; k < 40; k++) { Bytes a2 = a, d2 = d; Cols Q2 = Q; size_t p; int kind = k % 3; if (kind == 0) { p = R.below(8 * c.lb); a2[p / 8] ^= 1 << (p % 8); } else if (kind == 1) { p = R.below(c.P.l); d2[p / 8] ^= 1 << (p % 8); } else { size_t row = R.below(c.P.l + c.P.lambda); p = R.below(c.P.lambda); Q2.p[p][row / 8] ^= 1 << (row % 8); }
      Bytes q = lib_verify(c, d2, Q2, ch2, ch3, a2, in, out); eval(); count("values_changed"); if (q == b) viol("unbound-value-" + set, "kind %d position %zu", kind, p); }
  }
  sample("%s: %s, key %s", set.c_str(), stmt ? "every bit of the statement" : ("witness bits " + std::to_string(lo) + "..").c_str(), H(key).c_str());
}
// ---- a prover that computes honestly but for one S-box
struct Fault { bool ks = false; unsigned word = 0, byte = 0, block = 0, round = 0; uint8_t e = 0; bool on = false; };
static uint8_t x2(uint8_t a) { return (uint8_t)(a << 1 ^ (a & 0x80 ? 0x1b : 0)); }
static void build(const Ctx& c, const Bytes& key, const Bytes& in, const Fault& f, Bytes& w, Bytes& out) {
  const M::Par& P = c.P; w.clear(); unsigned nb = P.Nb, n = 4 * nb; Bytes ks;
  auto emit = [&](const uint8_t* p, size_t k) { w.insert(w.end(), p, p + k); };
  emit(key.data(), key.size());
  if (P.em) { M::Rijndael r(P.Nk, P.Nb, in.data()); ks = r.rk; }
  else {
    ks = key; uint8_t rc = 1;
    for (unsigned k = P.Nk; k < 4 * (P.R + 1); k++) {
      uint8_t t[4]; memcpy(t, &ks[4 * (k - 1)], 4); bool full = k % P.Nk == 0, half = P.Nk > 6 && k % P.Nk == 4;
      if (full) { uint8_t z = t[0]; t[0] = t[1]; t[1] = t[2]; t[2] = t[3]; t[3] = z; }
      if (full || half) for (unsigned b = 0; b < 4; b++) { t[b] = M::sbox(t[b]); if (f.on && f.ks && f.word == k && f.byte == b) t[b] ^= f.e; }
      if (full) { t[0] ^= rc; rc = x2(rc); }
      for (int b = 0; b < 4; b++) ks.push_back(t[b] ^ ks[4 * (k - P.Nk) + b]);
      if (full || half) emit(&ks[4 * k], 4);
    }
  }
  out.clear();
  for (unsigned bl = 0; bl < (P.em ? 1 : P.beta); bl++) {
    Bytes st(n); for (unsigned i = 0; i < n; i++) st[i] = (P.em ? key[i] : in[16 * bl + i]) ^ ks[i];
    for (unsigned r = 1; r <= P.R; r++) {
      Bytes s(n);
      for (unsigned i = 0; i < n; i++) { st[i] = M::sbox(st[i]); if (f.on && !f.ks && f.block == bl && f.round == r && f.byte == i) st[i] ^= f.e; }
      for (unsigned col = 0; col < nb; col++) for (unsigned row = 0; row < 4; row++) { unsigned sh = nb == 8 && row > 1 ? row + 1 : row; s[4 * col + row] = st[4 * ((col + sh) % nb) + row]; }
      if (r < P.R) { emit(s.data(), n); for (unsigned col = 0; col < nb; col++) { uint8_t* q = &s[4 * col]; uint8_t o[4]; for (int i = 0; i < 4; i++) o[i] = x2(q[i]) ^ x2(q[(i + 1) % 4]) ^ q[(i + 1) % 4] ^ q[(i + 2) % 4] ^ q[(i + 3) % 4]; memcpy(q, o, 4); } }
      for (unsigned i = 0; i < n; i++) st[i] = s[i] ^ ks[n * r + i];
    }
    for (unsigned i = 0; i < n; i++) out.push_back(P.em ? st[i] ^ key[i] : st[i]);
  }
}
static std::vector<Fault> all(const Ctx& c) {
  std::vector<Fault> v; const M::Par& P = c.P; Fault f; f.on = true;
  if (!P.em) for (unsigned k = P.Nk; k < 4 * (P.R + 1); k++) if (k % P.Nk == 0 || (P.Nk > 6 && k % P.Nk == 4)) for (f.byte = 0; f.byte < 4; f.byte++) { f.ks = true; f.word = k; v.push_back(f); }
  f.ks = false;
  for (f.block = 0; f.block < (P.em ? 1 : P.beta); f.block++) for (f.round = 1; f.round <= P.R; f.round++) for (f.byte = 0; f.byte < 4 * P.Nb; f.byte++) v.push_back(f);
  return v;
}
static void constraints(const std::string& set, unsigned part, unsigned parts) {
  Ctx c(set); Bytes key, in, out, o0, w, a, b; statement(c, key, in, out); Fault none; build(c, key, in, none, w, o0);
  if (w != M::extend_witness(c.P, key.data(), in.data()) || o0 != out) die("witness builder");
  std::vector<Fault> fs = all(c); if (fs.size() != (size_t)(c.P.em ? c.P.Senc : c.P.Ske + c.P.beta * c.P.Senc)) die("constraint count");
  Bytes u = R.bytes(c.en); Cols V(c.P.lambda, c.en); R.fill(V.buf.data(), V.buf.size());
  for (size_t i = part; i < fs.size(); i += parts) {
    Fault f = fs[i]; int tries = 0; Bytes k2 = key, i2 = in;
    for (;; tries++) {
      if (tries > 40) die("no single violation found");
      f.e = R.below(3) ? 1 << R.below(8) : (uint8_t)(1 + R.below(255)); if (tries) { statement(c, k2, i2, o0); }
      build(c, k2, i2, f, w, out); if (M::violated(c.P, w, i2.data(), out.data()) == 1) break;
    }
    Bytes ch2 = R.bytes(3 * c.lb + 8), ch3 = R.bytes(c.lb); Cols Q = correlate(c, u, V, ch3);
    lib_prove(c, w, u, V, i2, out, ch2, a, b); Bytes q = lib_verify(c, mask(c, w, u), Q, ch2, ch3, a, i2, out); eval(); count("single_constraints_violated"); distinct(set.c_str(), q, k2, i);
    if (q == b) viol("unenforced-constraint-" + set, "%s word %u byte %u block %u round %u error %02x key %s in %s", f.ks ? "key schedule" : "cipher", f.word, f.byte, f.block, f.round, f.e, H(k2).c_str(), H(i2).c_str());
  }
  sample("%s: constraints %u, %u+%u, ... violated one at a time, key %s", set.c_str(), part, part, parts, H(key).c_str());
}
static void witness(const std::string& set, unsigned n) {
  Ctx c(set); Bytes key, in, out;
  for (unsigned k = 0; k < n; k++) {
    statement(c, key, in, out); Guard gk(key, R.below(2)), gi(in, R.below(2)); gk.readonly(); gi.readonly(); uint8_t* lw = aes_extend_witness(gk.p, gi.p, &c.ps); Bytes w = M::extend_witness(c.P, key.data(), in.data()); eval(); count("witnesses"); distinct(set.c_str(), key, in);
    if (memcmp(lw, w.data(), c.wl)) viol("witness-" + set, "key %s in %s", H(key).c_str(), H(in).c_str());
    free(lw);
  }
}
int main(int argc, char** argv) {
  std::string m = argv[1], s = argv[2]; unsigned a = atoi(argv[3]), b = argc > 4 ? atoi(argv[4]) : 0, x = argc > 5 ? atoi(argv[5]) : 0;
  R = Rng(envseed(), M::Rng(a * 977 + b * 131 + x * 7 + m.size()).u64() ^ mix(1, s.data(), s.size()) ^ mix(2, m.data(), m.size()));
  if (m == "complete") complete(s, a, true);
  if (m == "arbitrary") arbitrary(s, a);
  if (m == "bits") bits(s, a, b, false, x ? x : 1);
  if (m == "statement") bits(s, a, b, true);
  if (m == "constraints") constraints(s, a, b);
  if (m == "witness") witness(s, a);
  return finish();
}
