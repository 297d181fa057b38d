// C21 (a): how key generation and signing use and react to the random source handed to them
#include "fv.h"
#include "sets.h"
using namespace fv;
static Rng R(1);
static bool COSTLY(const char* n) { return std::string(n).back() == 's'; }
static Bytes good_sk(const Set& s, Bytes& pk) { const M::Par& P = M::par(s.name); for (;;) { Bytes sk = R.bytes(s.sk); if (M::derive_pk(P, sk, pk)) return sk; } }
// a secret key whose schedule or cipher meets a zero S-box input
static Bytes bad_sk(const Set& s) { const M::Par& P = M::par(s.name); Bytes pk; for (;;) { Bytes sk = R.bytes(s.sk); if (R.below(2)) memcpy(&sk[0], &sk[P.ublk], R.below(2) ? P.ublk < P.lb ? P.ublk : P.lb : 1); if (!M::derive_pk(P, sk, pk)) return sk; } }
static void influence(const Set& s, unsigned n) {
  const M::Par& P = M::par(s.name);
  for (unsigned k = 0; k < n; k++) {
    // key generation: the keys are the drawn block; change any byte, the keys change
    Bytes pk0; Bytes sk0 = good_sk(s, pk0); Bytes pk(s.pk), sk(s.sk);
    auto gen = [&](const Bytes& stream, Bytes& p, Bytes& q) { rnd().reset(77 + k); rnd().stream = stream; rnd().keep = rnd().record = true; p.assign(s.pk, 0xcc); q.assign(s.sk, 0xcc); int r = s.keygen(p.data(), q.data()); eval(); return r; };
    if (gen(sk0, pk, sk) != 0) viol(std::string("keygen-fails-") + s.name, "block %s", H(sk0).c_str());
    if (rnd().consumed.size() < s.sk) viol(std::string("keygen-draws-little-") + s.name, "%zu bytes", rnd().consumed.size());
    if (rnd().consumed.size() > 4 * s.sk + 64) count("extra_draws");
    count("keygen_draws"); distinct("kg", sk0, pk);
    Bytes a = pk, b = sk, c = rnd().consumed;
    if (gen(sk0, pk, sk) != 0 || pk != a || sk != b) viol(std::string("keygen-not-a-function-of-its-draw-") + s.name, "block %s", H(sk0).c_str());
    for (unsigned i = 0; i < s.sk; i++) { Bytes x = c; x[i] ^= 1 << R.below(8); if (gen(x, pk, sk) != 0) viol(std::string("keygen-fails-") + s.name, "x"); count("keygen_byte_influence"); if (pk == a || sk == b) viol(std::string("keygen-ignores-byte-") + s.name, "byte %u of the random block", i); }
    // signing
    Bytes msg = edge_bytes(R, R.below(100)), blk = R.bytes(256), sig(s.sig + 8, 0x11), ref;
    auto sg = [&](const Bytes& st, Bytes& o) { rnd().reset(5); rnd().stream = st; rnd().keep = true; o.assign(s.sig, 0x22); size_t l = s.sig; int r = s.sign(sk0.data(), msg.data(), msg.size(), o.data(), &l); eval(); if (r != 0 || l != s.sig) viol(std::string("sign-fails-") + s.name, "%d", r); };
    sg(blk, ref); Bytes used = rnd().consumed; count("sign_draws");
    if (used.size() < P.lb) viol(std::string("sign-draws-little-") + s.name, "%zu bytes of randomness for a %u bit set", used.size(), P.lambda);
    Bytes o; sg(blk, o); if (o != ref) viol(std::string("sign-not-a-function-of-its-draw-") + s.name, "x");
    std::vector<unsigned> at; for (unsigned i = 0; i < used.size(); i++) at.push_back(i);
    if (s.sig && COSTLY(s.name)) { for (size_t i = at.size(); i > 1; i--) std::swap(at[i - 1], at[R.below(i)]); if (at.size() > 5) at.resize(5); at.push_back(0); at.push_back((unsigned)used.size() - 1); }
    std::vector<Bytes> seen{ref};
    for (unsigned i : at) { Bytes x = blk; x[i] ^= 1 << R.below(8); sg(x, o); count("sign_byte_influence"); distinct("sg", o);
      for (auto& q : seen) if (q == o || !memcmp(&q[P.off_iv], &o[P.off_iv], 16) || !memcmp(&q[0], &o[0], P.off_u)) { viol(std::string("sign-ignores-byte-") + s.name, "byte %u of the random block", i); break; } }
    // the drawn block is the additional randomness of the deterministic entry point
    size_t l = s.sig; s.signr(sk0.data(), msg.data(), msg.size(), used.data(), used.size(), o.data(), &l); if (o == ref) count("block_is_rho");
  }
  sample("%s: every byte of the random block of keygen and sign changed", s.name);
}
static void failures(const Set& s, unsigned n) {
  const M::Par& P = M::par(s.name);
  for (unsigned k = 0; k < n; k++) {
    // up to k candidates are rejected before the source fails; in the middle of a block as well
    for (unsigned at = 0; at < 6; at++) for (int part = 0; part < 2; part++) {
      Bytes pk(s.pk), sk(s.sk), st; Bytes p0, s0 = good_sk(s, p0);
      // leftovers: the buffer already holds a good key pair or a constant
      int left = (int)R.below(3); if (left == 0) { pk.assign(s.pk, 0); sk.assign(s.sk, 0); } else if (left == 1) { pk = p0; sk = s0; } else { pk.assign(s.pk, 0xa5); sk.assign(s.sk, 0xa5); }
      rnd().reset(R.u64()); for (unsigned i = 0; i < at; i++) { Bytes b = bad_sk(s); rnd().script.push_back(b); }
      rnd().fail_at = at; rnd().partial = part; Bytes opk = pk, osk = sk;
      int r = s.keygen(pk.data(), sk.data()); eval(); count("keygen_failures"); distinct("kf", sk, pk, at * 2 + part);
      if (r == 0) viol(std::string("keygen-ignores-failure-") + s.name, "draw %u failed (partial %d): returned 0 with pk %s", at, part, H(pk).c_str());
      else if (rnd().calls > (long)at + 1) count("keeps_drawing_after_failure");
    }
    if (COSTLY(s.name) && k) continue;
    for (int part = 0; part < 2; part++) {
      Bytes p0, s0 = good_sk(s, p0), msg = edge_bytes(R, R.below(60)), sig(s.sig, 0x3c); size_t l = s.sig; rnd().reset(R.u64()); rnd().fail_at = 0; rnd().partial = part;
      int r = s.sign(s0.data(), msg.data(), msg.size(), sig.data(), &l); eval(); count("sign_failures"); distinct("sf", s0, msg, part);
      if (rnd().calls == 0) { count("sign_without_draw"); viol(std::string("sign-draws-nothing-") + s.name, "x"); }
      else if (r == 0) viol(std::string("sign-ignores-failure-") + s.name, "the draw failed (partial %d): returned 0", part);
      if (r != 0 && s.verify(p0.data(), msg.data(), msg.size(), sig.data(), s.sig) == 0) viol(std::string("sign-emits-on-failure-") + s.name, "error returned, valid signature left behind");
      // the next call works again
      rnd().reset(R.u64()); l = s.sig; r = s.sign(s0.data(), msg.data(), msg.size(), sig.data(), &l); eval();
      if (r != 0 || s.verify(p0.data(), msg.data(), msg.size(), sig.data(), l) != 0) viol(std::string("sign-after-failure-") + s.name, "%d", r);
    }
    (void)P;
  }
  sample("%s: the source fails at each of the first draws, with and without partial delivery", s.name);
}
int main(int argc, char** argv) {
  std::string m = argv[1]; const Set& s = set_of(argv[2]); unsigned sub = atoi(argv[3]), n = atoi(argv[4]);
  R = Rng(envseed(), mix(sub * 31 + m.size(), argv[2], strlen(argv[2])));
  if (m == "influence") influence(s, n);
  if (m == "failures") failures(s, n);
  return finish();
}
