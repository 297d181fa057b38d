// C13: prints what the library answers to fixed questions; the answers of all builds are compared
#ifdef FV_API_ONLY    // the library's own random source stays in use
#define FV_NO_RAND
#include "fv.h"
#elif defined(FV_REMOTE)   // answered by another program, whose hash is out of reach
#include "fv.h"
#else
#include "squeeze.h"
#endif
#include "sets.h"
using namespace fv;
static Rng R(1);
static std::string S;
static void T(const std::string& what, unsigned k, long rc, const Bytes& o, size_t len = 0) {
  uint64_t h = mix(mix(0x1234567, o.data(), o.size()), &rc, sizeof rc); h = mix(h, &len, sizeof len);
  printf("T %s/%u/%s %016llx %ld\n", S.c_str(), k, what.c_str(), (unsigned long long)h, rc);
}
static Bytes sized(Bytes b, long rc) { return rc ? Bytes() : b; }
int main(int argc, char** argv) {
  const Set& s = set_of(argv[1]); const M::Par& p = M::par(s.name); unsigned first = atoi(argv[2]), n = atoi(argv[3]); unsigned keys = atoi(argv[4]); S = s.name;
  if (argc > 5) {   // a message longer than its number of bits fits in 32
    R = Rng(envseed() * 131 + 13, 77); size_t big = (size_t(1) << 29) + 1000 + R.below(1000); Bytes sk, pk; do sk = R.bytes(p.sk); while (!M::derive_pk(p, sk, pk));
    Bytes msg(big), sig(p.sig); for (size_t i = 0; i < big; i += 61) msg[i] = (uint8_t)(i * 2654435761u >> 13);
    size_t l = p.sig; long rc = s.signr(sk.data(), msg.data(), big, nullptr, 0, sig.data(), &l); eval(); T("sign-big", 0, rc, sized(sig, rc), l); distinct(s.name, sig); count("signatures");
    for (size_t z : {big, big & 0x1fffffff, big - 1, size_t(0)}) { T("big" + std::to_string(big - z), 0, s.verify(pk.data(), msg.data(), z, sig.data(), sig.size()), Bytes()); eval(); count("verdicts"); }
    sample("%s key %s message of %zu bytes: %s", s.name, H(sk, 16).c_str(), big, H(sig, 16).c_str());
    return finish();
  }
  for (unsigned k = first; k < first + n; k++) {
    R = Rng(envseed() * 131 + 13, mix(k, s.name, strlen(s.name)));
    // every random choice is made before a call, so that all builds are asked the same
    Bytes sk, pk; do { sk = R.below(4) ? R.bytes(p.sk) : edge_bytes(R, p.sk); } while (!M::derive_pk(p, sk, pk));
    Bytes msg = edge_bytes(R, k % 5 == 4 ? edge_len(R) : R.below(400)), rho = edge_bytes(R, R.below(3) ? R.below(200) : 0); bool rnull = rho.empty() && R.below(2);
    Bytes sig(p.sig + 40, 0x33); size_t l = p.sig + R.below(40); size_t off = R.below(16);
    Bytes arr(off + p.sig + 40), alt; uint64_t rs = R.u64(), as = R.u64();
    long rc = s.signr(sk.data(), msg.data(), msg.size(), rnull ? nullptr : rho.data(), rho.size(), arr.data() + off, &l); eval();
    sig.assign(arr.begin() + off, arr.begin() + off + p.sig);
    T("sign", k, rc, sized(sig, rc), l); distinct(s.name, sig); count("signatures");
    if (k == first) sample("%s key %s message of %zu bytes: %s", s.name, H(sk, 16).c_str(), msg.size(), H(sig, 16).c_str());
    T("verify", k, s.verify(pk.data(), msg.data(), msg.size(), sig.data(), sig.size()), Bytes()); eval(); count("verdicts");
    // altered signatures: the verdict, whatever the position
    Rng A(as); size_t places[] = {(size_t)A.below(p.off_u), p.off_u + A.below(p.lb + 2), p.off_d + A.below(p.l / 8), p.off_a + A.below(p.lb), p.off_open + A.below(p.off_chall - p.off_open), p.off_chall + A.below(p.lb), p.off_iv + A.below(16)};
    for (int q = 0; q < (keys > 1 ? 7 : 1); q++) { Bytes b = sig; size_t at = places[(q + k) % 7]; b[at] ^= 1 << ((as >> q) & 7); T("altered" + std::to_string(q), k, s.verify(pk.data(), msg.data(), msg.size(), b.data(), b.size()), Bytes()); eval(); count("verdicts"); }
    for (size_t z : {(size_t)0, p.sig - 1, p.sig + 1}) { Bytes b = sig; b.resize(z); T("length" + std::to_string(z), k, s.verify(pk.data(), msg.data(), msg.size(), b.data(), z), Bytes()); eval(); count("verdicts"); }
#ifndef FV_API_ONLY
    if (keys > 1) {
      rnd().reset(rs); l = p.sig; rc = s.sign(sk.data(), msg.data(), msg.size(), sig.data(), &l); eval(); T("sign-drawn", k, rc, sized(sig, rc), l); count("signatures");
#ifndef FV_REMOTE
      Rng A(as ^ 1); Bytes iv(16, 0xff); if (k % 3) { size_t j = A.below(16); for (size_t i = 0; i < j; i++) iv[i] = A.u64(); }
      sq().clear(); sq().iv = iv.data(); sq().lambda = p.lambda; sq().begin(); l = p.sig; rc = s.signr(sk.data(), msg.data(), msg.size(), rho.data(), rho.size(), sig.data(), &l); sq().end(); eval();
      if (sq().iv_done && !rc && !memcmp(&sig[p.off_iv], iv.data(), 16)) { T("forced-iv", k, rc, sig, l); count("forced_iv"); }
      sq().clear();
#endif
    }
    for (unsigned i = 0; i < keys; i++) {
      Rng A(as, 100 + i); Bytes gp(p.pk, 9), gs(p.sk, 9); rnd().reset(A.u64()); rnd().keep = true;
      if (A.below(2)) { Bytes z = A.bytes(p.sk); z[p.ublk + A.below(p.lb)] = 0; z[p.ublk + p.lb - 3] = z[p.ublk + p.lb - 2] = 0; rnd().stream = z; }   // a first candidate that must be refused, often
      rc = s.keygen(gp.data(), gs.data()); eval(); Bytes all = gp; all.insert(all.end(), gs.begin(), gs.end()); T("keygen" + std::to_string(i), k, rc, sized(all, rc), rnd().consumed.size()); count("key_pairs");
    }
#endif
    for (unsigned i = 0; i < keys; i++) {
      Rng A(as, 200 + i); Bytes a = A.bytes(p.sk), b; switch (A.below(3)) { case 0: a[p.ublk + A.below(p.lb)] = 0; a[p.ublk + p.lb - 1 - A.below(4)] = 0; break; case 1: memset(&a[p.ublk], 0, 4); break; default:; }
      bool ok = M::derive_pk(p, a, b); if (!ok) b = A.bytes(p.pk); if (!A.below(3)) b[A.below(p.pk)] ^= 1 << A.below(8);
      T("validate" + std::to_string(i), k, s.validate(b.data(), a.data()), Bytes()); eval(); count("verdicts");
      if (!ok) { Bytes o(p.sig); l = p.sig; T("invalid-key" + std::to_string(i), k, s.signr(a.data(), msg.data(), 3 < msg.size() ? 3 : msg.size(), nullptr, 0, o.data(), &l), Bytes()); eval(); count("verdicts"); }
    }
    Bytes c = sk; s.clear(c.data()); T("clear", k, 0, c); eval();
  }
  return finish();
}
