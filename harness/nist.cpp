// C08 NIST-style API
#include "fv.h"
#include "sets.h"
using namespace fv;
typedef unsigned long long ull;
extern "C" {
#define D(x) int nist_##x##_keypair(unsigned char*, unsigned char*); \
  int nist_##x##_sign(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*); \
  int nist_##x##_open(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*);
D(128s) D(128f) D(192s) D(192f) D(256s) D(256f) D(em_128s) D(em_128f) D(em_192s) D(em_192f) D(em_256s) D(em_256f)
}
struct N { const char* name; int (*keypair)(unsigned char*, unsigned char*); int (*sign)(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*); int (*open)(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*); };
#define E(x) {#x, nist_##x##_keypair, nist_##x##_sign, nist_##x##_open}
static const N NS[] = {E(128s), E(128f), E(192s), E(192f), E(256s), E(256f), E(em_128s), E(em_128f), E(em_192s), E(em_192f), E(em_256s), E(em_256f)};
static Rng R(1);

int main(int argc, char** argv) {
  const Set& s = set_of(argv[1]);
  const M::Par& p = M::par(argv[1]);
  const N* n = nullptr;
  for (auto& x : NS) if (!strcmp(x.name, argv[1])) n = &x;
  R = Rng(envseed(), mix(7, "nist", 4) ^ mix(3, argv[1], strlen(argv[1])) ^ strtoull(argv[2], nullptr, 10));
  unsigned reps = strtoul(argv[3], nullptr, 10);
  unsigned first = strtoul(argv[4], nullptr, 10);
  std::string S = s.name;
  Bytes pk(p.pk), sk(p.sk);
  for (unsigned k = first; k < first + reps; k++) {
    uint64_t seed = R.u64();
    if (k == first || k % 8 == 0) {
      Guard gp(p.pk, R.below(2)), gs(p.sk, R.below(2));
      rnd().reset(seed);
      int rc = n->keypair(gp.p, gs.p);
      Bytes a(p.pk), b(p.sk); rnd().reset(seed); int r2 = s.keygen(a.data(), b.data());
      eval(); count("keypair");
      if (rc || r2 || gp.bytes() != a || gs.bytes() != b) viol("keypair:" + S, "rc %d / %d, same randomness, keys differ or error", rc, r2);
      pk = gp.bytes(); sk = gs.bytes();
    }
    static const size_t L[] = {0, 1, 2, 31, 32, 33, 33};
    size_t ml = k < 4 ? L[k] : R.below(3) ? R.below(600) : edge_len(R);
    if (R.below(10) == 0) ml = p.sig + R.below(3) - 1;
    Bytes m = R.bytes(ml);
    size_t total = ml + p.sig;
    // ---- signing layouts
    int lay = k % 6;
    long off = 0; // m = sm + off
    switch (lay) {
    case 0: off = 0; break;                                      // in place
    case 1: off = 1 + R.below(ml + 20); break;                   // message further up in the output buffer
    case 2: off = -(long)(1 + R.below(ml + 20)); break;          // message starts before
    case 3: off = (long)(R.below(2) ? p.sig : R.below(p.sig + 1)); break;  // message at the end of the output
    case 4: off = (long)ml; break;                               // message where the signature goes
    default: off = 1 << 30;                                      // disjoint
    }
    bool disjoint = lay == 5;
    if (!ml && lay == 4) off = 0;
    size_t lo = disjoint || off >= 0 ? 0 : (size_t)-off, hi = disjoint ? 0 : (off > 0 ? (size_t)off + ml > total ? (size_t)off + ml - total : 0 : 0);
    Guard g(lo + total + hi, R.below(2)), gm(m, R.below(2)), gk(sk);
    gk.readonly(); gm.readonly();
    g.fill((uint8_t)R.below(256));
    uint8_t* sm = g.p + lo;
    uint8_t* mp = disjoint ? gm.p : sm + off;
    if (!disjoint && ml) memcpy(mp, m.data(), ml);
    Bytes before = g.bytes();
    ull smlen = R.below(3) ? R.u64() : 0;
    rnd().reset(seed + 1);
    const unsigned char* marg = ml == 0 && R.below(2) ? nullptr : mp;
    int rc = n->sign(sm, &smlen, marg, ml, gk.p);
    eval(); count("signed"); count(disjoint ? "disjoint" : off == 0 ? "in_place" : off > 0 ? "overlap_up" : "overlap_down");
    std::string w = S + ":layout" + std::to_string(lay);
    Bytes got(sm, sm + total);
    distinct("ns", got, m, (uint64_t)off);
    if (rc) { viol("sign:" + w, "rc=%d mlen=%zu offset=%ld", rc, ml, off); continue; }
    if (smlen != total) viol("smlen:" + w, "%llu, expected %zu (mlen=%zu)", smlen, total, ml);
    if (Bytes(got.begin(), got.begin() + ml) != m) { viol("message-in-signed:" + w, "mlen=%zu offset=%ld: signed message does not start with the message", ml, off); continue; }
    int v = s.verify(pk.data(), m.data(), ml, &got[ml], p.sig);
    if (v) { viol("detached:" + w, "mlen=%zu offset=%ld: plain verification of the detached signature gives %d", ml, off, v); continue; }
    for (size_t i = 0; i < lo + total + hi; i++) if ((i < lo || i >= lo + total) && g.p[i] != before[i]) { viol("stray-write:" + w, "byte %ld relative to the signed message", (long)i - (long)lo); break; }
    if (k % 3 == 0) { // the plain API with the same randomness
      Bytes sg(p.sig); size_t sl = p.sig; rnd().reset(seed + 1);
      s.sign(sk.data(), m.data(), ml, sg.data(), &sl); count("compared_with_plain_api");
      if (memcmp(sg.data(), &got[ml], p.sig)) viol("differs-from-plain:" + w, "mlen=%zu", ml);
    }
    // ---- opening layouts
    int ol = R.below(5);
    switch (ol) {
    case 0: off = 0; break;
    case 1: off = 1 + R.below(total); break;
    case 2: off = -(long)(1 + R.below(ml + 20)); break;
    case 3: off = (long)R.below(40); break;
    default: off = 1 << 30;
    }
    disjoint = ol == 4;
    lo = disjoint || off >= 0 ? 0 : (size_t)-off; hi = disjoint || off <= 0 ? 0 : (size_t)off + ml > total ? (size_t)off + ml - total : 0;
    Guard o(lo + total + hi, R.below(2)), od(ml, R.below(2)), op(pk);
    op.readonly(); o.fill(0x5a); od.fill(0xa5);
    memcpy(o.p + lo, got.data(), total);
    if (disjoint) o.readonly();
    uint8_t* mo = disjoint ? od.p : o.p + lo + off;
    before = o.bytes();
    ull mlen = R.u64();
    rc = n->open(mo, &mlen, o.p + lo, total, op.p);
    eval(); count("opened"); distinct("no", got, pk, (uint64_t)off);
    w = S + ":open-layout" + std::to_string(ol);
    if (rc) viol("open:" + w, "rc=%d mlen=%zu offset=%ld", rc, ml, off);
    else {
      if (mlen != ml) viol("mlen:" + w, "%llu, expected %zu", mlen, ml);
      if (memcmp(mo, m.data(), ml)) viol("message:" + w, "mlen=%zu offset=%ld: opened message differs", ml, off);
      for (size_t i = 0; i < before.size(); i++) if (!(o.p + i >= mo && o.p + i < mo + ml) && o.p[i] != before[i]) { viol("stray-write:" + w, "byte %ld relative to the signed message", (long)i - (long)lo); break; }
    }
    sample("%s: mlen %zu sign layout %d, open layout %d offset %ld: opened", s.name, ml, lay, ol, off);
    // ---- failing openings write nothing
    for (int f = 0; f < 7; f++) {
      Bytes t = got, key = pk; ull tl = total; const char* what;
      switch (f) {
      case 0: what = "message-bit"; if (!ml) continue; t[R.below(ml)] ^= 1 << R.below(8); break;
      case 1: what = "signature-bit"; t[ml + R.below(p.sig)] ^= 1 << R.below(8); break;
      case 2: what = "truncated"; tl = total - 1 - R.below(R.below(2) ? 1 : total); break;
      case 3: what = "too-short"; tl = R.below(2) ? p.sig - 1 : R.below(p.sig); break;
      case 4: what = "extended"; t.push_back(0); tl++; break;
      case 5: what = "other-key"; key[R.below(p.pk)] ^= 1 << R.below(8); break;
      default: what = "last-signature-bit"; t[total - 1 - R.below(2) * 16] ^= 1 << R.below(8); break;
      }
      if (f >= 4 && (k + f) % 3) continue;
      t.resize(tl);
      Guard gt(t, R.below(2)), gmo(ml, R.below(2)), gp(key);
      uint8_t pat = (uint8_t)R.below(256); gmo.fill(pat); gp.readonly();
      bool inplace = R.below(3) == 0;
      if (!inplace) gt.readonly();
      ull l0 = R.u64(), l = l0;
      rc = n->open(inplace ? gt.p : gmo.p, &l, gt.p, tl, gp.p);
      eval(); count(what); distinct("nf", t, key, f);
      std::string z = S + ":" + what;
      if (rc == 0) viol("opened-altered:" + z, "smlen=%llu mlen=%zu", tl, ml);
      bool touched = inplace ? gt.bytes() != t : false;
      if (!inplace) for (size_t i = 0; i < ml; i++) touched |= gmo.p[i] != pat;
      if (rc && (touched || l != l0)) viol("output-on-failure:" + z, "message written: %d, length %llu -> %llu (smlen %llu)", touched, l0, l, tl);
    }
    // an invalid secret key and a failing random source are reported
    if (k % 4 == 1) {
      Bytes bad(p.sk, 0), q;
      while (M::derive_pk(p, bad, q)) R.fill(bad.data(), bad.size());
      Bytes out(total + 8, 7); ull l = 0;
      rnd().reset(seed);
      rc = n->sign(out.data(), &l, m.data(), ml, bad.data());
      eval(); count("sign_with_invalid");
      if (!rc) viol("signed-with-invalid:" + S, "sk=%s", H(bad).c_str());
      rnd().reset(seed); rnd().fail_at = 0;
      rc = n->sign(out.data(), &l, m.data(), ml, sk.data());
      count("sign_without_randomness");
      if (!rc) viol("signed-without-randomness:" + S, "mlen=%zu", ml);
      rnd().reset(seed); rnd().fail_at = 0;
      Bytes a(p.pk), b(p.sk);
      if (!n->keypair(a.data(), b.data())) viol("keypair-without-randomness:" + S, "rc=0");
      rnd().reset(seed);
    }
  }
  return finish();
}
