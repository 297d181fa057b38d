// C19: the correlation between committed and reconstructed vectors at enumerated and random challenges
#include "fv.h"
#include "chal.h"
extern "C" {
#include "vole.h"
#include "instances.h"
}
using namespace fv;
static Rng R(1);
static Bytes iv_() {
  Bytes b = R.bytes(16);
  switch (R.below(4)) {
  case 0: memset(b.data(), 0xff, 16); b[0] -= R.below(4); break;
  case 1: memset(b.data(), 0xff, 1 + R.below(15)); break;
  }
  return b;
}
static faest_paramid_t pid(const std::string& s) {
  static const char* N[] = {"", "128s", "128f", "192s", "192f", "256s", "256f", "em_128s", "em_128f", "em_192s", "em_192f", "em_256s", "em_256f"};
  for (int i = 1; i <= 12; i++) if (s == N[i]) return (faest_paramid_t)i;
  die("set");
}
struct Cols { std::vector<uint8_t> buf; std::vector<uint8_t*> p; size_t n; Cols(unsigned k, size_t n, uint8_t fill) : buf(k * n, fill), p(k), n(n) { for (unsigned i = 0; i < k; i++) p[i] = &buf[i * n]; } };
static void corr(const std::string& set, unsigned n, unsigned first, bool model) {
  const M::Par& P = M::par(set); unsigned lam = P.lambda, lb = P.lb; faest_paramset_t ps = faest_get_paramset(pid(set)); size_t en = P.ell_hat_bytes;
  Bytes root = R.bytes(lb), iv = iv_(), hcom(2 * lb), c((P.tau - 1) * en + 16, 0x6b), u(en, (uint8_t)R.u64()); Cols V(lam, en, (uint8_t)R.u64());
  if (R.below(8) == 0) memset(root.data(), R.below(2) ? 0xff : 0, lb);
  std::vector<vec_com_t> vc(P.tau); memset(vc.data(), 0, vc.size() * sizeof(vec_com_t));
  { Guard gu(en), gc((P.tau - 1) * en), gh(2 * lb), gr(root), gi(iv); gu.fill(R.u64()); gc.fill(R.u64()); gr.readonly(); gi.readonly();
    vole_commit(gr.p, gi.p, (unsigned)P.ell_hat, &ps, gh.p, vc.data(), gc.p, gu.p, V.p.data());
    memcpy(u.data(), gu.p, en); memcpy(c.data(), gc.p, (P.tau - 1) * en); memcpy(hcom.data(), gh.p, 2 * lb); }
  eval(); count("commits");
  std::string where = "set " + set + " root " + H(root) + " iv " + H(iv);
  if (model) {
    M::VoleP m = M::vole_commit(P, root.data(), iv.data(), en); count("model_commits"); eval();
    if (hcom != m.hcom) viol("commit-digest-" + set, "%s", where.c_str());
    if (u != m.u) viol("commit-u-" + set, "%s", where.c_str());
    for (unsigned i = 0; i + 1 < P.tau; i++) if (memcmp(&c[i * en], m.c[i].data(), en)) { viol("commit-correction-" + set, "repetition %u %s", i + 1, where.c_str()); break; }
    for (unsigned i = 0; i < lam; i++) if (memcmp(V.p[i], m.V[i].data(), en)) { viol("commit-V-" + set, "column %u %s", i, where.c_str()); break; }
  }
  Cols Q(lam, en, 0);
  for (unsigned k = 0; k < n; k++) {
    unsigned what = first + k; Bytes ch(lb), hq(2 * lb);
    // 0: all zero, 1: all one, 2..: single bits, single zero bits, then random and mixtures with extreme repetitions
    if (what == 0) memset(ch.data(), 0, lb);
    else if (what == 1) memset(ch.data(), 0xff, lb);
    else if (what < 2 + lam) ch[(what - 2) / 8] |= 1 << ((what - 2) % 8);
    else {
      R.fill(ch.data(), lb);
      if (what & 1) pack_challenge(R, P, ch);
    }
    std::vector<Bytes> pd(P.tau), cj(P.tau); std::vector<const uint8_t*> pp, cp; unsigned bit = 0;
    for (unsigned i = 0; i < P.tau; i++) {
      unsigned d = P.depth(i); Bytes b(d); for (unsigned j = 0; j < d; j++, bit++) b[j] = ch[bit / 8] >> (bit % 8) & 1;
      pd[i].resize(d * lb); cj[i].resize(2 * lb); vector_open(vc[i].k, vc[i].com, b.data(), pd[i].data(), cj[i].data(), d, lb); pp.push_back(pd[i].data()); cp.push_back(cj[i].data());
    }
    if (bit != lam) die("depths");
    memset(Q.buf.data(), (int)R.u64(), Q.buf.size());
    { Guard gc(ch, R.below(2)), gi(iv, R.below(2)); gc.readonly(); gi.readonly(); vole_reconstruct(gi.p, gc.p, pp.data(), cp.data(), hq.data(), Q.p.data(), (unsigned)P.ell_hat, &ps); }
    eval(); distinct(set.c_str(), root, ch); count(what < 2 ? "constant_challenges" : what < 2 + lam ? "single_bit_challenges" : "mixed_challenges");
    if (hq != hcom) viol("digests-differ-" + set, "challenge %s %s", H(ch).c_str(), where.c_str());
    unsigned col = 0; bool bad = false;
    for (unsigned i = 0; i < P.tau && !bad; i++) for (unsigned j = 0; j < P.depth(i) && !bad; j++, col++) {
      bool on = ch[col / 8] >> (col % 8) & 1;
      for (size_t x = 0; x < en; x++) { uint8_t e = V.p[col][x]; if (on) e ^= u[x] ^ (i ? c[(i - 1) * en + x] : 0); if (Q.p[col][x] != e) { viol("correlation-" + set, "repetition %u bit %u byte %zu challenge %s %s", i, j, x, H(ch).c_str(), where.c_str()); bad = true; break; } }
      count("columns");
    }
  }
  for (auto& v : vc) vec_com_clear(&v);
  sample("%s: correlation at challenges number %u..%u, root %s", set.c_str(), first, first + n - 1, H(root).c_str());
}
static void convert(unsigned lam, unsigned depth, unsigned n) {
  unsigned lb = lam / 8, N = 1u << depth;
  for (unsigned k = 0; k < n; k++) {
    const M::Par* P = nullptr; for (;;) { P = &M::params()[R.below(12)]; if (P->lambda == lam) break; }
    size_t len = P->ell_hat_bytes; if (R.below(3) == 0) len = 1 + R.below(200);
    Bytes sd = R.bytes(N * lb), iv = iv_(); bool bot = R.below(2); std::vector<Bytes> s; for (unsigned i = 0; i < N; i++) s.push_back(Bytes(sd.begin() + i * lb, sd.begin() + (i + 1) * lb));
    Bytes mu; std::vector<Bytes> mv; M::convert_to_vole(lam, iv.data(), s, bot, depth, len, mu, mv);
    Bytes u(len + 8, 0x77), v(depth * len + 8, 0x77);
    ConvertToVole(iv.data(), sd.data(), bot, lam, depth, (unsigned)len, bot && R.below(2) ? nullptr : u.data(), v.data());
    eval(); distinct("conv", iv, Bytes(sd.begin(), sd.begin() + lb), len); count(bot ? "conversions_without_seed0" : "conversions");
    std::string key = "convert-" + std::to_string(lam) + "-" + std::to_string(depth);
    if (!bot && memcmp(u.data(), mu.data(), len)) viol(key + "-u", "length %zu", len);
    for (unsigned j = 0; j < depth; j++) if (memcmp(&v[j * len], mv[j].data(), len)) { viol(key + "-v", "length %zu column %u bot %d", len, j, bot); break; }
    for (int i = 0; i < 8; i++) if (u[len + i] != 0x77 || v[depth * len + i] != 0x77) { viol(key + "-outside", "length %zu", len); break; }
  }
}
#ifdef FV_CHALDEC
static void chaldec(const std::string& set, unsigned n) {
  const M::Par& P = M::par(set);
  for (unsigned k = 0; k < n + P.lambda + 2; k++) {
    Bytes ch = R.bytes(P.lb); if (k < P.lambda) { memset(ch.data(), 0, P.lb); ch[k / 8] = 1 << (k % 8); } if (k == P.lambda) memset(ch.data(), 0xff, P.lb);
    unsigned bit = 0; Guard g(ch, R.below(2)); g.readonly();
    for (unsigned i = 0; i < P.tau; i++) {
      uint8_t o[40]; memset(o, 0x5a, sizeof o); int r = ChalDec(g.p, i, P.k0, P.t0, P.k1, P.t1, o); eval(); count("decompositions");
      bool ok = r != 0; unsigned d = P.depth(i);
      for (unsigned j = 0; j < d; j++, bit++) ok = ok && o[j] == (ch[bit / 8] >> (bit % 8) & 1);
      for (unsigned j = d; j < 40; j++) ok = ok && o[j] == 0x5a;
      if (!ok) viol("chaldec-" + set, "repetition %u challenge %s", i, H(ch).c_str());
    }
    if (bit != P.lambda) viol("chaldec-gap-" + set, "%u bits", bit);
    for (unsigned i : {P.tau, P.tau + 1, 255u, 0xffffffffu}) { uint8_t o[40]; memset(o, 0x5a, sizeof o); if (ChalDec(g.p, i, P.k0, P.t0, P.k1, P.t1, o) != 0) viol("chaldec-range-" + set, "%u", i); }
    distinct("cd", ch);
  }
}
#endif
int main(int argc, char** argv) {
  std::string m = argv[1], s = argv[2]; unsigned a = atoi(argv[3]), b = argc > 4 ? atoi(argv[4]) : 0, c = argc > 5 ? atoi(argv[5]) : 0;
  R = Rng(envseed(), M::Rng(a * 977 + b * 131 + c * 7 + m.size()).u64() ^ mix(1, s.data(), s.size()));
  if (m == "corr") corr(s, a, b, c & 1);
  if (m == "convert") convert(atoi(s.c_str()), a, b);
#ifdef FV_CHALDEC
  if (m == "chaldec") chaldec(s, a);
#endif
  return finish();
}
