// C05 key generation, C06 key validation
#include "fv.h"
#include "sets.h"
#include <algorithm>
using namespace fv;
static Rng R(1);

struct Pool {
  std::map<int, Bytes> one;   // secret keys with exactly one zero S-box input, by location
  std::vector<Bytes> good, many;
};
static Bytes rand_sk(const M::Par& p) {
  Bytes sk = R.bytes(p.sk);
  switch (R.below(8)) {
  case 0: memset(sk.data(), R.below(2) ? 0xff : 0, p.ublk); break;
  case 1: memset(&sk[p.ublk], R.below(2) ? 0xff : 0, R.below(p.lb + 1)); break;
  default: break;
  }
  return sk;
}
static unsigned nloc(const M::Par& p, std::vector<int>& all) {
  // every S-box location the proof covers
  all.clear();
  unsigned blocks = p.em ? 1 : p.beta, bytes = p.em ? p.lb : 16;
  for (unsigned b = 0; b < blocks; b++)
    for (unsigned r = 0; r < p.R; r++)
      for (unsigned i = 0; i < bytes; i++) all.push_back(10000 * b + 100 * r + i);
  return all.size();
}
static Pool make_pool(const Set& s, const M::Par& p, size_t want) {
  Pool q; std::vector<int> z; Bytes pk;
  unsigned tries = 0;
  while (q.one.size() < want && tries++ < 120000) {
    Bytes sk = rand_sk(p);
    bool ok = M::derive_pk_zeros(p, sk, pk, z);
    if (ok != z.empty()) die("model: zero list");
    if (z.size() == 1) { if (!q.one.count(z[0])) q.one[z[0]] = sk; }
    else if (z.empty()) { if (q.good.size() < 40) q.good.push_back(sk); }
    else if (q.many.size() < 20) q.many.push_back(sk);
  }
  count("searched_keys", tries);
  return q;
}
// locations found are labelled by where they occur
static void loc_counts(const Pool& q, int loc) {
  if (loc >= 100000) count("zero_in_key_schedule");
  else if (loc >= 10000) count("zero_in_second_block");
  else count("zero_in_first_block");
}

static void keygen_case(const Set& s, const M::Par& p, const std::vector<Bytes>& bad, const Bytes& good, const char* what, int loc) {
  Guard pk(p.pk, R.below(2)), sk(p.sk, R.below(2));
  pk.fill(R.below(256)); sk.fill(R.below(256));
  RandSrc& rs = rnd();
  rs.reset(R.u64()); rs.keep = true;
  for (auto& b : bad) rs.stream.insert(rs.stream.end(), b.begin(), b.end());
  rs.stream.insert(rs.stream.end(), good.begin(), good.end());
  int rc = s.keygen(pk.p, sk.p);
  Bytes used = rs.consumed; rs.keep = false;
  eval(); count(what);
  Bytes want; M::derive_pk(p, good, want);
  Bytes gsk = sk.bytes(), gpk = pk.bytes();
  distinct("kg", used, gsk, bad.size());
  std::string k = std::string(s.name) + ":" + what;
  if (rc != 0) { viol("keygen-fails:" + k, "rc=%d candidates=%zu", rc, bad.size() + 1); return; }
  if (used.size() < p.sk || !std::equal(gsk.begin(), gsk.end(), used.end() - p.sk))
    viol("sk-not-last-block:" + k, "sk=%s consumed %zu bytes, last %s (reject location %d)", H(gsk).c_str(), used.size(), H(Bytes(used.end() - std::min(used.size(), p.sk), used.end())).c_str(), loc);
  if (gsk != good) {
    std::vector<int> z; Bytes t;
    bool v = M::derive_pk_zeros(p, gsk, t, z);
    viol((v ? "skipped-valid:" : "kept-invalid:") + k, "sk=%s valid=%d first zero at %d, expected sk=%s after %zu redraws (location %d)", H(gsk).c_str(), v, z.empty() ? -1 : z[0], H(good).c_str(), bad.size(), loc);
    return;
  }
  if (gpk != want) viol("pk:" + k, "sk=%s pk=%s expected %s", H(gsk).c_str(), H(gpk).c_str(), H(want).c_str());
  int v = s.validate(pk.p, sk.p);
  if (v) viol("generated-pair-invalid:" + k, "validate=%d sk=%s", v, H(gsk).c_str());
  sample("%s %s: %zu candidates rejected (zero at %d), sk=%s", s.name, what, bad.size(), loc, H(gsk, 16).c_str());
}
static void sign_verify(const Set& s, const M::Par& p, const Bytes& good) {
  Bytes pk(p.pk), sk(p.sk), sig(p.sig), msg = R.bytes(R.below(60));
  rnd().reset(R.u64()); rnd().stream = good;
  if (s.keygen(pk.data(), sk.data())) return;
  size_t sl = p.sig;
  int a = s.sign(sk.data(), msg.data(), msg.size(), sig.data(), &sl), b = s.verify(pk.data(), msg.data(), msg.size(), sig.data(), sl);
  eval(); count("signed_with_generated");
  if (a || b) viol(std::string("unusable:") + s.name, "sign=%d verify=%d sk=%s", a, b, H(sk).c_str());
}
static void keygen(const Set& s, const M::Par& p, unsigned extra) {
  std::vector<int> all; nloc(p, all);
  size_t ks = p.em ? 0 : p.Ske; // bytes through the S-box in the key schedule
  Pool q = make_pool(s, p, all.size() + ks);
  count("locations_possible", all.size() + ks);
  count("locations_reached", q.one.size());
  if (q.good.empty()) die("no valid key");
  std::vector<Bytes> bad_all;
  for (auto& e : q.one) {
    loc_counts(q, e.first);
    std::vector<Bytes> bad;
    for (unsigned k = R.below(3); k-- > 0;) bad.push_back(q.many.empty() ? e.second : q.many[R.below(q.many.size())]);
    bad.push_back(e.second);
    keygen_case(s, p, bad, q.good[R.below(q.good.size())], "one-zero", e.first);
    bad_all.push_back(e.second);
  }
  for (auto& g : q.good) keygen_case(s, p, {}, g, "first-candidate-valid", -1);
  // long runs of rejections
  for (unsigned n : {2u, 9u, 17u, 33u, 70u, 130u, 260u, 1030u}) {
    std::vector<Bytes> bad;
    for (unsigned i = 0; i < n; i++) bad.push_back(bad_all[R.below(bad_all.size())]);
    keygen_case(s, p, bad, q.good[R.below(q.good.size())], "long-run", -1);
  }
  // the same candidate again and again; random streams
  for (unsigned i = 0; i < 10 + extra; i++) {
    Bytes st; std::vector<Bytes> bad; Bytes good, t;
    for (;;) { Bytes c = rand_sk(p); if (M::derive_pk(p, c, t)) { good = c; break; } bad.push_back(c); }
    keygen_case(s, p, bad, good, "random-stream", -1);
  }
  keygen_case(s, p, std::vector<Bytes>(5, bad_all[0]), q.good[0], "repeated-candidate", -1);
  for (unsigned i = 0; i < 2; i++) sign_verify(s, p, q.good[R.below(q.good.size())]);
  sign_verify(s, p, rand_sk(p));
}

// ---------------------------------------------------------------- C06
static int rc_invalid = 0, rc_mismatch = 0;
static void validate_case(const Set& s, const M::Par& p, const Bytes& pk, const Bytes& sk, const char* what, int pos) {
  Guard gp(pk, R.below(2)), gs(sk, R.below(2));
  gp.readonly(); gs.readonly();
  int rc = s.validate(gp.p, gs.p);
  Bytes want; bool usable = M::derive_pk(p, sk, want);
  bool ok = usable && want == pk;
  eval(); count(what); distinct("va", pk, sk);
  if (ok != (rc == 0))
    viol(std::string(ok ? "valid-rejected:" : usable ? "mismatch-accepted:" : "invalid-accepted:") + s.name + ":" + what, "validate=%d at %d pk=%s sk=%s", rc, pos, H(pk).c_str(), H(sk).c_str());
  if (!usable) { if (!rc_invalid) rc_invalid = rc; else if (rc && rc != rc_invalid) viol("code-of-invalid:" + std::string(s.name), "validate=%d, earlier %d", rc, rc_invalid); }
  else if (want != pk) { if (!rc_mismatch) rc_mismatch = rc; else if (rc && rc != rc_mismatch) viol("code-of-mismatch:" + std::string(s.name), "validate=%d, earlier %d", rc, rc_mismatch); }
  sample("%s %s at %d: validate=%d", s.name, what, pos, rc);
}
static void sign_invalid(const Set& s, const M::Par& p, const Bytes& sk, const char* what, int loc) {
  Bytes msg = R.bytes(R.below(40)), rho = R.bytes(16);
  for (int e = 0; e < 3; e++) {
    uint8_t f = (uint8_t)R.below(256);
    Guard sig(p.sig, R.below(2)), gs(sk);
    sig.fill(f); gs.readonly();
    size_t extra = 0, sl = p.sig + extra, was = sl;
    rnd().reset(R.u64());
    int rc = e == 0 ? s.sign(gs.p, msg.data(), msg.size(), sig.p, &sl)
                    : s.signr(gs.p, msg.data(), msg.size(), e == 1 ? rho.data() : nullptr, e == 1 ? rho.size() : 0, sig.p, &sl);
    eval(); count("sign_with_invalid");
    if (rc == 0) { viol(std::string("signed-with-invalid:") + s.name + ":" + what, "entry=%d zero at %d sk=%s", e, loc, H(sk).c_str()); return; }
    bool touched = false;
    for (size_t i = 0; i < p.sig; i++) if (sig.p[i] != f) touched = true;
    if (touched || sl != was) viol(std::string("output-despite-failure:") + s.name, "entry=%d len=%zu (was %zu) signature touched=%d", e, sl, was, touched);
  }
}
static void validate(const Set& s, const M::Par& p, unsigned extra) {
  std::vector<int> all; nloc(p, all);
  size_t ks = p.em ? 0 : p.Ske;
  Pool q = make_pool(s, p, all.size() + ks);
  count("locations_possible", all.size() + ks);
  count("locations_reached", q.one.size());
  Bytes pk;
  for (auto& e : q.one) {
    loc_counts(q, e.first);
    M::derive_pk(p, e.second, pk); // still filled by the model
    validate_case(s, p, pk, e.second, "one-zero", e.first);
    sign_invalid(s, p, e.second, "one-zero", e.first);
  }
  for (auto& k : q.many) { M::derive_pk(p, k, pk); validate_case(s, p, pk, k, "several-zeros", -1); sign_invalid(s, p, k, "several-zeros", -1); }
  for (auto& k : q.good) { M::derive_pk(p, k, pk); validate_case(s, p, pk, k, "valid", -1); }
  // all single-bit differences
  for (unsigned rep = 0; rep < 2 + extra; rep++) {
    Bytes sk = q.good[R.below(q.good.size())], t;
    M::derive_pk(p, sk, pk);
    for (size_t i = 0; i < 8 * p.pk; i++) { Bytes x = pk; x[i / 8] ^= 1 << (i % 8); validate_case(s, p, x, sk, "pk-bit", i); }
    for (size_t i = 0; i < 8 * p.sk; i++) { Bytes x = sk; x[i / 8] ^= 1 << (i % 8); validate_case(s, p, pk, x, "sk-bit", i);
      // and with the input half of the public key following along
      if (i < 8 * p.ublk) { Bytes y = pk; y[i / 8] ^= 1 << (i % 8); validate_case(s, p, y, x, "both-inputs-bit", i); } }
    // differences that cancel in sums and parities
    for (unsigned k = 0; k < 120; k++) {
      Bytes x = pk; size_t i = R.below(p.pk), j = R.below(p.pk); uint8_t d = R.below(3) ? 1 << R.below(8) : 1 + R.below(255);
      if (i == j) continue;
      if (R.below(2)) { x[i] ^= d; x[j] ^= d; } else { x[i] += d; x[j] -= d; }
      validate_case(s, p, x, sk, "pk-cancelling", i);
    }
    for (unsigned w : {2u, 4u, 8u, 16u, 32u})
      for (size_t o = 0; o + w <= p.pk; o += w) {
        Bytes x = pk; for (unsigned i = 0; i < w; i++) x[o + i] ^= 0x80;
        validate_case(s, p, x, sk, "pk-block", o);
      }
    // halves of other keys
    Bytes sk2 = q.good[R.below(q.good.size())], pk2; M::derive_pk(p, sk2, pk2);
    Bytes x = pk; std::copy(pk2.begin(), pk2.begin() + p.ublk, x.begin()); validate_case(s, p, x, sk, "other-input", 0);
    x = pk; std::copy(pk2.begin() + p.ublk, pk2.end(), x.begin() + p.ublk); validate_case(s, p, x, sk, "other-output", 0);
    x = pk; std::rotate(x.begin(), x.begin() + p.ublk, x.end()); validate_case(s, p, x, sk, "swapped-halves", 0);
    x = Bytes(p.pk, 0); validate_case(s, p, x, sk, "zero-pk", 0);
    x = sk; x.resize(p.pk); validate_case(s, p, x, sk, "sk-as-pk", 0);
    Bytes zs(p.sk, 0); validate_case(s, p, pk, zs, "zero-sk", 0); zs.assign(p.sk, 0xff); validate_case(s, p, pk, zs, "ones-sk", 0);
    sign_invalid(s, p, q.one.begin()->second, "one-zero", q.one.begin()->first);
  }
  // signing succeeds with valid keys, also right after a failure
  for (unsigned k = 0; k < 3 + extra; k++) {
    Bytes sk = q.good[R.below(q.good.size())], sig(p.sig), msg = R.bytes(9);
    size_t sl = p.sig;
    rnd().reset(R.u64());
    int rc = k & 1 ? s.sign(sk.data(), msg.data(), 9, sig.data(), &sl) : s.signr(sk.data(), msg.data(), 9, nullptr, 0, sig.data(), &sl);
    eval(); count("sign_with_valid");
    if (rc || sl != p.sig) viol(std::string("valid-key-cannot-sign:") + s.name, "rc=%d sk=%s", rc, H(sk).c_str());
  }
  if (rc_invalid && rc_invalid == rc_mismatch) viol(std::string("codes-not-distinguished:") + s.name, "validate returns %d for an invalid key and for a mismatch", rc_invalid);
}
int main(int argc, char** argv) {
  std::string mode = argv[1];
  const Set& s = set_of(argv[2]);
  const M::Par& p = M::par(argv[2]);
  R = Rng(envseed(), mix(7, argv[1], strlen(argv[1])) ^ mix(3, argv[2], strlen(argv[2])) ^ strtoull(argv[3], nullptr, 10));
  unsigned extra = strtoul(argv[4], nullptr, 10);
  if (s.pk != p.pk || s.sk != p.sk || s.sig != p.sig) { viol(std::string("sizes:") + s.name, "pk %zu sk %zu sig %zu", s.pk, s.sk, s.sig); return finish(); }
  if (mode == "keygen") keygen(s, p, extra);
  else if (mode == "validate") validate(s, p, extra);
  else die("mode");
  return finish();
}
