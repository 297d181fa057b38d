// C01 completeness, C02 bytes of signatures
#include "squeeze.h"
#include "chal.h"
#include "sets.h"
using namespace fv;

static Rng R(1);
// a usable secret key, from key generation or structured
static Bytes make_sk(const Set& s, const M::Par& p, Bytes& pk) {
  if (R.below(3)) {
    pk.assign(p.pk, 0);
    Bytes sk(p.sk);
    rnd().reset(R.u64());
    if (s.keygen(pk.data(), sk.data()) != 0) { viol("keygen:fail", "set=%s", s.name); }
    return sk;
  }
  for (;;) {
    Bytes sk(p.sk);
    R.fill(sk.data(), sk.size());
    // structured halves
    if (R.below(3) == 0) memset(sk.data(), R.below(2) ? 0xff : 0, p.ublk);
    if (R.below(3) == 0) for (size_t i = 0; i < p.lb; i++) sk[p.ublk + i] = (uint8_t)(i + 1 + R.below(3));
    if (M::derive_pk(p, sk, pk)) return sk;
  }
}
static Bytes make_rho(int& isnull) {
  isnull = 0;
  switch (R.below(5)) {
  case 0: isnull = 1; return Bytes();
  case 1: return Bytes();
  default: return edge_bytes(R, R.below(3) ? R.below(80) : edge_len(R));
  }
}
static void other_activity() {
  // calls of other sets and failing calls between the operations of interest
  static const char* fast[] = {"128f", "em_128f", "128f", "em_192f", "192f", "256f", "em_256f"};
  const Set& o = set_of(fast[R.below(7)]);
  Bytes pk(o.pk), sk(o.sk), sig(o.sig);
  size_t sl = o.sig;
  switch (R.below(6)) {
  case 0: o.keygen(pk.data(), sk.data()); break;
  case 1: R.fill(pk.data(), pk.size()); R.fill(sig.data(), sig.size()); if (o.sig < 7000) o.verify(pk.data(), sk.data(), 3, sig.data(), sig.size()); break;
  case 2: sl = o.sig - 1; o.sign(sk.data(), pk.data(), 5, sig.data(), &sl); break;
  case 3: o.keygen(pk.data(), sk.data()); if (o.sig < 7000) o.sign(sk.data(), pk.data(), 5, sig.data(), &sl); break;
  case 4: o.validate(pk.data(), sk.data()); break;
  default: break;
  }
}

static void extreme(Bytes& b) {
  switch (R.below(7)) {
  case 0: memset(b.data(), 0xff, b.size()); break;
  case 1: memset(b.data(), 0, b.size()); break;
  case 2: { size_t k = 1 + R.below(b.size()); memset(b.data() + b.size() - k, 0xff, k); break; } // carry chain of k bytes
  case 3: { size_t k = 1 + R.below(b.size() - 1); memset(b.data() + b.size() - k, 0xff, k); b.back() = 0xff - R.below(250); break; }
  case 4: b[R.below(b.size())] = 0xff; break;
  case 5: { memset(b.data(), 0, b.size()); b[R.below(b.size())] = 1 << R.below(8); break; }
  default: { size_t k = R.below(b.size()); memset(b.data(), R.below(2) ? 0xff : 0, k); }
  }
}

static long chal_calls = 0;   // hash outputs of one signature; confirmed at every use
static void complete(const Set& s, const M::Par& p, unsigned n, bool lengths, unsigned len0, bool pw = false) {
  for (unsigned k = 0; k < n; k++) {
    Bytes pk; Bytes sk = make_sk(s, p, pk);
    int rnull; Bytes rho = make_rho(rnull);
    Bytes msg = edge_bytes(R, pw ? pow_len(len0 + k) : lengths ? len0 + k : edge_len(R));
    if (pw && k % 2) rho = edge_bytes(R, pow_len(len0 + k)), rnull = 0;
    bool nullmsg = msg.empty() && R.below(2);
    int entry = R.below(3);
    size_t extra = R.below(3) ? 0 : R.below(2) ? 1 + R.below(64) : 100000;
    bool front = R.below(2); size_t mis = R.below(3) ? 0 : R.below(17);
    if (R.below(3) == 0) other_activity();
    Guard gs(sk, R.below(2)), gm(msg, R.below(2)), gr(rho, R.below(2)), go(p.sig + mis + extra, front);
    gs.readonly(); gm.readonly(); gr.readonly();
    go.fill(R.below(256));
    uint8_t* out = go.p + mis;
    size_t sl = p.sig + extra;
    bool inj_iv = R.below(5) == 0, inj_ch = !inj_iv && R.below(4);
    Bytes iv = R.bytes(16), ch = R.bytes(p.lb), nat;
    const uint8_t* mp = nullmsg ? nullptr : gm.p;
    uint64_t rs = R.u64();
    auto dosign = [&]() {
      sl = p.sig + extra;
      rnd().reset(rs);
      if (entry == 0) return s.sign(gs.p, mp, msg.size(), out, &sl);
      if (entry == 1 && !rnull) return s.signr(gs.p, mp, msg.size(), gr.p, rho.size(), out, &sl);
      return s.signr(gs.p, mp, msg.size(), nullptr, 0, out, &sl);
    };
    sq().clear();
    bool confirmed_iv = false, confirmed_ch = false;
    if (inj_iv) { extreme(iv); sq().iv = iv.data(); sq().lambda = p.lambda; sq().begin(); }
    if (inj_ch) {
      // extreme index in every, one, or some repetitions
      if (R.below(4)) pack_challenge(R, p, ch); else extreme(ch);
      if (!chal_calls) { sq().begin(); dosign(); sq().end(); chal_calls = sq().calls; }
      sq().at = chal_calls - 1; sq().value = ch.data(); sq().value_len = p.lb; sq().begin();
    }
    int rc = dosign();
    sq().end();
    if (inj_iv) confirmed_iv = sq().iv_done && rc == 0 && !memcmp(out + p.off_iv, iv.data(), 16);
    if (inj_ch) { confirmed_ch = sq().at_done && rc == 0 && !memcmp(out + p.off_chall, ch.data(), p.lb); nat = sq().last_out; }
    if (inj_ch && sq().calls != sq().at + 1) { confirmed_ch = false; chal_calls = 0; }
    if ((inj_iv && !confirmed_iv && sq().iv_done) || (inj_ch && !confirmed_ch && sq().at_done)) { sq().clear(); rc = dosign(); inj_iv = inj_ch = false; }
    sq().clear();
    eval();
    std::string tag = std::string(s.name);
    if (rc != 0 || sl != p.sig) {
      viol("sign:" + tag, "sign entry=%d rc=%d len=%zu (expected %zu) sk=%s msg=%s rho=%s extra=%zu", entry, rc, sl, p.sig, M::hex(sk).c_str(), H(msg).c_str(), H(rho).c_str(), extra);
      continue;
    }
    if (R.below(4) == 0) other_activity();
    // verify from a fresh place
    Guard gp(pk, R.below(2));
    size_t mis2 = R.below(17);
    Guard gv(p.sig + mis2, R.below(2));
    memcpy(gv.p + (mis2 ? 1 : 0) * mis2, out, p.sig);
    gv.readonly(); gp.readonly();
    if (confirmed_ch) {
      sq().begin();
    }
    int v = s.verify(gp.p, mp, msg.size(), gv.p + mis2, p.sig);
    sq().end();
    if (confirmed_ch) {
      // the programmed challenge was used for opening; the verifier's own recomputation must equal what the signer
      // hashed before the challenge was replaced
      count("programmed_challenge");
      if (sq().last_out.size() == p.lb && sq().last_out != nat)
        viol("verify_chal:" + tag, "challenge=%s: verifier recomputes %s, signer had %s; sk=%s msg=%s rho=%s", M::hex(ch).c_str(), M::hex(sq().last_out).c_str(), M::hex(nat).c_str(), M::hex(sk).c_str(), H(msg).c_str(), H(rho).c_str());
      if (sq().last_out.size() != p.lb) confirmed_ch = false;
    } else if (v != 0) {
      viol("verify:" + tag, "honest signature rejected rc=%d entry=%d sk=%s msg=%s(len %zu) rho=%s iv_forced=%s seed=%llu", v, entry, M::hex(sk).c_str(), H(msg).c_str(), msg.size(), H(rho).c_str(), confirmed_iv ? M::hex(iv).c_str() : "no", (unsigned long long)rs);
    }
    if (confirmed_iv) count("forced_iv");
    if (v == 0) count("accepted");
    distinct(s.name, Bytes(out, out + p.sig));
    sample("%s entry=%d msglen=%zu rho=%s extra=%zu forced_iv=%s -> sign 0, verify %d", s.name, entry, msg.size(), rnull ? "null" : std::to_string(rho.size()).c_str(), extra, confirmed_iv ? M::hex(iv).c_str() : "no", v);
    sq().clear();
  }
}

static void bytes(const Set& s, const M::Par& p, unsigned n, bool lengths, unsigned len0, bool pw = false) {
  for (unsigned k = 0; k < n; k++) {
    Bytes pk; Bytes sk = make_sk(s, p, pk);
    int rnull; Bytes rho = make_rho(rnull);
    Bytes msg = edge_bytes(R, pw ? pow_len(len0 + k) : lengths ? len0 + k : edge_len(R));
    if (lengths && (pw || k % 2)) rho = R.bytes(pw ? pow_len(len0 + (k + 7) % n) : len0 + k), rnull = 0;
    bool inj = R.below(4) == 0;
    Bytes iv = R.bytes(16);
    Bytes sig(p.sig, (uint8_t)R.below(256));
    size_t sl = p.sig;
    uint64_t rs = R.u64();
    int entry = rnull || R.below(4) ? 1 : 0; // 0: internal randomness
    sq().clear();
    if (inj) { extreme(iv); sq().iv = iv.data(); sq().lambda = p.lambda; sq().begin(); }
    int rc;
    if (entry == 0) {
      rnd().reset(rs); rnd().record = true;
      rc = s.sign(sk.data(), msg.data(), msg.size(), sig.data(), &sl);
      if (rnd().handed.size() == 1) rho = rnd().handed[0];
      else inconclusive("sign drew randomness %zu times", rnd().handed.size());
    } else rc = s.signr(sk.data(), msg.data(), msg.size(), rnull ? nullptr : rho.data(), rho.size(), sig.data(), &sl);
    sq().end();
    bool conf = inj && sq().iv_done && !memcmp(sig.data() + p.off_iv, iv.data(), 16);
    if (inj && !conf && sq().iv_done) { sq().clear(); continue; }
    sq().clear();
    M::SignOpts o; if (conf) o.iv = iv.data();
    Bytes ref = M::sign(p, sk, msg, rho, o), mpk;
    M::derive_pk(p, sk, mpk);
    eval();
    if (mpk != pk) viol("pk:" + std::string(s.name), "public key differs: sk=%s got=%s want=%s", M::hex(sk).c_str(), M::hex(pk).c_str(), M::hex(mpk).c_str());
    if (rc != 0 || sl != p.sig || sig != ref) {
      size_t d = 0; while (d < p.sig && d < ref.size() && sig[d] == ref[d]) d++;
      viol("bytes:" + std::string(s.name) + ":" + (rc || d >= p.sig ? std::string("rc") : M::sig_field(p, d)), "rc=%d first difference at byte %zu (%s) sk=%s msg=%s(len %zu) rho=%s iv_forced=%s", rc, d, d < p.sig ? M::sig_field(p, d).c_str() : "-", M::hex(sk).c_str(), H(msg).c_str(), msg.size(), H(rho).c_str(), conf ? M::hex(iv).c_str() : "no");
    } else count("equal");
    if (conf) count("forced_iv");
    distinct(s.name, sig);
    sample("%s msglen=%zu rholen=%zu forced_iv=%s sha-of-sig-prefix=%s equal", s.name, msg.size(), rho.size(), conf ? M::hex(iv).c_str() : "no", H(sig.data(), 16).c_str());
    // every third signature: determinism, null = empty, interop both ways
    if (k % 6 == 0 && rc == 0 && !conf) {
      Bytes s2(p.sig, 0x5a); size_t l2 = p.sig;
      s.signr(sk.data(), msg.data(), msg.size(), rho.empty() ? (rnull ? msg.data() ? msg.data() : sk.data() : nullptr) : rho.data(), rho.size(), s2.data(), &l2);
      eval();
      if (s2 != ref) viol("determinism:" + std::string(s.name), "second signature differs sk=%s msg=%s rho=%s", M::hex(sk).c_str(), H(msg).c_str(), H(rho).c_str());
      if (s.verify(pk.data(), msg.data(), msg.size(), ref.data(), ref.size())) viol("interop_in:" + std::string(s.name), "specified signature rejected sk=%s msg=%s rho=%s", M::hex(sk).c_str(), H(msg).c_str(), H(rho).c_str());
      if (!M::verify(p, mpk, msg, sig)) viol("interop_out:" + std::string(s.name), "signature rejected by the specified verifier sk=%s msg=%s rho=%s", M::hex(sk).c_str(), H(msg).c_str(), H(rho).c_str());
      count("interop");
    }
  }
}

// messages longer than 2^29 and 2^32 bytes, mostly untouched zero pages
static void big(const Set& s, const M::Par& p, unsigned long long len, bool model, bool asrho) {
  uint8_t* m = (uint8_t*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) { inconclusive("mmap of %llu bytes failed", len); return; }
  Bytes head = R.bytes(4096 < len ? 4096 : len);
  memcpy(m, head.data(), head.size());
  R.fill(m + len - 64, 64);
  Bytes pk; Bytes sk = make_sk(s, p, pk);
  Bytes sig(p.sig); size_t sl = p.sig;
  Bytes small = R.bytes(20);
  int rc = asrho ? s.signr(sk.data(), small.data(), small.size(), m, len, sig.data(), &sl)
                 : s.signr(sk.data(), m, len, small.data(), small.size(), sig.data(), &sl);
  eval();
  if (rc || sl != p.sig) viol("big_sign:" + std::string(s.name), "len=%llu rc=%d", len, rc);
  if (model) {
    Bytes mm(m, m + len);
    Bytes ref = asrho ? M::sign(p, sk, small, mm) : M::sign(p, sk, mm, small);
    if (ref != sig) viol("big_bytes:" + std::string(s.name), "signature over %llu bytes differs from specification (as %s) sk=%s", len, asrho ? "randomness" : "message", M::hex(sk).c_str());
    else count("big_equal");
  } else if (!asrho) {
    int v = s.verify(pk.data(), m, len, sig.data(), sig.size());
    if (v) viol("big_verify:" + std::string(s.name), "len=%llu rejected", len);
    // truncated and changed long messages
    static const int sh[] = {29, 32};
    for (int b : sh)
      if (len > (1ull << b)) {
        unsigned long long t = len - (1ull << b);
        if (t < 1 << 20 && !s.verify(pk.data(), m, t, sig.data(), sig.size())) viol("big_trunc:" + std::string(s.name), "signature over %llu bytes accepted for the first %llu bytes", len, t);
        eval();
      }
    m[len - 1] ^= 1;
    if (!s.verify(pk.data(), m, len, sig.data(), sig.size())) viol("big_flip:" + std::string(s.name), "change of last byte of %llu accepted", len);
    eval();
    count("big_verified");
  }
  distinct("big", sig);
  sample("%s %s of %llu bytes", s.name, asrho ? "randomness" : "message", len);
  munmap(m, len);
}

int main(int argc, char** argv) {
  if (argc < 4) die("usage");
  std::string mode = argv[1];
  const Set& s = set_of(argv[2]);
  const M::Par& p = M::par(argv[2]);
  unsigned long long job = strtoull(argv[3], nullptr, 10), n = argc > 4 ? strtoull(argv[4], nullptr, 10) : 1;
  R = Rng(envseed(), mix(job, mode.data(), mode.size()) ^ mix(7, s.name, strlen(s.name)));
  if (mode == "complete") complete(s, p, n, false, 0);
  else if (mode == "complete_len") complete(s, p, n, true, job);
  else if (mode == "complete_pow") complete(s, p, n, true, job, true);
  else if (mode == "bytes_pow") bytes(s, p, n, true, job, true);
  else if (mode == "bytes") bytes(s, p, n, false, 0);
  else if (mode == "bytes_len") bytes(s, p, n, true, job);
  else if (mode == "big") big(s, p, n, job & 1, job & 2);
  else die("mode");
  return finish();
}
