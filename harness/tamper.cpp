// C03 alterations are rejected, C04 verdicts equal the specified ones
#include "squeeze.h"
#include "sets.h"
#include <functional>
#include <set>
using namespace fv;
static Rng R(1);

struct Case { Bytes pk, sk, msg, rho, sig; };
static Case honest(const Set& s, const M::Par& p, size_t mlen) {
  Case c;
  c.pk.resize(p.pk); c.sk.resize(p.sk); c.sig.resize(p.sig);
  rnd().reset(R.u64());
  s.keygen(c.pk.data(), c.sk.data());
  c.msg = R.bytes(mlen); c.rho = R.bytes(R.below(2) ? p.lb : 0);
  size_t sl = p.sig;
  if (s.signr(c.sk.data(), c.msg.data(), c.msg.size(), c.rho.empty() ? nullptr : c.rho.data(), c.rho.size(), c.sig.data(), &sl)) die("honest signing failed");
  int v = s.verify(c.pk.data(), c.msg.data(), c.msg.size(), c.sig.data(), c.sig.size());
  if (v) inconclusive("honest signature does not verify (set %s)", s.name);
  return c;
}
static void must_reject(const Set& s, const char* what, size_t pos, const Case& base, const Bytes& pk, const Bytes& msg, const Bytes& sig, size_t siglen) {
  if (pk == base.pk && msg == base.msg && sig == base.sig && siglen == sig.size()) return;
  Guard gp(pk), gm(msg, R.below(2)), gs(sig, R.below(2));
  gp.readonly(); gm.readonly(); gs.readonly();
  int rc = s.verify(gp.p, gm.p, msg.size(), gs.p, siglen);
  eval(); count(std::string(what).substr(0, std::string(what).find('[')).c_str());
  uint64_t h = mix(1, what, strlen(what));
  h = mix(h, sig.data(), sig.size()); h = mix(h, msg.data(), msg.size()); h = mix(h, pk.data(), pk.size()); h = mix(h, &siglen, 8);
  distinct(h);
  sample("%s %s at %zu (siglen %zu): rejected with %d", s.name, what, pos, siglen, rc);
  if (rc == 0)
    viol(std::string("accepted:") + s.name + ":" + what, "altered %s at %zu accepted: pk=%s msg=%s(len %zu) siglen=%zu original sk=%s msg=%s rho=%s",
         what, pos, H(pk).c_str(), H(msg).c_str(), msg.size(), siglen, M::hex(base.sk).c_str(), H(base.msg).c_str(), H(base.rho).c_str());
}

// fields of the signature: (offset, length)
static std::vector<std::pair<size_t, size_t>> fields(const M::Par& p) {
  std::vector<std::pair<size_t, size_t>> f;
  for (unsigned i = 0; i + 1 < p.tau; i++) {
    size_t o = p.off_c + i * p.ell_hat_bytes;
    f.push_back({o, p.l / 8}); f.push_back({o + p.l / 8, 2 * p.lb + 2});
  }
  f.push_back({p.off_u, p.lb}); f.push_back({p.off_u + p.lb, 2}); f.push_back({p.off_d, p.l / 8}); f.push_back({p.off_a, p.lb});
  for (unsigned i = 0; i < p.tau; i++) {
    for (unsigned d = 0; d < p.depth(i); d++) f.push_back({p.off_pdec(i) + d * p.lb, p.lb});
    f.push_back({p.off_com(i), 2 * p.lb});
  }
  f.push_back({p.off_chall, p.lb}); f.push_back({p.off_iv, 16});
  return f;
}

static void sigbits(const Set& s, const M::Par& p, unsigned n) {
  Case c = honest(s, p, R.below(100));
  auto F = fields(p);
  for (unsigned k = 0; k < n; k++) {
    Bytes t = c.sig;
    size_t pos;
    // every field in turn, its borders more often than its middle
    auto f = F[(k * 7 + R.below(2)) % F.size()];
    switch (R.below(4)) {
    case 0: pos = f.first + f.second - 1; break;
    case 1: pos = f.first; break;
    default: pos = f.first + R.below(f.second);
    }
    if (k % 3 == 2) pos = R.below(p.sig);
    if (k % 3 == 0) { // the short fields, which the field list above rarely meets
      const std::pair<size_t, size_t> small[] = {{p.off_u, p.lb + 2}, {p.off_d, p.l / 8}, {p.off_a, p.lb}, {p.off_chall, p.lb}, {p.off_iv, 16}};
      auto g = small[(k / 3) % 5];
      pos = g.first + ((k / 15) % 3 ? R.below(g.second) : g.second - 1);
    }
    t[pos] ^= (uint8_t)(1 << R.below(8));
    must_reject(s, M::sig_field(p, pos).c_str(), pos, c, c.pk, c.msg, t, t.size());
  }
}
// every byte of [from, to) of the signature
static void sigrange(const Set& s, const M::Par& p, size_t from, size_t to) {
  R = Rng(envseed(), 99); // the same triple in every job of a set
  Case c = honest(s, p, 24);
  R = Rng(envseed(), 1000 + from);
  for (size_t pos = from; pos < to && pos < p.sig; pos++) {
    Bytes t = c.sig;
    t[pos] ^= (uint8_t)(1 << R.below(8));
    must_reject(s, M::sig_field(p, pos).c_str(), pos, c, c.pk, c.msg, t, t.size());
  }
}

// alterations of several places at once, aimed at sums, swaps, and mixing of valid signatures
static void sigmulti(const Set& s, const M::Par& p, unsigned n) {
  Case c = honest(s, p, R.below(100)), c2 = c;
  { // another valid signature under the same key
    size_t sl = p.sig; c2.msg = R.bytes(30); c2.sig.assign(p.sig, 0);
    s.signr(c.sk.data(), c2.msg.data(), c2.msg.size(), c.rho.data(), c.rho.size(), c2.sig.data(), &sl);
  }
  auto F = fields(p);
  for (unsigned k = 0; k < n; k++) {
    Bytes t = c.sig;
    auto f = F[R.below(F.size())], g = F[R.below(F.size())];
    const char* what;
    switch (k % 9) {
    case 0: what = "same-difference-in-two-bytes"; { uint8_t d = (uint8_t)(1 + R.below(255)); size_t a = f.first + R.below(f.second), b = f.first + R.below(f.second); if (a == b) continue; t[a] ^= d; t[b] ^= d; } break;
    case 1: what = "swapped-bytes"; { size_t a = f.first + R.below(f.second), b = f.first + R.below(f.second); std::swap(t[a], t[b]); } break;
    case 2: what = "swapped-fields"; { g = F[R.below(F.size())]; size_t n = std::min(f.second, g.second); for (size_t i = 0; i < n; i++) std::swap(t[f.first + i], t[g.first + i]); } break;
    case 3: what = "field-from-other-signature"; memcpy(&t[f.first], &c2.sig[f.first], f.second); break;
    case 4: what = "field-zeroed"; memset(&t[f.first], 0, f.second); break;
    case 5: what = "field-ones"; memset(&t[f.first], 0xff, f.second); break;
    case 6: what = "other-signature-with-one-own-field"; t = c2.sig; memcpy(&t[f.first], &c.sig[f.first], f.second); break;
    case 7: what = "same-difference-in-two-fields"; { uint8_t d = (uint8_t)(1 << R.below(8)); size_t i = R.below(std::min(f.second, g.second)); t[f.first + i] ^= d; t[g.first + i] ^= d; } break;
    default: what = "two-random-bits"; t[R.below(p.sig)] ^= 1 << R.below(8); t[R.below(p.sig)] ^= 1 << R.below(8); break;
    }
    must_reject(s, what, f.first, c, c.pk, c.msg, t, t.size());
  }
  // each short field constant, alone and with others
  const std::pair<size_t, size_t> small[] = {{p.off_u, p.lb + 2}, {p.off_d, p.l / 8}, {p.off_a, p.lb}, {p.off_chall, p.lb}, {p.off_iv, 16}, {p.off_chall, p.lb + 16}, {p.off_u, p.lb + 2 + p.l / 8 + p.lb}, {0, p.off_u}, {p.off_pdec(0), p.off_chall - p.off_pdec(0)}, {0, p.sig}, {0, p.off_chall}};
  for (auto& g : small) for (int v : {0, 0xff, 0x01, 0x80}) {
    if (v == 1 || v == 0x80) { if (R.below(4)) continue; }
    Bytes t = c.sig; memset(&t[g.first], v, g.second); must_reject(s, "field-constant", g.first, c, c.pk, c.msg, t, t.size());
    if (g.first != p.off_chall) { memset(&t[p.off_chall], R.below(2) ? 0 : v, p.lb); must_reject(s, "field-constant-and-challenge", g.first, c, c.pk, c.msg, t, t.size()); }
  }
  must_reject(s, "signature-of-other-message", 0, c, c.pk, c.msg, c2.sig, c2.sig.size());
  must_reject(s, "message-of-other-signature", 0, c, c.pk, c2.msg, c.sig, c.sig.size());
}

static void msgs(const Set& s, const M::Par& p, unsigned n) {
  static const size_t L[] = {0, 1, 2, 16, 31, 32, 33, 70, 71, 72, 102, 103, 104, 134, 135, 136, 137, 167, 168, 169, 300, 1000, 4096, 65536, 70000};
  unsigned done = 0;
  while (done < n) {
    Case c = honest(s, p, L[R.below(sizeof L / sizeof *L)]);
    for (unsigned k = 0; k < 14 && done < n; k++, done++) {
      Bytes m = c.msg; const char* what;
      size_t pos = 0;
      switch (k) {
      case 0: what = "msg-append-zero"; m.push_back(0); break;
      case 1: what = "msg-append-domain"; m.push_back((uint8_t)R.below(4)); break;
      case 2: what = "msg-truncate-1"; if (m.empty()) continue; m.pop_back(); break;
      case 3: what = "msg-truncate"; if (m.empty()) continue; m.resize(R.below(m.size())); break;
      case 4: what = "msg-empty"; m.clear(); break;
      case 5: what = "msg-append-block"; { Bytes x = R.bytes(1 + R.below(400)); m.insert(m.end(), x.begin(), x.end()); } break;
      case 6: what = "msg-last-bit"; if (m.empty()) continue; pos = m.size() - 1; m[pos] ^= 0x80; break;
      case 7: what = "msg-first-bit"; if (m.empty()) continue; m[0] ^= 1; break;
      case 8: what = "msg-prepend"; m.insert(m.begin(), (uint8_t)R.below(256)); break;
      case 9: what = "msg-replaced"; R.fill(m.data(), m.size()); break;
      case 10: what = "msg-swap"; if (m.size() < 2) continue; { size_t a = R.below(m.size()), b = R.below(m.size()); std::swap(m[a], m[b]); } break;
      case 11: what = "msg-pad-like"; m.push_back(0x1f); m.push_back(0); m.push_back(0x80); break;
      default: what = "msg-bit"; if (m.empty()) continue; pos = R.below(m.size()); m[pos] ^= 1 << R.below(8); break;
      }
      must_reject(s, what, pos, c, c.pk, m, c.sig, c.sig.size());
    }
  }
}
// every bit position class of the message of one length
static void msgbits(const Set& s, const M::Par& p, unsigned n) {
  Case c = honest(s, p, 100 + R.below(200));
  for (unsigned k = 0; k < n; k++) {
    Bytes m = c.msg; size_t pos = k % m.size(); m[pos] ^= 1 << R.below(8);
    must_reject(s, "msg-byte", pos, c, c.pk, m, c.sig, c.sig.size());
  }
}
// messages whose length is near a power of two, changed near its powers of two
static void msgpow(const Set& s, const M::Par& p, unsigned first, unsigned n) {
  for (unsigned k = first; k < first + n; k++) {
    size_t L = pow_len(k); Case c = honest(s, p, L);
    std::vector<size_t> at = {0, L - 1, L - 2, L / 2, L / 2 - 1, L / 4 * 3, R.below(L), R.below(L)}; for (int j = 0; j < 3; j++) { size_t q = size_t(1) << R.below(21); if (q < L) { at.push_back(q); at.push_back(q - 1); at.push_back(L - q); } }
    for (size_t a : at) { Bytes m = c.msg; m[a] ^= 1 << R.below(8); must_reject(s, "msg-pow-bit", a, c, c.pk, m, c.sig, c.sig.size()); }
    for (size_t l : {L - 1, L / 2, L & (L - 1), L - (L & 0xffff), size_t(0)}) { if (l >= L) continue; Bytes m(c.msg.begin(), c.msg.begin() + l); must_reject(s, "msg-pow-cut", l, c, c.pk, m, c.sig, c.sig.size()); }
    Bytes m = c.msg; m.push_back(0); must_reject(s, "msg-pow-append", L, c, c.pk, m, c.sig, c.sig.size());
    m = c.msg; m.insert(m.end(), c.msg.begin(), c.msg.end()); must_reject(s, "msg-pow-twice", L, c, c.pk, m, c.sig, c.sig.size());
  }
}
static void pks(const Set& s, const M::Par& p, unsigned n) {
  Case c = honest(s, p, 40), d = honest(s, p, 40);
  unsigned start = R.below(8 * p.pk);
  for (unsigned k = 0; k < n; k++) {
    Bytes pk = c.pk; const char* what = "pk-bit"; size_t pos = 0;
    if (k < 8 * p.pk) { pos = (start + k * 5) % (8 * p.pk); pk[pos / 8] ^= 1 << (pos % 8); }
    else { pos = R.below(p.pk); pk[pos] = (uint8_t)R.below(256); what = "pk-byte"; }
    must_reject(s, what, pos, c, pk, c.msg, c.sig, c.sig.size());
  }
  must_reject(s, "pk-other", 0, c, d.pk, c.msg, c.sig, c.sig.size());
  Bytes x = c.pk; std::swap_ranges(x.begin(), x.begin() + p.pk / 2, x.begin() + p.pk / 2);
  must_reject(s, "pk-swapped-halves", 0, c, x, c.msg, c.sig, c.sig.size());
  x = c.pk; memcpy(&x[0], &d.pk[0], p.pk / 2); must_reject(s, "pk-other-input", 0, c, x, c.msg, c.sig, c.sig.size());
  x = c.pk; memcpy(&x[p.pk / 2], &d.pk[p.pk / 2], p.pk / 2); must_reject(s, "pk-other-output", 0, c, x, c.msg, c.sig, c.sig.size());
  // keys and signatures of other parameter sets
  for (auto& o : SETS) {
    if (o.name == s.name) continue;
    const M::Par& q = M::par(o.name);
    if (o.pk == p.pk) {
      Bytes pk(o.pk), sk(o.sk); rnd().reset(R.u64()); o.keygen(pk.data(), sk.data());
      must_reject(s, "pk-other-set", 0, c, pk, c.msg, c.sig, c.sig.size());
    }
    // the same bytes presented as a signature of another set
    Bytes t(q.sig); for (size_t i = 0; i < t.size(); i++) t[i] = c.sig[i % c.sig.size()];
    Bytes pk(q.pk); for (size_t i = 0; i < pk.size(); i++) pk[i] = c.pk[i % c.pk.size()];
    if (q.sig < 18000 && p.sig < 18000) must_reject(o, "sig-other-set", 0, c, pk, c.msg, t, t.size());
  }
}
static void lens(const Set& s, const M::Par& p) {
  Case c = honest(s, p, 33);
  Bytes longer = c.sig; longer.resize(p.sig + 4096, 0);
  std::set<size_t> L = {0, 1, p.sig - 1, p.sig - 16, p.sig / 2, p.sig - p.lb, p.sig + 1, p.sig + 16, 2 * p.sig, (size_t)p.sig + 65536, (size_t)p.sig + (1ull << 32), (size_t)-1, (size_t)p.sig | (1ull << 63), (size_t)p.sig + 256, (1ull << 32), (size_t)p.sig - 65536};
  for (auto& o : SETS) L.insert(o.sig);
  for (size_t d = 1; d < 400; d++) { L.insert(p.sig + d); L.insert(p.sig - d); }
  L.erase(p.sig);
  for (size_t l : L) {
    Bytes t = longer; if (l <= t.size()) t.resize(l);
    must_reject(s, "siglen", l, c, c.pk, c.msg, t, l);
  }
}

// a verifier whose recomputation deviates in one bit must reject
static void faults(const Set& s, const M::Par& p, unsigned n, bool only_last) {
  Case c = honest(s, p, 50);
  Squeeze& q = sq();
  q.clear(); q.begin();
  s.verify(c.pk.data(), c.msg.data(), c.msg.size(), c.sig.data(), c.sig.size());
  q.end();
  std::vector<size_t> sizes = q.sizes;
  if (sizes.empty() || sizes.size() > 300) { count("hash_boundary_not_observable"); return; }
  size_t last = sizes.size() - 1;
  if (q.last_out.size() != p.lb || memcmp(q.last_out.data(), &c.sig[p.off_chall], p.lb)) { count("hash_boundary_not_observable"); return; }
  count("hash_boundary_observable");
  unsigned start = R.below(p.lambda);
  for (unsigned k = 0; k < n; k++) {
    q.clear();
    Bytes mask(p.lb);
    Bytes sig = c.sig;
    if (only_last && k % 2) {   // any challenge may stand in the signature: the recomputed one is decided here
      uint8_t* ch = &sig[p.off_chall];
      switch (R.below(6)) {
      case 0: memset(ch, 0, p.lb); break;
      case 1: memset(ch, 0xff, p.lb); break;
      case 2: ch[0] = 0; break;
      case 3: ch[R.below(p.lb)] = 0; ch[R.below(p.lb)] = 0xff; break;
      case 4: for (unsigned i = 0; i < p.lb; i++) ch[i] = (uint8_t)(R.below(4) ? ch[i] : R.below(2) ? 0 : 0x80); break;
      default: memset(ch, (int)R.below(256), 1 + R.below(p.lb)); break;
      }
    }
    Bytes val = Bytes(sig.begin() + p.off_chall, sig.begin() + p.off_chall + p.lb);
    std::string what;
    if (only_last) {
      // the final comparison: every single bit, and multi-byte differences that cancel in sums
      if (k < p.lambda) { unsigned b = (start + k) % p.lambda; mask[b / 8] ^= 1 << (b % 8); }
      else switch (R.below(7)) {
        case 5: { int n = 1 << R.below(4); size_t a = R.below(p.lb / n) * n, b = R.below(p.lb / n) * n; if (a == b) continue;   // differences that cancel in a sum of words
          uint64_t x = 0, y = 0, d = R.below(2) ? 1 : R.u64(); memcpy(&x, &val[a], n); memcpy(&y, &val[b], n); uint64_t x2 = x + d, y2 = y - d; for (int i = 0; i < n; i++) { mask[a + i] = (uint8_t)((x ^ x2) >> (8 * i)); mask[b + i] = (uint8_t)((y ^ y2) >> (8 * i)); } break; }
        case 6: { size_t a = R.below(p.lb), b = R.below(p.lb); mask[a] = val[a] ^ val[b]; mask[b] = val[a] ^ val[b]; break; }   // two bytes exchanged
        case 0: { uint8_t d = 1 + R.below(255); size_t a = R.below(p.lb), b = R.below(p.lb); mask[a] ^= d; mask[b] ^= d; break; }
        case 1: { memset(mask.data(), 1 + R.below(255), mask.size()); break; }
        case 2: { size_t b = R.below(p.lb / 8) * 8, a = R.below(p.lb / 8) * 8; Bytes x = R.bytes(8); for (int i = 0; i < 8; i++) { mask[a + i] ^= x[i]; mask[b + i] ^= x[i]; } break; }
        case 3: { mask[R.below(p.lb)] = 0x80; mask[R.below(p.lb)] ^= 0x80; break; }
        default: mask = R.bytes(p.lb);
        }
      bool any = false; for (size_t i = 0; i < p.lb; i++) { val[i] ^= mask[i]; any |= mask[i]; }
      if (!any) continue;
      q.at = (long)last; q.value = val.data(); q.value_len = p.lb; what = "final-challenge";
    } else {
      size_t call = R.below(sizes.size());
      q.flip_call = (long)call; q.flip_bit = R.below(8 * sizes[call]);
      what = "hash-output-" + std::to_string(call);
    }
    q.begin();
    int rc = s.verify(c.pk.data(), c.msg.data(), c.msg.size(), sig.data(), sig.size());
    q.end();
    if (!(q.at_done || q.flip_done)) continue;
    eval(); count("faulted_recomputations");
    uint64_t h = mix(3, s.name, strlen(s.name)); h = mix(h, val.data(), val.size()); h = mix(h, &q.flip_call, 8); h = mix(h, &q.flip_bit, 8); h = mix(h, c.sig.data(), 64);
    distinct(h);
    sample("%s fault in %s mask=%s -> %d", s.name, what.c_str(), only_last ? M::hex(mask).c_str() : std::to_string(q.flip_bit).c_str(), rc);
    if (rc == 0)
      viol(std::string("fault:") + s.name + ":" + (only_last ? "final" : "intermediate"), "verification accepts although %s deviates (mask %s, bit %zu) sk=%s msg=%s", what.c_str(), M::hex(mask).c_str(), q.flip_bit, M::hex(c.sk).c_str(), H(c.msg).c_str());
  }
  q.clear();
}
static void bigmsg(const Set& s, const M::Par& p) {
  // messages that agree modulo 2^29 / 2^32 in length, and differ beyond
  unsigned long long len = (1ull << 32) + 9;
  uint8_t* m = (uint8_t*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) { inconclusive("mmap"); return; }
  Case c = honest(s, p, 9);
  memcpy(m, c.msg.data(), 9);
  for (unsigned long long l : {len, (1ull << 29) + 9, (1ull << 16) + 9, (1ull << 24) + 9}) {
    int rc = s.verify(c.pk.data(), m, l, c.sig.data(), c.sig.size());
    eval(); distinct(mix(l, c.sig.data(), 64)); count("long_extension");
    if (rc == 0) viol(std::string("accepted:") + s.name + ":msg-long-extension", "signature over 9 bytes accepted for %llu bytes sk=%s", l, M::hex(c.sk).c_str());
  }
  // a change beyond 2^29 and beyond 2^24 in a long message
  len = (1ull << 29) + 200;
  size_t sl = p.sig;
  if (s.signr(c.sk.data(), m, len, nullptr, 0, c.sig.data(), &sl)) { viol(std::string("sign:") + s.name, "long message"); return; }
  for (unsigned long long pos : {len - 1, (1ull << 29) + 1, (1ull << 24) + 3}) {
    m[pos] ^= 4;
    int rc = s.verify(c.pk.data(), m, len, c.sig.data(), c.sig.size());
    m[pos] ^= 4;
    eval(); distinct(mix(pos, c.sig.data(), 64)); count("long_change");
    if (rc == 0) viol(std::string("accepted:") + s.name + ":msg-long-change", "byte %llu of %llu changed, accepted sk=%s", pos, len, M::hex(c.sk).c_str());
  }
  munmap(m, len);
}

// ---------------------------------------------------------------- C04
static void crafted(const Set& s, const M::Par& p, unsigned n, unsigned job) {
  for (unsigned k = 0; k < n; k++) {
    Bytes sk(p.sk), pk;
    do R.fill(sk.data(), sk.size()); while (!M::derive_pk(p, sk, pk));
    Bytes msg = R.bytes(R.below(200)), rho = R.bytes(R.below(40)), iv = R.bytes(16), root = R.bytes(p.lb);
    M::SignOpts o; std::string what; Bytes sig, spk = pk;
    const uint8_t *in = &sk[0], *key = &sk[p.ublk];
    unsigned kind = (unsigned)((k + job * 5) % 12);
    bool expect_known = true, expect = false; // what the theory says; the model must agree
    switch (kind) {
    case 0: case 1: { // valid, extreme IV
      what = "valid-extreme-iv"; expect = true;
      switch (R.below(6)) {
      case 0: memset(iv.data(), 0xff, 16); break;
      case 1: memset(iv.data(), 0, 16); break;
      default: { size_t c = 1 + R.below(15); memset(&iv[16 - c], 0xff, c); iv[15] = (uint8_t)(0xff - R.below(60)); }
      }
      o.iv = iv.data(); if (R.below(2)) o.root = root.data();
      sig = M::sign_stmt(p, key, in, &pk[p.ublk], msg, rho, o); break; }
    case 2: // valid, arbitrary root (not derived from the key)
      what = "valid-free-root"; expect = true; o.root = root.data(); o.iv = iv.data();
      if (R.below(3) == 0) memset(root.data(), R.below(2) ? 0xff : 0, p.lb);
      sig = M::sign_stmt(p, key, in, &pk[p.ublk], msg, rho, o); break;
    case 3: // no knowledge of the key
      what = "unknown-key"; R.fill(&pk[p.ublk], p.ublk);
      sig = M::sign_stmt(p, key, in, &pk[p.ublk], msg, rho, o); break;
    case 4: { // statement off by one bit of the output or input
      what = "statement-off-by-one-bit"; pk[R.below(p.pk)] ^= 1 << R.below(8);
      sig = M::sign_stmt(p, key, &pk[0], &pk[p.ublk], msg, rho, o);
      if (R.below(2)) sig = M::sign_stmt(p, key, in, &spk[p.ublk], msg, rho, o), what = "other-statement";
      break; }
    case 5: case 6: case 7: { // one witness bit wrong
      what = "witness-bit"; unsigned bit = R.below(p.l);
      // spread over the witness so that jobs cover it
      if (kind != 7) bit = (unsigned)(((uint64_t)(job * 131 + k) * 2654435761u) % p.l);
      o.witness = [bit](Bytes& w) { w[bit / 8] ^= 1 << (bit % 8); };
      what += ""; sig = M::sign_stmt(p, key, in, &pk[p.ublk], msg, rho, o); count("witness_bits_forged"); break; }
    case 8: { // inconsistent correlation: one repetition commits to another vector
      what = "vole-inconsistent"; unsigned col = R.below(p.lambda); size_t b = R.below(p.ell_hat_bytes);
      int t = R.below(3);
      o.vole = [=](M::VoleP& v) {
        if (t == 0) v.V[col][b] ^= 1;
        else if (t == 1 && !v.c.empty()) v.c[col % v.c.size()][b] ^= 1;
        else v.u[b] ^= 1;
      };
      sig = M::sign_stmt(p, key, in, &pk[p.ublk], msg, rho, o);
      expect_known = false; break; } // may or may not survive one opened challenge: the model decides
    case 9: { // key with a zero S-box input
      what = "zero-sbox-key"; Bytes zs(p.sk); do R.fill(zs.data(), zs.size()); while (M::derive_pk(p, zs, pk));
      sig = M::sign_stmt(p, &zs[p.ublk], &zs[0], &pk[p.ublk], msg, rho, o); expect_known = false; break; }
    case 10: { // random string
      what = "random-string"; sig = R.bytes(p.sig); if (R.below(3) == 0) memset(sig.data(), R.below(2) ? 0xff : 0, sig.size()); break; }
    default: { // honest except one field recomputed for other data
      what = "spliced"; Bytes m2 = R.bytes(10); Bytes a = M::sign(p, sk, msg, rho), b = M::sign(p, sk, m2, rho);
      size_t at = R.below(p.sig); sig = a; memcpy(&sig[at], &b[at], p.sig - at); if (sig == b) msg = m2, expect = true; if (sig == a) expect = true; break; }
    }
    bool mv = M::verify(p, pk, msg, sig);
    if (expect_known && mv != expect) { inconclusive("model verdict %d for %s, expected %d (set %s)", mv, what.c_str(), expect, s.name); continue; }
    Guard gp(pk), gs(sig, R.below(2)), gm(msg);
    gp.readonly(); gs.readonly(); gm.readonly();
    int rc = s.verify(gp.p, gm.p, msg.size(), gs.p, sig.size());
    eval(); count(what.c_str()); count(mv ? "must_accept" : "must_reject");
    distinct(s.name, sig, pk);
    sample("%s %s: specified %s, verifier returned %d", s.name, what.c_str(), mv ? "accept" : "reject", rc);
    if ((rc == 0) != mv)
      viol(std::string(mv ? "rejects_valid:" : "accepts_invalid:") + s.name + ":" + what, "verifier returned %d, specification says %s: pk=%s msg=%s iv=%s sk=%s sig=%s", rc, mv ? "accept" : "reject", M::hex(pk).c_str(), M::hex(msg).c_str(), H(&sig[p.off_iv], 16).c_str(), M::hex(sk).c_str(), H(sig, 64).c_str());
  }
}

int main(int argc, char** argv) {
  if (argc < 4) die("usage");
  std::string mode = argv[1];
  const Set& s = set_of(argv[2]);
  const M::Par& p = M::par(argv[2]);
  unsigned long long job = strtoull(argv[3], nullptr, 10), n = argc > 4 ? strtoull(argv[4], nullptr, 10) : 1;
  R = Rng(envseed(), mix(job, mode.data(), mode.size()) ^ mix(7, s.name, strlen(s.name)));
  if (mode == "sigbits") sigbits(s, p, n);
  else if (mode == "sigrange") sigrange(s, p, job, job + n);
  else if (mode == "sigmulti") sigmulti(s, p, n);
  else if (mode == "msgs") msgs(s, p, n);
  else if (mode == "msgbits") msgbits(s, p, n);
  else if (mode == "msgpow") msgpow(s, p, job, n);
  else if (mode == "pks") pks(s, p, n);
  else if (mode == "lens") lens(s, p);
  else if (mode == "faults") faults(s, p, n, false);
  else if (mode == "final") faults(s, p, n, true);
  else if (mode == "bigmsg") bigmsg(s, p);
  else if (mode == "crafted") crafted(s, p, n, job);
  else die("mode");
  return finish();
}
