// C25: every input is bound into every part of the signature; no secret is in it
#include "fv.h"
#include "sets.h"
#include <unordered_map>
#include <unordered_set>
using namespace fv;
static Rng R(1);
static std::unordered_map<std::string, std::string> seen;   // every seed, commitment and masked string of all signatures so far

struct Field { std::string name; size_t off, len; };
static std::vector<Field> fields(const M::Par& p) {
  std::vector<Field> f; std::string last; size_t from = 0;
  for (unsigned i = 0; i + 1 < p.tau; i++) f.push_back({"c", p.off_c + i * p.ell_hat_bytes, p.ell_hat_bytes});
  f.push_back({"u", p.off_u, p.off_d - p.off_u}); f.push_back({"d", p.off_d, p.off_a - p.off_d}); f.push_back({"a", p.off_a, p.off_open - p.off_a});
  for (unsigned i = 0; i < p.tau; i++) {
    size_t o = p.off_pdec(i), e = p.off_com(i);
    for (; o < e; o += p.lb) f.push_back({"pdec", o, p.lb});
    f.push_back({"com", e, 2 * p.lb});
  }
  f.push_back({"chall", p.off_chall, p.lb}); f.push_back({"iv", p.off_iv, 16});
  return f;
}
struct In { Bytes sk, msg, rho; bool null = false; };
static bool sign(const Set& s, const M::Par& p, const In& in, Bytes& sig) {
  sig.assign(p.sig, 0xa5); size_t sl = p.sig; eval();
  int rc = s.signr(in.sk.data(), in.msg.data(), in.msg.size(), in.null ? nullptr : in.rho.data(), in.rho.size(), sig.data(), &sl);
  if (rc) viol("sign:" + std::string(s.name), "rc=%d sk=%s", rc, H(in.sk).c_str());
  return rc == 0;
}
static std::string show(const In& i) { return "sk=" + H(i.sk) + " msg=" + H(i.msg) + "(" + std::to_string(i.msg.size()) + ") rho=" + (i.null ? "null" : H(i.rho) + "(" + std::to_string(i.rho.size()) + ")"); }
// nothing of a signature may ever have been in another one: 8-byte pieces of every field, aligned to the field
static void fresh(const Set& s, const M::Par& p, const Bytes& sig, const In& in, const Bytes* base, const char* what) {
  static std::vector<Field> f; static std::string of; if (of != s.name) { f = fields(p); of = s.name; seen.clear(); }
  static std::map<std::string, Bytes> done;   // an input that was used before gives the signature it gave then
  std::string id = std::string(in.sk.begin(), in.sk.end()) + std::to_string(in.msg.size()) + "." + std::string(in.msg.begin(), in.msg.end()) + std::string(in.rho.begin(), in.rho.end());
  if (strcmp(what, "drawn")) { auto d = done.emplace(id, sig); if (!d.second) { if (d.first->second != sig) viol("unequal:" + std::string(s.name), "equal inputs, different signatures; %s", show(in).c_str()); count("equal_inputs"); return; } }
  if (base) for (auto& x : f) if (!memcmp(&sig[x.off], &(*base)[x.off], x.len)) { viol(std::string("shared-") + x.name + ":" + what + ":" + s.name, "the %s at byte %zu is that of another input; %s", x.name.c_str(), x.off, show(in).c_str()); break; }
  for (auto& x : f) {
    if (x.len < 16) continue;
    auto r = seen.emplace(std::string((const char*)&sig[x.off], 16), x.name);
    if (!r.second) { viol("reused-" + x.name + ":" + what + ":" + s.name, "the %s at byte %zu was in an earlier signature (%s); %s", x.name.c_str(), x.off, r.first->second.c_str(), show(in).c_str()); break; }
  }
  if (base) {   // shifted or partial repetition
    std::unordered_set<uint64_t> w; w.reserve(2 * base->size());
    for (size_t i = 0; i + 8 <= base->size(); i++) { uint64_t x; memcpy(&x, &(*base)[i], 8); w.insert(x); }
    for (size_t i = 0; i + 8 <= sig.size(); i++) { uint64_t x; memcpy(&x, &sig[i], 8); if (w.count(x)) { viol(std::string("repeated-") + M::sig_field(p, i) + ":" + what + ":" + s.name, "8 bytes at %zu also are in the signature of another input; %s", i, show(in).c_str()); break; } }
  }
  count((std::string("changed_") + what).c_str()); distinct(what, sig);
}
static Bytes key(const Set& s, const M::Par& p, Bytes& pk) { for (;;) { Bytes sk = R.below(3) ? R.bytes(p.sk) : edge_bytes(R, p.sk); if (M::derive_pk(p, sk, pk)) return sk; } }
static size_t place(size_t n, unsigned k) {   // stratified positions, ends first
  switch (k % 6) { case 0: return n - 1; case 1: return 0; case 2: return R.below(n); case 3: return n > 33 ? 31 + R.below(3) : n / 2; case 4: return n - 1 - R.below(n < 9 ? n : 9); default: return n > 140 ? 133 + R.below(8) : R.below(n); }
}
static void bind(const Set& s, const M::Par& p, unsigned idx, unsigned n) {
  unsigned k = idx;
  while (n > 0) {
    In b; Bytes pk; b.sk = key(s, p, pk);
    static const size_t L[] = {1, 16, 24, 32, 33, 48, 64, 65, 100, 136, 168, 200, 300, 4096, 70000};
    auto len = [&] { return R.below(3) ? L[R.below(15)] : pow_len((unsigned)R.below(39)); };
    b.msg = edge_bytes(R, len()); b.rho = edge_bytes(R, len());
    Bytes base, sig; if (!sign(s, p, b, base)) return;
    fresh(s, p, base, b, nullptr, "input");
    // equal inputs, elsewhere in memory
    if (k % 3 == 0) { In c; c.sk = b.sk; c.msg = b.msg; c.rho = b.rho; if (sign(s, p, c, sig) && sig != base) viol("unequal:" + std::string(s.name), "equal inputs, different signatures; %s", show(b).c_str()); count("equal_inputs"); }
    for (unsigned q = 0; q < 12 && n > 0; q++, n--, k++) {
      In a = b; const char* what;
      switch (k % 12) {
      case 0: case 1: { what = "rho-bit"; size_t at = place(a.rho.size(), k / 12 + k % 12); a.rho[at] ^= 1 << R.below(8); break; }
      case 2: case 3: { what = "msg-bit"; size_t at = place(a.msg.size(), k / 12 + k % 12); a.msg[at] ^= 1 << R.below(8); break; }
      case 4: what = "rho-longer"; a.rho.push_back(R.below(2) ? 0 : 0x1f); break;
      case 5: what = "rho-shorter"; a.rho.resize(R.below(3) ? a.rho.size() - 1 : R.below(a.rho.size())); break;
      case 6: what = "msg-longer"; a.msg.push_back(R.below(2) ? 0 : 0x1f); break;
      case 7: what = "msg-shorter"; a.msg.resize(R.below(3) ? a.msg.size() - 1 : R.below(a.msg.size())); break;
      case 8: case 9: { what = "key-bit"; Bytes z; unsigned t = 0; do { a = b; size_t at = t++ == 0 ? place(p.lb, k / 12) : R.below(p.lb); a.sk[p.ublk + at] ^= 1 << R.below(8); } while (!M::derive_pk(p, a.sk, z)); break; }
      case 10: { what = "input-bit"; Bytes z; unsigned t = 0; do { a = b; size_t at = t++ == 0 ? place(p.ublk, k / 12) : R.below(p.ublk); a.sk[at] ^= 1 << R.below(8); } while (!M::derive_pk(p, a.sk, z)); break; }
      default: { what = "boundary"; if (R.below(2)) { a.rho.insert(a.rho.begin(), a.msg.back()); a.msg.pop_back(); } else { a.msg.push_back(a.rho[0]); a.rho.erase(a.rho.begin()); } break; }
      }
      if (sign(s, p, a, sig)) fresh(s, p, sig, a, &base, what);
    }
    // no randomness, an empty one, and an all-zero one
    if (k % 2 == 0) {
      In a = b; a.rho.clear(); In z = a; z.null = true; Bytes s1, s2;
      if (sign(s, p, a, s1) && sign(s, p, z, s2)) { if (s1 != s2) viol("null-randomness:" + std::string(s.name), "null and empty randomness differ; %s", show(a).c_str()); fresh(s, p, s1, a, &base, "rho-none"); }
      a.rho.assign(p.lb, 0); if (sign(s, p, a, s2)) fresh(s, p, s2, a, &s1, "rho-zero");
    }
    sample("%s: %s", s.name, show(b).c_str());
  }
}
// the entry point that draws randomness itself: two signatures of one message share nothing
static void drawn(const Set& s, const M::Par& p, unsigned n) {
  for (unsigned k = 0; k < n; k++) {
    In b; Bytes pk; b.sk = key(s, p, pk); b.msg = edge_bytes(R, R.below(200)); Bytes s1(p.sig), s2(p.sig); size_t l = p.sig;
    rnd().reset(R.u64()); eval(2);
    if (s.sign(b.sk.data(), b.msg.data(), b.msg.size(), s1.data(), &l) || s.sign(b.sk.data(), b.msg.data(), b.msg.size(), s2.data(), &l)) { viol("sign:" + std::string(s.name), "fails"); return; }
    fresh(s, p, s1, b, nullptr, "drawn"); fresh(s, p, s2, b, &s1, "drawn");
  }
}
static void hide(const Set& s, const M::Par& p, unsigned n) {
  for (unsigned k = 0; k < n; k++) {
    In b; Bytes pk; b.sk = key(s, p, pk); b.msg = edge_bytes(R, R.below(300)); b.rho = edge_bytes(R, R.below(100)); Bytes sig; if (!sign(s, p, b, sig)) return;
    std::vector<std::pair<const char*, Bytes>> sec;
    Bytes key(b.sk.begin() + p.ublk, b.sk.end()); sec.push_back({"key", key});
    M::VoleP vp; Bytes wit; M::SignOpts o; o.vole = [&](M::VoleP& v) { vp = v; }; o.witness = [&](Bytes& w) { wit = w; };
    Bytes ref = M::sign(p, b.sk, b.msg, b.rho, o);
    Bytes pkmsg = pk; Bytes mu = M::H(p.lambda, 1, {pk, b.msg}, 2 * p.lb), ri = M::H(p.lambda, 3, {key, mu, b.rho}, p.lb + 16);
    sec.push_back({"root", Bytes(ri.begin(), ri.begin() + p.lb)}); sec.push_back({"witness", wit});
    bool same = ref == sig; count(same ? "secrets_of_signature_known" : "other_signature");
    if (memcmp(&ri[p.lb], &ref[p.off_iv], 16)) die("root of the model");
    sec.push_back({"mask", vp.u}); for (auto& v : vp.V) sec.push_back({"tag", v});
    for (unsigned i = 0; i < p.tau; i++) {
      unsigned h = M::chal_dec(p, &sig[p.off_chall], i); unsigned d = p.depth(i);
      // (with the model's index even if the bytes differ)
      for (size_t node = (size_t(1) << d) - 1 + h;; node = (node - 1) / 2) { sec.push_back({node + 1 >= (size_t(1) << d) ? "hidden-leaf-key" : "hidden-ancestor", Bytes(&vp.vc[i].nodes[node * p.lb], &vp.vc[i].nodes[node * p.lb] + p.lb)}); if (!node) break; }
      sec.push_back({"hidden-seed", vp.vc[i].sd[h]}); count("hidden_indices");
      // the committed strings the hidden leaf expands to
      Bytes e(p.ell_hat_bytes); M::prg(p.lambda, vp.vc[i].sd[h].data(), &sig[p.off_iv], e.data(), e.size()); sec.push_back({"hidden-expansion", e});
    }
    std::unordered_map<uint64_t, size_t> w; w.reserve(4 * sig.size());
    for (size_t i = 0; i + 8 <= sig.size(); i++) { uint64_t x; memcpy(&x, &sig[i], 8); w.emplace(x, i); }
    for (size_t i = 0; i + 8 <= pk.size(); i++) { uint64_t x; memcpy(&x, &pk[i], 8); if (i + 8 <= p.ublk || i >= p.ublk) w.emplace(x, 1000000 + i); }
    size_t tested = 0;
    Bytes pub(b.sk.begin(), b.sk.begin() + p.ublk);
    for (auto& x : sec) {
      for (size_t i = 0; i + 8 <= x.second.size(); i++) {
        uint64_t v; memcpy(&v, &x.second[i], 8); tested++; auto f = w.find(v); if (f == w.end()) continue;
        if (f->second >= 1000000 && (!strcmp(x.first, "key") || !strcmp(x.first, "witness"))) continue;   // a structured key may equal a structured public input
        viol(std::string(x.first) + "-in-" + (f->second >= 1000000 ? "public-key" : M::sig_field(p, f->second)) + ":" + s.name, "8 bytes of the %s at %zu are the signature's bytes at %zu; %s", x.first, i, f->second, show(b).c_str()); break;
      }
    }
    // differences of strings in the signature: neighbouring correction strings, and d with the start of each correction string
    auto part = [&](size_t off, size_t n) { return Bytes(&sig[off], &sig[off] + n); };
    std::unordered_map<uint64_t, const char*> sw; for (auto& x : sec) if (strcmp(x.first, "tag")) for (size_t i = 0; i + 8 <= x.second.size(); i++) { uint64_t v; memcpy(&v, &x.second[i], 8); sw.emplace(v, x.first); }
    Bytes d = part(p.off_d, p.off_a - p.off_d);
    for (unsigned i = 0; i + 1 < p.tau; i++) for (unsigned j = i + 1; j < p.tau; j++) {
      Bytes a = part(p.off_c + i * p.ell_hat_bytes, p.ell_hat_bytes), c = j + 1 < p.tau ? part(p.off_c + j * p.ell_hat_bytes, p.ell_hat_bytes) : d;
      for (size_t q = 0; q + 8 <= c.size(); q++) { uint64_t x, y; memcpy(&x, &a[q], 8); memcpy(&y, &c[q], 8); x ^= y; auto f = sw.find(x); tested++; if (f != sw.end() || !x) { viol("difference-is-" + std::string(x ? f->second : "zero") + ":" + s.name, "correction strings %u and %u differ at %zu by it; %s", i, j, q, show(b).c_str()); break; } }
    }
    eval(tested); count("windows", tested); distinct("hide", sig);
    sample("%s: %zu secrets searched in the signature, known=%d", s.name, sec.size(), same);
  }
}
// keys that come from key generation: the public key holds nothing of the secret one but the shared input
static void pair(const Set& s, const M::Par& p, unsigned n) {
  std::unordered_set<std::string> keys, inputs;
  for (unsigned k = 0; k < n; k++) {
    Bytes pk(p.pk), sk(p.sk); rnd().reset(R.u64()); eval(); if (s.keygen(pk.data(), sk.data())) { viol("keygen:" + std::string(s.name), "fails"); return; }
    for (size_t i = 0; i + 8 <= p.lb; i++) for (size_t j = 0; j + 8 <= pk.size(); j++) if (!memcmp(&sk[p.ublk + i], &pk[j], 8)) { viol("key-in-public-key:" + std::string(s.name), "key byte %zu, public key byte %zu: %s", i, j, H(sk).c_str()); i = j = 1000; }
    for (unsigned h = 0; h < 2; h++) if (!(h ? inputs : keys).insert(h ? std::string((char*)&sk[0], 16) : std::string((char*)&sk[p.ublk], 16)).second) viol("repeated-key:" + std::string(s.name), "%s", H(sk).c_str());
    count("key_pairs"); distinct("pair", pk);
  }
}
int main(int argc, char** argv) {
  std::string m = argv[1]; const Set& s = set_of(argv[2]); const M::Par& p = M::par(s.name); unsigned idx = atoi(argv[3]), n = atoi(argv[4]);
  R = Rng(envseed() * 131 + 25, mix(idx, argv[2], strlen(argv[2])) ^ mix(1, m.data(), m.size()));
  if (m == "bind") bind(s, p, idx, n); else if (m == "hide") hide(s, p, n); else if (m == "drawn") drawn(s, p, n); else pair(s, p, n);
  return finish();
}
