// C18: seed trees, openings and reconstructions at every index against the model and among themselves
#include "fv.h"
extern "C" {
#include "vc.h"
#include "instances.h"
}
using namespace fv;
static Rng R(1);
static faest_paramid_t pid(unsigned lam) {
  static const faest_paramid_t A[3][4] = {{FAEST_128S, FAEST_128F, FAEST_EM_128S, FAEST_EM_128F}, {FAEST_192S, FAEST_192F, FAEST_EM_192S, FAEST_EM_192F}, {FAEST_256S, FAEST_256F, FAEST_EM_256S, FAEST_EM_256F}};
  return A[lam / 64 - 2][R.below(4)];
}
static Bytes iv_() {
  Bytes b = R.bytes(16);
  switch (R.below(5)) {
  case 0: memset(b.data(), 0xff, 16); b[0] -= R.below(4); break;
  case 1: memset(b.data(), 0xff, 1 + R.below(15)); break;
  case 2: memset(b.data(), 0, 16); break;
  }
  return b;
}
static Bytes root_(unsigned lb) { Bytes b = R.bytes(lb); if (R.below(8) == 0) memset(b.data(), R.below(2) ? 0xff : 0, lb); return b; }
struct Tree {
  unsigned lam, lb, depth, N; faest_paramset_t ps; Bytes root, iv; vec_com_t c;
  Tree(unsigned lam, unsigned depth) : lam(lam), lb(lam / 8), depth(depth), N(1u << depth), ps(faest_get_paramset(pid(lam))), root(root_(lam / 8)), iv(iv_()) {
    Guard gr(root, R.below(2)), gi(iv, R.below(2)); gr.readonly(); gi.readonly();
    memset(&c, (int)R.below(256), sizeof c);
    vector_commitment(gr.p, gi.p, &ps, lam, &c, depth);
  }
  ~Tree() { vec_com_clear(&c); }
};
// against the model: all nodes, seeds, commitments, digest
static void tree(unsigned lam, unsigned depth, unsigned n) {
  for (unsigned k = 0; k < n; k++) {
    Tree t(lam, depth); M::VC m = M::vc_commit(lam, t.root.data(), t.iv.data(), depth); std::string key = "tree-" + std::to_string(lam) + "-" + std::to_string(depth);
    eval(); distinct("tree", t.root, t.iv, depth); count("trees");
    if (memcmp(t.c.k, m.nodes.data(), m.nodes.size())) viol(key + "-nodes", "root %s iv %s", H(t.root).c_str(), H(t.iv).c_str());
    for (unsigned i = 0; i < t.N; i++) {
      if (memcmp(t.c.sd + i * t.lb, m.sd[i].data(), t.lb)) { viol(key + "-seed", "leaf %u root %s iv %s", i, H(t.root).c_str(), H(t.iv).c_str()); break; }
      if (memcmp(t.c.com + 2 * i * t.lb, m.com[i].data(), 2 * t.lb)) { viol(key + "-commitment", "leaf %u root %s iv %s", i, H(t.root).c_str(), H(t.iv).c_str()); break; }
    }
    count("leaves", t.N);
    if (memcmp(t.c.h, m.h.data(), 2 * t.lb)) viol(key + "-digest", "root %s iv %s", H(t.root).c_str(), H(t.iv).c_str());
    // a few openings, of the model and of the library
    for (int j = 0; j < 3; j++) {
      unsigned idx = (unsigned)R.below(t.N); Bytes b(depth), pd(depth * t.lb), cj(2 * t.lb), mp, mc; BitDec(idx, depth, b.data());
      vector_open(t.c.k, t.c.com, b.data(), pd.data(), cj.data(), depth, t.lb); M::vc_open(m, idx, mp, mc); eval(); count("openings");
      if (pd != mp || cj != mc) viol(key + "-opening", "index %u", idx);
    }
    if (!k) sample("tree of %u bits, depth %u, root %s: all nodes, seeds, commitments, digest", lam, depth, H(t.root).c_str());
  }
}
static void opens(unsigned lam, unsigned depth, unsigned lo, unsigned n, unsigned sub) {
  (void)sub;
  Tree t(lam, depth); unsigned lb = t.lb, N = t.N; std::string tag = std::to_string(lam) + "-" + std::to_string(depth);
  vec_com_rec_t r; size_t nn = getBinaryTreeNodeCount(depth);
  if (nn < 2 * N - 1) die("node count");
  r.h = (uint8_t*)malloc(2 * lb); r.k = (uint8_t*)calloc(nn, lb); r.com = (uint8_t*)malloc(2 * N * lb); r.s = (uint8_t*)malloc(N * lb);
  for (unsigned idx = lo; idx < lo + n && idx < N; idx++) {
    Bytes b(depth + 1, 0x7e); if (BitDec(idx, depth, b.data()) < 0 || b[depth] != 0x7e) viol("bitdec-" + tag, "%u", idx);
    for (unsigned j = 0; j < depth; j++) if (b[j] != (idx >> j & 1)) viol("bitdec-" + tag, "%u", idx);
    if (NumRec(depth, b.data()) != idx) viol("numrec-" + tag, "%u", idx);
    size_t pl = depth * lb; Bytes pd(pl + 8, 0x5c), cj(2 * lb + 8, 0x5c);
    vector_open(t.c.k, t.c.com, b.data(), pd.data(), cj.data(), depth, lb);
    for (int i = 0; i < 8; i++) if (pd[pl + i] != 0x5c || cj[2 * lb + i] != 0x5c) { viol("open-writes-outside-" + tag, "index %u", idx); break; }
    // neither the hidden seed nor an ancestor in any alignment
    size_t node = getNodeIndex(depth, idx);
    for (unsigned lv = depth;; lv--) {
      const uint8_t* s = t.c.k + node * lb;
      if (memmem(pd.data(), pl, s, lb) || memmem(cj.data(), 2 * lb, s, lb)) { viol("open-leaks-" + tag, "index %u: node at level %u", idx, lv); break; }
      count("hidden_nodes_searched");
      if (!lv) break;
      node = (node - 1) / 2;
    }
    if (memmem(pd.data(), pl, t.c.sd + idx * lb, lb)) viol("open-leaks-" + tag, "index %u: seed", idx);
    { Guard gp(pl, R.below(2)), gc(2 * lb, R.below(2)), gi(t.iv, R.below(2)); memcpy(gp.p, pd.data(), pl); memcpy(gc.p, cj.data(), 2 * lb); gp.readonly(); gc.readonly(); gi.readonly();
      // whatever an earlier reconstruction left in the buffers
      if (R.below(4) == 0) { memset(r.s, (int)R.u64(), N * lb); memset(r.com, (int)R.u64(), 2 * N * lb); memset(r.h, (int)R.u64(), 2 * lb); }
      vector_reconstruction(gi.p, gp.p, gc.p, b.data(), lam, depth, &r); }
    eval(); distinct("open", t.root, t.iv, idx); count("reconstructions");
    if (memcmp(r.h, t.c.h, 2 * lb)) viol("reconstruct-digest-" + tag, "index %u root %s iv %s", idx, H(t.root).c_str(), H(t.iv).c_str());
    for (unsigned i = 0; i < N; i++) {
      if (i != idx && memcmp(r.s + i * lb, t.c.sd + i * lb, lb)) { viol("reconstruct-seed-" + tag, "index %u leaf %u root %s", idx, i, H(t.root).c_str()); break; }
      if (memcmp(r.com + 2 * i * lb, t.c.com + 2 * i * lb, 2 * lb)) { viol("reconstruct-commitment-" + tag, "index %u leaf %u root %s", idx, i, H(t.root).c_str()); break; }
    }
    // binding: one bit of the opening, of the hidden commitment, or of the index
    unsigned what = (unsigned)R.below(depth < 10 ? 4 : 8);
    if (what < 3) {
      Bytes p2 = pd, c2 = cj, b2 = b, i2 = t.iv; size_t pos;
      if (what == 0) { pos = R.below(8 * pl); p2[pos / 8] ^= 1 << (pos % 8); }
      else if (what == 1) { pos = R.below(16 * lb); c2[pos / 8] ^= 1 << (pos % 8); }
      else { pos = R.below(depth); b2[pos] ^= 1; }
      vector_reconstruction(i2.data(), p2.data(), c2.data(), b2.data(), lam, depth, &r); eval();
      count(what == 0 ? "opening_bit_changed" : what == 1 ? "commitment_bit_changed" : "index_changed");
      if (!memcmp(r.h, t.c.h, 2 * lb)) viol("not-binding-" + tag, "index %u: %s %zu changed, same digest", idx, what == 0 ? "opening bit" : what == 1 ? "commitment bit" : "index bit", pos);
      if (R.below(8) == 0) {
        M::VCRec m = M::vc_reconstruct(lam, i2.data(), depth, NumRec(depth, b2.data()), p2.data(), c2.data()); count("model_rejections");
        if (memcmp(r.h, m.h.data(), 2 * lb)) viol("reconstruct-altered-" + tag, "index %u kind %u pos %zu: not the digest of the specification", idx, what, pos);
        for (unsigned i = 0; i < N; i++) if (i != NumRec(depth, b2.data()) && memcmp(r.s + i * lb, m.sd[i].data(), lb)) { viol("reconstruct-altered-" + tag, "index %u kind %u pos %zu leaf %u", idx, what, pos, i); break; }
      }
    }
    if (idx % 64 == lo % 64) { // the verifying form
      int ok = vector_verify(t.iv.data(), pd.data(), cj.data(), b.data(), lam, depth, nullptr, t.c.h); Bytes h2(t.c.h, t.c.h + 2 * lb); size_t pos = R.below(16 * lb); h2[pos / 8] ^= 1 << (pos % 8);
      int no = vector_verify(t.iv.data(), pd.data(), cj.data(), b.data(), lam, depth, nullptr, h2.data()); count("verify"); eval(2);
      if (ok != 1 || no != 0) viol("vector_verify-" + tag, "index %u: %d %d", idx, ok, no);
    }
  }
  sample("depth %u, %u bits: indices %u..%u opened, reconstructed, altered", depth, lam, lo, lo + n - 1);
  vec_com_rec_clear(&r);
}
static void indices() {
  for (unsigned d = 1; d <= 12; d++) {
    uint8_t b[40];
    for (unsigned i = 0; i < 1u << d; i++) { memset(b, 9, sizeof b); int r = BitDec(i, d, b); bool ok = r >= 0 && b[d] == 9; for (unsigned j = 0; j < d; j++) ok = ok && b[j] == (i >> j & 1); ok = ok && NumRec(d, b) == i && getNodeIndex(d, i) == (1u << d) - 1 + i; eval(); count("index_values"); if (!ok) viol("index-arithmetic", "depth %u index %u", d, i); }
    for (unsigned i : {1u << d, (1u << d) + 1, 0x80000000u, 0xffffffffu}) { eval(); if (BitDec(i, d, b) >= 0) viol("index-arithmetic", "depth %u index %u accepted", d, i); count("index_rejected"); }
    if (getBinaryTreeNodeCount(d) != (2u << d) - 1) viol("node-count", "depth %u", d);
    distinct(d);
  }
}
int main(int argc, char** argv) {
  std::string m = argv[1]; unsigned lam = atoi(argv[2]), d = atoi(argv[3]), a = atoi(argv[4]), b = argc > 5 ? atoi(argv[5]) : 0, s = argc > 6 ? atoi(argv[6]) : 0;
  R = Rng(envseed(), lam * 977 + d * 131 + a * 7 + s * 65537 + m.size());
  if (m == "tree") tree(lam, d, a);
  if (m == "opens") opens(lam, d, a, b, s);
  if (m == "indices") indices();
  return finish();
}
