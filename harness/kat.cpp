// C24: response files against the library driven by an independent generator, and against the model
#define FV_NO_RAND
#include "drbg.h"
#include "sets.h"
#include <fstream>
#include <sstream>
using namespace fv;
typedef unsigned long long ull;
extern "C" {
#define D(x) int nist_##x##_keypair(unsigned char*, unsigned char*); int nist_##x##_sign(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*); int nist_##x##_open(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*);
D(128s) D(128f) D(192s) D(192f) D(256s) D(256f) D(em_128s) D(em_128f) D(em_192s) D(em_192f) D(em_256s) D(em_256f)
}
struct N { const char* name; int (*keypair)(unsigned char*, unsigned char*); int (*sign)(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*); int (*open)(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*); };
#define E(x) {#x, nist_##x##_keypair, nist_##x##_sign, nist_##x##_open}
static const N NS[] = {E(128s), E(128f), E(192s), E(192f), E(256s), E(256f), E(em_128s), E(em_128f), E(em_192s), E(em_192f), E(em_256s), E(em_256f)};
extern fv::Drbg* fv_drbg;
typedef std::map<std::string, std::string> Rec;
static std::vector<Rec> parse(const char* f) {
  std::ifstream in(f); std::string l; std::vector<Rec> v;
  while (std::getline(in, l)) {
    if (in.eof()) break;    // a line without its end may be incomplete
    size_t e = l.find('='); if (l.empty() || l[0] == '#' || e == std::string::npos) continue;
    auto trim = [](std::string s) { size_t a = s.find_first_not_of(" \r"), b = s.find_last_not_of(" \r"); return a == std::string::npos ? std::string() : s.substr(a, b - a + 1); };
    std::string k = trim(l.substr(0, e)), x = trim(l.substr(e + 1)); if (k == "count") v.push_back(Rec()); if (v.empty()) continue; v.back()[k] = x;
  }
  return v;
}
static std::string up(const uint8_t* p, size_t n) { std::string s = M::hex(p, n); for (char& c : s) c = toupper(c); return s; }
static std::string up(const Bytes& b) { return up(b.data(), b.size()); }
int main(int argc, char** argv) {
  std::string set = argv[1]; std::string dir = argv[2]; unsigned want = atoi(argv[3]), first = atoi(argv[4]), n = atoi(argv[5]), mod = atoi(argv[6]);
  const M::Par& p = M::par(set); const N* w = nullptr; for (auto& x : NS) if (set == x.name) w = &x;
  auto rsp = parse((dir + "/PQCsignKAT_faest_" + set + ".rsp").c_str()), req = parse((dir + "/PQCsignKAT_faest_" + set + ".req").c_str());
  if (req.size() != 100) viol("requests:" + set, "%zu records in the request file", req.size());
  if (rsp.size() < want) viol("records:" + set, "%zu records in the response file", rsp.size());
  Bytes e(48); for (int i = 0; i < 48; i++) e[i] = i;
  Drbg top; top.init(e.data(), nullptr);
  for (unsigned i = 0; i < 100 && i < first + n; i++) {
    Bytes seed(48), m(33 * (i + 1)); top.gen(seed.data(), 48); top.gen(m.data(), m.size());
    if (i < first) continue;
    auto chk = [&](std::vector<Rec>& v, const char* file, const char* key, const std::string& val) { if (i >= v.size()) return; eval(); std::string got = v[i].count(key) ? v[i][key] : "(missing)"; if (got != val) viol(std::string(file) + ":" + key + ":" + set, "record %u: %.80s, expected %.80s", i, got.c_str(), val.c_str()); };
    for (auto f : {std::make_pair(&req, "request"), std::make_pair(&rsp, "response")}) {
      chk(*f.first, f.second, "count", std::to_string(i)); chk(*f.first, f.second, "seed", up(seed)); chk(*f.first, f.second, "mlen", std::to_string(m.size())); chk(*f.first, f.second, "msg", up(m));
    }
    if (i >= want || i >= rsp.size()) continue;
    Drbg d; d.init(seed.data(), nullptr);
    // the library draws through the generator: every request is one call of it

    fv_drbg = &d;
    Bytes pk(p.pk), sk(p.sk), sm(m.size() + p.sig); ull sl = 0;
    if (w->keypair(pk.data(), sk.data()) || w->sign(sm.data(), &sl, m.data(), m.size(), sk.data())) { viol("library:" + set, "record %u: error", i); continue; }
    chk(rsp, "response", "pk", up(pk)); chk(rsp, "response", "sk", up(sk)); chk(rsp, "response", "smlen", std::to_string(sl)); chk(rsp, "response", "sm", up(sm));
    count("records"); distinct(set.c_str(), seed, pk, i);
    if (i % mod == 0) {   // the record alone: opens to the message, for the library and the model
      std::string h = rsp[i]["sm"]; Bytes s = M::unhex(h), P = M::unhex(rsp[i]["pk"]), K = M::unhex(rsp[i]["sk"]), o(s.size()), out(p.pk / 2); ull ol = 0;
      eval(3); count("records_opened");
      if (P.size() != p.pk || K.size() != p.sk || s.size() != m.size() + p.sig) { viol("sizes:" + set, "record %u: pk %zu sk %zu sm %zu", i, P.size(), K.size(), s.size()); continue; }
      if (w->open(o.data(), &ol, s.data(), s.size(), P.data()) || ol != m.size() || memcmp(o.data(), m.data(), ol)) viol("open:" + set, "record %u does not open to its message", i);
      if (!M::owf(p, &K[p.pk / 2], K.data(), out.data()) || memcmp(out.data(), &P[p.pk / 2], out.size())) viol("pair:" + set, "record %u: not a key pair", i);
      if (!M::verify(p, P, m, Bytes(s.begin() + m.size(), s.end()))) viol("model-verify:" + set, "record %u", i);
    }
  }
  sample("%s records %u..%u of %zu", set.c_str(), first, first + n - 1, rsp.size());
  return finish();
}
fv::Drbg* fv_drbg;
extern "C" int rand_bytes(uint8_t* dst, size_t n) { if (!fv_drbg) return -1; fv_drbg->gen(dst, n); return 0; }
