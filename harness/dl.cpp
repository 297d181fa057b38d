// C23: the shared library by name only (dlopen), against the model
#define FV_NO_RAND
#include "fv.h"
#include <dlfcn.h>
using namespace fv;
int main(int argc, char** argv) {
  void* h = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL);
  if (!h) { viol("dlopen", "%s", dlerror()); return finish(); }
  Rng R(envseed(), 23);
  for (auto& p : M::params()) {
    if (argc > 2 && p.name != std::string(argv[2])) continue;
    auto f = [&](const char* n) { std::string s = std::string("faest_") + p.name + "_" + n; void* q = dlsym(h, s.c_str()); if (!q) viol("missing:" + s, "not found by dlsym"); return q; };
    auto keygen = (int (*)(uint8_t*, uint8_t*))f("keygen");
    auto sign = (int (*)(const uint8_t*, const uint8_t*, size_t, uint8_t*, size_t*))f("sign");
    auto signr = (int (*)(const uint8_t*, const uint8_t*, size_t, const uint8_t*, size_t, uint8_t*, size_t*))f("sign_with_randomness");
    auto verify = (int (*)(const uint8_t*, const uint8_t*, size_t, const uint8_t*, size_t))f("verify");
    auto validate = (int (*)(const uint8_t*, const uint8_t*))f("validate_keypair");
    auto clear = (void (*)(uint8_t*))f("clear_private_key");
    if (!keygen || !sign || !signr || !verify || !validate || !clear) continue;
    Guard pk(p.pk), sk(p.sk), sig(p.sig);
    if (keygen(pk.p, sk.p)) { viol(std::string("keygen:") + p.name, "error"); continue; }
    Bytes out(p.pk / 2);
    bool ok = M::owf(p, sk.p + p.pk / 2, sk.p, out.data());
    eval(); count("shared_keys");
    if (!ok || memcmp(out.data(), pk.p + p.pk / 2, out.size()) || memcmp(pk.p, sk.p, p.pk / 2)) viol(std::string("keypair:") + p.name, "sk=%s pk=%s", H(sk.bytes()).c_str(), H(pk.bytes()).c_str());
    if (validate(pk.p, sk.p)) viol(std::string("validate:") + p.name, "own key refused");
    for (int k = 0; k < 2; k++) {
      Bytes m = R.bytes(R.below(200)), rho = R.bytes(R.below(64)); size_t l = p.sig;
      if (signr(sk.p, m.data(), m.size(), rho.data(), rho.size(), sig.p, &l) || l != p.sig) { viol(std::string("sign:") + p.name, "error or length %zu", l); continue; }
      Bytes e = M::sign(p, sk.bytes(), m, rho); eval(); count("shared_signatures");
      distinct(p.name, sig.bytes());
      if (e != sig.bytes()) viol(std::string("bytes:") + p.name, "sk=%s msg=%s rho=%s", H(sk.bytes()).c_str(), H(m).c_str(), H(rho).c_str());
      if (verify(pk.p, m.data(), m.size(), sig.p, l)) viol(std::string("verify:") + p.name, "own signature refused");
      sig.p[R.below(p.sig)] ^= 1 << R.below(8);
      if (!verify(pk.p, m.data(), m.size(), sig.p, l)) viol(std::string("verify-altered:") + p.name, "altered signature accepted");
    }
    clear(sk.p);
    for (size_t i = 0; i < p.sk; i++) if (sk.p[i]) { viol(std::string("clear:") + p.name, "key remains"); break; }
  }
  sample("dlopen %s", argc > 2 ? argv[2] : "all sets");
  return finish();
}
