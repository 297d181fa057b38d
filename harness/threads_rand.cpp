// C11: the library's own random source under many threads
#define FV_NO_RAND
#include "fv.h"
#include "sets.h"
#include <set>
#include <thread>
#include <pthread.h>
extern "C" int rand_bytes(uint8_t* dst, size_t len);
using namespace fv;
int main(int argc, char** argv) {
  const unsigned nt = 8, n = atoi(argv[1]);
  std::vector<std::vector<Bytes>> out(nt);
  pthread_barrier_t bar; pthread_barrier_init(&bar, nullptr, nt);
  std::vector<std::thread> th;
  for (unsigned t = 0; t < nt; t++) th.emplace_back([&, t] {
    pthread_barrier_wait(&bar);
    for (unsigned i = 0; i < n; i++) {
      const Set& s = SETS[(t + i) % 12];
      Bytes pk(s.pk), sk(s.sk), raw(32 + i % 40);
      int rc = s.keygen(pk.data(), sk.data());
      if (rc || s.validate(pk.data(), sk.data())) viol("system-randomness:keygen", "thread %u rc %d", t, rc);
      if (rand_bytes(raw.data(), raw.size())) viol("system-randomness:fails", "thread %u", t);
      sk.resize(16); raw.resize(16);
      out[t].push_back(sk); out[t].push_back(raw);
      if (i == 0 && t < 2) { Bytes sig(SETS[1].sig), k(SETS[1].sk), p(SETS[1].pk); size_t sl = sig.size(); SETS[1].keygen(p.data(), k.data()); if (SETS[1].sign(k.data(), k.data(), 0, sig.data(), &sl) || SETS[1].verify(p.data(), nullptr, 0, sig.data(), sl)) viol("system-randomness:sign", "thread %u", t); }
    }
  });
  for (auto& t : th) t.join();
  std::set<Bytes> seen;
  for (auto& v : out) for (auto& b : v) { eval(); count("random_blocks"); distinct("rb", b); if (!seen.insert(b).second) viol("system-randomness:repeats", "a block of randomness was handed out twice"); }
  sample("%u threads x %u key pairs from system randomness: all distinct", nt, n);
  return finish();
}
