// C23: parameter table and names inside the library, and the generated parameters.h
#include "fv.h"
#include "sets.h"
extern "C" {
#include "instances.h"
}
#include "parameters.h"
#include <climits>
#include <set>
using namespace fv;
static const struct { faest_paramid_t id; const char* set; const char* name; long c[16]; } ROWS[] = {
#define C(U) {FAEST_##U##_LAMBDA, FAEST_##U##_Nwd, FAEST_##U##_Ske, FAEST_##U##_R, FAEST_##U##_Senc, FAEST_##U##_L, FAEST_##U##_Lke, FAEST_##U##_Lenc, FAEST_##U##_TAU, FAEST_##U##_K0, FAEST_##U##_K1, FAEST_##U##_T0, FAEST_##U##_T1, FAEST_##U##_SIG_SIZE, FAEST_##U##_PK_SIZE, FAEST_##U##_SK_SIZE}
#define ROW(l, U) {FAEST_##U, #l, "FAEST_" #U, C(U)}
  ROW(128s, 128S), ROW(128f, 128F), ROW(192s, 192S), ROW(192f, 192F), ROW(256s, 256S), ROW(256f, 256F), ROW(em_128s, EM_128S), ROW(em_128f, EM_128F), ROW(em_192s, EM_192S), ROW(em_192f, EM_192F), ROW(em_256s, EM_256S), ROW(em_256f, EM_256F)};
static void cmp(const char* set, const char* f, long got, long want, const char* where) { eval(); count("fields_compared"); if (got != want) viol(std::string(where) + ":" + set + ":" + f, "%ld, specification %ld", got, want); }
int main() {
  std::set<int> ids; std::set<std::string> names;
  for (auto& r : ROWS) {
    const M::Par& p = M::par(r.set); const Set& s = set_of(r.set);
    ids.insert(r.id); names.insert(r.name);
    long want[] = {p.lambda, p.Nk, p.Ske, p.R, p.Senc, p.l, p.Lke, p.Lenc, p.tau, p.k0, p.k1, p.t0, p.t1, (long)p.sig, (long)p.pk, (long)p.sk};
    static const char* F[] = {"lambda", "Nwd", "Ske", "R", "Senc", "l", "Lke", "Lenc", "tau", "k0", "k1", "t0", "t1", "sigSize", "pkSize", "skSize"};
    for (int k = 0; k < 2; k++) {
      faest_paramset_t q = faest_get_paramset(r.id);
      long got[] = {q.faest_param.lambda, q.faest_param.Nwd, q.faest_param.Ske, q.faest_param.R, q.faest_param.Senc, q.faest_param.l, q.faest_param.Lke, q.faest_param.Lenc, q.faest_param.tau, q.faest_param.k0, q.faest_param.k1, q.faest_param.t0, q.faest_param.t1, q.faest_param.sigSize, q.faest_param.pkSize};
      for (int i = 0; i < 15; i++) cmp(r.set, F[i], got[i], want[i], "table");
      cmp(r.set, "id", q.faest_paramid, r.id, "table");
      distinct(r.set, Bytes((uint8_t*)got, (uint8_t*)got + sizeof got));
    }
    for (int i = 0; i < 16; i++) cmp(r.set, F[i], r.c[i], want[i], "parameters.h");
    cmp(r.set, "public", s.pk, p.pk, "header"); cmp(r.set, "private", s.sk, p.sk, "header"); cmp(r.set, "signature", s.sig, p.sig, "header");
    cmp(r.set, "t0*k0+t1*k1", (long)r.c[11] * r.c[9] + r.c[12] * r.c[10], p.lambda, "identity");
    const char* n = faest_get_param_name(r.id);
    if (!n || strcmp(n, r.name)) viol(std::string("name:") + r.set, "%s", n ? n : "null");
  }
  if (ids.size() != 12) viol("ids", "identifiers are not distinct");
  faest_paramset_t zero; memset(&zero, 0, sizeof zero);
  std::vector<long> other; for (long i = -3000; i <= 70000; i++) other.push_back(i);
  for (long i : {(long)INT_MIN, (long)INT_MAX, 1l << 16, 1l << 24, 257l, 0x100000l + 1}) other.push_back(i);
  for (long i : other) {
    if (ids.count((int)i)) continue;
    faest_paramset_t q = faest_get_paramset((faest_paramid_t)i);
    const char* n = faest_get_param_name((faest_paramid_t)i);
    eval(); count("unknown_identifiers"); distinct("unknown", Bytes(), Bytes(), i);
    if (q.faest_paramid != PARAMETER_SET_INVALID) viol("unknown-id", "%ld gives parameter set %d", i, (int)q.faest_paramid);
    if (!n || names.count(n)) viol("unknown-name", "%ld is called %s", i, n ? n : "null");
    if (i == 0 && (!n || strcmp(n, "PARAMETER_SET_INVALID"))) viol("invalid-name", "%s", n ? n : "null");
  }
  sample("parameter table and %zu unknown identifiers", other.size());
  return finish();
}
