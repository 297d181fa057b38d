// C13: the aligned allocator whatever the system offers
#include "fv.h"
#include <errno.h>
extern "C" {
#include "compat.h"
}
using namespace fv;
int main() {
  Rng R(envseed(), 13);
  for (int round = 0; round < 200; round++) for (size_t al = 1; al <= 128; al *= 2) {
    std::vector<std::pair<uint8_t*, size_t>> l;
    for (int i = 0; i < 6; i++) {
      size_t n = al < 8 ? 8 * (1 + R.below(40)) : al * (1 + R.below(R.below(10) ? 30 : 3000)); if (n % al) n = (n / al + 1) * al;
      uint8_t* p = (uint8_t*)faest_aligned_alloc(al, n); eval(); count("allocations");
      if (!p) { viol("alloc-null", "alignment %zu, size %zu", al, n); return finish(); }
      if ((uintptr_t)p % al) viol("alloc-unaligned", "alignment %zu, size %zu: %p", al, n, p);
      for (auto& o : l) if (p < o.first + o.second && o.first < p + n) viol("alloc-overlap", "alignment %zu, size %zu", al, n);
      memset(p, 0x40 + i, n); l.push_back({p, n});
    }
    for (size_t i = 0; i < l.size(); i++) { for (size_t j = 0; j < l[i].second; j++) if (l[i].first[j] != 0x40 + i) { viol("alloc-content", "alignment %zu, size %zu, byte %zu", al, l[i].second, j); break; } faest_aligned_free(l[i].first); }
    distinct(mix(al, &round, 4));
  }
  faest_aligned_free(nullptr); sample("aligned allocations of 1 to 128 bytes alignment"); return finish();
}
