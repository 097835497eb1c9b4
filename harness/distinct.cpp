// C11: two different 64 bit seeds never give the same object.
#include "algs.h"
void harness() {
  vf_shard();
  uint64_t s = vf_u64("seed"), t = vf_u64("other");
  vf_assume(s != t);
#if VF_ALG_IS_XXH32
  // known finding C11-xxh32: the seeds (lo,hi) with equal lo + hi*P2 and both hi != 0 collide
  uint32_t k1 = (uint32_t)s + (uint32_t)(s >> 32) * 2246822519u, k2 = (uint32_t)t + (uint32_t)(t >> 32) * 2246822519u;
# ifdef VF_KNOWN
  vf_assume(k1 == k2 && (s >> 32) != 0 && (t >> 32) != 0);
# else
  vf_assume(!(k1 == k2 && (s >> 32) != 0 && (t >> 32) != 0));
# endif
#endif
  alignas(H) unsigned char a[sizeof(H)], b[sizeof(H)]; memset(a, 0, sizeof a); memset(b, 0, sizeof b);
  new (a) H(s); new (b) H(t);
  vf_assert_distinct(a, b, sizeof a, "distinct seeds give distinct states");
  vf_cover("end");
}
