// C08: one long update (VF_LEN bytes, all symbolic) equals the same bytes fed in pieces of
// VF_PIECE bytes: no block is skipped or repeated far into a long update.
#include "algs.h"
void harness() {
  uint32_t form = vf_choose("form", 0, VF_FORMS); // iterator or pointer
  vf_shard();
  enum : uint32_t { L = VF_LEN, P = VF_PIECE };
  unsigned char *p = vf_bytes(L, "msg");
  alignas(H) unsigned char m1[sizeof(H)], m2[sizeof(H)]; H *x = new (m1) H(), *y = new (m2) H();
  unsigned char o1[64], o2[64];
  upd(*x, p, L, form ? 1 : 0);
  for (uint32_t i = 0; i < L; i += P) upd(*y, p + i, L - i < P ? L - i : P, 0);
  get(*x, o1); get(*y, o2); vf_out(o1, A::OUT);
  vf_assert_eq(o1, o2, A::OUT, "a long update gives the result of its pieces");
  vf_cover("end");
}
