// C08: feeding b and c bytes separately equals feeding them at once, from a state with a
// symbolic seed (or none) and `a` bytes already absorbed; both objects continue identically.
#include "algs.h"
#ifndef VF_ASTEP
#define VF_ASTEP 1
#endif
void harness() {
  enum { B = A::BLK };
  uint32_t mode = vf_choose("mode", 0, 2); // 0 default, 1 seeded, 2 after a result
  uint32_t a = vf_choose("prefix", 0, (B - 1) / VF_ASTEP) * VF_ASTEP;
  const uint32_t bl[] = {0, 1, 2, B - a - 1, B - a, B - a + 1, B + 3, 2 * B - a, 2 * B - a + 1};
  const uint32_t cl[] = {0, 1, B - 1, B, B + 1};
  uint32_t b = vf_pick("second", bl), c = vf_pick("third", cl);
  vf_shard();
  unsigned char *p = vf_bytes(a + b + c, "msg", 1); unsigned char *q = vf_bytes(5, "more");
  uint64_t s = mode == 1 ? vf_u64("seed") : 0;
  alignas(H) unsigned char m1[sizeof(H)], m2[sizeof(H)]; H *x, *y;
  if (mode == 1) { x = new (m1) H(s); y = new (m2) H(s); } else { x = new (m1) H(); y = new (m2) H(); }
  unsigned char o1[64], o2[64];
  if (mode == 2) { upd(*x, q, 3, 0); upd(*y, q, 3, 1); get(*x, o1); get(*y, o2); }
  upd(*x, p, a, 2); upd(*x, p + a, b, 3); upd(*x, p + a + b, c, 2); upd(*x, p, 0, 3);
  upd(*y, p, a, 1); upd(*y, p + a, b + c, 0);
  get(*x, o1); get(*y, o2); vf_out(o1, A::OUT);
  vf_assert_eq(o1, o2, A::OUT, "split updates give the result of one update");
  upd(*x, q, 5, 1); upd(*y, q, 2, 0); upd(*y, q + 2, 3, 0);
  get(*x, o1); get(*y, o2);
  vf_assert_eq(o1, o2, A::OUT, "the objects stay equivalent after the result");
  vf_cover(mode == 0 ? "default" : mode == 1 ? "seeded" : "after result");
  if (a + b >= B) vf_cover("block completed by the second update");
}
