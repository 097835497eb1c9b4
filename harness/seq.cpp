// C12: histories of updates and results, against the specification model of the continuation.
#include "algs.h"
void harness() {
  enum { B = A::BLK, P = Sz<A>::PAD };
  uint32_t seeded = vf_choose("seeded", 0, 1);
  const uint32_t l1[] = {0, 1, P - 1 + (B == 1), P, B - 1, B, B + 1}, l2[] = {0, 1, P, B}, l3[] = {0, P, B};
  uint32_t a = vf_pick("first", l1), b = vf_pick("second", l2), c = vf_pick("third", l3);
  vf_shard();
  unsigned char *p = vf_bytes(a + b + c, "msg"); unsigned char o[64], e[64];
  uint64_t s = seeded ? vf_u64("seed") : 0; H h = seeded ? H(s) : H(); R r; if (seeded) S::seed(r, s);
  upd(h, p, a, 0); r.add(p, a); get(h, o); rget(r, e); vf_out(o, A::OUT); vf_assert_eq(o, e, A::OUT, "first result");
  upd(h, p + a, b, 1); r.add(p + a, b); get(h, o); rget(r, e); vf_out(o, A::OUT); vf_assert_eq(o, e, A::OUT, "result after an update that follows a result");
  get(h, o); rget(r, e); vf_out(o, A::OUT); vf_assert_eq(o, e, A::OUT, "second result in a row");
  upd(h, p + a + b, c, 0); r.add(p + a + b, c); get(h, o); rget(r, e); vf_out(o, A::OUT); vf_assert_eq(o, e, A::OUT, "result after update and two results");
  get(h, o); rget(r, e); vf_out(o, A::OUT); vf_assert_eq(o, e, A::OUT, "last repeated result");
  vf_cover(seeded ? "seeded" : "default");
}
