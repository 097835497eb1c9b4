// C13: a copy continues like the original and neither influences the other.
#include "algs.h"
#include <utility>
void harness() {
  enum { B = A::BLK };
  uint32_t kind = vf_choose("kind", 0, 4); // copy, assign to used, move, self-assignment, byte-wise copy
  uint32_t res = vf_choose("resultfirst", 0, 1);
  const uint32_t al[] = {0, 1, B / 2, B - 1 + (B == 1), B, B + 3}, bl[] = {0, B - 1 + (B == 1), B + 1};
  uint32_t a = vf_pick("before", al), b = vf_pick("after", bl);
  vf_shard();
  unsigned char *p = vf_bytes(a, "before"), *q = vf_bytes(b, "after"), *z = vf_bytes(B + 8, "noise");
  uint64_t s = vf_u64("seed"); unsigned char o[64], o2[64], e[64], e2[64], t[64];
  H f(s); upd(f, p, a, 0); if (res) get(f, t); upd(f, q, b, 0); get(f, e); get(f, e2); // the reference, undisturbed
  H h(s); upd(h, p, a, 0); if (res) get(h, t);
  H c(s + 1); upd(c, z, 7, 0);
  if (kind == 0) { H d(h); upd(h, z, B + 2, 0); get(h, t); upd(d, q, b, 0); get(d, o); get(d, o2); }
  else if (kind == 1) { c = h; upd(h, z, B + 2, 0); get(h, t); upd(c, q, b, 0); get(c, o); get(c, o2); }
  else if (kind == 2) { c = std::move(h); upd(c, q, b, 0); get(c, o); get(c, o2); }
  else if (kind == 3) { H &al2 = h; h = al2; c = h; upd(c, z, B + 2, 0); get(c, t); upd(h, q, b, 0); get(h, o); get(h, o2); }
  else { alignas(H) unsigned char m[sizeof(H)]; H *d = new (m) H(h); c = *d; upd(*d, z, 3, 0); get(*d, t); upd(h, z, 3, 0); get(h, t); upd(c, q, b, 0); get(c, o); get(c, o2); }
  vf_out(o, A::OUT);
  vf_assert_eq(o, e, A::OUT, "the copy gives the results of the original");
  vf_assert_eq(o2, e2, A::OUT, "the copy gives the repeated results of the original");
  vf_cover(res ? "after a result" : "mid message");
}
