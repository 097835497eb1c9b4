// C16: histories of valid calls, compiled with the undefined behaviour checks of the compiler
// (each failing check is a violation) and run in a memory model with exact object bounds.
#include "algs.h"
void harness() {
  enum { B = A::BLK, P = Sz<A>::PAD };
  uint32_t ct = vf_choose("construct", 0, 5), mis = vf_choose("misalign", 0, 2);
  const uint32_t l1[] = {0, 1, P, B - (B > 1), B, B + 1, 2 * B + 3}, l2[] = {0, 1, B - (B > 1), B + P};
  uint32_t a = vf_pick("first", l1), b = vf_pick("second", l2), sl = 0;
  const uint32_t sls[] = {1, 3, 4, 8, 9, 16, 17, P, B, B + 1, 2 * B + 1};
  if (ct == 4) sl = vf_pick("seedlen", sls);
  if (ct == 4 && (a != B && a != 1)) return; // every seed length, fewer messages
  vf_shard();
  unsigned char *p = vf_bytes(a, "m1", mis), *q = vf_bytes(b, "m2", mis + 1), *s = vf_bytes(sl, "seedbytes", mis + 2); unsigned char o[64];
  alignas(H) unsigned char m[sizeof(H)]; H *h;
  uint64_t sd = ct == 1 ? vf_u64("seed") : 0;
  switch (ct) { case 0: h = new (m) H(); vf_cover("default"); break; case 1: h = new (m) H(sd); vf_cover("integer seed"); break; case 2: h = new (m) H((unsigned char const *)nullptr, 0); vf_cover("null seed"); break; case 3: h = new (m) H((unsigned char const *)s, 0); break; case 4: h = new (m) H((unsigned char const *)s, sl); vf_cover("byte seed"); break; default: h = new (m) H((uint64_t)0); }
  upd(*h, p, a, 2); upd(*h, q, b, 3); upd(*h, p, 0, 2); get(*h, o); vf_assert_defined(o, A::OUT, "the result does not depend on uninitialised memory"); vf_out(o, A::OUT);
  upd(*h, p, 0, 3); upd(*h, q, b, 2); upd(*h, p, 0, 2); H c(*h); get(*h, o); vf_assert_defined(o, A::OUT, "nor does the next one"); vf_out(o, A::OUT);
  get(*h, o); vf_out(o, A::OUT); get(c, o); vf_out(o, A::OUT);
  vf_cover("end");
}
