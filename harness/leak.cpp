// C17: no object byte is an input byte xor (or plus) a constant once the input was finalised.
#include "algs.h"
void harness() {
  enum { B = A::BLK, P = Sz<A>::PAD };
  uint32_t form = vf_choose("form", 0, 2); // message, message after result, byte seed
  const uint32_t al[] = {1, 2, 3, 5, 8, 12, 15, 17, P - 1 + (B == 1), P, P + 1, B - 1 + (B == 1), B, B + 1, B + P, 2 * B, 2 * B + 7};
  uint32_t a = vf_pick("len", al); vf_shard();
  unsigned char *p = vf_bytes(a, "msg"); unsigned char o[64];
  alignas(H) unsigned char m[sizeof(H)]; memset(m, 0, sizeof m);
  if (form == 2) {
    if (S::is_key(a)) return; // by specification such a seed is itself state, not absorbed text
    H *h = new (m) H((const unsigned char *)p, a); (void)h;
    vf_assert_noleak(m, sizeof m, p, a, "no seed byte remains after construction");
    vf_cover("seed");
  } else {
    H *h = new (m) H();
    if (form == 1) { h->update((const unsigned char *)p, a); get(*h, o); h->update((const unsigned char *)p, a); get(*h, o); vf_cover("second message"); }
    else { uint32_t x = a / 2; h->update((const unsigned char *)p, x); h->update((const unsigned char *)p + x, a - x); get(*h, o); vf_cover("message"); }
    vf_out(o, A::OUT);
    vf_assert_noleak(m, sizeof m, p, a, "no message byte remains after result");
  }
}
