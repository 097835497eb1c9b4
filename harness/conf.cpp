// Conformance of one algorithm to its specification model.
// VF_MODE 0: default construction, one message of every length 0..VF_MAX
//         1: symbolic 64 bit seed    2: byte seed of every length VF_SLO..VF_SHI, or in the list VF_SLENS    3: two integer seeds
#include "algs.h"
#ifndef VF_MODE
#define VF_MODE 0
#endif
#ifndef VF_MAX
#define VF_MAX 70
#endif
#ifndef VF_LENS
#define VF_LENS 0, 1, 9
#endif
template <class R> static void seed2(R &r, uint64_t a, uint64_t b);
#if VF_MODE == 3
template <> void seed2<R>(R &r, uint64_t a, uint64_t b) { r = R(a, b); }
#endif
void harness() {
#ifdef VF_LENLIST
  static const uint32_t L[] = {VF_LENS}; uint32_t n = vf_pick("len", L);
#else
  uint32_t n = vf_choose("len", 0, VF_MAX);
#endif
  unsigned char o[64], e[64];
#if VF_MODE == 0
  vf_shard(); H h; R r;
#elif VF_MODE == 1
  vf_shard(); uint64_t s = vf_u64("seed"); H h(s); R r; S::seed(r, s);
#elif VF_MODE == 2
#ifdef VF_SLENS
  static const uint32_t SL[] = {VF_SLENS}; uint32_t k = vf_pick("seedlen", SL);
#else
  uint32_t k = vf_choose("seedlen", VF_SLO, VF_SHI);
#endif
  uint32_t nul = k == 0 ? vf_choose("null", 0, 1) : 0; vf_shard();
  unsigned char *kp = vf_bytes(k, "seedbytes", 3); if (nul) kp = nullptr;
  H h((const unsigned char *)kp, k); R r; S::bytes(r, kp, k);
#else
  vf_shard(); uint64_t a = vf_u64("seed1"), b = vf_u64("seed2"); H h(a, b); R r; seed2(r, a, b);
#endif
  unsigned char *p = vf_bytes(n, "msg", 1);
  if (n) h.update((const unsigned char *)p, n);
  get(h, o); r.add(p, n); rget(r, e);
  vf_out(o, A::OUT);
  vf_assert_eq(o, e, A::OUT, "result equals the specification");
#if VF_MODE == 2
  if (k == 0) { H d; unsigned char f[64]; if (n) d.update((const unsigned char *)p, n); get(d, f); vf_assert_eq(o, f, A::OUT, "an empty byte seed equals default construction"); vf_cover("empty seed"); }
#elif VF_MODE == 1
  { H z(0), d; unsigned char f[64], g[64]; if (n) { z.update((const unsigned char *)p, n); d.update((const unsigned char *)p, n); } get(z, f); get(d, g); vf_assert_eq(f, g, A::OUT, "a zero seed equals default construction"); }
#endif
  vf_cover("end");
}
