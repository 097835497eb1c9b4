// An update or a byte seed is read completely whatever its length: the call does not return
// before it has read past the modelled start of the buffer. Lengths are 2^e + r for every r
// below 2^16 and every e up to VF_E, far beyond what can be unrolled; a length kept in too
// few bits shows as an early return, which the native replay confirms with real buffers.
#include "algs.h"
#ifdef VF_NATIVE
#include <sys/mman.h>
#endif
#ifndef VF_FORMS
#define VF_FORMS 0, 3
#endif
#ifndef VF_E
#define VF_E 33
#endif
extern "C" unsigned char *vf_window(size_t n);
#ifdef VF_NATIVE
static size_t nn; extern "C" unsigned char *vf_window(size_t) { void *p = mmap(nullptr, nn + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); return (unsigned char *)p; }
#endif
void harness() {
  enum { B = A::BLK };
  uint32_t e = vf_choose("power", 16, VF_E), form = vf_choose("form", VF_FORMS); // update (two overloads), update after a partial block, byte seed
  uint64_t n = ((uint64_t)1 << e) + (vf_u64("low") & 0xffff);
  vf_shard();
#ifdef VF_NATIVE
  nn = n;
#endif
  unsigned char *p = vf_window(3 * B + 300); unsigned char o[64], f[64], q[1] = {7};
  if (form == 3) {
    H h(p, n);
#ifdef VF_NATIVE
    get(h, o); p[n - 1] = 1; H g(p, n); get(g, f); vf_assert_distinct(o, f, A::OUT, "a byte seed is read completely");
#else
    vf_out(&h, sizeof h); vf_assert(false, "a byte seed is read completely");
#endif
  } else {
    H h; if (form == 2 && B > 1) h.update((void const *)q, 1);
    upd(h, p, n, form & 1);
#ifdef VF_NATIVE
    get(h, o); H g; if (form == 2 && B > 1) g.update((void const *)q, 1);
    for (size_t i = 0; i < n;) { size_t k = n - i < 60001 ? n - i : 60001; g.update((void const *)(p + i), k); i += k; }
    get(g, f); vf_assert_eq(o, f, A::OUT, "a message is read completely");
#else
    vf_out(&h, sizeof h); vf_assert(false, "a message is read completely");
#endif
  }
}
