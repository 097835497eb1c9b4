// C09: the total length is accounted for at any magnitude. The harness finds the length
// counter inside the object (by feeding known lengths), overwrites it with a symbolic count
// (any multiple of the block size) and compares the result for a symbolic tail with the
// specification for that count.
#include "algs.h"
template <class R> static auto setTotal(R &r, uint64_t n, int) -> decltype((void)r.extra) { r.extra = n - r.n; }
template <class R> static auto setTotal(R &r, uint64_t n, long) -> decltype((void)r.in) { r.in.extra = n - r.in.n; }
template <class R> static auto setTotal(R &r, uint64_t n, ...) -> decltype((void)r.total) { r.total = n; }
template <class W> static W rd(const unsigned char *p) { W w; memcpy(&w, p, sizeof w); return w; }
struct Ctr { int off; unsigned width; uint64_t scale, base; };
enum { KEYBLOCK = std::is_same<S, SeedKey>::value }; // the inner hash of an HMAC starts with the key block
// a field that grows by the same nonzero amount per block, whatever its unit and origin, and
// by less than that for a single byte (two adjacent fields read as one do not)
template <class W> static bool find(const unsigned char (*m)[sizeof(H)], Ctr &c) {
  for (size_t o = 0; o + sizeof(W) <= sizeof(H); o += 4) {
    W v1 = rd<W>(m[0] + o), v2 = rd<W>(m[1] + o), v5 = rd<W>(m[2] + o), v4 = rd<W>(m[4] + o), d = W(v2 - v1), t = W(rd<W>(m[3] + o) - v2);
    if (d != 0 && W(v5 - v2) == W(3 * d) && W(v4 - v2) == W(2 * d) && d < 65536 && t < d) { c.off = (int)o; c.width = sizeof(W); c.scale = d; c.base = W(v1 - d * (KEYBLOCK + 1)); return true; }
  }
  return false;
}
void harness() {
  enum { B = A::BLK, P = Sz<A>::PAD };
  const uint32_t tl[] = {0, 1, P - 1, P, B - 1, B, B + 1, B + P};
  uint32_t t = vf_pick("tail", tl);
#if VF_NPOW2
  const uint64_t ns[] = {1, 2, 0x1555554, 0x1555555, 0x1555556, 0x2aaaaaa, 0x3ffffff, 1ull << 32, (1ull << 50) + 7};
  uint64_t N = (uint64_t)B * ns[vf_choose("count", 0, 8)]; // block size not a power of two: chosen counts
  vf_shard();
#else
  vf_shard();
  uint64_t N = vf_u64("count") & (uint64_t)(VF_NMASK) & ~(uint64_t)(B - 1);
  vf_assume(N >= 2 * B); vf_assume(N <= (uint64_t)-4096);
#endif
  static unsigned char m[5][sizeof(H)]; unsigned char z[5 * B + 1]; memset(z, 0, sizeof z);
  for (int i = 0; i < 5; i++) { memset(m[i], 0, sizeof(H)); H *h = new (m[i]) H(); h->update((const void *)z, (i == 0 ? 1 : i == 2 ? 5 : i == 4 ? 4 : 2) * B); if (i == 3) h->update((const void *)z, 1); }
  Ctr c = {-1, 0, 0, 0};
  if (!find<uint64_t>(m, c) && !find<uint32_t>(m, c)) { vf_cover("NO LENGTH COUNTER FOUND"); return; }
  alignas(H) unsigned char o[sizeof(H)]; memset(o, 0, sizeof o); H *h = new (o) H(); R r;
  unsigned char *p = vf_bytes(B + t, "msg"); unsigned char got[64], want[64];
  h->update((const void *)p, B); r.add(p, B);
  if (c.width == 8) { uint64_t v = N / B * c.scale + c.base; memcpy(o + c.off, &v, 8); } else { uint32_t v = (uint32_t)(N / B * c.scale + c.base); memcpy(o + c.off, &v, 4); }
  setTotal(r, N, 0);
  if (t) h->update((const void *)(p + B), t); r.add(p + B, t);
  get(*h, got); rget(r, want); vf_out(got, A::OUT);
  vf_assert_eq(got, want, A::OUT, "the result accounts for the total length");
  get(*h, got); rget(r, want); vf_assert_eq(got, want, A::OUT, "so does the result after that");
  vf_cover("end"); vf_cover(c.width == 8 ? "64 bit counter" : "32 bit counter");
}
