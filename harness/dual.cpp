// C14: the code paths of constant evaluation give the results of the run-time paths.
#if VF_DUAL_ALG
# include "algs.h"
extern "C" { void rt_run(uint32_t, uint64_t, unsigned char const *, size_t, unsigned char const *, size_t, size_t, size_t, unsigned char *); void cx_run(uint32_t, uint64_t, unsigned char const *, size_t, unsigned char const *, size_t, size_t, size_t, unsigned char *); }
void harness() {
  enum { B = A::BLK, P = Sz<A>::PAD };
  uint32_t ct = vf_choose("construct", 0, 2);
  const uint32_t al[] = {0, 1, P - 1 + (B == 1), B - (B > 1), B, B + 5}, bl[] = {0, 1, P, B + P}, cl[] = {0, 2, B}, kl[] = {0, 1, 4, 8, 16, B - (B > 1), B + 1};
  uint32_t a = vf_pick("first", al), b = vf_pick("second", bl), c = vf_pick("third", cl), k = ct == 2 ? vf_pick("keylen", kl) : 0; if (ct == 2 && (a != 1 || b == 0)) return;
  vf_shard();
  unsigned char *p = vf_bytes(a + b + c, "msg"), *key = vf_bytes(k, "key"); uint64_t s = vf_u64("seed"); static unsigned char x[256], y[256];
  rt_run(ct, s, key, k, p, a, b, c, x); cx_run(ct, s, key, k, p, a, b, c, y); vf_out(x, A::OUT);
  vf_assert_eq(x, y, A::OUT, "first result"); vf_assert_eq(x + 64, y + 64, A::OUT, "second result"); vf_assert_eq(x + 128, y + 128, A::OUT, "third result"); vf_assert_eq(x + 192, y + 192, A::OUT, "result of a copy");
  vf_cover(ct == 0 ? "default" : ct == 1 ? "integer seed" : "byte seed");
}
#else
# include "rec.h"
# include "stdstubs.h"
extern "C" { void rt_append(uint32_t, uint32_t, uint32_t, unsigned char const *, Rec *, unsigned char *); void cx_append(uint32_t, uint32_t, uint32_t, unsigned char const *, Rec *, unsigned char *); }
void harness() {
  uint32_t f = vf_choose("flavor", 0, 3), t = vf_choose("type", 0, 11), n = vf_choose("count", 0, 4); if (n && !(0x31c >> t & 1)) return; if (t == 10 && f > 1) return; vf_shard();
  unsigned char *p = vf_bytes(64, "value"); static unsigned char x[256], y[256]; Rec r, s;
  if (t == 1 || t == 7) { // no NaN
    uint32_t u; uint64_t w; static const int o4[] = {0, 12, 16, 11}; for (int i = t == 1 ? 0 : 3; i < (t == 1 ? 3 : 4); i++) { memcpy(&u, p + o4[i], 4); vf_assume((u & 0x7fffffffu) <= 0x7f800000u); } if (t == 1) { memcpy(&w, p + 4, 8); vf_assume((w & ~(1ull << 63)) <= 0x7ff0000000000000ull); } }
  rt_append(f, t, n, p, &r, x); cx_append(f, t, n, p, &s, y); vf_out(r.b, r.n); vf_out(x, 130);
  vf_assert(r.n == s.n, "equal length"); if (r.n == s.n) vf_assert_eq(r.b, s.b, r.n, "equal messages"); vf_assert_eq(x, y, 256, "equal other results");
  static const char *const nm[] = {"scalars", "floats", "arrays", "string", "vector, list", "std::array", "tuple", "described", "tag_invoke", "unordered", "digest", "integral"}; vf_cover(nm[t]);
}
#endif
