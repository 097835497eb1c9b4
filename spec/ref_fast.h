// Reference models of the non-cryptographic hashes and SipHash: flat message since the
// last result, recomputed from the specification text.
#pragma once
#include "ref_md.h"
namespace ref {
// ---- FNV-1a ------------------------------------------------------------------
template <class W> struct FNV {
  u8 h[REF_CAP]; size_t n = 0; enum { OUT = sizeof(W) };
  static W prime() { return sizeof(W) == 4 ? (W)16777619u : (W)1099511628211ull; }
  static W basis() { return sizeof(W) == 4 ? (W)2166136261u : (W)14695981039346656037ull; }
  void add(const void *p, size_t k) { memcpy(h + n, p, k); n += k; }
  W value() const { W v = basis(); for (size_t i = 0; i < n; i++) v = (W)((v ^ h[i]) * prime()); return v; }
  W result() { W v = value(); h[n++] = 0xff; return v; }
};
typedef FNV<u32> fnv32; typedef FNV<u64> fnv64;
// ---- SipHash-2-4 ---------------------------------------------------------------
struct sip64 {
  u64 v[4]; u8 h[REF_CAP]; size_t n = 0; u64 total = 0; enum { OUT = 8 };
  sip64(u64 k0 = 0, u64 k1 = 0) { v[0] = k0 ^ 0x736f6d6570736575ull; v[1] = k1 ^ 0x646f72616e646f6dull; v[2] = k0 ^ 0x6c7967656e657261ull; v[3] = k1 ^ 0x7465646279746573ull; }
  static sip64 keyed(const u8 *k) { return sip64(le64(k), le64(k + 8)); }
  void round() { v[0] += v[1]; v[2] += v[3]; v[1] = rl64(v[1], 13); v[3] = rl64(v[3], 16); v[1] ^= v[0]; v[3] ^= v[2]; v[0] = rl64(v[0], 32);
    v[2] += v[1]; v[0] += v[3]; v[1] = rl64(v[1], 17); v[3] = rl64(v[3], 21); v[1] ^= v[2]; v[3] ^= v[0]; v[2] = rl64(v[2], 32); }
  void word(u64 m) { v[3] ^= m; round(); round(); v[0] ^= m; }
  void add(const void *p, size_t k) { memcpy(h + n, p, k); n += k; total += k; }
  u64 result() {
    size_t i = 0; for (; i + 8 <= n; i += 8) word(le64(h + i));
    u64 m = (total & 0xff) << 56; for (size_t j = i; j < n; j++) m |= (u64)h[j] << (8 * (j - i));
    word(m); v[2] ^= 0xff; for (int r = 0; r < 4; r++) round();
    total += 8 - (n - i); n = 0; // continuation: the final block counts as consumed
    return v[0] ^ v[1] ^ v[2] ^ v[3];
  }
};
struct sip32 {
  u32 v[4]; u8 h[REF_CAP]; size_t n = 0; u64 total = 0; enum { OUT = 4 };
  sip32(u32 k0 = 0, u32 k1 = 0) { v[0] = k0; v[1] = k1; v[2] = k0 ^ 0x6c796765u; v[3] = k1 ^ 0x74656462u; }
  static sip32 keyed(const u8 *k) { return sip32(le32(k), le32(k + 4)); }
  void round() { v[0] += v[1]; v[1] = rl32(v[1], 5); v[1] ^= v[0]; v[0] = rl32(v[0], 16); v[2] += v[3]; v[3] = rl32(v[3], 8); v[3] ^= v[2];
    v[0] += v[3]; v[3] = rl32(v[3], 7); v[3] ^= v[0]; v[2] += v[1]; v[1] = rl32(v[1], 13); v[1] ^= v[2]; v[2] = rl32(v[2], 16); }
  void word(u32 m) { v[3] ^= m; round(); round(); v[0] ^= m; }
  void add(const void *p, size_t k) { memcpy(h + n, p, k); n += k; total += k; }
  u32 result() {
    size_t i = 0; for (; i + 4 <= n; i += 4) word(le32(h + i));
    u32 m = (u32)(total & 0xff) << 24; for (size_t j = i; j < n; j++) m |= (u32)h[j] << (8 * (j - i));
    word(m); v[2] ^= 0xff; for (int r = 0; r < 4; r++) round();
    total += 4 - (n - i); n = 0;
    return v[1] ^ v[3];
  }
};
// ---- xxHash --------------------------------------------------------------------
struct xxh32 {
  static const u32 P1 = 0x9E3779B1u, P2 = 0x85EBCA77u, P3 = 0xC2B2AE3Du, P4 = 0x27D4EB2Fu, P5 = 0x165667B1u;
  u32 acc[4]; u8 h[REF_CAP]; size_t n = 0; u64 total = 0; enum { OUT = 4 };
  static u32 round(u32 a, u32 lane) { a = a + lane * P2; a = rl32(a, 13); return a * P1; }
  xxh32(u64 seed = 0) { u32 s = (u32)seed, hi = (u32)(seed >> 32); acc[0] = s + P1 + P2; acc[1] = s + P2; acc[2] = s; acc[3] = s - P1; if (hi) for (int i = 0; i < 4; i++) acc[i] = round(acc[i], hi); }
  void add(const void *p, size_t k) { memcpy(h + n, p, k); n += k; total += k; }
  u32 result() {
    size_t i = 0; for (; i + 16 <= n; i += 16) for (int l = 0; l < 4; l++) acc[l] = round(acc[l], le32(h + i + 4 * l));
    u32 a = total >= 16 ? rl32(acc[0], 1) + rl32(acc[1], 7) + rl32(acc[2], 12) + rl32(acc[3], 18) : acc[2] + P5;
    a += (u32)total; total += 16 - (n - i);
    for (; i + 4 <= n; i += 4) { a = a + le32(h + i) * P3; a = rl32(a, 17) * P4; }
    for (; i < n; i++) { a = a + h[i] * P5; a = rl32(a, 11) * P1; }
    n = 0; acc[0] += a; acc[1] += a; acc[2] -= a; acc[3] -= a; // state step
    a ^= a >> 15; a *= P2; a ^= a >> 13; a *= P3; a ^= a >> 16; return a;
  }
};
struct xxh64 {
  static const u64 P1 = 0x9E3779B185EBCA87ull, P2 = 0xC2B2AE3D27D4EB4Full, P3 = 0x165667B19E3779F9ull, P4 = 0x85EBCA77C2B2AE63ull, P5 = 0x27D4EB2F165667C5ull;
  u64 acc[4]; u8 h[REF_CAP]; size_t n = 0; u64 total = 0; enum { OUT = 8 };
  static u64 round(u64 a, u64 lane) { a = a + lane * P2; a = rl64(a, 31); return a * P1; }
  xxh64(u64 s = 0) { acc[0] = s + P1 + P2; acc[1] = s + P2; acc[2] = s; acc[3] = s - P1; }
  void add(const void *p, size_t k) { memcpy(h + n, p, k); n += k; total += k; }
  u64 result() {
    size_t i = 0; for (; i + 32 <= n; i += 32) for (int l = 0; l < 4; l++) acc[l] = round(acc[l], le64(h + i + 8 * l));
    u64 a;
    if (total >= 32) { a = rl64(acc[0], 1) + rl64(acc[1], 7) + rl64(acc[2], 12) + rl64(acc[3], 18); for (int l = 0; l < 4; l++) { a ^= round(0, acc[l]); a = a * P1 + P4; } }
    else a = acc[2] + P5;
    a += total; total += 32 - (n - i);
    for (; i + 8 <= n; i += 8) { a ^= round(0, le64(h + i)); a = rl64(a, 27) * P1 + P4; }
    if (i + 4 <= n) { a ^= (u64)le32(h + i) * P1; a = rl64(a, 23) * P2 + P3; i += 4; }
    for (; i < n; i++) { a ^= h[i] * P5; a = rl64(a, 11) * P1; }
    n = 0; acc[0] += a; acc[1] += a; acc[2] -= a; acc[3] -= a;
    a ^= a >> 33; a *= P2; a ^= a >> 29; a *= P3; a ^= a >> 32; return a;
  }
};
// ---- MurmurHash3 -----------------------------------------------------------------
struct mur32 {
  u32 s; u8 h[REF_CAP]; size_t n = 0; u64 total = 0; enum { OUT = 4 };
  static u32 scr(u32 k) { k *= 0xcc9e2d51u; k = rl32(k, 15); return k * 0x1b873593u; }
  void body(u32 k) { s ^= scr(k); s = rl32(s, 13); s = s * 5 + 0xe6546b64u; }
  mur32(u64 seed = 0) : s((u32)seed) { if (seed >> 32) body((u32)(seed >> 32)); }
  void add(const void *p, size_t k) { memcpy(h + n, p, k); n += k; total += k; }
  u32 result() {
    size_t i = 0; for (; i + 4 <= n; i += 4) body(le32(h + i));
    u32 k = 0; for (size_t j = i; j < n; j++) k |= (u32)h[j] << (8 * (j - i));
    u32 a = s ^ scr(k); a ^= (u32)total; total += 4 - (n - i); n = 0;
    a ^= a >> 16; a *= 0x85ebca6bu; a ^= a >> 13; a *= 0xc2b2ae35u; a ^= a >> 16; return a;
  }
};
struct mur128 {
  u64 a, b; u8 h[REF_CAP]; size_t n = 0; u64 total = 0; enum { OUT = 16 };
  static const u64 c1 = 0x87c37b91114253d5ull, c2 = 0x4cf5ad432745937full;
  mur128(u64 s1 = 0) : a(s1), b(s1) {}
  mur128(u64 s1, u64 s2) : a(s1), b(s2) {}
  void add(const void *p, size_t k) { memcpy(h + n, p, k); n += k; total += k; }
  static u64 k1f(u64 k) { k *= c1; k = rl64(k, 31); return k * c2; }
  static u64 k2f(u64 k) { k *= c2; k = rl64(k, 33); return k * c1; }
  static u64 fmix(u64 k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdull; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ull; k ^= k >> 33; return k; }
  void result(u8 *out) {
    size_t i = 0;
    for (; i + 16 <= n; i += 16) { a ^= k1f(le64(h + i)); a = rl64(a, 27); a += b; a = a * 5 + 0x52dce729; b ^= k2f(le64(h + i + 8)); b = rl64(b, 31); b += a; b = b * 5 + 0x38495ab5; }
    u8 t[16]; memset(t, 0, 16); memcpy(t, h + i, n - i);
    u64 x = a ^ k1f(le64(t)), y = b ^ k2f(le64(t + 8)); x ^= total; y ^= total; total += 16 - (n - i); n = 0;
    x += y; y += x; x = fmix(x); y = fmix(y); x += y; y += x; ple64(out, x); ple64(out + 8, y);
  }
};
// ---- SpookyHash V2 ----------------------------------------------------------------
struct spooky {
  u64 s[12]; u8 h[REF_CAP]; size_t n = 0; u64 total = 0; enum { OUT = 16 };
  static const u64 SC = 0xdeadbeefdeadbeefull;
  spooky(u64 s1 = 0, u64 s2 = 0) { for (int i = 0; i < 12; i++) s[i] = i % 3 == 0 ? s1 : i % 3 == 1 ? s2 : SC; }
  void add(const void *p, size_t k) { memcpy(h + n, p, k); n += k; total += k; }
  static void smix(u64 *x) { static const int r[12] = {50,52,30,41,54,48,38,37,62,34,5,36}; // h2 rot; h2+=h3; h0^=h2; ...
    for (int i = 0; i < 12; i++) { u64 &p = x[(i + 2) % 4], &q = x[(i + 3) % 4], &o = x[i % 4]; p = rl64(p, r[i]); p += q; o ^= p; } }
  static void send(u64 *x) { static const int r[11] = {15,52,26,51,28,9,47,54,32,25,63}; // h3^=h2; h2 rot; h3+=h2; ...
    for (int i = 0; i < 11; i++) { u64 &p = x[(i + 3) % 4], &q = x[(i + 2) % 4]; p ^= q; q = rl64(q, r[i]); p += q; } }
  void mix(const u8 *p) { static const int r[12] = {11,32,43,31,17,28,39,57,55,54,22,46};
    for (int i = 0; i < 12; i++) { s[i] += le64(p + 8 * i); s[(i + 2) % 12] ^= s[(i + 10) % 12]; s[(i + 11) % 12] ^= s[i]; s[i] = rl64(s[i], r[i]); s[(i + 11) % 12] += s[(i + 1) % 12]; } }
  void endp() { static const int r[12] = {44,15,34,21,38,33,10,13,38,53,42,54};
    for (int i = 0; i < 12; i++) { s[(i + 11) % 12] += s[(i + 1) % 12]; s[(i + 2) % 12] ^= s[(i + 11) % 12]; s[(i + 1) % 12] = rl64(s[(i + 1) % 12], r[i]); } }
  void result(u8 *out) {
    size_t i = 0;
    if (total < 192) {
      u64 x[4] = {s[0], s[1], SC, SC}; size_t m = n;
      for (; m >= 32; m -= 32, i += 32) { x[2] += le64(h + i); x[3] += le64(h + i + 8); smix(x); x[0] += le64(h + i + 16); x[1] += le64(h + i + 24); }
      if (m >= 16) { x[2] += le64(h + i); x[3] += le64(h + i + 8); smix(x); m -= 16; i += 16; }
      x[3] += (u64)n << 56;
      if (m == 0) { x[2] += SC; x[3] += SC; } else { u8 t[16]; memset(t, 0, 16); memcpy(t, h + i, m); x[2] += le64(t); x[3] += le64(t + 8); }
      send(x); s[0] = x[0]; s[1] = x[1];
      total += 192 - n;
    } else {
      for (; i + 96 <= n; i += 96) mix(h + i);
      size_t tail = n - (n / 192) * 192; (void)tail;
      u8 t[96]; memset(t, 0, 96); memcpy(t, h + i, n - i); t[95] = (u8)(n - i);
      for (int l = 0; l < 12; l++) s[l] += le64(t + 8 * l);
      endp(); endp(); endp();
      total += 192 - n % 192;
    }
    n = 0;
    ple64(out, s[0]); ple64(out + 8, s[1]);
  }
};
}
