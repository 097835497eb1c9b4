// Reference models of the Merkle-Damgard digests, written from the standards
// (RFC 1321, FIPS 180-4, RIPEMD paper). One flat message, no streaming logic.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#ifndef REF_CAP
#define REF_CAP 1536
#endif
namespace ref {
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
inline u32 rl32(u32 x, int k) { return (x << k) | (x >> (32 - k)); }
inline u32 rr32(u32 x, int k) { return (x >> k) | (x << (32 - k)); }
inline u64 rl64(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
inline u64 rr64(u64 x, int k) { return (x >> k) | (x << (64 - k)); }
inline u32 le32(const u8 *p) { return (u32)p[0] | (u32)p[1] << 8 | (u32)p[2] << 16 | (u32)p[3] << 24; }
inline u32 be32(const u8 *p) { return (u32)p[3] | (u32)p[2] << 8 | (u32)p[1] << 16 | (u32)p[0] << 24; }
inline u64 le64(const u8 *p) { return (u64)le32(p) | (u64)le32(p + 4) << 32; }
inline u64 be64(const u8 *p) { return (u64)be32(p + 4) | (u64)be32(p) << 32; }
inline void ple32(u8 *p, u32 v) { for (int i = 0; i < 4; i++) p[i] = (u8)(v >> (8 * i)); }
inline void pbe32(u8 *p, u32 v) { for (int i = 0; i < 4; i++) p[i] = (u8)(v >> (24 - 8 * i)); }
inline void ple64(u8 *p, u64 v) { for (int i = 0; i < 8; i++) p[i] = (u8)(v >> (8 * i)); }
inline void pbe64(u8 *p, u64 v) { for (int i = 0; i < 8; i++) p[i] = (u8)(v >> (56 - 8 * i)); }

// ---- compression functions -------------------------------------------------
// MD5: T[i] = floor(2^32 * abs(sin(i+1)))
static const u32 md5_T[64] = {
 0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,
 0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,
 0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,
 0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391 };
inline void md5_block(u32 *st, const u8 *b) {
  static const int S[4][4] = {{7,12,17,22},{5,9,14,20},{4,11,16,23},{6,10,15,21}};
  u32 a = st[0], bb = st[1], c = st[2], d = st[3];
  for (int i = 0; i < 64; i++) {
    u32 f; int g;
    if (i < 16) { f = (bb & c) | (~bb & d); g = i; }
    else if (i < 32) { f = (bb & d) | (c & ~d); g = (5 * i + 1) % 16; }
    else if (i < 48) { f = bb ^ c ^ d; g = (3 * i + 5) % 16; }
    else { f = c ^ (bb | ~d); g = (7 * i) % 16; }
    u32 t = d; d = c; c = bb; bb = bb + rl32(a + f + md5_T[i] + le32(b + 4 * g), S[i / 16][i % 4]); a = t;
  }
  st[0] += a; st[1] += bb; st[2] += c; st[3] += d;
}
inline void sha1_block(u32 *st, const u8 *b) {
  u32 w[80]; for (int i = 0; i < 16; i++) w[i] = be32(b + 4 * i);
  for (int i = 16; i < 80; i++) w[i] = rl32(w[i-3] ^ w[i-8] ^ w[i-14] ^ w[i-16], 1);
  u32 a = st[0], bb = st[1], c = st[2], d = st[3], e = st[4];
  for (int i = 0; i < 80; i++) {
    u32 f, k;
    if (i < 20) { f = (bb & c) ^ (~bb & d); k = 0x5a827999; }
    else if (i < 40) { f = bb ^ c ^ d; k = 0x6ed9eba1; }
    else if (i < 60) { f = (bb & c) ^ (bb & d) ^ (c & d); k = 0x8f1bbcdc; }
    else { f = bb ^ c ^ d; k = 0xca62c1d6; }
    u32 t = rl32(a, 5) + f + e + k + w[i]; e = d; d = c; c = rl32(bb, 30); bb = a; a = t;
  }
  st[0] += a; st[1] += bb; st[2] += c; st[3] += d; st[4] += e;
}
static const u32 sha256_K[64] = {
 0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
 0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
 0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
 0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2 };
inline void sha256_block(u32 *st, const u8 *b) {
  u32 w[64]; for (int i = 0; i < 16; i++) w[i] = be32(b + 4 * i);
  for (int i = 16; i < 64; i++) { u32 s0 = rr32(w[i-15], 7) ^ rr32(w[i-15], 18) ^ (w[i-15] >> 3), s1 = rr32(w[i-2], 17) ^ rr32(w[i-2], 19) ^ (w[i-2] >> 10); w[i] = w[i-16] + s0 + w[i-7] + s1; }
  u32 v[8]; for (int i = 0; i < 8; i++) v[i] = st[i];
  for (int i = 0; i < 64; i++) {
    u32 S1 = rr32(v[4], 6) ^ rr32(v[4], 11) ^ rr32(v[4], 25), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
    u32 t1 = v[7] + S1 + ch + sha256_K[i] + w[i];
    u32 S0 = rr32(v[0], 2) ^ rr32(v[0], 13) ^ rr32(v[0], 22), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
    u32 t2 = S0 + mj;
    v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
  }
  for (int i = 0; i < 8; i++) st[i] += v[i];
}
static const u64 sha512_K[80] = {
 0x428a2f98d728ae22ull,0x7137449123ef65cdull,0xb5c0fbcfec4d3b2full,0xe9b5dba58189dbbcull,0x3956c25bf348b538ull,0x59f111f1b605d019ull,0x923f82a4af194f9bull,0xab1c5ed5da6d8118ull,
 0xd807aa98a3030242ull,0x12835b0145706fbeull,0x243185be4ee4b28cull,0x550c7dc3d5ffb4e2ull,0x72be5d74f27b896full,0x80deb1fe3b1696b1ull,0x9bdc06a725c71235ull,0xc19bf174cf692694ull,
 0xe49b69c19ef14ad2ull,0xefbe4786384f25e3ull,0x0fc19dc68b8cd5b5ull,0x240ca1cc77ac9c65ull,0x2de92c6f592b0275ull,0x4a7484aa6ea6e483ull,0x5cb0a9dcbd41fbd4ull,0x76f988da831153b5ull,
 0x983e5152ee66dfabull,0xa831c66d2db43210ull,0xb00327c898fb213full,0xbf597fc7beef0ee4ull,0xc6e00bf33da88fc2ull,0xd5a79147930aa725ull,0x06ca6351e003826full,0x142929670a0e6e70ull,
 0x27b70a8546d22ffcull,0x2e1b21385c26c926ull,0x4d2c6dfc5ac42aedull,0x53380d139d95b3dfull,0x650a73548baf63deull,0x766a0abb3c77b2a8ull,0x81c2c92e47edaee6ull,0x92722c851482353bull,
 0xa2bfe8a14cf10364ull,0xa81a664bbc423001ull,0xc24b8b70d0f89791ull,0xc76c51a30654be30ull,0xd192e819d6ef5218ull,0xd69906245565a910ull,0xf40e35855771202aull,0x106aa07032bbd1b8ull,
 0x19a4c116b8d2d0c8ull,0x1e376c085141ab53ull,0x2748774cdf8eeb99ull,0x34b0bcb5e19b48a8ull,0x391c0cb3c5c95a63ull,0x4ed8aa4ae3418acbull,0x5b9cca4f7763e373ull,0x682e6ff3d6b2b8a3ull,
 0x748f82ee5defb2fcull,0x78a5636f43172f60ull,0x84c87814a1f0ab72ull,0x8cc702081a6439ecull,0x90befffa23631e28ull,0xa4506cebde82bde9ull,0xbef9a3f7b2c67915ull,0xc67178f2e372532bull,
 0xca273eceea26619cull,0xd186b8c721c0c207ull,0xeada7dd6cde0eb1eull,0xf57d4f7fee6ed178ull,0x06f067aa72176fbaull,0x0a637dc5a2c898a6ull,0x113f9804bef90daeull,0x1b710b35131c471bull,
 0x28db77f523047d84ull,0x32caab7b40c72493ull,0x3c9ebe0a15c9bebcull,0x431d67c49c100d4cull,0x4cc5d4becb3e42b6ull,0x597f299cfc657e2aull,0x5fcb6fab3ad6faecull,0x6c44198c4a475817ull };
inline void sha512_block(u64 *st, const u8 *b) {
  u64 w[80]; for (int i = 0; i < 16; i++) w[i] = be64(b + 8 * i);
  for (int i = 16; i < 80; i++) { u64 s0 = rr64(w[i-15], 1) ^ rr64(w[i-15], 8) ^ (w[i-15] >> 7), s1 = rr64(w[i-2], 19) ^ rr64(w[i-2], 61) ^ (w[i-2] >> 6); w[i] = w[i-16] + s0 + w[i-7] + s1; }
  u64 v[8]; for (int i = 0; i < 8; i++) v[i] = st[i];
  for (int i = 0; i < 80; i++) {
    u64 S1 = rr64(v[4], 14) ^ rr64(v[4], 18) ^ rr64(v[4], 41), ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
    u64 t1 = v[7] + S1 + ch + sha512_K[i] + w[i];
    u64 S0 = rr64(v[0], 28) ^ rr64(v[0], 34) ^ rr64(v[0], 39), mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
    u64 t2 = S0 + mj;
    v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
  }
  for (int i = 0; i < 8; i++) st[i] += v[i];
}
// RIPEMD
static const u8 rmd_r[80] = { 0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8, 3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2, 4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13 };
static const u8 rmd_rp[80] = { 5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2, 15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14, 12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11 };
static const u8 rmd_s[80] = { 11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12, 11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12, 9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6 };
static const u8 rmd_sp[80] = { 8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11, 9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8, 8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11 };
inline u32 rmd_f(int j, u32 x, u32 y, u32 z) { return j < 16 ? x ^ y ^ z : j < 32 ? (x & y) | (~x & z) : j < 48 ? (x | ~y) ^ z : j < 64 ? (x & z) | (y & ~z) : x ^ (y | ~z); }
inline void rmd128_block(u32 *h, const u8 *b) {
  static const u32 K[4] = {0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc}, Kp[4] = {0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0};
  u32 A = h[0], B = h[1], C = h[2], D = h[3], Ap = h[0], Bp = h[1], Cp = h[2], Dp = h[3];
  for (int j = 0; j < 64; j++) {
    u32 t = rl32(A + rmd_f(j, B, C, D) + le32(b + 4 * rmd_r[j]) + K[j / 16], rmd_s[j]); A = D; D = C; C = B; B = t;
    t = rl32(Ap + rmd_f(63 - j, Bp, Cp, Dp) + le32(b + 4 * rmd_rp[j]) + Kp[j / 16], rmd_sp[j]); Ap = Dp; Dp = Cp; Cp = Bp; Bp = t;
  }
  u32 t = h[1] + C + Dp; h[1] = h[2] + D + Ap; h[2] = h[3] + A + Bp; h[3] = h[0] + B + Cp; h[0] = t;
}
inline void rmd160_block(u32 *h, const u8 *b) {
  static const u32 K[5] = {0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e}, Kp[5] = {0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0};
  u32 A = h[0], B = h[1], C = h[2], D = h[3], E = h[4], Ap = A, Bp = B, Cp = C, Dp = D, Ep = E;
  for (int j = 0; j < 80; j++) {
    u32 t = rl32(A + rmd_f(j, B, C, D) + le32(b + 4 * rmd_r[j]) + K[j / 16], rmd_s[j]) + E; A = E; E = D; D = rl32(C, 10); C = B; B = t;
    t = rl32(Ap + rmd_f(79 - j, Bp, Cp, Dp) + le32(b + 4 * rmd_rp[j]) + Kp[j / 16], rmd_sp[j]) + Ep; Ap = Ep; Ep = Dp; Dp = rl32(Cp, 10); Cp = Bp; Bp = t;
  }
  u32 t = h[1] + C + Dp; h[1] = h[2] + D + Ep; h[2] = h[3] + E + Ap; h[3] = h[4] + A + Bp; h[4] = h[0] + B + Cp; h[0] = t;
}

// ---- generic Merkle-Damgard model -------------------------------------------
// add(): the history is one flat byte string. result(): the padding of the whole
// history is appended to it (that is also the documented continuation) and the
// chaining value is encoded.
struct P_md5 { typedef u32 W; enum { BLK = 64, LEN = 8, OUT = 16, NW = 4 }; static const bool be = false; static void iv(W *s) { s[0] = 0x67452301; s[1] = 0xefcdab89; s[2] = 0x98badcfe; s[3] = 0x10325476; } static void block(W *s, const u8 *b) { md5_block(s, b); } };
struct P_sha1 { typedef u32 W; enum { BLK = 64, LEN = 8, OUT = 20, NW = 5 }; static const bool be = true; static void iv(W *s) { s[0] = 0x67452301; s[1] = 0xefcdab89; s[2] = 0x98badcfe; s[3] = 0x10325476; s[4] = 0xc3d2e1f0; } static void block(W *s, const u8 *b) { sha1_block(s, b); } };
struct P_rmd128 { typedef u32 W; enum { BLK = 64, LEN = 8, OUT = 16, NW = 4 }; static const bool be = false; static void iv(W *s) { P_md5::iv(s); } static void block(W *s, const u8 *b) { rmd128_block(s, b); } };
struct P_rmd160 { typedef u32 W; enum { BLK = 64, LEN = 8, OUT = 20, NW = 5 }; static const bool be = false; static void iv(W *s) { P_sha1::iv(s); } static void block(W *s, const u8 *b) { rmd160_block(s, b); } };
template <int O> struct P_sha256 { typedef u32 W; enum { BLK = 64, LEN = 8, OUT = O, NW = 8 }; static const bool be = true;
  static void iv(W *s) { static const u32 a[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19}, b[8] = {0xc1059ed8,0x367cd507,0x3070dd17,0xf70e5939,0xffc00b31,0x68581511,0x64f98fa7,0xbefa4fa4}; for (int i = 0; i < 8; i++) s[i] = O == 32 ? a[i] : b[i]; }
  static void block(W *s, const u8 *b) { sha256_block(s, b); } };
template <int O> struct P_sha512 { typedef u64 W; enum { BLK = 128, LEN = 16, OUT = O, NW = 8 }; static const bool be = true;
  static void iv(W *s) {
    static const u64 a[8] = {0x6a09e667f3bcc908ull,0xbb67ae8584caa73bull,0x3c6ef372fe94f82bull,0xa54ff53a5f1d36f1ull,0x510e527fade682d1ull,0x9b05688c2b3e6c1full,0x1f83d9abfb41bd6bull,0x5be0cd19137e2179ull};
    static const u64 b[8] = {0xcbbb9d5dc1059ed8ull,0x629a292a367cd507ull,0x9159015a3070dd17ull,0x152fecd8f70e5939ull,0x67332667ffc00b31ull,0x8eb44a8768581511ull,0xdb0c2e0d64f98fa7ull,0x47b5481dbefa4fa4ull};
    for (int i = 0; i < 8; i++) s[i] = O == 64 ? a[i] : b[i];
    if (O == 32 || O == 28) gen(s); }
  // FIPS 180-4 section 5.3.6: the SHA-512/t IV is SHA-512 with IV xor a5..., of the ASCII name
  static void gen(W *s) {
    static const u64 a[8] = {0x6a09e667f3bcc908ull,0xbb67ae8584caa73bull,0x3c6ef372fe94f82bull,0xa54ff53a5f1d36f1ull,0x510e527fade682d1ull,0x9b05688c2b3e6c1full,0x1f83d9abfb41bd6bull,0x5be0cd19137e2179ull};
    for (int i = 0; i < 8; i++) s[i] = a[i] ^ 0xa5a5a5a5a5a5a5a5ull;
    u8 b[128] = {'S','H','A','-','5','1','2','/','2',O == 32 ? '5' : '2',O == 32 ? '6' : '4',0x80}; b[127] = 11 * 8; sha512_block(s, b); }
  static void block(W *s, const u8 *b) { sha512_block(s, b); } };

template <class P> struct MD {
  u8 h[REF_CAP]; size_t n = 0; u64 extra = 0; // extra: bytes accounted for but not stored (C09)
  typename P::W base[P::NW];
  MD() { P::iv(base); }
  enum { OUT = P::OUT, BLK = P::BLK };
  void add(const void *p, size_t k) { memcpy(h + n, p, k); n += k; }
  void chain(typename P::W *s) const { for (int i = 0; i < P::NW; i++) s[i] = base[i]; for (size_t i = 0; i + P::BLK <= n; i += P::BLK) P::block(s, h + i); }
  void pad() {
    u64 total = extra + n; h[n++] = 0x80; while (n % P::BLK != P::BLK - P::LEN) h[n++] = 0;
    if (P::LEN == 16) { pbe64(h + n, total >> 61); n += 8; }
    if (P::be) pbe64(h + n, total << 3); else ple64(h + n, total << 3);
    n += 8;
  }
  void result(u8 *out) {
    pad(); typename P::W s[P::NW]; chain(s);
    u8 o[64]; for (int i = 0; i < P::NW; i++) { if (sizeof(s[0]) == 8) pbe64(o + 8 * i, s[i]); else if (P::be) pbe32(o + 4 * i, (u32)s[i]); else ple32(o + 4 * i, (u32)s[i]); }
    memcpy(out, o, P::OUT);
  }
};
typedef MD<P_md5> md5; typedef MD<P_sha1> sha1; typedef MD<P_rmd128> ripemd128; typedef MD<P_rmd160> ripemd160;
typedef MD<P_sha256<32>> sha256; typedef MD<P_sha256<28>> sha224; typedef MD<P_sha512<64>> sha512; typedef MD<P_sha512<48>> sha384; typedef MD<P_sha512<28>> sha512_224; typedef MD<P_sha512<32>> sha512_256;

// ---- HMAC (RFC 2104) --------------------------------------------------------
// The continuation after result(): the inner digest is appended to the outer message,
// both continue (the outer one with its own padding), see hmac<H>::result.
template <class R> struct HMAC {
  R in, out; enum { OUT = R::OUT, BLK = R::BLK };
  HMAC(const u8 *k, size_t n) {
    u8 K[R::BLK]; memset(K, 0, sizeof K);
    if (n > R::BLK) { R r; r.add(k, n); u8 d[64]; r.result(d); memcpy(K, d, R::OUT); } else if (n) memcpy(K, k, n);
    u8 a[R::BLK], b[R::BLK]; for (int i = 0; i < R::BLK; i++) { a[i] = K[i] ^ 0x36; b[i] = K[i] ^ 0x5c; }
    in.add(a, R::BLK); out.add(b, R::BLK);
  }
  HMAC() : HMAC(nullptr, 0) {}
  void add(const void *p, size_t n) { in.add(p, n); }
  void result(u8 *o) { u8 d[64]; in.result(d); out.add(d, R::OUT); out.result(o); }
};
}
