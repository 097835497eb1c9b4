// The algorithms of the library and their specification models.
#pragma once
#include "vf.h"
#include "../spec/ref_fast.h"
#include <boost/hash2/digest.hpp>
#include <boost/hash2/fnv1a.hpp>
#include <boost/hash2/hmac.hpp>
#include <boost/hash2/md5.hpp>
#include <boost/hash2/ripemd.hpp>
#include <boost/hash2/sha1.hpp>
#include <boost/hash2/sha2.hpp>
#include <boost/hash2/siphash.hpp>
#include <boost/hash2/xxhash.hpp>
#ifndef VF_NO_LEGACY
#include <boost/hash2/legacy/murmur3.hpp>
#include <boost/hash2/legacy/spooky2.hpp>
#endif
namespace h2 = boost::hash2;

// result as bytes: digests as they are, integers in the target's representation
template <class Res> static inline void res_bytes(Res const &r, unsigned char *o, char (*)[sizeof(typename Res::value_type)] = 0) { memcpy(o, r.data(), r.size()); }
static inline void res_bytes(uint32_t r, unsigned char *o) { memcpy(o, &r, 4); }
static inline void res_bytes(uint64_t r, unsigned char *o) { memcpy(o, &r, 8); }
template <class H> static inline void get(H &h, unsigned char *o) { auto r = h.result(); res_bytes(r, o); }
// the same for the models
template <class R> static inline auto rget_(R &r, unsigned char *o, int) -> decltype(r.result(o)) { r.result(o); }
template <class R> static inline auto rget_(R &r, unsigned char *o, long) -> decltype((void)r.result()) { auto v = r.result(); memcpy(o, &v, sizeof v); }
template <class R> static inline void rget(R &r, unsigned char *o) { rget_(r, o, 0); }

// documented seeding, expressed on the models
struct SeedAbsorb { // digests: absorb the bytes and finalise once
  static bool is_key(size_t n) { (void)n; return false; }
  template <class R> static void seed(R &r, uint64_t s) { if (s) { unsigned char b[8], o[64]; ref::ple64(b, s); r.add(b, 8); rget(r, o); } }
  template <class R> static void bytes(R &r, const unsigned char *p, size_t n) { if (n) { unsigned char o[64]; r.add(p, n); rget(r, o); } }
};
struct SeedFold { // FNV-1a: absorb only
  static bool is_key(size_t n) { (void)n; return false; }
  template <class R> static void seed(R &r, uint64_t s) { if (s) { unsigned char b[8]; ref::ple64(b, s); r.add(b, 8); } }
  template <class R> static void bytes(R &r, const unsigned char *p, size_t n) { if (n) r.add(p, n); }
};
struct SeedKey { // HMAC: the key
  static bool is_key(size_t n) { (void)n; return false; }
  template <class R> static void seed(R &r, uint64_t s) { unsigned char b[8]; ref::ple64(b, s); r = s ? R(b, 8) : R(); }
  template <class R> static void bytes(R &r, const unsigned char *p, size_t n) { r = R(p, n); }
};
struct SeedSip64 {
  static bool is_key(size_t n) { (void)n; return n == 16; }
  template <class R> static void seed(R &r, uint64_t s) { r = R(s, 0); }
  template <class R> static void bytes(R &r, const unsigned char *p, size_t n) { if (n == 16) r = R::keyed(p); else SeedAbsorb::bytes(r, p, n); }
};
struct SeedSip32 {
  static bool is_key(size_t n) { (void)n; return n == 8; }
  template <class R> static void seed(R &r, uint64_t s) { r = R((uint32_t)s, (uint32_t)(s >> 32)); }
  template <class R> static void bytes(R &r, const unsigned char *p, size_t n) { if (n == 8) r = R::keyed(p); else SeedAbsorb::bytes(r, p, n); }
};
struct SeedInt { // xxHash
  static bool is_key(size_t n) { (void)n; return false; }
  template <class R> static void seed(R &r, uint64_t s) { r = R(s); }
  template <class R> static void bytes(R &r, const unsigned char *p, size_t n) { SeedAbsorb::bytes(r, p, n); }
};
struct SeedMur32 {
  static bool is_key(size_t n) { (void)n; return n > 0; }
  template <class R> static void seed(R &r, uint64_t s) { r = R(s); }
  template <class R> static void bytes(R &r, const unsigned char *p, size_t n) {
    unsigned char q[4] = {0, 0, 0, 0}; if (n == 0) return; memcpy(q, p, n < 4 ? n : 4); r = R((uint64_t)ref::le32(q)); if (n > 4) SeedAbsorb::bytes(r, p + 4, n - 4); }
};
struct SeedMur128 {
  static bool is_key(size_t n) { (void)n; return n > 0; }
  template <class R> static void seed(R &r, uint64_t s) { r = R(s); }
  template <class R> static void bytes(R &r, const unsigned char *p, size_t n) {
    unsigned char q[16]; if (n == 0) return; memset(q, 0, 16); memcpy(q, p, n < 16 ? n : 16); uint64_t a = ref::le64(q), b = ref::le64(q + 8); r = n <= 8 ? R(a) : R(a, b); if (n > 16) SeedAbsorb::bytes(r, p + 16, n - 16); }
};
struct SeedSpooky {
  static bool is_key(size_t n) { (void)n; return n > 0; }
  template <class R> static void seed(R &r, uint64_t s) { r = R(s, 0); }
  template <class R> static void bytes(R &r, const unsigned char *p, size_t n) {
    unsigned char q[16]; if (n == 0) return; memset(q, 0, 16); memcpy(q, p, n < 16 ? n : 16); r = R(ref::le64(q), ref::le64(q + 8)); if (n > 16) SeedAbsorb::bytes(r, p + 16, n - 16); }
};
#define VF_A(name, REF, SEED, blk, cexpr) struct A_##name { typedef h2::name H; typedef ref::REF R; typedef SEED S; enum { BLK = blk, OUT = R::OUT, CX = cexpr }; };
VF_A(md5_128, md5, SeedAbsorb, 64, 1)
VF_A(sha1_160, sha1, SeedAbsorb, 64, 1)
VF_A(ripemd_128, ripemd128, SeedAbsorb, 64, 1)
VF_A(ripemd_160, ripemd160, SeedAbsorb, 64, 1)
VF_A(sha2_256, sha256, SeedAbsorb, 64, 1)
VF_A(sha2_224, sha224, SeedAbsorb, 64, 1)
VF_A(sha2_512, sha512, SeedAbsorb, 128, 1)
VF_A(sha2_384, sha384, SeedAbsorb, 128, 1)
VF_A(sha2_512_224, sha512_224, SeedAbsorb, 128, 1)
VF_A(sha2_512_256, sha512_256, SeedAbsorb, 128, 1)
VF_A(fnv1a_32, fnv32, SeedFold, 1, 1)
VF_A(fnv1a_64, fnv64, SeedFold, 1, 1)
VF_A(siphash_32, sip32, SeedSip32, 4, 1)
VF_A(siphash_64, sip64, SeedSip64, 8, 1)
VF_A(xxhash_32, xxh32, SeedInt, 16, 1)
VF_A(xxhash_64, xxh64, SeedInt, 32, 1)
VF_A(hmac_md5_128, HMAC<ref::md5>, SeedKey, 64, 1)
VF_A(hmac_sha1_160, HMAC<ref::sha1>, SeedKey, 64, 1)
VF_A(hmac_ripemd_128, HMAC<ref::ripemd128>, SeedKey, 64, 1)
VF_A(hmac_ripemd_160, HMAC<ref::ripemd160>, SeedKey, 64, 1)
VF_A(hmac_sha2_256, HMAC<ref::sha256>, SeedKey, 64, 1)
VF_A(hmac_sha2_224, HMAC<ref::sha224>, SeedKey, 64, 1)
VF_A(hmac_sha2_512, HMAC<ref::sha512>, SeedKey, 128, 1)
VF_A(hmac_sha2_384, HMAC<ref::sha384>, SeedKey, 128, 1)
VF_A(hmac_sha2_512_224, HMAC<ref::sha512_224>, SeedKey, 128, 1)
VF_A(hmac_sha2_512_256, HMAC<ref::sha512_256>, SeedKey, 128, 1)
#ifndef VF_NO_LEGACY
VF_A(murmur3_32, mur32, SeedMur32, 4, 0)
VF_A(murmur3_128, mur128, SeedMur128, 16, 0)
VF_A(spooky2_128, spooky, SeedSpooky, 192, 0)
#endif
#define VF_CAT_(a, b) a##b
#define VF_CAT(a, b) VF_CAT_(a, b)
// sizes of interest: the padding threshold of the Merkle-Damgard digests, else mid-block
template <class A> struct Sz { enum { B = A::BLK, PAD = B == 64 ? 56 : B == 128 ? 112 : B / 2 }; };
// both update overloads; empty parts are passed as null pointers when `nul`
template <class H> static inline void upd(H &h, const unsigned char *p, size_t n, int how) {
  if (how & 2 && n == 0) p = nullptr;
  if (how & 1) h.update((const void *)p, n); else h.update(p, n);
}
#ifdef VF_ALG
typedef VF_CAT(A_, VF_ALG) A;
typedef A::H H; typedef A::R R; typedef A::S S;
#endif
