// A recording hash algorithm and an independent model of the message hash_append must feed.
#pragma once
#include "vf.h"
#include <boost/hash2/hash_append.hpp>
#include <boost/hash2/flavor.hpp>
#include <boost/hash2/digest.hpp>
namespace h2 = boost::hash2;
#ifndef VF_CAP
# define VF_CAP 640
#endif
struct Rec {
  typedef std::uint64_t result_type;
  unsigned char b[VF_CAP]; unsigned n = 0, calls = 0; std::uint64_t salt = 0;
  Rec() { }
  explicit Rec(std::uint64_t s) : salt(s) { }
  Rec(unsigned char const *p, std::size_t k) { update(p, k); }
  Rec(Rec const &r) : n(r.n), calls(r.calls), salt(r.salt) { for (unsigned i = 0; i < n; i++) b[i] = r.b[i]; }
  Rec &operator=(Rec const &r) { n = r.n; calls = r.calls; salt = r.salt; for (unsigned i = 0; i < n; i++) b[i] = r.b[i]; return *this; }
  void update(void const *p, std::size_t k) { calls++; vf_assert(n + k <= VF_CAP, "message longer than expected"); if (n + k > VF_CAP) abort(); if (k) memcpy(b + n, p, k); n += (unsigned)k; }
  void update(unsigned char const *p, std::size_t k) { update((void const *)p, k); }
  result_type result() { std::uint64_t h = salt ^ (14695981039346656037ull + calls * 0); for (unsigned i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull; update((void const *)"\xff", 1); return h; }
};
struct small_flavor { typedef std::uint32_t size_type; static constexpr auto byte_order = h2::endian::big; };
struct tiny_flavor { typedef unsigned char size_type; static constexpr auto byte_order = h2::endian::little; };
// what the flavor means, independently of the library
template <class F> struct Fl;
#if __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
template <> struct Fl<h2::default_flavor> { enum { big = 1, size = 8 }; };
#else
template <> struct Fl<h2::default_flavor> { enum { big = 0, size = 8 }; };
#endif
template <> struct Fl<h2::little_endian_flavor> { enum { big = 0, size = 8 }; };
template <> struct Fl<h2::big_endian_flavor> { enum { big = 1, size = 8 }; };
template <> struct Fl<small_flavor> { enum { big = 1, size = 4 }; };
template <> struct Fl<tiny_flavor> { enum { big = 0, size = 1 }; };
// the expected message
template <class F> struct Msg {
  unsigned char b[VF_CAP]; unsigned n = 0;
  Msg() { }
  void num(std::uint64_t v, unsigned k) { for (unsigned i = 0; i < k; i++) b[n + i] = (unsigned char)(v >> 8 * (Fl<F>::big ? k - 1 - i : i)); n += k; }
  void size(std::uint64_t v) { num(v, Fl<F>::size); }
  void f32(std::uint32_t bits) { num(bits == 0x80000000u ? 0 : bits, 4); }
  void f64(std::uint64_t bits) { num(bits == 0x8000000000000000ull ? 0 : bits, 8); }
  std::uint64_t hash(std::uint64_t salt = 0) const { std::uint64_t h = salt ^ 14695981039346656037ull; for (unsigned i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull; return h; }
};
template <class F> static void same(Rec const &r, Msg<F> const &m, const char *label) {
  vf_out(r.b, r.n);
  vf_assert(r.n == m.n, label);
  if (r.n == m.n) vf_assert_eq(r.b, m.b, m.n, label);
  vf_assert(r.calls >= 1 && r.n >= 1, "at least one byte is fed");
}
// runs f(flavor) for every flavor
#define VF_FLAVORS(fn) switch (vf_choose("flavor", 0, 4)) { \
  case 0: fn(h2::default_flavor()); break; case 1: fn(h2::little_endian_flavor()); break; case 2: fn(h2::big_endian_flavor()); break; \
  case 3: fn(small_flavor()); break; default: fn(tiny_flavor()); }
template <class T> static T sym(const char *name) { T v; vf_symbolic(&v, sizeof v, name); return v; }
template <> bool sym<bool>(const char *name) { unsigned char c; vf_symbolic(&c, 1, name); return (c & 1) != 0; }
template <class T> static typename std::enable_if<std::is_integral<T>::value, std::uint64_t>::type val(T v) { return (std::uint64_t)v; }
template <class T> static typename std::enable_if<std::is_enum<T>::value, std::uint64_t>::type val(T v) { return (std::uint64_t)(typename std::underlying_type<T>::type)v; }
