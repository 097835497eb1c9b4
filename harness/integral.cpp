// C26: get_integral_result is uniform (contraction), injective (same width or expansion), sign
// agnostic, and takes the first eight bytes, little-endian, of array-like results.
#include "vf.h"
#include <boost/hash2/get_integral_result.hpp>
#include <boost/hash2/digest.hpp>
#include <array>
namespace h2 = boost::hash2;
static std::uint64_t inv(std::uint64_t a) { std::uint64_t x = a; for (int i = 0; i < 6; i++) x *= 2 - a * x; return x; }
template <class T, class R> static void contract() {
  typedef typename std::make_unsigned<T>::type U; enum { rb = 8 * sizeof(R), ub = 8 * sizeof(T) };
  R r = 0; vf_symbolic(&r, sizeof r, "r");
  U y = (U)h2::get_integral_result<T>(r); vf_out(&y, sizeof y);
  vf_assert((U)h2::get_integral_result<U>(r) == y, "signed and unsigned targets get the same bits"); vf_assert((U)h2::get_integral_result<T>(r) == y, "deterministic");
  // exactly uniform if some step c of the input steps the output by one: guess c for multiply-and-shift
  std::uint64_t m = 0; for (int i = 0; i < rb; i++) { R e = (R)((R)1 << i); U v = (U)h2::get_integral_result<T>(e); /* top bit of m << i */ if (v >> (ub - 1) & 1) m |= 1ull << (rb - 1 - i); }
  R cand[4]; int nc = 0; if (m) { int j = 0; while (!(m >> j & 1)) j++; if (j <= rb - ub) cand[nc++] = (R)(inv(m >> j) << (rb - ub - j)); } cand[nc++] = 1; cand[nc++] = (R)((R)1 << (rb - ub)); 
  for (int i = 0; i < nc; i++) if (vf_valid("stepped", (U)h2::get_integral_result<T>((R)(r + cand[i])) == (U)(y + 1))) { vf_cover("exactly uniform"); return; }
  // no such step: look for values or patterns that cannot occur
  if (ub == 8) { for (unsigned v = 0; v < 256; v++) vf_assert(!vf_valid("never", y != (U)v), "every output value is reachable"); }
  else { for (int i = 0; i < ub; i++) for (int b = 0; b < 2; b++) { vf_assert(!vf_valid("never", (y >> i & 1) != (U)b), "every output bit takes both values"); }
    for (int i = 0; i < ub; i++) { int j = (i + 1) % ub; for (int b = 0; b < 4; b++) vf_assert(!vf_valid("never", !((y >> i & 1) == (U)(b & 1) && (y >> j & 1) == (U)(b >> 1))), "adjacent output bits take all values"); }
    U one[] = {0, (U)-1, 1, (U)((U)1 << (ub - 1)), (U)0x5555555555555555ull}; for (U v : one) vf_assert(!vf_valid("never", y != v), "extreme output values are reachable"); }
  vf_cover("values reachable");
}
template <class T, class R> static void expand() {
  typedef typename std::make_unsigned<T>::type U; R r = 0, q = 0; vf_symbolic(&r, sizeof r, "r"); vf_symbolic(&q, sizeof q, "q"); 
  U x = (U)h2::get_integral_result<T>(r), y = (U)h2::get_integral_result<T>(q); vf_out(&x, sizeof x);
  vf_assert((U)h2::get_integral_result<U>(r) == x, "signed and unsigned targets get the same bits");
  vf_assume(r != q); vf_assert(x != y, "same width or wider is injective");
  for (unsigned i = 0; i < 8 * sizeof(T); i++) for (unsigned b = 0; b < 2; b++) vf_assert(!vf_valid("never", (x >> i & 1) != (U)b), "every output bit takes both values");
  vf_cover(sizeof(T) == sizeof(R) ? "same width" : "wider");
}
template <class T, class A> static void array() {
  enum { N = sizeof(A) }; A a; vf_symbolic(a.data(), N, "result"); A const &ca = a; std::uint64_t w = 0; for (int i = 0; i < 8; i++) w |= (std::uint64_t)a[i] << 8 * i;
  T v = h2::get_integral_result<T>(ca); vf_out(&v, sizeof v); vf_assert(v == (T)w, "array-like: first eight bytes, little-endian"); vf_cover("array-like");
}
template <class T> static void arrays() { switch (vf_choose("array", 0, 4)) { case 0: array<T, std::array<unsigned char, 8>>(); break; case 1: array<T, std::array<unsigned char, 9>>(); break; case 2: array<T, h2::digest<16>>(); break; case 3: array<T, h2::digest<20>>(); break; default: array<T, h2::digest<64>>(); } }
template <class T, class R> static typename std::enable_if<(sizeof(R) > sizeof(T))>::type ints() { contract<T, R>(); }
template <class T, class R> static typename std::enable_if<(sizeof(R) <= sizeof(T))>::type ints() { expand<T, R>(); }
template <class T> static void target() { uint32_t k = vf_choose("from", 0, 5); vf_shard(); switch (k) { case 0: ints<T, unsigned char>(); break; case 1: ints<T, std::uint16_t>(); break; case 2: ints<T, std::uint32_t>(); break; case 3: ints<T, std::uint64_t>(); break; case 4: ints<T, unsigned long>(); break; default: arrays<T>(); } }
void harness() {
  switch (vf_choose("to", 0, 11)) {
  case 0: target<signed char>(); break; case 1: target<unsigned char>(); break; case 2: target<std::int16_t>(); break; case 3: target<std::uint16_t>(); break;
  case 4: target<std::int32_t>(); break; case 5: target<std::uint32_t>(); break; case 6: target<std::int64_t>(); break; case 7: target<std::uint64_t>(); break;
  case 8: target<char>(); break; case 9: target<unsigned long>(); break; case 10: target<long long>(); break; default: target<wchar_t>(); }
}
