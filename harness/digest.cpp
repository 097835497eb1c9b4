// C25: a digest stores, compares and prints exactly its bytes.
#include "vf.h"
#include <boost/hash2/digest.hpp>
#include <boost/hash2/hash_append.hpp>
namespace h2 = boost::hash2;
static char cap[300]; static unsigned capn, caps;
extern "C" std::ostream *vf_capture(std::ostream *o, const char *s) { while (*s && capn < 299) cap[capn++] = *s++; caps++; return o; }
extern "C" std::ostream *vf_capture_n(std::ostream *o, const char *s, std::size_t n) { for (std::size_t i = 0; i < n && capn < 299; i++) cap[capn++] = s[i]; caps++; return o; }
static unsigned char hexdig(unsigned v) { return (unsigned char)(v < 10 ? '0' + v : 'a' + (v - 10)); }
template <std::size_t N> static void one() {
  uint32_t w = vf_choose("what", 0, 6);
  uint32_t len = w == 3 ? vf_choose("room", 0, 6) : 0; vf_shard();
  unsigned char (&b)[N] = *(unsigned char (*)[N])vf_bytes(N, "bytes"); h2::digest<N> d(b); h2::digest<N> const &cd = d;
  unsigned char e[2 * N]; for (std::size_t i = 0; i < N; i++) { e[2 * i] = hexdig(b[i] >> 4); e[2 * i + 1] = hexdig(b[i] & 15); }
  switch (w) {
  case 0: {
    vf_assert(d.size() == N && d.max_size() == N && d.end() - d.begin() == (std::ptrdiff_t)N && cd.end() - cd.begin() == (std::ptrdiff_t)N, "size"); vf_assert(sizeof d == N, "a digest is its bytes");
    vf_assert_eq(d.data(), b, N, "data is the bytes given"); vf_assert_eq(cd.data(), b, N, "const data"); vf_assert_eq(&*d.begin(), b, N, "begin"); vf_assert(d.begin() == d.data() && cd.begin() == cd.data(), "begin is data"); vf_out(d.data(), N);
    for (std::size_t i = 0; i < N; i++) { vf_assert(&d[i] == d.data() + i && &cd[i] == cd.data() + i, "operator[]"); } vf_assert(&d.front() == d.data() && &cd.front() == cd.data() && &d.back() == d.data() + (N - 1) && &cd.back() == cd.data() + (N - 1), "front, back");
    h2::digest<N> z; unsigned char zero[N]; memset(zero, 0, N); vf_assert_eq(z.data(), zero, N, "default: zeros"); h2::digest<N> y{}; vf_assert_eq(y.data(), zero, N, "value initialised: zeros");
    h2::digest<N> c(d); vf_assert_eq(c.data(), b, N, "copy"); z = c; vf_assert_eq(z.data(), b, N, "assignment"); z[0] = (unsigned char)(b[0] + 1); vf_assert_eq(c.data(), b, N, "copies are independent"); vf_assert(z != c && !(z == c), "a changed copy differs"); vf_cover("bytes"); break; }
  case 1: { unsigned char (&o)[N] = *(unsigned char (*)[N])vf_bytes(N, "other"); h2::digest<N> p(o); bool same = true; for (std::size_t i = 0; i < N; i++) same = same & (b[i] == o[i]); vf_assert((d == p) == same, "equal exactly when all bytes are"); vf_assert((d != p) == !same, "unequal exactly when some byte differs"); vf_assert((p == d) == same, "symmetric"); vf_cover("compare"); break; }
  case 2: { char *o = (char *)vf_alloc(2 * N, 0); memset(o, '#', 2 * N); char *r = h2::to_chars(d, o, o + 2 * N); vf_assert(r == o + 2 * N, "to_chars returns the end of the output"); vf_assert_eq(o, e, 2 * N, "to_chars writes the hexadecimal digits"); vf_out(o, 2 * N); vf_cover("exact room"); break; }
  case 3: { // too little room, exact room and more, next to other data
    static const int dl[] = {-2 * (int)N, -2 * (int)N + 1, -2, -1, 0, 1, 9}; std::size_t k = (std::size_t)(2 * (int)N + dl[len]); char *o = (char *)vf_alloc(k, 0); if (k) memset(o, '#', k); char *r = h2::to_chars(d, o, o + k);
    if (k < 2 * N) { vf_assert(r == nullptr, "no room: null"); for (std::size_t i = 0; i < k; i++) vf_assert(o[i] == '#', "no room: nothing is written"); vf_cover("too small"); }
    else { vf_assert(r == o + 2 * N, "end of the output"); vf_assert_eq(o, e, 2 * N, "digits"); for (std::size_t i = 2 * N; i < k; i++) vf_assert(o[i] == '#', "nothing is written after the digits"); vf_cover("enough room"); } break; }
  case 4: { char o[2 * N + 4]; memset(o, '#', sizeof o); h2::to_chars(d, o); vf_assert_eq(o, e, 2 * N, "array form: digits"); vf_assert(o[2 * N] == 0, "array form: terminated"); vf_assert(o[2 * N + 1] == '#' && o[2 * N + 3] == '#', "array form: nothing after the terminator"); char x[2 * N + 1]; h2::to_chars(d, x); vf_assert_eq(x, e, 2 * N, "array form, exact"); vf_assert(x[2 * N] == 0, "terminated"); vf_cover("array"); break; }
  case 5: { std::string s = h2::to_string(d); vf_assert(s.size() == 2 * N, "to_string size"); if (s.size() == 2 * N) vf_assert_eq(s.data(), e, 2 * N, "to_string digits"); vf_out(s.data(), s.size()); vf_cover("to_string"); break; }
  default: {
#ifndef VF_NO_STREAM
    if (vf_is_engine()) { static char os[16]; std::ostream &so = *(std::ostream *)os; std::ostream &ret = so << d; vf_assert(&ret == &so, "operator<< returns the stream"); vf_assert(capn == 2 * N, "operator<< writes 2N characters"); if (capn == 2 * N) vf_assert_eq(cap, e, 2 * N, "operator<< writes the digits"); vf_cover("stream"); }
#endif
    break; }
  }
}
void harness() {
  switch (vf_choose("size", 0, 6)) { case 0: one<1>(); break; case 1: one<2>(); break; case 2: one<16>(); break; case 3: one<20>(); break; case 4: one<28>(); break; case 5: one<48>(); break; default: one<64>(); }
}
