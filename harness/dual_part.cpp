// One side of the C14 comparison; compiled twice, as run-time code and as constant-evaluation
// code (-DVF_CX -Dhash2=hash2_cx), then linked into one program.
#if VF_DUAL_ALG
# include "algs.h"
#else
# include "rec.h"
# include <boost/hash2/get_integral_result.hpp>
# include <boost/describe/class.hpp>
# include <string>
# include <vector>
# include <list>
# include <tuple>
# include <array>
# include "stdstubs.h"
#endif
#if defined(VF_CX)
# define PFX(n) cx_##n
#else
# define PFX(n) rt_##n
#endif
#if VF_DUAL_ALG
extern "C" __attribute__((noinline)) void PFX(run)(uint32_t ctor, uint64_t seed, unsigned char const *key, size_t k, unsigned char const *p, size_t a, size_t b, size_t c, unsigned char *out) {
  alignas(H) unsigned char m[sizeof(H)]; H *h;
  switch (ctor) { case 0: h = new (m) H(); break; case 1: h = new (m) H(seed); break; default: h = new (m) H(key, k); }
  h->update(p, a); h->update(p + a, b); H g(*h);
  auto r = h->result(); res_bytes(r, out); h->update(p + a + b, c); auto s = h->result(); res_bytes(s, out + 64); auto t = h->result(); res_bytes(t, out + 128); auto u = g.result(); res_bytes(u, out + 192);
}
#else
namespace {
enum class En : std::uint16_t { a };
struct B1 { short a; unsigned char b; }; BOOST_DESCRIBE_STRUCT(B1, (), (a, b))
struct B2 : B1 { std::array<int, 2> c; float d; }; BOOST_DESCRIBE_STRUCT(B2, (B1), (c, d))
struct B3 { }; BOOST_DESCRIBE_STRUCT(B3, (), ())
struct TI { int x; template <class H, class F> friend constexpr void tag_invoke(h2::hash_append_tag const &, H &h, F const &f, TI const &v) { h2::hash_append(h, f, v.x); h2::hash_append(h, f, (char)v.x); } };
struct wide_flavor { typedef std::uint16_t size_type; static constexpr auto byte_order = h2::endian::big; };
template <class T> T take(unsigned char const *&p) { T t; memcpy(&t, p, sizeof t); p += sizeof t; return t; }
template <class T> struct Bag { typedef T value_type; typedef T key_type; typedef std::hash<int> hasher; typedef std::equal_to<T> key_equal; typedef T const *iterator; typedef T const *const_iterator; T const *d; std::size_t k; iterator begin() const { return d; } iterator end() const { return d + k; } };
template <class F> void app(F const &f, uint32_t t, unsigned n, unsigned char const *p, Rec &r, unsigned char *x) {
  switch (t) {
  case 0: h2::hash_append(r, f, take<char>(p)); h2::hash_append(r, f, take<short>(p)); h2::hash_append(r, f, take<unsigned>(p)); h2::hash_append(r, f, take<long long>(p)); h2::hash_append(r, f, (*p & 1) != 0); h2::hash_append(r, f, (En)take<short>(p)); break;
  case 1: h2::hash_append(r, f, take<float>(p)); h2::hash_append(r, f, take<double>(p)); { float a[2] = {take<float>(p), take<float>(p)}; h2::hash_append(r, f, a); } break;
  case 2: { unsigned a[3] = {take<unsigned>(p), take<unsigned>(p), take<unsigned>(p)}; h2::hash_append(r, f, a); unsigned char b[5]; memcpy(b, p, 5); h2::hash_append(r, f, b); char c[2][3]; memcpy(c, p, 6); h2::hash_append(r, f, c); h2::hash_append_range(r, f, a, a + n % 4); h2::hash_append_range(r, f, b, b + n); h2::hash_append_sized_range(r, f, (unsigned char const *)b, (unsigned char const *)b + n); break; }
  case 3: { std::string s; for (unsigned i = 0; i < n; i++) s.push_back(take<char>(p)); h2::hash_append(r, f, s); std::vector<unsigned char> v(s.begin(), s.end()); h2::hash_append(r, f, v); break; }
  case 4: { std::vector<std::uint16_t> v; std::list<int> l; for (unsigned i = 0; i < n; i++) { v.push_back(take<std::uint16_t>(p)); l.push_back(take<int>(p)); } h2::hash_append(r, f, v); h2::hash_append(r, f, l); break; }
  case 5: { std::array<std::uint32_t, 3> a; for (auto &e : a) e = take<std::uint32_t>(p); h2::hash_append(r, f, a); std::array<int, 0> z; h2::hash_append(r, f, z); std::array<std::pair<char, int>, 2> q; for (auto &e : q) { e.first = take<char>(p); e.second = take<int>(p); } h2::hash_append(r, f, q); break; }
  case 6: { std::tuple<char, int, std::pair<short, unsigned char>> v(take<char>(p), take<int>(p), std::pair<short, unsigned char>(take<short>(p), take<unsigned char>(p))); h2::hash_append(r, f, v); h2::hash_append(r, f, std::tuple<>()); break; }
  case 7: { B2 v; v.a = take<short>(p); v.b = take<unsigned char>(p); v.c[0] = take<int>(p); v.c[1] = take<int>(p); v.d = take<float>(p); h2::hash_append(r, f, v); h2::hash_append(r, f, B3()); B1 w[2] = {v, v}; h2::hash_append(r, f, w); break; }
  case 8: { TI v = {take<int>(p)}; h2::hash_append(r, f, v); std::vector<TI> w(n, v); h2::hash_append(r, f, w); break; }
  case 9: { int e[4]; for (auto &q : e) q = take<int>(p); Bag<int> b{e, n % 5}; h2::hash_append(r, f, b); break; }
  case 10: { unsigned char a[20], b[20]; memcpy(a, p, 20); memcpy(b, p + 20, 20); h2::digest<20> d(a), e(b); h2::hash_append(r, f, d); x[0] = d == e; x[1] = d != e; x[2] = d == d; h2::to_chars(d, (char *)x + 3, (char *)x + 43); char w[41]; h2::to_chars(e, w); memcpy(x + 43, w, 41); x[90] = h2::to_chars(d, (char *)x + 91, (char *)x + 130) == nullptr; break; }
  default: { std::array<unsigned char, 12> a; memcpy(a.data(), p, 12); std::uint64_t u = h2::get_integral_result<std::uint64_t>(a); std::int32_t v = h2::get_integral_result<std::int32_t>(a); std::uint16_t w = h2::get_integral_result<std::uint16_t>(u); memcpy(x, &u, 8); memcpy(x + 8, &v, 4); memcpy(x + 12, &w, 2); h2::hash_append_size(r, f, u); }
  }
}
}
extern "C" __attribute__((noinline)) void PFX(append)(uint32_t fl, uint32_t t, uint32_t n, unsigned char const *p, Rec *r, unsigned char *x) {
  switch (fl) { case 0: app(h2::default_flavor(), t, n, p, *r, x); break; case 1: app(h2::little_endian_flavor(), t, n, p, *r, x); break; case 2: app(h2::big_endian_flavor(), t, n, p, *r, x); break; default: app(wide_flavor(), t, n, p, *r, x); }
}
#endif
