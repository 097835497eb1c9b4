// C22: tuple-likes, described classes and tag_invoke types feed their parts in order; C24 for user types.
#include "rec.h"
#include "stdstubs.h"
#include <boost/describe/class.hpp>
#include <map>
#include <string>
#include <vector>
#include <array>
#include <tuple>
struct X0 { }; BOOST_DESCRIBE_STRUCT(X0, (), ())
struct X1 { short a; char b; }; BOOST_DESCRIBE_STRUCT(X1, (), (a, b))
struct X2 : X1 { int c; }; BOOST_DESCRIBE_STRUCT(X2, (X1), (c))
class X3 : protected X1, private X0 { friend void mk(X3 &); public: int p; protected: unsigned char q; private: long long r; BOOST_DESCRIBE_CLASS(X3, (X1, X0), (p), (q), (r)) };
static short x3a; static char x3b; static int x3p; static unsigned char x3q; static long long x3r;
void mk(X3 &x) { x.a = x3a; x.b = x3b; x.p = x3p; x.q = x3q; x.r = x3r; }
struct X4 : X2, X0 { std::pair<char, X1> m; X0 e; float f; std::array<unsigned char, 3> d; }; BOOST_DESCRIBE_STRUCT(X4, (X2, X0), (m, e, f, d))
struct X5 : X0 { }; BOOST_DESCRIBE_STRUCT(X5, (X0), ())
struct X6 { int a; int b; static int s; int fn() { return a; } int c; }; int X6::s = 5; BOOST_DESCRIBE_STRUCT(X6, (), (c, a)) // only what is described, in that order
// tag_invoke
struct Y1 { int a; int b;
  template <class Provider, class Hash, class Flavor> static void ti(Provider, Hash &h, Flavor const &f, Y1 const &v) { h2::hash_append(h, f, v.b); h2::hash_append(h, f, (char)v.a); }
  template <class Hash, class Flavor> friend void tag_invoke(h2::hash_append_tag const &t, Hash &h, Flavor const &f, Y1 const &v) { ti(t, h, f, v); } };
class Y2 { std::string s; char *cache; public: Y2(std::string x) : s(x), cache((char *)this) { } template <class Hash, class Flavor> friend void tag_invoke(h2::hash_append_tag const &, Hash &h, Flavor const &f, Y2 const &v) { h2::hash_append(h, f, v.s); } };
// a tuple-like of the user
namespace N { struct Z { short x; int y; }; template <std::size_t I> typename std::tuple_element<I, Z>::type const &get(Z const &); }
namespace std { template <> struct tuple_size<N::Z> : integral_constant<size_t, 2> { }; template <> struct tuple_element<0, N::Z> { typedef short type; }; template <> struct tuple_element<1, N::Z> { typedef int type; }; }
namespace N { template <> short const &get<0>(Z const &z) { return z.x; } template <> int const &get<1>(Z const &z) { return z.y; } }
// user types that opt into the contiguous shortcut
struct C1 { std::uint32_t a, b; }; BOOST_DESCRIBE_STRUCT(C1, (), (a, b))
struct C2 { unsigned char a, b; }; BOOST_DESCRIBE_STRUCT(C2, (), (a, b))
struct C3 { std::uint32_t a; std::uint16_t b; }; BOOST_DESCRIBE_STRUCT(C3, (), (a, b)) // padded: not opted in
namespace boost { namespace hash2 { template <> struct is_trivially_equality_comparable<C1> : std::true_type { }; template <> struct is_trivially_equality_comparable<C2> : std::true_type { }; template <> struct is_endian_independent<C2> : std::true_type { }; } }

template <class F> static void x1(Msg<F> &m, X1 const &v) { m.num((std::uint64_t)v.a, 2); m.num((std::uint64_t)v.b, 1); }
template <class F> static void x2(Msg<F> &m, X2 const &v) { x1(m, v); m.num((std::uint64_t)v.c, 4); }
static X1 mx1() { X1 x; x.a = sym<short>("a"); x.b = sym<char>("b"); return x; }
template <class F, class T> static void is(F f, T const &v, Msg<F> const &m, const char *l) { Rec r; h2::hash_append(r, f, v); same(r, m, l); }
template <class F> static std::uint32_t flt(Msg<F> &m, float &x) { std::uint32_t u = sym<std::uint32_t>("float"); vf_assume((u & 0x7fffffffu) <= 0x7f800000u); memcpy(&x, &u, 4); m.f32(u); return u; }
template <class F> static void run(F f) {
  uint32_t t = vf_choose("type", 0, 19); vf_shard(); Msg<F> m;
  switch (t) {
  case 0: { std::pair<short, char> v(sym<short>("a"), sym<char>("b")); m.num((std::uint64_t)v.first, 2); m.num((std::uint64_t)v.second, 1); is(f, v, m, "pair"); vf_cover("pair"); break; }
  case 1: { std::tuple<int, unsigned char, long long> v(sym<int>("a"), sym<unsigned char>("b"), sym<long long>("c")); m.num((std::uint64_t)std::get<0>(v), 4); m.num(std::get<1>(v), 1); m.num((std::uint64_t)std::get<2>(v), 8); is(f, v, m, "tuple"); vf_cover("tuple"); break; }
  case 2: { std::tuple<> v; m.num(0, 1); is(f, v, m, "empty tuple"); std::pair<std::tuple<>, char> w(v, sym<char>("b")); m.num((std::uint64_t)w.second, 1); is(f, w, m, "pair with an empty tuple"); break; }
  case 3: { std::tuple<char> v(sym<char>("a")); m.num((std::uint64_t)std::get<0>(v), 1); is(f, v, m, "tuple of one"); int x = sym<int>("x"); short y = sym<short>("y"); std::tuple<int &, short const &> w(x, y); Msg<F> q; q.num((std::uint64_t)x, 4); q.num((std::uint64_t)y, 2); is(f, w, q, "tuple of references"); break; }
  case 4: { std::pair<std::pair<char, short>, std::tuple<unsigned, std::array<char, 2>>> v; v.first.first = sym<char>("a"); v.first.second = sym<short>("b"); std::get<0>(v.second) = sym<unsigned>("c"); std::array<char, 2> z = {{sym<char>("d"), sym<char>("e")}}; std::get<1>(v.second) = z;
    m.num((std::uint64_t)v.first.first, 1); m.num((std::uint64_t)v.first.second, 2); m.num(std::get<0>(v.second), 4); m.num((std::uint64_t)z[0], 1); m.num((std::uint64_t)z[1], 1); is(f, v, m, "nested tuples"); vf_cover("nested tuples"); break; }
  case 5: { N::Z z = {sym<short>("a"), sym<int>("b")}; m.num((std::uint64_t)z.x, 2); m.num((std::uint64_t)z.y, 4); is(f, z, m, "user tuple-like"); N::Z a[2] = {z, z}; Msg<F> q; for (int i = 0; i < 2; i++) { q.num((std::uint64_t)z.x, 2); q.num((std::uint64_t)z.y, 4); } is(f, a, q, "array of user tuple-likes"); vf_cover("user tuple-like"); break; }
  case 6: { X0 v; m.num(0, 1); is(f, v, m, "empty described struct"); X0 a[3]; m.num(0, 1); m.num(0, 1); is(f, a, m, "array of empty structs"); X5 x5; Msg<F> q; q.num(0, 1); is(f, x5, q, "described struct with an empty base"); vf_cover("empty"); break; }
  case 7: { X1 v = mx1(); x1(m, v); is(f, v, m, "described struct"); X1 a[2] = {v, v}; x1(m, v); is(f, a, m, "array of described structs"); break; }
  case 8: { X2 v; static_cast<X1 &>(v) = mx1(); v.c = sym<int>("c"); x2(m, v); is(f, v, m, "described struct: base, then member"); vf_cover("base"); break; }
  case 9: { X3 v; x3a = sym<short>("a"); x3b = sym<char>("b"); x3p = sym<int>("p"); x3q = sym<unsigned char>("q"); x3r = sym<long long>("r"); mk(v); m.num((std::uint64_t)x3a, 2); m.num((std::uint64_t)x3b, 1); m.num(0, 1); m.num((std::uint64_t)x3p, 4); m.num(x3q, 1); m.num((std::uint64_t)x3r, 8); is(f, v, m, "described class: all bases and members of any access"); vf_cover("access"); break; }
  case 10: { X4 v; static_cast<X1 &>(v) = mx1(); v.c = sym<int>("c"); v.m.first = sym<char>("d"); v.m.second = mx1(); Msg<F> q; flt(q, v.f); for (int i = 0; i < 3; i++) v.d[i] = sym<unsigned char>("e"); x2(m, v); m.num(0, 1); m.num((std::uint64_t)v.m.first, 1); x1(m, v.m.second); m.num(0, 1); { std::uint32_t u; memcpy(&u, &v.f, 4); m.f32(u); } for (int i = 0; i < 3; i++) m.num(v.d[i], 1); is(f, v, m, "described class with bases and nested members"); vf_cover("nested described"); break; }
  case 11: { X6 v; v.a = sym<int>("a"); v.b = sym<int>("b"); v.c = sym<int>("c"); m.num((std::uint64_t)v.c, 4); m.num((std::uint64_t)v.a, 4); is(f, v, m, "described members only, in the described order"); break; }
  case 12: { Y1 v = {sym<int>("a"), sym<int>("b")}; m.num((std::uint64_t)v.b, 4); m.num((std::uint64_t)(char)v.a, 1); is(f, v, m, "tag_invoke"); std::vector<Y1> w(2, v); m.num((std::uint64_t)v.b, 4); m.num((std::uint64_t)(char)v.a, 1); m.size(2); is(f, w, m, "vector of tag_invoke types"); vf_cover("tag_invoke"); break; }
  case 13: { std::string s; s.push_back(sym<char>("s0")); s.push_back(sym<char>("s1")); Y2 v(s); for (char c : s) m.num((std::uint64_t)c, 1); m.size(2); is(f, v, m, "tag_invoke on a private member"); std::pair<Y2, char> w(v, sym<char>("c")); m.num((std::uint64_t)w.second, 1); is(f, w, m, "pair with a tag_invoke type"); break; }
  case 14: { std::vector<std::pair<X1, std::string>> v(1); v[0].first = mx1(); v[0].second.push_back(sym<char>("s")); x1(m, v[0].first); m.num((std::uint64_t)v[0].second[0], 1); m.size(1); m.size(1); is(f, v, m, "vector of pairs of described and string"); break; }
  case 15: { std::map<char, X1> v; char k = sym<char>("k"); X1 x = mx1(); v.insert(std::pair<char const, X1>(k, x)); m.num((std::uint64_t)k, 1); x1(m, x); m.size(1); is(f, v, m, "map to described"); vf_cover("map"); break; }
  case 16: { C1 v = {sym<std::uint32_t>("a"), sym<std::uint32_t>("b")}; m.num(v.a, 4); m.num(v.b, 4); is(f, v, m, "opted-in struct"); C1 a[2] = {v, v}; Msg<F> q; for (int i = 0; i < 2; i++) { q.num(v.a, 4); q.num(v.b, 4); } is(f, a, q, "array of opted-in structs"); std::vector<C1> w(2, v); q.size(2); is(f, w, q, "vector of opted-in structs");
    vf_assert((h2::is_contiguously_hashable<C1, F::byte_order>::value) == (F::byte_order == h2::endian::native), "an endian dependent type is contiguous in the native order only"); vf_cover("opted in"); break; }
  case 17: { C2 v = {sym<unsigned char>("a"), sym<unsigned char>("b")}; m.num(v.a, 1); m.num(v.b, 1); is(f, v, m, "opted-in endian independent struct"); std::array<C2, 2> w = {{v, v}}; m.num(v.a, 1); m.num(v.b, 1); is(f, w, m, "array of those"); vf_assert(h2::is_contiguously_hashable<C2, F::byte_order>::value, "an endian independent type is contiguous in every order"); break; }
  case 18: { C3 v; memset(&v, 0x5a, sizeof v); unsigned char *pad = vf_bytes(sizeof v, "padding"); memcpy(&v, pad, sizeof v); v.a = sym<std::uint32_t>("a"); v.b = sym<std::uint16_t>("b"); m.num(v.a, 4); m.num(v.b, 2); is(f, v, m, "padding is not fed"); C3 a[2]; memcpy(a, &v, sizeof v); memcpy(a + 1, &v, sizeof v); m.num(v.a, 4); m.num(v.b, 2); is(f, a, m, "padding of array elements is not fed"); vf_assert(!h2::is_contiguously_hashable<C3, F::byte_order>::value, "a type that does not opt in is not contiguous"); vf_cover("padding"); break; }
  default: { unsigned char b[20]; for (int i = 0; i < 20; i++) { b[i] = sym<unsigned char>("d"); m.num(b[i], 1); } h2::digest<20> d(b); is(f, d, m, "digest"); std::pair<h2::digest<20>, char> w(d, sym<char>("c")); m.num((std::uint64_t)w.second, 1); is(f, w, m, "pair with a digest"); vf_cover("digest"); }
  }
}
void harness() { VF_FLAVORS(run); }
