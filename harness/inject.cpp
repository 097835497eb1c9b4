// C23: every value feeds something, and different values of one type feed different messages.
#include "rec.h"
#include "stdstubs.h"
#include <string>
#include <vector>
#include <list>
#include <map>
#include <tuple>
#include <array>
#include <boost/describe/class.hpp>
struct S2 { std::string a; std::vector<unsigned char> b; }; BOOST_DESCRIBE_STRUCT(S2, (), (a, b))
// a size for each dynamic part; values are compared by an independent walk
struct Val { unsigned char b[VF_CAP]; unsigned n = 0; void put(const void *p, unsigned k) { memcpy(b + n, p, k); n += k; } }; // flat value
static unsigned sz(const char *n) { return vf_choose(n, 0, VF_MAXN); }
template <class C> static C seqOf(unsigned n, const char *name, Val &v) { C c; for (unsigned i = 0; i < n; i++) { typename C::value_type x = sym<typename C::value_type>(name); c.push_back(x); v.put(&x, sizeof x); } return c; }
template <class F, class T> static unsigned feed(F f, Rec &r, T const &v) { h2::hash_append(r, f, v); vf_assert(r.calls >= 1 && r.n >= 1, "every value feeds at least one byte"); return r.n; }
// shapes equal: values differ iff their flat bytes differ, the messages too; shapes differ: messages must differ
static void judge(bool sameShape, Val const &v, Val const &w, Rec const &r, Rec const &s) {
  vf_out(r.b, r.n);
  if (sameShape) { vf_assert(r.n == s.n, "equal shapes have equal lengths"); vf_assume(v.n > 0); bool eq = memcmp(v.b, w.b, v.n) == 0; bool meq = memcmp(r.b, s.b, r.n) == 0; vf_assert(eq == meq, "messages are equal exactly when the values are"); vf_cover("equal shapes"); }
  else { if (r.n == s.n) { vf_assert_distinct(r.b, s.b, r.n, "values of different shape have different messages"); vf_cover("different shapes of equal length"); } else vf_cover("different lengths"); }
}
template <class F> static void run(F f) {
  uint32_t t = vf_choose("type", 0, 7); Rec r, s; Val v, w;
  if (t == 0) { unsigned a = sz("n"), b = sz("n"), c = sz("n"), d = sz("n"); vf_shard(); typedef std::pair<std::string, std::string> T; T x, y; x.first = seqOf<std::string>(a, "c", v); x.second = seqOf<std::string>(b, "c", v); y.first = seqOf<std::string>(c, "c", w); y.second = seqOf<std::string>(d, "c", w); feed(f, r, x); feed(f, s, y); judge(a == c && b == d, v, w, r, s); vf_cover("pair of strings"); }
  else if (t == 1) { unsigned k = vf_choose("k", 0, 2), l = vf_choose("k", 0, 2), e[2] = {0, 0}, g[2] = {0, 0}; for (unsigned i = 0; i < k; i++) e[i] = vf_choose("n", 0, 2); for (unsigned i = 0; i < l; i++) g[i] = vf_choose("n", 0, 2); vf_shard();
    std::vector<std::string> x, y; for (unsigned i = 0; i < k; i++) x.push_back(seqOf<std::string>(e[i], "c", v)); for (unsigned i = 0; i < l; i++) y.push_back(seqOf<std::string>(g[i], "c", w)); feed(f, r, x); feed(f, s, y); judge(k == l && e[0] == g[0] && e[1] == g[1], v, w, r, s); vf_cover("vector of strings"); }
  else if (t == 2) { unsigned a = sz("n"), b = sz("n"); vf_shard(); auto x = seqOf<std::vector<std::uint16_t>>(a, "c", v), y = seqOf<std::vector<std::uint16_t>>(b, "c", w); feed(f, r, x); feed(f, s, y); judge(a == b, v, w, r, s); vf_cover("vector of uint16"); }
  else if (t == 3) { unsigned a = sz("n"), b = sz("n"), c = sz("n"), d = sz("n"); vf_shard(); std::tuple<std::vector<unsigned char>, std::list<short>> x, y; std::get<0>(x) = seqOf<std::vector<unsigned char>>(a, "c", v); std::get<1>(x) = seqOf<std::list<short>>(b, "c", v); std::get<0>(y) = seqOf<std::vector<unsigned char>>(c, "c", w); std::get<1>(y) = seqOf<std::list<short>>(d, "c", w); feed(f, r, x); feed(f, s, y); judge(a == c && b == d, v, w, r, s); vf_cover("tuple of vector and list"); }
  else if (t == 4) { unsigned a = sz("n"), b = sz("n"), c = sz("n"), d = sz("n"); vf_shard(); S2 x, y; x.a = seqOf<std::string>(a, "c", v); x.b = seqOf<std::vector<unsigned char>>(b, "c", v); y.a = seqOf<std::string>(c, "c", w); y.b = seqOf<std::vector<unsigned char>>(d, "c", w); feed(f, r, x); feed(f, s, y); judge(a == c && b == d, v, w, r, s); vf_cover("described with two sequences"); }
  else if (t == 5) { unsigned k = vf_choose("k", 0, 2), l = vf_choose("k", 0, 2); unsigned e = k ? vf_choose("n", 0, 2) : 0, g = l ? vf_choose("n", 0, 2) : 0; vf_shard(); std::vector<std::vector<std::vector<char>>> x(k), y(l); if (k) { x[0].push_back(seqOf<std::vector<char>>(e, "c", v)); } if (l) { y[0].push_back(seqOf<std::vector<char>>(g, "c", w)); } feed(f, r, x); feed(f, s, y); judge(k == l && e == g, v, w, r, s); vf_cover("three levels"); }
  else if (t == 6) { unsigned a = sz("n"), b = sz("n"); vf_shard(); std::vector<std::tuple<>> x(a), y(b); feed(f, r, x); feed(f, s, y); if (a != b) judge(false, v, w, r, s); std::vector<std::array<int, 0>> p(a), q(b); Rec r2, s2; feed(f, r2, p); feed(f, s2, q); if (a != b) judge(false, v, w, r2, s2); vf_cover("vectors of empty elements"); }
  else { vf_shard(); Rec a, b, c, d, e, g; std::array<char, 0> z; feed(f, a, z); feed(f, b, std::tuple<>()); feed(f, c, std::string()); feed(f, d, std::vector<std::vector<int>>()); struct Em { typedef char value_type; }; feed(f, e, std::list<float>()); feed(f, g, std::map<int, int>()); Rec h; std::array<std::array<char, 0>, 2> zz; feed(f, h, zz); vf_assert(h.n >= 1, "array of empty arrays"); vf_cover("empty values"); }
}
void harness() { VF_FLAVORS(run); }
