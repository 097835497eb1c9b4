// C20: ranges are fed by content (elements in order, then the count for dynamic sizes),
// whatever the container, the iterator category or the entry point.
#include "rec.h"
#include "stdstubs.h"
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <array>
#if __cplusplus >= 201703L
#include <string_view>
#endif
#include <boost/array.hpp>
enum class Col : std::uint16_t { r };
template <class T> struct Elt { static T make() { return sym<T>("elem"); } template <class F> static void put(Msg<F> &m, T const &v) { m.num(val(v), sizeof(T)); } };
template <> struct Elt<float> { static float make() { std::uint32_t u = sym<std::uint32_t>("elem"); vf_assume((u & 0x7fffffffu) <= 0x7f800000u); float x; memcpy(&x, &u, 4); return x; } template <class F> static void put(Msg<F> &m, float v) { std::uint32_t u; memcpy(&u, &v, 4); m.f32(u); } };
template <> struct Elt<double> { static double make() { std::uint64_t u = sym<std::uint64_t>("elem"); vf_assume((u & ~(1ull << 63)) <= 0x7ff0000000000000ull); double x; memcpy(&x, &u, 8); return x; } template <class F> static void put(Msg<F> &m, double v) { std::uint64_t u; memcpy(&u, &v, 8); m.f64(u); } };
template <> struct Elt<std::array<short, 2>> { typedef std::array<short, 2> T; static T make() { T t; t[0] = sym<short>("elem"); t[1] = sym<short>("elem"); return t; } template <class F> static void put(Msg<F> &m, T const &v) { m.num((std::uint64_t)v[0], 2); m.num((std::uint64_t)v[1], 2); } };
template <> struct Elt<std::pair<char, int>> { typedef std::pair<char, int> T; static T make() { T t; t.first = sym<char>("elem"); t.second = sym<int>("elem"); return t; } template <class F> static void put(Msg<F> &m, T const &v) { m.num((std::uint64_t)v.first, 1); m.num((std::uint64_t)v.second, 4); } };
template <> struct Elt<std::vector<unsigned char>> { typedef std::vector<unsigned char> T; static T make() { T t; t.push_back(sym<unsigned char>("elem")); t.push_back(sym<unsigned char>("elem")); return t; } template <class F> static void put(Msg<F> &m, T const &v) { for (unsigned char c : v) m.num(c, 1); m.size(v.size()); } };

// iterators over an array, of each category
template <class T, class Cat> struct It {
  typedef Cat iterator_category; typedef typename std::remove_const<T>::type value_type; typedef std::ptrdiff_t difference_type; typedef T *pointer; typedef T &reference;
  T *p;
  T &operator*() const { return *p; } T *operator->() const { return p; }
  It &operator++() { ++p; return *this; } It operator++(int) { It r = *this; ++p; return r; }
  It &operator--() { --p; return *this; } It operator--(int) { It r = *this; --p; return r; }
  It &operator+=(difference_type n) { p += n; return *this; } It &operator-=(difference_type n) { p -= n; return *this; }
  It operator+(difference_type n) const { return It{p + n}; } It operator-(difference_type n) const { return It{p - n}; } difference_type operator-(It o) const { return p - o.p; }
  T &operator[](difference_type n) const { return p[n]; }
  bool operator==(It const &o) const { return p == o.p; } bool operator!=(It const &o) const { return p != o.p; } bool operator<(It const &o) const { return p < o.p; }
};
// a single pass iterator whose reference is another type than its value type
template <class V, class R> struct Gen { typedef std::input_iterator_tag iterator_category; typedef V value_type; typedef std::ptrdiff_t difference_type; typedef V const *pointer; typedef R reference;
  R const *p; R operator*() const { return *p; } Gen &operator++() { ++p; return *this; } Gen operator++(int) { Gen r = *this; ++p; return r; } bool operator==(Gen const &o) const { return p == o.p; } bool operator!=(Gen const &o) const { return p != o.p; } };
// reads from a stream: all copies share the position, so a second pass sees nothing
template <class T> struct Stream { typedef std::input_iterator_tag iterator_category; typedef typename std::remove_const<T>::type value_type; typedef std::ptrdiff_t difference_type; typedef T const *pointer; typedef T const &reference;
  T const *d; std::size_t k; std::size_t *pos; bool at_end() const { return !pos || *pos >= k; }
  T const &operator*() const { vf_assert(!at_end(), "nothing is read past the end of a stream"); return d[*pos]; } Stream &operator++() { ++*pos; return *this; } struct Old { T v; T const &operator*() const { return v; } }; Old operator++(int) { Old r{d[*pos]}; ++*pos; return r; }
  bool operator==(Stream const &o) const { return at_end() == o.at_end(); } bool operator!=(Stream const &o) const { return !(*this == o); } };
template <class T> struct Box { // contiguous container of a user
  typedef T value_type; typedef T *iterator; typedef T const *const_iterator; typedef std::size_t size_type;
  T *d; std::size_t k; T const *begin() const { return d; } T const *end() const { return d + k; } T const *data() const { return d; } std::size_t size() const { return k; } };
template <class T, class Cat> struct Seq { // non contiguous container of a user
  typedef T value_type; typedef It<T const, Cat> iterator; typedef It<T const, Cat> const_iterator;
  T *d; std::size_t k; iterator begin() const { return iterator{d}; } iterator end() const { return iterator{d + k}; } };

template <class T, class F> struct Exp { Msg<F> range, sized; };
template <class F, class I> static void three(F f, I a, I b, Msg<F> const &rm, Msg<F> const &sm) {
  Rec r; h2::hash_append_range(r, f, a, b); if (rm.n) same(r, rm, "hash_append_range feeds the elements in order"); else vf_assert(r.n == 0, "hash_append_range of nothing feeds nothing");
  Rec s; h2::hash_append_sized_range(s, f, a, b); same(s, sm, "hash_append_sized_range feeds the elements and the count");
}
template <class F, class C> static void cont(F f, C const &c, Msg<F> const &m) { Rec r; h2::hash_append(r, f, c); same(r, m, "container is fed as elements and count"); }
template <class T, class F> static void all(F f, unsigned what, unsigned n) {
  T e[5] = {}; for (unsigned i = 0; i < n; i++) e[i] = Elt<T>::make();
  Msg<F> rm, sm; for (unsigned i = 0; i < n; i++) { Elt<T>::put(rm, e[i]); Elt<T>::put(sm, e[i]); } sm.size(n);
  switch (what) {
  case 0: three(f, (T *)e, e + n, rm, sm); three(f, (T const *)e, (T const *)(e + n), rm, sm); vf_cover("pointers"); break;
  case 1: { std::size_t p1 = 0, p2 = 0; typedef Stream<T> S; Rec r; h2::hash_append_range(r, f, S{e, n, &p1}, S{e, n, nullptr}); vf_assert(p1 == n, "every element is read once"); if (rm.n) same(r, rm, "hash_append_range of a single pass range"); Rec s; h2::hash_append_sized_range(s, f, S{e, n, &p2}, S{e, n, nullptr}); same(s, sm, "hash_append_sized_range of a single pass range");
    typedef It<T, std::input_iterator_tag> I; three(f, I{e}, I{e + n}, rm, sm); typedef It<T const, std::forward_iterator_tag> J; three(f, J{e}, J{e + n}, rm, sm); vf_cover("input, forward"); break; }
  case 2: { typedef It<T, std::bidirectional_iterator_tag> I; three(f, I{e}, I{e + n}, rm, sm); typedef It<T const, std::random_access_iterator_tag> J; three(f, J{e}, J{e + n}, rm, sm); vf_cover("bidirectional, random access"); break; }
  case 3: { std::reverse_iterator<T *> a(e + n), b(e); Msg<F> r2, s2; for (unsigned i = n; i-- > 0;) { Elt<T>::put(r2, e[i]); Elt<T>::put(s2, e[i]); } s2.size(n); three(f, a, b, r2, s2); vf_cover("reverse"); break; }
  case 4: { std::vector<T> v(e, e + n); cont(f, v, sm); three(f, v.begin(), v.end(), rm, sm); three(f, v.cbegin(), v.cend(), rm, sm); vf_cover("vector"); break; }
  case 5: { std::list<T> v(e, e + n); cont(f, v, sm); three(f, v.begin(), v.end(), rm, sm); vf_cover("list"); break; }
  case 6: { std::forward_list<T> v(e, e + n); cont(f, v, sm); three(f, v.begin(), v.end(), rm, sm); vf_cover("forward_list"); break; }
  case 7: { std::deque<T> v; for (unsigned i = 0; i < n; i++) v.push_back(e[i]); cont(f, v, sm); three(f, v.begin(), v.end(), rm, sm); vf_cover("deque"); break; }
  case 8: { Box<T> b{e, n}; cont(f, b, sm); Seq<T, std::input_iterator_tag> s1{e, n}; cont(f, s1, sm); Seq<T, std::forward_iterator_tag> s2{e, n}; cont(f, s2, sm); Seq<T, std::random_access_iterator_tag> s3{e, n}; cont(f, s3, sm); vf_cover("user containers"); break; }
  case 9: { // fixed sizes carry no count; none at all is a zero byte
    std::array<T, 3> a3 = {{e[0], e[1], e[2]}}; boost::array<T, 3> b3 = {{e[0], e[1], e[2]}}; T c3[3] = {e[0], e[1], e[2]}; std::array<T, 1> a1 = {{e[0]}}; std::array<T, 0> a0; boost::array<T, 0> b0; Msg<F> m3, m1, m0, m33;
    for (int i = 0; i < 3; i++) { Elt<T>::put(m3, e[i]); } Elt<T>::put(m1, e[0]); m0.num(0, 1); cont(f, a3, m3); cont(f, b3, m3); cont(f, c3, m3); cont(f, a1, m1); cont(f, a0, m0); cont(f, b0, m0);
    std::array<std::array<T, 1>, 2> n2 = {{a1, a1}}; for (int i = 0; i < 2; i++) Elt<T>::put(m33, e[0]); cont(f, n2, m33);
    T d[2][1] = {{e[1]}, {e[2]}}; Msg<F> md; Elt<T>::put(md, e[1]); Elt<T>::put(md, e[2]); cont(f, d, md); vf_cover("fixed size"); break; }
  case 10: { std::vector<std::vector<T>> v(2); v[0].assign(e, e + n); Msg<F> m; for (unsigned i = 0; i < n; i++) Elt<T>::put(m, e[i]); m.size(n); m.size(0); m.size(2); cont(f, v, m); vf_cover("nested"); break; }
  default: { std::vector<T> v(e, e + n); std::vector<T> const &cv = v; cont(f, cv, sm); three(f, v.rbegin(), v.rbegin(), Msg<F>(), [] { Msg<F> z; z.size(0); return z; }()); vf_cover("empty"); }
  }
}
template <class Ch, class F> static void str(F f, unsigned n) {
  Ch e[5] = {}; for (unsigned i = 0; i < n; i++) e[i] = Elt<Ch>::make(); Msg<F> sm; for (unsigned i = 0; i < n; i++) Elt<Ch>::put(sm, e[i]); sm.size(n);
  std::basic_string<Ch> s(e, e + n); cont(f, s, sm);
#if __cplusplus >= 201703L
  std::basic_string_view<Ch> w(e, n); cont(f, w, sm);
#endif
  vf_cover("strings");
}
template <class F> static void bools(F f, unsigned n) {
  std::vector<bool> v; bool e[5]; Msg<F> m, rm; for (unsigned i = 0; i < n; i++) { e[i] = sym<bool>("elem"); v.push_back(e[i]); m.num(e[i], 1); rm.num(e[i], 1); } m.size(n); cont(f, v, m);
  std::vector<bool> const &cv = v; three(f, cv.begin(), cv.end(), rm, m); three(f, v.begin(), v.end(), rm, m); vf_cover("vector<bool>");
}
template <class F> static void gen(F f, unsigned n) { // the value type decides, not the reference type
  short e[5] = {}; for (unsigned i = 0; i < n; i++) e[i] = sym<short>("elem"); Msg<F> rm, sm; for (unsigned i = 0; i < n; i++) { rm.num((std::uint64_t)e[i], 4); sm.num((std::uint64_t)e[i], 4); } sm.size(n);
  typedef Gen<int, short> G; three(f, G{e}, G{e + n}, rm, sm); vf_cover("proxy references");
}
template <class F> static void tree(F f, unsigned n) {
  if (n > 3) return; std::set<short> s; std::multiset<short> ms; std::map<short, char> mp; short e[3]; char c[3];
  for (unsigned i = 0; i < n; i++) { e[i] = sym<short>("elem"); c[i] = sym<char>("val"); if (i) vf_assume(e[i - 1] < e[i]); }
  unsigned rot = n ? vf_choose("order", 0, n - 1) : 0; for (unsigned i = 0; i < n; i++) { unsigned k = (i + rot) % n; s.insert(e[k]); ms.insert(e[k]); mp.insert(std::pair<short const, char>(e[k], c[k])); }
  Msg<F> m, mm; for (unsigned i = 0; i < n; i++) { m.num((std::uint64_t)e[i], 2); mm.num((std::uint64_t)e[i], 2); mm.num((std::uint64_t)c[i], 1); } m.size(n); mm.size(n);
  cont(f, s, m); cont(f, ms, m); cont(f, mp, mm); vf_cover("set, multiset, map");
}
template <class F> static void run(F f) {
  uint32_t t = vf_choose("element", 0, 17), w = t < 12 ? vf_choose("form", 0, 11) : 0, n = vf_choose("count", 0, VF_MAXN);
  vf_shard();
  switch (t) {
  case 0: all<unsigned char>(f, w, n); break;
  case 1: all<char>(f, w, n); break;
  case 2: all<std::int16_t>(f, w, n); break;
  case 3: all<std::uint32_t>(f, w, n); break;
  case 4: all<std::int64_t>(f, w, n); break;
  case 5: all<Col>(f, w, n); break;
  case 6: all<float>(f, w, n); break;
  case 7: all<double>(f, w, n); break;
  case 8: all<std::array<short, 2>>(f, w, n); break;
  case 9: all<std::pair<char, int>>(f, w, n); break;
  case 10: all<std::vector<unsigned char>>(f, w, n); break;
  case 11: all<signed char>(f, w, n); break;
  case 12: str<char>(f, n); break;
  case 13: str<char16_t>(f, n); str<char32_t>(f, n); break;
  case 14: str<wchar_t>(f, n); break;
  case 15: bools(f, n); break;
  case 16: gen(f, n); break;
  default: tree(f, n);
  }
}
void harness() { VF_FLAVORS(run); }
