// C21: unordered ranges are hashed by the multiset of their elements, the count and the prior state.
#include "rec.h"
#include "stdstubs.h"
#include <unordered_set>
#include <unordered_map>
#include <forward_list>
#include <vector>
#include <string>
template <class T> struct Fw { typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T const *pointer; typedef T const &reference;
  T const *p; T const &operator*() const { return *p; } Fw &operator++() { ++p; return *this; } Fw operator++(int) { Fw r = *this; ++p; return r; } bool operator==(Fw const &o) const { return p == o.p; } bool operator!=(Fw const &o) const { return p != o.p; } };
// all copies share the position: a second pass sees nothing
template <class T> struct Sp { typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T const *pointer; typedef T const &reference;
  T const *d; std::size_t k; std::size_t *pos; bool at_end() const { return !pos || *pos >= k; } T const &operator*() const { return d[*pos]; } Sp &operator++() { ++*pos; return *this; } void operator++(int) { ++*pos; } bool operator==(Sp const &o) const { return at_end() == o.at_end(); } bool operator!=(Sp const &o) const { return !(*this == o); } };
template <class T> struct Bag { // unordered as container_hash detects it
  typedef T value_type; typedef T key_type; typedef Fw<T> iterator; typedef Fw<T> const_iterator; typedef std::hash<int> hasher; typedef std::equal_to<T> key_equal;
  T const *d; std::size_t k; iterator begin() const { return iterator{d}; } iterator end() const { return iterator{d + k}; } std::size_t size() const { return k; } };
// documented construction, given the hash state that precedes the range
template <class F> static void expect(Msg<F> &m, std::uint64_t salt, Msg<F> const *elem, unsigned n) {
  std::uint64_t w = 0; for (unsigned i = 0; i < n; i++) { Msg<F> x = m; for (unsigned j = 0; j < elem[i].n; j++) x.b[x.n++] = elem[i].b[j]; w += x.hash(salt); } m.num(w, 8); m.size(n); }
template <class T> struct P; 
template <> struct P<int> { static int make() { return sym<int>("elem"); } template <class F> static void put(Msg<F> &m, int v) { m.num((std::uint64_t)v, 4); } };
template <> struct P<unsigned char> { static unsigned char make() { return sym<unsigned char>("elem"); } template <class F> static void put(Msg<F> &m, unsigned char v) { m.num(v, 1); } };
template <> struct P<std::pair<short, char>> { typedef std::pair<short, char> T; static T make() { T t; t.first = sym<short>("elem"); t.second = sym<char>("elem"); return t; } template <class F> static void put(Msg<F> &m, T const &v) { m.num((std::uint64_t)v.first, 2); m.num((std::uint64_t)v.second, 1); } };
template <> struct P<std::string> { static std::string make() { std::string s; unsigned k = 2; for (unsigned i = 0; i < k; i++) s.push_back(sym<char>("elem")); return s; } template <class F> static void put(Msg<F> &m, std::string const &v) { for (char c : v) m.num((std::uint64_t)c, 1); m.size(v.size()); } };
static const unsigned char perms[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
template <class T, class F> static void bag(F f, unsigned n, unsigned pm) {
  unsigned char *pre = vf_bytes(3, "before"); std::uint64_t salt = vf_u64("salt");
  T e[5], q[5]; Msg<F> em[5]; for (unsigned i = 0; i < n; i++) { e[i] = P<T>::make(); P<T>::put(em[i], e[i]); }
  if (n >= 3) for (unsigned i = 0; i < n; i++) q[i] = e[i < 3 ? perms[pm][i] : n + 2 - i]; else for (unsigned i = 0; i < n; i++) q[i] = e[pm & 1 ? n - 1 - i : i];
  Rec a(salt), b(salt), c(salt), d(salt); a.update((void const *)pre, 3); b = a; c = a; d = a;
  Bag<T> x{e, n}, y{q, n}; h2::hash_append(a, f, x); h2::hash_append(b, f, y);
  same(a, [&] { Msg<F> m; for (int i = 0; i < 3; i++) m.b[m.n++] = pre[i]; expect(m, salt, em, n); return m; }(), "sum of the element hashes, then the count");
  vf_assert(a.n == b.n, "permutation"); vf_assert_eq(a.b, b.b, a.n < b.n ? a.n : b.n, "any order gives the same message");
  h2::hash_append_unordered_range(c, f, x.begin(), x.end()); vf_assert(c.n == a.n, "range"); vf_assert_eq(c.b, a.b, a.n, "the range form is the container form");
  h2::hash_append_unordered_range(d, f, (T const *)q, (T const *)(q + n)); vf_assert(d.n == a.n, "range"); vf_assert_eq(d.b, a.b, a.n, "pointers to permuted elements give the same");
  { std::size_t pos = 0; typedef Sp<T> S; Rec g(salt); g.update((void const *)pre, 3); h2::hash_append_unordered_range(g, f, S{q, n, &pos}, S{q, n, nullptr}); vf_assert(g.n == a.n, "single pass range"); vf_assert_eq(g.b, a.b, g.n < a.n ? g.n : a.n, "a single pass range gives the same"); }
  if (n >= 1) { // inside another container; the state before matters
    Bag<T> two[2] = {x, y}; Rec g(salt), h(salt); g.update((void const *)pre, 3); h2::hash_append(g, f, two); Msg<F> m; for (int i = 0; i < 3; i++) m.b[m.n++] = pre[i]; expect(m, salt, em, n); expect(m, salt, em, n); same(g, m, "nested unordered containers"); }
  vf_cover("bag");
}
template <class F> static void dup(F f) { // duplicates do not cancel, the count is incorporated
  int v = sym<int>("elem"); int e[4] = {v, v, v, v}; for (unsigned n = 0; n <= 4; n++) for (unsigned k = 0; k < n; k++) { Rec a, b; h2::hash_append(a, f, Bag<int>{e, n}); h2::hash_append(b, f, Bag<int>{e, k}); vf_assert(a.n == b.n, "same length"); if (a.n == b.n) vf_assert_distinct(a.b, b.b, a.n, "different counts of one element give different messages"); }
  vf_cover("duplicates");
}
template <class F> static void prior(F f) { // the prior state enters every element hash
  Rec a(1), b(2); int e[2] = {sym<int>("elem"), sym<int>("elem")}; Msg<F> m[2]; for (int i = 0; i < 2; i++) P<int>::put(m[i], e[i]);
  h2::hash_append(a, f, Bag<int>{e, 2}); h2::hash_append(b, f, Bag<int>{e, 2}); Msg<F> x, y; expect(x, 1, m, 2); expect(y, 2, m, 2); same(a, x, "state 1"); same(b, y, "state 2"); vf_cover("prior state");
}
#if defined(VF_STUBS) && !defined(VF_NOSTD)
namespace std { namespace __detail { inline std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t, std::size_t, std::size_t) const { return std::pair<bool, std::size_t>(false, 0); } inline std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t) const { return 1; } } }
template <class F> static void stdc(F f, unsigned n) {
  std::unordered_set<int> s, t; std::unordered_multiset<int> ms, mt; std::unordered_map<short, char> mp, mq; int e[3]; char c[3];
  Msg<F> em[3], pm[3]; for (unsigned i = 0; i < n; i++) { e[i] = sym<short>("elem"); c[i] = sym<char>("val"); for (unsigned j = 0; j < i; j++) vf_assume(e[i] != e[j]); P<int>::put(em[i], e[i]); pm[i].num((std::uint64_t)e[i], 2); pm[i].num((std::uint64_t)c[i], 1); }
  for (unsigned i = 0; i < n; i++) { s.insert(e[i]); ms.insert(e[i]); mp.insert(std::pair<short const, char>((short)e[i], c[i])); }
  for (unsigned i = n; i-- > 0;) { t.insert(e[i]); mt.insert(e[i]); mq.insert(std::pair<short const, char>((short)e[i], c[i])); }
  Msg<F> x, y; expect(x, 7, em, n); expect(y, 7, pm, n);
  { Rec r(7); h2::hash_append(r, f, s); same(r, x, "unordered_set"); } { Rec r(7); h2::hash_append(r, f, t); same(r, x, "unordered_set, other order"); }
  { Rec r(7); h2::hash_append(r, f, ms); same(r, x, "unordered_multiset"); } { Rec r(7); h2::hash_append(r, f, mt); same(r, x, "unordered_multiset, other order"); }
  { Rec r(7); h2::hash_append(r, f, mp); same(r, y, "unordered_map"); } { Rec r(7); h2::hash_append(r, f, mq); same(r, y, "unordered_map, other order"); }
  vf_cover("std unordered containers");
}
#else
template <class F> static void stdc(F, unsigned) {}
#endif
template <class F> static void run(F f) {
  uint32_t t = vf_choose("kind", 0, 6), n = t < 5 ? vf_choose("count", 0, t == 4 ? 2 : VF_MAXN) : 0, pm = t < 4 && n > 1 ? vf_choose("order", 0, n >= 3 ? 5 : 1) : 0; vf_shard();
  switch (t) {
  case 0: bag<int>(f, n, pm); break; case 1: bag<unsigned char>(f, n, pm); break; case 2: bag<std::pair<short, char>>(f, n, pm); break; case 3: bag<std::string>(f, n, pm); break;
  case 4: stdc(f, n); break; case 5: dup(f); break; default: prior(f); }
}
void harness() { VF_FLAVORS(run); }
