// C20, C21, C24 for containers too large to enumerate every count: where a count or a byte total
// kept in too few bits would show. All elements are symbolic; the count is one of a list.
#define VF_CAP 140000
#include "rec.h"
#include "stdstubs.h"
#include <deque>
#include <forward_list>
#include <list>
#include <set>
#include <string>
#include <vector>
#include <array>
#include <unordered_set>
#if __cplusplus >= 202002L
#include <span>
#endif
#include <boost/array.hpp>
template <class T, class Cat> struct It {
  typedef Cat iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T const *pointer; typedef T const &reference;
  T const *p;
  T const &operator*() const { return *p; } It &operator++() { ++p; return *this; } It operator++(int) { It r = *this; ++p; return r; } It &operator--() { --p; return *this; } It operator--(int) { It r = *this; --p; return r; }
  It &operator+=(difference_type n) { p += n; return *this; } It operator+(difference_type n) const { return It{p + n}; } It operator-(difference_type n) const { return It{p - n}; } difference_type operator-(It o) const { return p - o.p; } T const &operator[](difference_type n) const { return p[n]; }
  bool operator==(It const &o) const { return p == o.p; } bool operator!=(It const &o) const { return p != o.p; } bool operator<(It const &o) const { return p < o.p; }
};
template <class T> struct Box { typedef T value_type; typedef T const *iterator; typedef T const *const_iterator; typedef std::size_t size_type; T const *d; std::size_t k; T const *begin() const { return d; } T const *end() const { return d + k; } T const *data() const { return d; } std::size_t size() const { return k; } };
template <class T, class Cat> struct Seq { typedef T value_type; typedef It<T, Cat> iterator; typedef It<T, Cat> const_iterator; T const *d; std::size_t k; iterator begin() const { return iterator{d}; } iterator end() const { return iterator{d + k}; } };
template <class T> struct Bag { typedef T value_type; typedef T key_type; typedef It<T, std::forward_iterator_tag> iterator; typedef iterator const_iterator; typedef std::hash<int> hasher; typedef std::equal_to<T> key_equal; T const *d; std::size_t k; iterator begin() const { return iterator{d}; } iterator end() const { return iterator{d + k}; } std::size_t size() const { return k; } };
// a small hash for the unordered form: the state is a number, so many copies are cheap
struct Acc { typedef std::uint64_t result_type; std::uint64_t s; unsigned n = 0; explicit Acc(std::uint64_t x = 0) : s(x) { }
  void update(void const *p, std::size_t k) { unsigned char const *q = (unsigned char const *)p; for (std::size_t i = 0; i < k; i++) s = s * 257 + q[i]; n += (unsigned)k; } void update(unsigned char const *p, std::size_t k) { update((void const *)p, k); }
  result_type result() { return s; } };
template <class F, class C> static void cont(F f, C const &c, Msg<F> const &m, const char *l) { static Rec r; r.n = 0; r.calls = 0; h2::hash_append(r, f, c); vf_assert(r.n == m.n, l); if (r.n == m.n) vf_assert_eq(r.b, m.b, m.n, l); vf_out(r.b, 64); }
template <class F, class I> static void sized(F f, I a, I b, Msg<F> const &m, const char *l) { static Rec r; r.n = 0; r.calls = 0; h2::hash_append_sized_range(r, f, a, b); vf_assert(r.n == m.n, l); if (r.n == m.n) vf_assert_eq(r.b, m.b, m.n, l); }
template <class T, class F> static void all(F f, unsigned what, unsigned n) {
  T *e = (T *)vf_alloc(n * sizeof(T), 0); vf_symbolic(e, n * sizeof(T), "elems"); static Msg<F> m; m.n = 0; for (unsigned i = 0; i < n; i++) m.num(val(e[i]), sizeof(T)); m.size(n); static Msg<F> fx; fx.n = 0;
  switch (what) {
  case 0: cont(f, Box<T>{e, n}, m, "contiguous container"); vf_cover("contiguous"); break;
  case 1: cont(f, Seq<T, std::input_iterator_tag>{e, n}, m, "input container"); sized(f, (T const *)e, (T const *)e + n, m, "pointers"); vf_cover("input"); break;
  case 2: cont(f, Seq<T, std::random_access_iterator_tag>{e, n}, m, "random access container"); { typedef It<T, std::bidirectional_iterator_tag> I; sized(f, I{e}, I{e + n}, m, "bidirectional"); } vf_cover("random access"); break;
  case 3: { if (n > 1000) return; std::vector<T> v(e, e + n); cont(f, v, m, "vector"); std::list<T> l(e, e + n); cont(f, l, m, "list"); vf_cover("vector, list"); break; }
  case 4: { if (n > 1000) return; std::forward_list<T> v(e, e + n); cont(f, v, m, "forward_list"); std::deque<T> d; for (unsigned i = 0; i < n; i++) d.push_back(e[i]); cont(f, d, m, "deque"); vf_cover("forward_list, deque"); break; }
  case 5: { if (n > 300) return; std::array<T, 300> a; T c[300]; for (unsigned i = 0; i < 300; i++) { a[i] = c[i] = i < n ? e[i] : (T)0; fx.num(val(a[i]), sizeof(T)); } cont(f, a, fx, "std::array"); cont(f, c, fx, "C array"); T d2[3][100]; memcpy(d2, c, sizeof c); cont(f, d2, fx, "two dimensional array"); { static Rec r; r.n = 0; h2::hash_append_range(r, f, d2, d2 + 3); vf_assert(r.n == fx.n, "range of arrays"); if (r.n == fx.n) vf_assert_eq(r.b, fx.b, fx.n, "range of arrays"); }
    std::vector<std::array<T, 2>> va(2); va[0] = {{e[0], e[1]}}; va[1] = {{e[2], e[3]}}; Msg<F> *mv = new Msg<F>; for (int i = 0; i < 4; i++) mv->num(val(e[i]), sizeof(T)); mv->size(2); cont(f, va, *mv, "vector of arrays"); std::vector<std::pair<T, T>> vp(2); vp[0] = {e[0], e[1]}; vp[1] = {e[2], e[3]}; cont(f, vp, *mv, "vector of pairs"); vf_cover("fixed size"); break; }
  case 6: {
#if __cplusplus >= 202002L
    std::span<T const> s(e, n); cont(f, s, m, "span"); sized(f, s.begin(), s.end(), m, "span iterators"); fx.n = 0; for (unsigned i = 0; i < 5; i++) fx.num(val(e[i]), sizeof(T)); fx.size(5); vf_cover("span");
#endif
    break; }
  case 7: { if (n > 300) return; Acc a(5), b(5); h2::hash_append(a, f, Bag<T>{e, n}); std::uint64_t w = 0; for (unsigned i = 0; i < n; i++) { Acc x(5); Msg<F> *q = new Msg<F>; q->num(val(e[i]), sizeof(T)); x.update((void const *)q->b, q->n); w += x.s; delete q; } Msg<F> *q = new Msg<F>; q->num(w, 8); q->size(n); b.update((void const *)q->b, q->n); vf_out(&a.s, 8); vf_assert(a.n == b.n, "unordered: length"); vf_assert(a.s == b.s, "unordered: sum of the element hashes, then the count"); vf_cover("unordered"); break; }
  default: { if (n > 300 || sizeof(T) != 1) return; std::vector<bool> v; static Msg<F> bm; bm.n = 0; for (unsigned i = 0; i < n; i++) { bool x = (i * 7 + i / 8) % 3 == 0; v.push_back(x); bm.num(x, 1); } bm.size(n); cont(f, v, bm, "vector<bool>"); std::vector<std::vector<unsigned char>> vv(n); static Msg<F> nm; nm.n = 0; for (unsigned i = 0; i < n; i++) { vv[i].push_back((unsigned char)e[i]); nm.num((unsigned char)e[i], 1); nm.size(1); } nm.size(n); cont(f, vv, nm, "vector of vectors"); vf_cover("vector<bool>, nested"); }
  }
}
template <class F> static void run(F f) {
  const uint32_t ns[] = {127, 128, 255, 256, 257, 300, 32768, 65536, 65537};
  
#ifndef VF_FORM
# define VF_FORM 0, 8
#endif
  uint32_t w = vf_choose("form", VF_FORM), t = vf_choose("element", 0, 1), n = vf_pick("count", ns); if (n > 300 && ((w > 2 && w != 6) || t != (n == 32768))) return; vf_shard();
  if (t) all<std::uint16_t>(f, w, n); else all<unsigned char>(f, w, n);
}
void harness() { VF_FLAVORS(run); }
