// C18, C19 (and C24 for scalars): hash_append of scalars feeds exactly their value.
#include "rec.h"
enum E0 { e0a, e0b = 7 };
enum E1 : signed char { e1a = -1 };
enum class E2 : std::uint16_t { a = 1 };
enum class E3 : std::int64_t { a = -5 };
enum class E4 : bool { f, t };
enum class E5 : char32_t { a };
enum class E6 { a };
enum class Byte : unsigned char {};
template <class T, class F> static void store(T v, F) { // the contiguous shortcut: same bytes as the object
  if (h2::is_contiguously_hashable<T, F::byte_order>::value) { Msg<F> m; m.num(val(v), sizeof(T)); vf_assert_eq(&v, m.b, sizeof(T), "contiguously hashable: the object representation is the message"); vf_cover("contiguous"); }
}
template <class T, class F> static void num(F f, T v) {
  Rec r; Msg<F> m; h2::hash_append(r, f, v); m.num(val(v), sizeof(T)); same(r, m, "scalar is fed as its value"); store(v, f);
  T const &cv = v; T a[2] = {cv, cv}; T const ca[2] = {v, v};
  Rec r2; Msg<F> m2; h2::hash_append(r2, f, a); h2::hash_append(r2, f, ca); h2::hash_append(r2, f, *&cv); for (int i = 0; i < 5; i++) m2.num(val(v), sizeof(T)); same(r2, m2, "arrays of scalars");
  Rec r3; Msg<F> m3; h2::hash_append(r3, {}, v); Msg<h2::default_flavor> m4; m4.num(val(v), sizeof(T)); same(r3, m4, "the default flavor is used when none is given");
  Rec r5; Msg<F> m5; typedef typename std::conditional<std::is_enum<T>::value, int, T>::type I; h2::hash_append_size(r5, f, (I)v); m5.size((std::uint64_t)(I)v); same(r5, m5, "hash_append_size feeds the size type");
}
template <class T, class F> static void ptr(F f) {
  std::uintptr_t u = sym<std::uintptr_t>("value"); T p = (T)u; Rec r; Msg<F> m;
  h2::hash_append(r, f, p); m.num(u, sizeof(void *)); same(r, m, "pointer is fed as its address");
  Rec r2; T a[2] = {p, p}; Msg<F> m2; h2::hash_append(r2, f, a); m2.num(u, sizeof(void *)); m2.num(u, sizeof(void *)); same(r2, m2, "array of pointers");
}
template <class F> static void flt(F f) {
  std::uint32_t u = sym<std::uint32_t>("bits"), w = sym<std::uint32_t>("bits2"); float x, y; memcpy(&x, &u, 4); memcpy(&y, &w, 4);
  vf_assume((u & 0x7fffffffu) <= 0x7f800000u); vf_assume((w & 0x7fffffffu) <= 0x7f800000u);
  Rec r; Msg<F> m; h2::hash_append(r, f, x); m.f32(u); same(r, m, "float is fed as its bits, zero without a sign");
  Rec q; h2::hash_append(q, f, y); bool eq = memcmp(r.b, q.b, 4) == 0;
  vf_assert(eq == (x == y), "float bytes are equal exactly when the values are"); vf_cover("float");
  float a[2] = {x, y}; Rec r2; Msg<F> m2; h2::hash_append(r2, f, a); m2.f32(u); m2.f32(w); same(r2, m2, "array of float");
  vf_assert(!h2::is_contiguously_hashable<float, F::byte_order>::value, "float is not contiguously hashable");
}
template <class F> static void dbl(F f) {
  std::uint64_t u = sym<std::uint64_t>("bits"), w = sym<std::uint64_t>("bits2"); double x, y; memcpy(&x, &u, 8); memcpy(&y, &w, 8);
  vf_assume((u & ~(1ull << 63)) <= 0x7ff0000000000000ull); vf_assume((w & ~(1ull << 63)) <= 0x7ff0000000000000ull);
  Rec r; Msg<F> m; h2::hash_append(r, f, x); m.f64(u); same(r, m, "double is fed as its bits, zero without a sign");
  Rec q; h2::hash_append(q, f, y); bool eq = memcmp(r.b, q.b, 8) == 0;
  vf_assert(eq == (x == y), "double bytes are equal exactly when the values are"); vf_cover("double");
  double a[2] = {x, y}; Rec r2; Msg<F> m2; h2::hash_append(r2, f, a); m2.f64(u); m2.f64(w); same(r2, m2, "array of double");
  vf_assert(!h2::is_contiguously_hashable<double, F::byte_order>::value, "double is not contiguously hashable");
}
#if VF_PART == 19
template <class F> static void run(F f) { uint32_t t = vf_choose("type", 0, 1); vf_shard(); if (t) dbl(f); else flt(f); }
#else
template <class F> static void run(F f) {
  uint32_t t = vf_choose("type", 0, 30); vf_shard();
  switch (t) {
  case 0: num(f, sym<bool>("value")); break;
  case 1: num(f, sym<char>("value")); break;
  case 2: num(f, sym<signed char>("value")); break;
  case 3: num(f, sym<unsigned char>("value")); break;
  case 4: num(f, sym<short>("value")); break;
  case 5: num(f, sym<unsigned short>("value")); break;
  case 6: num(f, sym<int>("value")); break;
  case 7: num(f, sym<unsigned>("value")); break;
  case 8: num(f, sym<long>("value")); break;
  case 9: num(f, sym<unsigned long>("value")); break;
  case 10: num(f, sym<long long>("value")); break;
  case 11: num(f, sym<unsigned long long>("value")); break;
  case 12: num(f, sym<wchar_t>("value")); break;
  case 13: num(f, sym<char16_t>("value")); break;
  case 14: num(f, sym<char32_t>("value")); break;
#if __cpp_char8_t
  case 15: num(f, sym<char8_t>("value")); break;
#endif
  case 16: num(f, (E0)(sym<unsigned char>("value") & 7)); break;
  case 17: num(f, sym<E1>("value")); break;
  case 18: num(f, sym<E2>("value")); break;
  case 19: num(f, sym<E3>("value")); break;
  case 20: num(f, (E4)sym<bool>("value")); break;
  case 21: num(f, sym<E5>("value")); break;
  case 22: num(f, sym<E6>("value")); break;
  case 23: num(f, sym<Byte>("value")); break;
  case 24: ptr<void *>(f); break;
  case 25: ptr<int const *>(f); break;
  case 26: ptr<unsigned char *>(f); break;
  case 27: ptr<void (*)(int)>(f); break;
  case 28: ptr<char **>(f); break;
  case 29: { Rec r; Msg<F> m; h2::hash_append(r, f, nullptr); m.num(0, sizeof(void *)); same(r, m, "nullptr is fed as a null pointer"); 
    std::nullptr_t a[3]; vf_symbolic(a, sizeof a, "representation"); h2::hash_append(r, f, a[0]); h2::hash_append(r, f, a); for (int i = 0; i < 4; i++) m.num(0, sizeof(void *)); same(r, m, "a null pointer constant is fed as its value, whatever its bytes"); vf_cover("nullptr"); break; }
  default: { Rec r; Msg<F> m; std::size_t k = sym<std::size_t>("value"); std::ptrdiff_t d = sym<std::ptrdiff_t>("diff"); h2::hash_append(r, f, k); h2::hash_append(r, f, d); m.num(k, sizeof k); m.num((std::uint64_t)d, sizeof d); same(r, m, "sizes"); }
  }
  vf_cover("end");
}
#endif
void harness() { VF_FLAVORS(run); }
