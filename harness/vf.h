// Harness interface. The functions are interpreted by engine/symex and, for replays and
// co-simulation, implemented natively by vf_native.cpp.
#pragma once
#include <cstddef>
#if defined(_GLIBCXX_EXTERN_TEMPLATE) // the templates' definitions, not the instances in libstdc++.so
# undef _GLIBCXX_EXTERN_TEMPLATE
# define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
#include <cstdint>
#include <cstring>
#include <cstdlib>
extern "C" {
void vf_symbolic(void *p, size_t n, const char *name);          // n fresh symbolic bytes
uint32_t vf_choose(const char *name, uint32_t lo, uint32_t hi);  // every value lo..hi (one path each)
void vf_shard(void);                                             // the choices so far pick the worker
void vf_assume(bool c);
void vf_assert(bool c, const char *label);
uint32_t vf_valid(const char *name, bool c);                     // 1 if c holds for all remaining inputs (decided by the solver)
void vf_assert_eq(const void *a, const void *b, size_t n, const char *label);
void vf_assert_distinct(const void *a, const void *b, size_t n, const char *label);
void vf_assert_noleak(const void *obj, size_t n, const void *in, size_t m, const char *label);
void vf_assert_defined(const void *p, size_t n, const char *label);
void vf_cover(const char *label);
void vf_out(const void *p, size_t n);                            // observed value (co-simulation)
void *vf_alloc(size_t n, size_t misalign);                       // exactly n bytes, base = 64 k + misalign
uint32_t vf_is_engine(void);
uint64_t vf_fork_value(uint64_t v);
void harness(void);
}
// headers the library uses, before the constant-evaluation switch below
#include <boost/config.hpp>
#include <boost/assert.hpp>
#include <boost/container_hash/is_range.hpp>
#include <boost/container_hash/is_contiguous_range.hpp>
#include <boost/container_hash/is_unordered_range.hpp>
#include <boost/container_hash/is_described_class.hpp>
#include <boost/container_hash/is_tuple_like.hpp>
#include <boost/describe/bases.hpp>
#include <boost/describe/members.hpp>
#include <boost/mp11/algorithm.hpp>
#include <boost/mp11/integer_sequence.hpp>
#include <algorithm>
#include <array>
#include <cmath>
#include <iosfwd>
#include <iterator>
#include <limits>
#include <list>
#include <memory>
#include <ostream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#if defined(VF_CX)
// Treat every call as a constant evaluation: the library then takes the code paths that
// the compiler interprets at compile time.
# define __builtin_is_constant_evaluated() true
#endif
#if defined(BOOST_ENABLE_ASSERT_HANDLER)
namespace boost {
inline void assertion_failed(char const *, char const *, char const *, long) { vf_assert(false, "library assertion"); abort(); }
inline void assertion_failed_msg(char const *, char const *, char const *, char const *, long) { vf_assert(false, "library assertion"); abort(); }
}
#endif
// message buffers are limited by this
#ifndef VF_MAXBUF
# define VF_MAXBUF 1024
#endif
static inline unsigned char *vf_bytes(size_t n, const char *name, size_t mis = 0) {
  unsigned char *p = (unsigned char *)vf_alloc(n, mis); vf_symbolic(p, n, name); return p;
}
static inline uint64_t vf_u64(const char *name) { uint64_t v; vf_symbolic(&v, 8, name); return v; }
static inline uint32_t vf_u32(const char *name) { uint32_t v; vf_symbolic(&v, 4, name); return v; }
template <unsigned N> static inline uint32_t vf_pick(const char *name, const uint32_t (&a)[N]) { return a[vf_choose(name, 0, N - 1)]; }
