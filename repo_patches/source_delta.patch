From 817f3fc402f2f288caab7ab4e730493ad2b5fc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 1/4] fix: hash_append_sized_range and
 hash_append_unordered_range feed elements as the iterator's value type

For iterators whose reference is not a reference to the value type (proxies,
converting input iterators) they fed the reference type instead, so the message
differed from hash_append_range followed by the size, as documented.
---
 include/boost/hash2/hash_append.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/hash2/hash_append.hpp b/include/boost/hash2/hash_append.hpp
index aacf57d..dcf5530 100644
--- a/include/boost/hash2/hash_append.hpp
+++ b/include/boost/hash2/hash_append.hpp
@@ -123,7 +123,8 @@ template<class Hash, class Flavor, class It> void BOOST_CXX14_CONSTEXPR hash_app
 
     for( ; first != last; ++first, ++m )
     {
-        hash2::hash_append( h, f, *first );
+        typename std::iterator_traits<It>::value_type const& v = *first;
+        hash2::hash_append( h, f, v );
     }
 
     hash2::hash_append_size( h, f, m );
@@ -152,8 +153,10 @@ template<class Hash, class Flavor = default_flavor, class It> BOOST_CXX14_CONSTE
 
     for( ; first != last; ++first, ++m )
     {
+        typename std::iterator_traits<It>::value_type const& v = *first;
+
         Hash h2( h );
-        hash2::hash_append( h2, f, *first );
+        hash2::hash_append( h2, f, v );
 
         w += hash2::get_integral_result<std::uint64_t>( h2.result() );
     }
-- 
2.43.0


From 1b795ea65f1cedaf9d3be5d0e2297dedd89e0e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:16 +0000
Subject: [PATCH 2/4] fix: SHA-2 update() with an empty range no longer passes
 its pointer to memcpy

update( nullptr, 0 ) with a partially filled buffer called memcpy with a null
pointer, which is undefined. The other algorithms already return early.
---
 include/boost/hash2/sha2.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/hash2/sha2.hpp b/include/boost/hash2/sha2.hpp
index 98493ed..b5455d7 100644
--- a/include/boost/hash2/sha2.hpp
+++ b/include/boost/hash2/sha2.hpp
@@ -51,9 +51,10 @@ struct sha2_base
 
     BOOST_CXX14_CONSTEXPR void update( unsigned char const* p, std::size_t n )
     {
-
         BOOST_ASSERT( m_ == n_ % N );
 
+        if( n == 0 ) return;
+
         n_ += n;
 
         if( m_ > 0 )
-- 
2.43.0


From de3280f9477e43507c17916996caed295388e999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:16 +0000
Subject: [PATCH 3/4] fix: avoid signed overflow in get_integral_result for 16
 bit results

A std::uint16_t result is promoted to int, so r * m overflowed for large values
when reducing it to an 8 bit type.
---
 include/boost/hash2/get_integral_result.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/hash2/get_integral_result.hpp b/include/boost/hash2/get_integral_result.hpp
index c6742f4..7ed1891 100644
--- a/include/boost/hash2/get_integral_result.hpp
+++ b/include/boost/hash2/get_integral_result.hpp
@@ -144,7 +144,7 @@ template<class T, class R>
 
     constexpr auto m = detail::get_result_multiplier<U, R>();
 
-    return static_cast<T>( static_cast<U>( ( r * m ) >> ( std::numeric_limits<R>::digits - std::numeric_limits<U>::digits ) ) );
+    return static_cast<T>( static_cast<U>( ( 1u * r * m ) >> ( std::numeric_limits<R>::digits - std::numeric_limits<U>::digits ) ) );
 }
 
 // identity or expansion
-- 
2.43.0


From 3e3f583ae2ac6d3815820e465dfcabd258fa52a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 4/4] fix: count xxhash_32, murmur3_128 and spooky2_128 lengths
 in 64 bits on 32 bit targets

The std::size_t counter wrapped after 4 GiB on 32 bit targets, which made the
results differ from those on 64 bit targets (and tripped an assertion in
spooky2_128, as 192 does not divide 2^32).
---
 include/boost/hash2/legacy/murmur3.hpp | 2 +-
 include/boost/hash2/legacy/spooky2.hpp | 4 ++--
 include/boost/hash2/xxhash.hpp         | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/hash2/legacy/murmur3.hpp b/include/boost/hash2/legacy/murmur3.hpp
index d04899a..34b0606 100644
--- a/include/boost/hash2/legacy/murmur3.hpp
+++ b/include/boost/hash2/legacy/murmur3.hpp
@@ -221,7 +221,7 @@ private:
     unsigned char buffer_[ 16 ];
     std::size_t m_; // == n_ % 16
 
-    std::size_t n_;
+    std::uint64_t n_;
 
 private:
 
diff --git a/include/boost/hash2/legacy/spooky2.hpp b/include/boost/hash2/legacy/spooky2.hpp
index 6d76c7f..949291d 100644
--- a/include/boost/hash2/legacy/spooky2.hpp
+++ b/include/boost/hash2/legacy/spooky2.hpp
@@ -37,7 +37,7 @@ private:
 
     std::size_t m_; // == n_ % N
 
-    std::size_t n_;
+    std::uint64_t n_;
 
 private:
 
@@ -339,7 +339,7 @@ public:
 
         if( n_ < N )
         {
-            short_hash( buffer_, n_, h0, h1 );
+            short_hash( buffer_, static_cast<std::size_t>( n_ ), h0, h1 );
         }
         else
         {
diff --git a/include/boost/hash2/xxhash.hpp b/include/boost/hash2/xxhash.hpp
index 263314c..08b2bb6 100644
--- a/include/boost/hash2/xxhash.hpp
+++ b/include/boost/hash2/xxhash.hpp
@@ -47,7 +47,7 @@ private:
     unsigned char buffer_[ 16 ] = {};
     std::size_t m_ = 0; // == n_ % 16
 
-    std::size_t n_ = 0;
+    std::uint64_t n_ = 0;
 
 private:
 
-- 
2.43.0

