From ba43930d1bc7b4af8d852f68a0fd8eb4e343bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:28 +0000
Subject: [PATCH 1/6] fix: do not destroy a transferred value twice if its copy
 throws

set() destroys the previous value and then constructs the new one. If that
construction throws, the flag still said that the slot holds a value, and the
destroyed value was destroyed again later.
---
 include/boost/coroutine2/detail/pull_control_block_cc.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/coroutine2/detail/pull_control_block_cc.ipp b/include/boost/coroutine2/detail/pull_control_block_cc.ipp
index f511e29..75052db 100644
--- a/include/boost/coroutine2/detail/pull_control_block_cc.ipp
+++ b/include/boost/coroutine2/detail/pull_control_block_cc.ipp
@@ -156,6 +156,8 @@ pull_coroutine< T >::control_block::set( T const& t) {
     // destroy data if set
     if ( bvalid) {
         reinterpret_cast< T * >( std::addressof( storage) )->~T();
+        // no data if the following construction throws
+        bvalid = false;
     }
     ::new ( static_cast< void * >( std::addressof( storage) ) ) T( t);
     bvalid = true;
@@ -167,6 +169,8 @@ pull_coroutine< T >::control_block::set( T && t) {
     // destroy data if set
     if ( bvalid) {
         reinterpret_cast< T * >( std::addressof( storage) )->~T();
+        // no data if the following construction throws
+        bvalid = false;
     }
     ::new ( static_cast< void * >( std::addressof( storage) ) ) T( std::move( t) );
     bvalid = true;
-- 
2.43.0


From 36cb0f28472c60c57f5e5789f03893127446a956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:28 +0000
Subject: [PATCH 2/6] fix: copy a callable passed as lvalue also in C++11

Without generic lambdas the callable is stored by wrapper, which moved from it
even if the user passed an lvalue, e.g. leaving a std::function empty.
---
 include/boost/coroutine2/detail/wrap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/coroutine2/detail/wrap.hpp b/include/boost/coroutine2/detail/wrap.hpp
index 9c32edf..bb0aef5 100644
--- a/include/boost/coroutine2/detail/wrap.hpp
+++ b/include/boost/coroutine2/detail/wrap.hpp
@@ -34,8 +34,8 @@ private:
 
 public:
     wrapper( Fn1 && fn1, Fn2 && fn2) :
-        fn1_( std::move( fn1) ),
-        fn2_( std::move( fn2) ) {
+        fn1_( std::forward< Fn1 >( fn1) ),
+        fn2_( std::forward< Fn2 >( fn2) ) {
     }
 
     wrapper( wrapper const&) = delete;
-- 
2.43.0


From 048b92b2c5eb01fff2592091213a8bc40f0058c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:28 +0000
Subject: [PATCH 3/6] fix: do not leak the stack if copying the callable throws

The callable was copied into the context function after the stack had been
allocated but before anything owned that stack.
---
 include/boost/coroutine2/detail/create_control_block.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/coroutine2/detail/create_control_block.ipp b/include/boost/coroutine2/detail/create_control_block.ipp
index 127ea84..d6b6215 100644
--- a/include/boost/coroutine2/detail/create_control_block.ipp
+++ b/include/boost/coroutine2/detail/create_control_block.ipp
@@ -18,6 +18,7 @@
 #include <boost/context/stack_context.hpp>
 
 #include <boost/coroutine2/detail/config.hpp>
+#include <boost/coroutine2/detail/decay_copy.hpp>
 
 #ifdef BOOST_HAS_ABI_HEADERS
 #  include BOOST_ABI_PREFIX
@@ -29,6 +30,8 @@ namespace detail {
 
 template< typename ControlBlock, typename StackAllocator, typename Fn >
 ControlBlock * create_control_block( StackAllocator && salloc, Fn && fn) {
+    // copying fn might throw: do it before the stack is allocated
+    auto fn_ = detail::decay_copy( std::forward< Fn >( fn) );
     auto sctx = salloc.allocate();
     // reserve space for control structure
 #if defined(BOOST_NO_CXX11_CONSTEXPR) || defined(BOOST_NO_CXX11_STD_ALIGN)
@@ -48,7 +51,7 @@ ControlBlock * create_control_block( StackAllocator && salloc, Fn && fn) {
 #endif
     // placment new for control structure on coroutine stack
     return new ( sp) ControlBlock{ context::preallocated( sp, size, sctx),
-                                   std::forward< StackAllocator >( salloc), std::forward< Fn >( fn) };
+                                   std::forward< StackAllocator >( salloc), std::move( fn_) };
 }
 
 }}}
-- 
2.43.0


From 2f1b563211adaac3f6a5f826eb145195ac09a66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:28 +0000
Subject: [PATCH 4/6] fix: align the control block for over-aligned value types

The control block of pull_coroutine< T > contains the value of type T, but was
aligned to 64 bytes only.
---
 include/boost/coroutine2/detail/create_control_block.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/coroutine2/detail/create_control_block.ipp b/include/boost/coroutine2/detail/create_control_block.ipp
index d6b6215..2ef87f5 100644
--- a/include/boost/coroutine2/detail/create_control_block.ipp
+++ b/include/boost/coroutine2/detail/create_control_block.ipp
@@ -38,7 +38,7 @@ ControlBlock * create_control_block( StackAllocator && salloc, Fn && fn) {
     void * sp = static_cast< char * >( sctx.sp) - sizeof( ControlBlock);
     const std::size_t size = sctx.size - sizeof( ControlBlock);
 #else
-    constexpr std::size_t func_alignment = 64; // alignof( ControlBlock);
+    constexpr std::size_t func_alignment = alignof( ControlBlock) < 64 ? 64 : alignof( ControlBlock);
     constexpr std::size_t func_size = sizeof( ControlBlock);
     // reserve space on stack
     void * sp = static_cast< char * >( sctx.sp) - func_size - func_alignment;
-- 
2.43.0


From 333e3fad8de1acd5a3b96771158a7651d166a30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:28 +0000
Subject: [PATCH 5/6] fix: begin() of a complete push_coroutine compares equal
 to end()

As documented; assigning through the iterator resumed a complete coroutine.
---
 include/boost/coroutine2/detail/push_coroutine.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/coroutine2/detail/push_coroutine.hpp b/include/boost/coroutine2/detail/push_coroutine.hpp
index 4b5ba5c..c38c2f2 100644
--- a/include/boost/coroutine2/detail/push_coroutine.hpp
+++ b/include/boost/coroutine2/detail/push_coroutine.hpp
@@ -81,6 +81,10 @@ public:
 
         explicit iterator( push_coroutine< T > * c) noexcept :
             c_{ c } {
+            BOOST_ASSERT( nullptr != c_);
+            if ( ! ( * c_) ) {
+                c_ = nullptr;
+            }
         }
 
         iterator & operator=( T t) {
@@ -164,6 +168,10 @@ public:
 
         explicit iterator( push_coroutine< T & > * c) noexcept :
             c_{ c } {
+            BOOST_ASSERT( nullptr != c_);
+            if ( ! ( * c_) ) {
+                c_ = nullptr;
+            }
         }
 
         iterator & operator=( T & t) {
-- 
2.43.0


From 7bf157681ae5ac85e938208d354d8fb92dedf40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:28 +0000
Subject: [PATCH 6/6] fix: move assignment destroys the previous coroutine of
 the target

The documentation says that the internal data of *this is destroyed and that
other becomes not-a-coroutine; instead both handles were swapped.
---
 include/boost/coroutine2/detail/pull_coroutine.hpp | 9 ++++++---
 include/boost/coroutine2/detail/push_coroutine.hpp | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/boost/coroutine2/detail/pull_coroutine.hpp b/include/boost/coroutine2/detail/pull_coroutine.hpp
index 767a388..89ec5b0 100644
--- a/include/boost/coroutine2/detail/pull_coroutine.hpp
+++ b/include/boost/coroutine2/detail/pull_coroutine.hpp
@@ -55,7 +55,8 @@ public:
     pull_coroutine( pull_coroutine &&) noexcept;
 
     pull_coroutine & operator=( pull_coroutine && other) noexcept {
-        std::swap( cb_, other.cb_);
+        pull_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -166,7 +167,8 @@ public:
     pull_coroutine( pull_coroutine &&) noexcept;
 
     pull_coroutine & operator=( pull_coroutine && other) noexcept {
-        std::swap( cb_, other.cb_);
+        pull_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -275,7 +277,8 @@ public:
     pull_coroutine( pull_coroutine &&) noexcept;
 
     pull_coroutine & operator=( pull_coroutine && other) noexcept {
-        std::swap( cb_, other.cb_);
+        pull_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
diff --git a/include/boost/coroutine2/detail/push_coroutine.hpp b/include/boost/coroutine2/detail/push_coroutine.hpp
index c38c2f2..82cbc49 100644
--- a/include/boost/coroutine2/detail/push_coroutine.hpp
+++ b/include/boost/coroutine2/detail/push_coroutine.hpp
@@ -54,7 +54,8 @@ public:
 
     push_coroutine & operator=( push_coroutine && other) noexcept {
         if ( this == & other) return * this;
-        std::swap( cb_, other.cb_);
+        push_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -143,7 +144,8 @@ public:
 
     push_coroutine & operator=( push_coroutine && other) noexcept {
         if ( this == & other) return * this;
-        std::swap( cb_, other.cb_);
+        push_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -230,7 +232,8 @@ public:
 
     push_coroutine & operator=( push_coroutine && other) noexcept {
         if ( this == & other) return * this;
-        std::swap( cb_, other.cb_);
+        push_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
-- 
2.43.0

