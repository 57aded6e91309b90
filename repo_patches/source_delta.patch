From 78c68bb2a81b9ca8fbcf2efd9bbcbb1cc69ca1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:15 +0000
Subject: [PATCH 01/41] fix: static_vector: no overflow in the capacity check
 of insert with a huge count

---
 include/itlib/static_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index bf36868..f982327 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -622,7 +622,7 @@ private:
     }
 
     T* grow_at(const T* cp, size_t by) {
-        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(size() + by > Capacity);
+        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(by > Capacity - size());
         I_ITLIB_STATIC_VECTOR_BOUNDS_CHECK_ITER(cp);
 
         auto position = const_cast<T*>(cp);
-- 
2.43.0


From 2ee531be120db4b2a23a1e4aab1680f7170168fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:15 +0000
Subject: [PATCH 02/41] fix: static_vector: erasing an empty range must not
 touch the elements

---
 include/itlib/static_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index f982327..a532ab2 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -644,6 +644,7 @@ private:
         I_ITLIB_STATIC_VECTOR_BOUNDS_CHECK_ITER(cp);
 
         auto position = const_cast<T*>(cp);
+        if (num == 0) return position;
 
         const auto s = size();
         if (s - num == 0)
-- 
2.43.0


From 12ea5b018245a33770f41c48e8ab5bf26f3d6a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 03/41] fix: small_vector: inserting or erasing an empty range
 must not touch the elements

---
 include/itlib/small_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 30992db..7d3af4b 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -762,6 +762,8 @@ private:
 
         I_ITLIB_SMALL_VECTOR_OUT_OF_RANGE_IF(position < m_begin || position > m_end);
 
+        if (num == 0) return position;
+
         const auto s = size();
         const auto cdr = choose_data(s + num);
 
@@ -825,6 +827,8 @@ private:
 
         I_ITLIB_SMALL_VECTOR_OUT_OF_RANGE_IF(position < m_begin || position > m_end || position + num > m_end);
 
+        if (num == 0) return position;
+
         const auto s = size();
         if (s - num == 0)
         {
-- 
2.43.0


From 5357813d037dbb2709c670cab6da05a5ae5a0602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 04/41] fix: small_vector: shrink_to_fit and revert_to_static
 go back to the static buffer when the elements exactly fit

---
 include/itlib/small_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 7d3af4b..bbd0480 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -512,14 +512,14 @@ public:
     {
         const auto s = size();
 
-        if (s == m_capacity) return false; // we're at max
         if (is_static()) return false; // can't shrink static buf
+        if (s == m_capacity && s > StaticCapacity) return false; // we're at max
 
         auto old_begin = m_begin;
         auto old_end = m_end;
         auto old_cap = m_capacity;
 
-        if (s < StaticCapacity)
+        if (s <= StaticCapacity)
         {
             // revert to static capacity
             m_begin = m_end = static_begin_ptr();
-- 
2.43.0


From 7e9647d721c97095c1b07a2112760b722a84b11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 05/41] fix: pod_vector::resize(n, val): fill only the new
 elements

---
 include/itlib/pod_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index bfe8674..ae79e97 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -607,7 +607,7 @@ public:
     bool resize(size_type n, const value_type& val)
     {
         bool ret = reserve(n);
-        fill(m_end, n, val);
+        if (n > size()) fill(m_end, n - size(), val);
         m_end = m_begin + n;
         return ret;
     }
-- 
2.43.0


From e1150179b8bdd1e04c7ec2eb26c0b8abb7033ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 06/41] fix: pod_vector::recast_take_from: don't take a buffer
 which was manually aligned for another alignment

---
 include/itlib/pod_vector.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index ae79e97..85ae2e1 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -270,6 +270,19 @@ public:
 
         a_free_begin();
 
+        if (!allocator_aligned() && alignof(T) != alignof(U))
+        {
+            // the buffer was aligned by us, but for the alignment of U: it can't be taken, only copied
+            m_begin = m_end = nullptr;
+            m_capacity = 0;
+            get_alloc() = other.get_alloc();
+            recast_copy_from(other);
+            other.a_free_begin();
+            other.m_begin = other.m_end = nullptr;
+            other.m_capacity = 0;
+            return;
+        }
+
         auto new_size = other.byte_size() / sizeof(T);
         auto cast = reinterpret_cast<T*>(other.data());
         m_begin = cast;
-- 
2.43.0


From d0701e5b13721428eb3b7440a5fde439cd61f334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:47 +0000
Subject: [PATCH 07/41] fix: pod_vector::recast_copy_from: don't access bytes
 through a pointer which may be misaligned for T

---
 include/itlib/pod_vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index 85ae2e1..942b233 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -259,8 +259,10 @@ public:
     {
         clear();
         auto new_size = other.byte_size() / sizeof(T);
-        auto cast = reinterpret_cast<const T*>(other.data());
-        assign_copy(cast, cast + new_size);
+        safe_grow(new_size);
+        // other's data may not be aligned for T, so don't refer to it through a T*
+        if (new_size) std::memcpy(m_begin, other.data(), e2b(new_size));
+        m_end = m_begin + new_size;
     }
 
     template <typename U, typename UAlloc>
-- 
2.43.0


From 966d5ca2a1d8c6ec02137219fb8aa9670b856a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:04 +0000
Subject: [PATCH 08/41] fix: dynamic_bitset::all() with words smaller than int

---
 include/itlib/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index ee84748..c915ea4 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -199,7 +199,7 @@ public:
         auto endit = it + m_size / bits_per_word;
         for (; it != endit; ++it)
         {
-            if (*it != ~word_type(0)) return false;
+            if (*it != word_type(~word_type(0))) return false;
         }
         if (endit != m_buf.end())
         {
-- 
2.43.0


From c752956055f628581d8c40122a2dd6d094e017c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:04 +0000
Subject: [PATCH 09/41] fix: dynamic_bitset::copy when the last bits span two
 source words

---
 include/itlib/dynamic_bitset.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index c915ea4..4829f22 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -400,7 +400,13 @@ public:
 
         // now what remains is some bits from source that need to be splicet onto our last element
         const auto rpad = to.index % bits_per_word;
-        m_buf[own_windex] = ((src[src_windex] >> pad) & (word_mask(rpad) - 1)) | (m_buf[own_windex] & ~(word_mask(rpad) - 1));
+        word_type rword = src[src_windex] >> pad;
+        if (pad + rpad > bits_per_word)
+        {
+            // the remaining bits span two words of the source
+            rword |= src[src_windex + 1] << (bits_per_word - pad);
+        }
+        m_buf[own_windex] = (rword & (word_mask(rpad) - 1)) | (m_buf[own_windex] & ~(word_mask(rpad) - 1));
     }
 
     // static ops
-- 
2.43.0


From adb75ba7047c439634733a23290462c32e0a10e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:04 +0000
Subject: [PATCH 10/41] fix: dynamic_bitset::resize keeps its size when the
 buffer can't be resized

---
 include/itlib/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index 4829f22..33fec39 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -260,8 +260,8 @@ public:
             // clear the tail of the buf with zeroes in case they remain from previous ops
             m_buf.back() &= word_mask(pad) - 1;
         }
-        m_size = size;
         m_buf.resize(word_size(size));
+        m_size = size;
     }
     void push_back(bool b)
     {
-- 
2.43.0


From 8e6daa3708b77ed1a0c70d21db4e58fb2fccbad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:04 +0000
Subject: [PATCH 11/41] fix: dynamic_bitset::word_size overflow

---
 include/itlib/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index 33fec39..bb58bcc 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -414,7 +414,7 @@ public:
     // required word size for a given bit size
     static constexpr buffer_size_type word_size(size_type size) noexcept
     {
-        return (size + bits_per_word - 1) / bits_per_word;
+        return size / bits_per_word + (size % bits_per_word != 0);
     }
     // index of a word in buffer for a given bit index
     static constexpr buffer_size_type word_index(size_type i) noexcept
-- 
2.43.0


From 1acc9f76d0ba7f6a9cd112d965153a06da945956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:04 +0000
Subject: [PATCH 12/41] fix: dynamic_bitset::append of itself

---
 include/itlib/dynamic_bitset.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index bb58bcc..a900821 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -278,6 +278,7 @@ public:
     void append(const dynamic_bitset& other)
     {
         if (other.empty()) return;
+        if (this == &other) return append(dynamic_bitset(other)); // our buffer will change while appending
 
         const auto pad = m_size % bits_per_word;
         if (pad == 0)
-- 
2.43.0


From c6e66582515e8aca715d0e3d868c1a40c378f28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:24 +0000
Subject: [PATCH 13/41] fix: expected: constructing from an unexpected lvalue
 must not move from it

---
 include/itlib/expected.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index 3685445..beffe5e 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -183,7 +183,7 @@ public:
     expected(T&& t) : m_value(std::forward<T>(t)), m_has_value(true) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_error(std::move(u.m_error)), m_has_value(false) {}
+    expected(unexpected_t<E2>&& u) : m_error(std::forward<E2>(u.m_error)), m_has_value(false) {}
 
     expected(unexpected_t<void>) : m_error(), m_has_value(false) {}
 
@@ -316,7 +316,7 @@ public:
     expected(T& t) : m_value(&t) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_value(nullptr), m_error(std::move(u.m_error)) {}
+    expected(unexpected_t<E2>&& u) : m_value(nullptr), m_error(std::forward<E2>(u.m_error)) {}
 
     expected(unexpected_t<void>) : m_value(nullptr), m_error() {}
 
@@ -416,7 +416,7 @@ public:
     expected() : m_has_value(true) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_error(std::move(u.m_error)), m_has_value(false) {}
+    expected(unexpected_t<E2>&& u) : m_error(std::forward<E2>(u.m_error)), m_has_value(false) {}
 
     expected(unexpected_t<void>) : m_error(), m_has_value(false) {}
 
-- 
2.43.0


From 0626c199a655b5635f837f5b3a6380011543fbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:24 +0000
Subject: [PATCH 14/41] fix: expected<void, E>: assignment between values must
 not assign the error which does not exist

---
 include/itlib/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index beffe5e..c9b3980 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -446,7 +446,7 @@ public:
             m_has_value = true;
             m_error.~E();
         }
-        else
+        else if (!m_has_value)
         {
             m_error = std::move(other.m_error);
         }
-- 
2.43.0


From 2164a83748602e7649263f3bfe0518cb3c253916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:24 +0000
Subject: [PATCH 15/41] fix: expected<T, void>: no value is held if copying the
 assigned one throws

---
 include/itlib/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index c9b3980..2e6bb0d 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -528,8 +528,8 @@ public:
         }
         else if (!m_has_value && other.has_value())
         {
-            m_has_value = true;
             ::new (&m_value) T(other.m_value);
+            m_has_value = true;
         }
         return *this;
     }
-- 
2.43.0


From 3802e0dcb95c1d339628b623c76f9c97cf4798b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:12 +0000
Subject: [PATCH 16/41] fix: any: store a copy and not a reference when
 constructed or assigned from an lvalue

---
 include/itlib/any.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 90994d3..41761ec 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -173,15 +173,15 @@ public:
     // only enable these if T is not another any
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any(T&& t) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
     }
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any(std::allocator_arg_t, const Alloc& a, T&& t) : Alloc(a) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
     }
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any& operator=(T&& t) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
         return *this;
     }
 
-- 
2.43.0


From ce5aaab8cb80678de74d2ee09785742f9414545d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:07 +0000
Subject: [PATCH 17/41] fix: any: self copy assignment, and copy assignment of
 an any stored in its target

---
 include/itlib/any.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 41761ec..0bc6c9d 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -166,8 +166,7 @@ public:
     }
     any(const any& o) : any(o, Alloc{}) {}
     any& operator=(const any& o) {
-        copy_from(o);
-        return *this;
+        return *this = any(o, get_allocator()); // copy first: o may be this or stored in this
     }
 
     // only enable these if T is not another any
-- 
2.43.0


From 5fc33206b00fd05698fa3c06ed6872e669960a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:07 +0000
Subject: [PATCH 18/41] fix: any: move assignment of an any stored in its
 target

---
 include/itlib/any.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 0bc6c9d..b6c9f72 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -154,9 +154,10 @@ public:
     }
     any& operator=(any&& o) noexcept {
         if (&o == this) return *this; // prevent self usurp
-        reset();
-        m_block = o.m_block;
+        auto block = o.m_block;
         o.m_block = nullptr;
+        reset(); // may destroy o if it's stored in this
+        m_block = block;
         return *this;
     }
 
-- 
2.43.0


From 9d6267112c3ed808b8abb792d3f98db3f4a7e32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:07 +0000
Subject: [PATCH 19/41] fix: any: assignment of (a part of) the current value

---
 include/itlib/any.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index b6c9f72..00f984d 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -181,8 +181,8 @@ public:
     }
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any& operator=(T&& t) {
-        emplace<typename std::decay<T>::type>(std::forward<T>(t));
-        return *this;
+        // construct first: t may be (a part of) the current value
+        return *this = any(std::allocator_arg, get_allocator(), std::forward<T>(t));
     }
 
     ~any() { reset(); }
-- 
2.43.0


From d10a5e9b38bcdd20f42d29b2fa88fd338a33a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:05 +0000
Subject: [PATCH 20/41] fix: generator: self move assignment

---
 include/itlib/generator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/itlib/generator.hpp b/include/itlib/generator.hpp
index 0cead31..462943d 100644
--- a/include/itlib/generator.hpp
+++ b/include/itlib/generator.hpp
@@ -152,8 +152,9 @@ public:
     generator(generator&& other) noexcept : m_handle(std::exchange(other.m_handle, nullptr)) {}
 
     generator& operator=(generator&& other) noexcept {
+        auto handle = std::exchange(other.m_handle, nullptr); // first: other may be this
         if (m_handle) m_handle.destroy();
-        m_handle = std::exchange(other.m_handle, nullptr);
+        m_handle = handle;
         return *this;
     }
 
-- 
2.43.0


From 605467296c2a2cba6f246c16686ee8b323b2c32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:05 +0000
Subject: [PATCH 21/41] fix: span::subspan with an offset which overflows the
 pointer

---
 include/itlib/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/span.hpp b/include/itlib/span.hpp
index 8b10def..4c4f363 100644
--- a/include/itlib/span.hpp
+++ b/include/itlib/span.hpp
@@ -265,7 +265,7 @@ public:
     // slicing
     span subspan(size_t off, size_t count = size_t(-1)) const noexcept
     {
-        if (m_begin + off > m_end) return span(m_end, 0);
+        if (off > size()) return span(m_end, 0);
         auto newSize = size() - off;
         if (count > newSize) count = newSize;
         return span(m_begin + off, count);
-- 
2.43.0


From d4a5f3007f004ab05f07cdcfaf3fc1aef5e100ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:22 +0000
Subject: [PATCH 22/41] fix: stride_span and poly_span: iterator arithmetic
 with negative differences

---
 include/itlib/poly_span.hpp   | 10 +++++-----
 include/itlib/stride_span.hpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/itlib/poly_span.hpp b/include/itlib/poly_span.hpp
index e48b4f3..157bd06 100644
--- a/include/itlib/poly_span.hpp
+++ b/include/itlib/poly_span.hpp
@@ -223,11 +223,11 @@ public:
         CRT operator*() const noexcept { return poly_func(p); }
         t_iterator& operator++() noexcept { p += stride; return *this; }
         t_iterator& operator--() noexcept { p -= stride; return *this; }
-        t_iterator& operator+=(const ptrdiff_t diff) noexcept { p += diff * stride; return *this; }
-        t_iterator& operator-=(const ptrdiff_t diff) noexcept { p -= diff * stride; return *this; }
-        t_iterator operator+(const ptrdiff_t diff) const noexcept { return t_iterator(p + stride * diff, stride, poly_func); }
-        t_iterator operator-(const ptrdiff_t diff) const noexcept { return t_iterator(p - stride * diff, stride, poly_func); }
-        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / stride; }
+        t_iterator& operator+=(const ptrdiff_t diff) noexcept { p += diff * ptrdiff_t(stride); return *this; }
+        t_iterator& operator-=(const ptrdiff_t diff) noexcept { p -= diff * ptrdiff_t(stride); return *this; }
+        t_iterator operator+(const ptrdiff_t diff) const noexcept { return t_iterator(p + ptrdiff_t(stride) * diff, stride, poly_func); }
+        t_iterator operator-(const ptrdiff_t diff) const noexcept { return t_iterator(p - ptrdiff_t(stride) * diff, stride, poly_func); }
+        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / ptrdiff_t(stride); }
         bool operator==(const t_iterator& other) const noexcept { return p == other.p; }
         bool operator!=(const t_iterator& other) const noexcept { return p != other.p; }
         bool operator<(const t_iterator& other) const noexcept { return p < other.p; }
diff --git a/include/itlib/stride_span.hpp b/include/itlib/stride_span.hpp
index 998b3d8..3118980 100644
--- a/include/itlib/stride_span.hpp
+++ b/include/itlib/stride_span.hpp
@@ -209,11 +209,11 @@ public:
         CT* ptr() const noexcept { return reinterpret_cast<T*>(p); }
         t_iterator& operator++() noexcept { p += stride; return *this; }
         t_iterator& operator--() noexcept { p -= stride; return *this; }
-        t_iterator& operator+=(const ptrdiff_t diff) noexcept { p += diff * stride; return *this; }
-        t_iterator& operator-=(const ptrdiff_t diff) noexcept { p -= diff * stride; return *this; }
-        t_iterator operator+(const ptrdiff_t diff) const noexcept { return t_iterator(p + stride * diff, stride); }
-        t_iterator operator-(const ptrdiff_t diff) const noexcept { return t_iterator(p - stride * diff, stride); }
-        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / stride; }
+        t_iterator& operator+=(const ptrdiff_t diff) noexcept { p += diff * ptrdiff_t(stride); return *this; }
+        t_iterator& operator-=(const ptrdiff_t diff) noexcept { p -= diff * ptrdiff_t(stride); return *this; }
+        t_iterator operator+(const ptrdiff_t diff) const noexcept { return t_iterator(p + ptrdiff_t(stride) * diff, stride); }
+        t_iterator operator-(const ptrdiff_t diff) const noexcept { return t_iterator(p - ptrdiff_t(stride) * diff, stride); }
+        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / ptrdiff_t(stride); }
         bool operator==(const t_iterator& other) const noexcept { return p == other.p; }
         bool operator!=(const t_iterator& other) const noexcept { return p != other.p; }
         bool operator<(const t_iterator& other) const noexcept { return p < other.p; }
-- 
2.43.0


From acc0cd0921de088e33bf2014a644f43036ccde11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:57 +0000
Subject: [PATCH 23/41] fix: mem_ostreambuf: get_container with small_vector,
 and reuse of the buffer after it when empty containers have data

---
 include/itlib/mem_streambuf.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 4e8a83c..136b5e5 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -91,6 +91,7 @@
 #include <streambuf>
 #include <cstring>
 #include <cassert>
+#include <utility>
 
 namespace itlib
 {
@@ -127,10 +128,9 @@ public:
 
     Container get_container()
     {
-        Container ret;
         auto size = this->poff();
-        ret.swap(m_data);
-        this->setp(nullptr, nullptr);
+        Container ret(std::move(m_data));
+        clear();
         ret.resize(size);
         return ret;
     }
-- 
2.43.0


From f9a129c43bca72fcd2875db432bd70a02f995f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:33 +0000
Subject: [PATCH 24/41] fix: mem_istreambuf: block reads with a huge count

---
 include/itlib/mem_streambuf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 136b5e5..7d0b788 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -254,7 +254,7 @@ private:
 
     std::streamsize xsgetn(char_type* s, std::streamsize count) override
     {
-        if (this->gptr() + count > this->egptr())
+        if (count > this->egptr() - this->gptr())
         {
             count = this->egptr() - this->gptr();
         }
-- 
2.43.0


From 2a89e76d5897f0f7a834bfb5657d28ab78f75806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:33 +0000
Subject: [PATCH 25/41] fix: mem_istreambuf: seeks outside of the buffer must
 fail

---
 include/itlib/mem_streambuf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 7d0b788..06c8fbe 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -240,6 +240,7 @@ public:
 private:
     pos_type seekpos(pos_type sp, std::ios_base::openmode) override
     {
+        if (off_type(sp) < 0 || size_t(off_type(sp)) > size()) return pos_type(off_type(-1));
         this->setg(this->eback(), this->eback() + sp, this->egptr());
         return sp;
     }
-- 
2.43.0


From bc726a67ea7b598e64f9eac88a93951ca402593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:33 +0000
Subject: [PATCH 26/41] fix: mem_ostreambuf: seeking back must not discard what
 was written, and seeks outside of it must fail

---
 include/itlib/mem_streambuf.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 06c8fbe..ec741d0 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -101,6 +101,7 @@ class mem_ostreambuf final : public std::basic_streambuf<typename Container::val
 {
 private:
     Container m_data;
+    size_t m_written = 0; // number of elements which were written before the last seek
     static_assert(std::is_trivial<typename Container::value_type>::value, "mem ostream must be of pod type");
     using super = std::basic_streambuf<typename Container::value_type>;
 public:
@@ -128,7 +129,7 @@ public:
 
     Container get_container()
     {
-        auto size = this->poff();
+        auto size = this->written();
         Container ret(std::move(m_data));
         clear();
         ret.resize(size);
@@ -138,11 +139,18 @@ public:
     void clear()
     {
         m_data.clear();
+        m_written = 0;
         this->setp(m_data.data(), m_data.data());
     }
 
 private:
 
+    size_t written() const
+    {
+        const auto off = this->poff();
+        return off < m_written ? m_written : off;
+    }
+
     int_type overflow(int_type ch) override
     {
         cap_resize_by(1);
@@ -174,7 +182,9 @@ private:
 
     pos_type seekpos(pos_type sp, std::ios_base::openmode) override
     {
-        this->setp(m_data.data() + int(sp), m_data.data() + m_data.size());
+        m_written = this->written();
+        if (off_type(sp) < 0 || size_t(off_type(sp)) > m_written) return pos_type(off_type(-1));
+        this->setp(m_data.data() + size_t(off_type(sp)), m_data.data() + m_data.size());
         return sp;
     }
 
@@ -182,7 +192,7 @@ private:
     {
         if (way == std::ios_base::cur) return seekpos(poff() + off, std::ios_base::out);
         if (way == std::ios_base::beg) return seekpos(off, std::ios_base::out);
-        if (way == std::ios_base::end) return seekpos(m_data.size() + off, std::ios_base::out);
+        if (way == std::ios_base::end) return seekpos(written() + off, std::ios_base::out);
         return super::traits_type::eof();
     }
 
-- 
2.43.0


From 968270316a950300114ed723ce185ad5f0ec1886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:48 +0000
Subject: [PATCH 27/41] fix: atomic_shared_ptr_storage: a failed
 compare_exchange must not destroy objects under the spinlock

---
 include/itlib/atomic_shared_ptr_storage.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/itlib/atomic_shared_ptr_storage.hpp b/include/itlib/atomic_shared_ptr_storage.hpp
index b59a038..bfa32c1 100644
--- a/include/itlib/atomic_shared_ptr_storage.hpp
+++ b/include/itlib/atomic_shared_ptr_storage.hpp
@@ -119,15 +119,18 @@ public:
 
     // have _strong to match atomic<shared_ptr>
     bool compare_exchange_strong(sptr& expect, sptr ptr) noexcept {
-        asps_spinlock::lock_guard _l(m_spinlock);
-        if (m_ptr == expect) {
-            m_ptr.swap(ptr);
-            return true;
-        }
-        else {
-            expect = m_ptr;
-            return false;
+        sptr current;
+        {
+            asps_spinlock::lock_guard _l(m_spinlock);
+            if (m_ptr == expect) {
+                m_ptr.swap(ptr);
+                return true;
+            }
+            current = m_ptr;
         }
+        // not under the spinlock: this may destroy an object
+        expect.swap(current);
+        return false;
     }
 };
 #if defined(_MSC_VER)
-- 
2.43.0


From 55c588091e083efeb2f6ddb6399d08e5503820fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:25 +0000
Subject: [PATCH 28/41] fix: data_mutex: a lock which could not be taken must
 not be released

---
 include/itlib/data_mutex.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/itlib/data_mutex.hpp b/include/itlib/data_mutex.hpp
index 60ffbfe..eccb3ac 100644
--- a/include/itlib/data_mutex.hpp
+++ b/include/itlib/data_mutex.hpp
@@ -76,8 +76,7 @@ public:
     protected:
         Mutex& m_mutex;
         CT* m_data;
-        lock_base_t(Mutex& mutex, CT& data) : m_mutex(mutex), m_data(&data) {}
-        lock_base_t(Mutex& mutex) : m_mutex(mutex) {}
+        lock_base_t(Mutex& mutex) : m_mutex(mutex), m_data(nullptr) {}
         ~lock_base_t() = default;
         lock_base_t(const lock_base_t&) = delete;
         lock_base_t& operator=(const lock_base_t&) = delete;
@@ -101,8 +100,9 @@ public:
     };
 
     struct unique_lock_t : public unique_lock_base_t<T> {
-        explicit unique_lock_t(data_mutex& dm) : unique_lock_base_t<T>(dm.m_mutex, dm.m_data) {
+        explicit unique_lock_t(data_mutex& dm) : unique_lock_base_t<T>(dm.m_mutex) {
             this->m_mutex.lock();
+            this->m_data = &dm.m_data;
         }
     };
 
@@ -115,8 +115,9 @@ public:
     };
 
     struct const_unique_lock_t : public unique_lock_base_t<const T> {
-        explicit const_unique_lock_t(const data_mutex& dm) : unique_lock_base_t<const T>(dm.m_mutex, dm.m_data) {
+        explicit const_unique_lock_t(const data_mutex& dm) : unique_lock_base_t<const T>(dm.m_mutex) {
             this->m_mutex.lock();
+            this->m_data = &dm.m_data;
         }
     };
 
@@ -136,8 +137,9 @@ public:
     };
 
     struct shared_lock_t : public shared_lock_base_t {
-        explicit shared_lock_t(const data_mutex& dm) : shared_lock_base_t(dm.m_mutex, dm.m_data) {
+        explicit shared_lock_t(const data_mutex& dm) : shared_lock_base_t(dm.m_mutex) {
             this->m_mutex.lock_shared();
+            this->m_data = &dm.m_data;
         }
     };
 
-- 
2.43.0


From 7c316a90eb9e98a5f9087f2709a9504ffe7ce053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:03 +0000
Subject: [PATCH 29/41] fix: sentry: moving a sentry of an lvalue function
 before C++17

---
 include/itlib/sentry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/sentry.hpp b/include/itlib/sentry.hpp
index ccd9458..116755e 100644
--- a/include/itlib/sentry.hpp
+++ b/include/itlib/sentry.hpp
@@ -106,7 +106,7 @@ public:
     ~sentry() { m_func(); }
 #else
     sentry(sentry&& other) noexcept
-        : m_func(std::move(other.m_func))
+        : m_func(std::forward<Func>(other.m_func))
         , m_has_func(other.m_has_func)
     {
         other.m_has_func = false;
-- 
2.43.0


From 13a9f0990abed663a63dae487f94e0897c7e7833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:59 +0000
Subject: [PATCH 30/41] fix: atomic_relaxed_counter: results which overflow a
 signed type

---
 include/itlib/atomic.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/itlib/atomic.hpp b/include/itlib/atomic.hpp
index 1f757ee..c68fa5b 100644
--- a/include/itlib/atomic.hpp
+++ b/include/itlib/atomic.hpp
@@ -47,6 +47,7 @@
 // https://github.com/iboB/itlib/blob/master/test/
 #pragma once
 #include <atomic>
+#include <cstdint>
 #include <type_traits>
 
 namespace itlib
@@ -74,12 +75,13 @@ struct atomic_relaxed_counter {
 
     operator I() const noexcept { return load(); } // intentionally implicit
 
-    I operator++() noexcept { return a.fetch_add(1, rel) + 1; }
+    // the results are calculated as unsigned: like the operations of std::atomic, these wrap
+    I operator++() noexcept { return I(std::uintmax_t(a.fetch_add(1, rel)) + 1); }
     I operator++(int) noexcept { return a.fetch_add(1, rel); }
-    I operator+=(I i) noexcept { return a.fetch_add(i, rel) + i; }
-    I operator--() noexcept { return a.fetch_sub(1, rel) - 1; }
+    I operator+=(I i) noexcept { return I(std::uintmax_t(a.fetch_add(i, rel)) + std::uintmax_t(i)); }
+    I operator--() noexcept { return I(std::uintmax_t(a.fetch_sub(1, rel)) - 1); }
     I operator--(int) noexcept { return a.fetch_sub(1, rel); }
-    I operator-=(I i) noexcept { return a.fetch_sub(i, rel) - i; }
+    I operator-=(I i) noexcept { return I(std::uintmax_t(a.fetch_sub(i, rel)) - std::uintmax_t(i)); }
 
     I operator=(I i) {
         store(i);
-- 
2.43.0


From 7bd6224446ac622457ce541c032718ac39c90744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:12 +0000
Subject: [PATCH 31/41] fix: strftime with an empty result must not run out of
 memory

---
 include/itlib/time_t.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/itlib/time_t.hpp b/include/itlib/time_t.hpp
index ee8dd6c..3d38eb5 100644
--- a/include/itlib/time_t.hpp
+++ b/include/itlib/time_t.hpp
@@ -167,11 +167,15 @@ private:
 
 inline std::string strftime(const char* format, const std::tm& tm)
 {
+    // std::strftime returns zero both if the buffer is too small and if the text is empty
+    // so format with a leading space: then the text is never empty
+    const std::string fmt = std::string(1, ' ') + format;
     std::string ret;
     ret.resize(128);
     size_t len;
-    while ((len = std::strftime(&ret.front(), ret.size(), format, &tm)) == 0) ret.resize(2 * ret.size());
+    while ((len = std::strftime(&ret.front(), ret.size(), fmt.c_str(), &tm)) == 0) ret.resize(2 * ret.size());
     ret.resize(len);
+    ret.erase(0, 1);
     return ret;
 }
 
-- 
2.43.0


From 5b60a78a223df85bea1e02710caa925d04bdfd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:14 +0000
Subject: [PATCH 32/41] fix: pmr_allocator::allocate_object: the size in bytes
 must not overflow

---
 include/itlib/pmr_allocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/itlib/pmr_allocator.hpp b/include/itlib/pmr_allocator.hpp
index 33efd0f..5cf6534 100644
--- a/include/itlib/pmr_allocator.hpp
+++ b/include/itlib/pmr_allocator.hpp
@@ -48,6 +48,7 @@
 //
 #include <memory_resource>
 #include <cstddef>
+#include <new>
 
 namespace itlib {
 
@@ -73,6 +74,7 @@ public:
 
     template <class U>
     [[nodiscard]] U* allocate_object(std::size_t n = 1) {
+        if (n > std::size_t(-1) / sizeof(U)) throw std::bad_array_new_length();
         return static_cast<U*>(allocate_bytes(n * sizeof(U), alignof(U)));
     }
 
-- 
2.43.0


From 0f9cff5ce5d217038634e7e494ff9f486e226175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:50 +0000
Subject: [PATCH 33/41] fix: redirect_rstream: restore the position of a stream
 which failed

---
 include/itlib/rstream.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/itlib/rstream.hpp b/include/itlib/rstream.hpp
index 997e51c..80140ee 100644
--- a/include/itlib/rstream.hpp
+++ b/include/itlib/rstream.hpp
@@ -124,7 +124,10 @@ public:
 
     ~basic_redirect_rstream()
     {
-        this->m_in.seekg(m_restore);
+        if (!this->m_in.fail()) this->m_in.seekg(m_restore);
+        // a failed stream doesn't seek, and a read past the end of the stream fails it:
+        // restore the position in this case too, but keep the stream as failed
+        else if (m_restore != std::streampos(-1)) this->m_in.rdbuf()->pubseekpos(m_restore, std::ios_base::in);
     }
 private:
     std::streampos m_restore;
-- 
2.43.0


From 6944020152fb8bd9fd12dca6255029aa23bdb88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:50 +0000
Subject: [PATCH 34/41] fix: transparent_umap: transparent lookup is enabled by
 the hash and the comparison; try_emplace with hint

---
 include/itlib/transparent_umap.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/itlib/transparent_umap.hpp b/include/itlib/transparent_umap.hpp
index a69436f..fcfbf5b 100644
--- a/include/itlib/transparent_umap.hpp
+++ b/include/itlib/transparent_umap.hpp
@@ -81,15 +81,20 @@ public:
     using iterator = super::iterator;
     using const_iterator = super::const_iterator;
 
+    // the map is transparent if its hash and comparison are
+    // (depends on K so that overloads can be disabled by it)
+    template <typename K>
+    static constexpr bool is_transparent_for = tumimpl::is_transparent<Hash> && tumimpl::is_transparent<KeyEqual>;
+
     // enable if transparent
     template <typename K, typename R>
-    using enable_if_tr = std::enable_if_t<tumimpl::is_transparent<K>, R>;
+    using enable_if_tr = std::enable_if_t<is_transparent_for<K>, R>;
 
     // enable if transparent and convertible
     template <typename K, typename R>
     using enable_if_tr_c = std::enable_if_t<
-        tumimpl::is_transparent<K>
-        && std::is_convertible_v<Key, K>
+        is_transparent_for<K>
+        && std::is_constructible_v<Key, K>
         // but not iterators
         && !std::is_convertible_v<K, iterator>
         && !std::is_convertible_v<K, const_iterator>
@@ -106,10 +111,10 @@ public:
     }
 
     template <typename K, typename... Args>
-    enable_if_tr<K, std::pair<iterator, bool>> try_emplace(const_iterator hint, K&& key, Args&&... args) {
+    enable_if_tr<K, iterator> try_emplace(const_iterator hint, K&& key, Args&&... args) {
         // what does the hint even mean?
         auto f = this->find(key);
-        if (f != this->end()) return { f, false };
+        if (f != this->end()) return f;
         return this->emplace_hint(hint, std::forward<K>(key), T(std::forward<Args>(args)...));
     }
 
-- 
2.43.0


From 2c297dbcfd2d9da7ab92a8dc07ec79490b0bc679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:47 +0000
Subject: [PATCH 35/41] fix: is_noop_convertible: converting to an enum based
 on bool changes values

---
 include/itlib/type_traits.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/itlib/type_traits.hpp b/include/itlib/type_traits.hpp
index d4bab2b..922ec18 100644
--- a/include/itlib/type_traits.hpp
+++ b/include/itlib/type_traits.hpp
@@ -75,6 +75,12 @@ struct type_identity {
     using type = T;
 };
 
+// bool or an enum based on it
+template <typename T, bool = std::is_enum<T>::value>
+struct is_noop_convertible_bool : public std::is_same<T, bool> {};
+template <typename T>
+struct is_noop_convertible_bool<T, true> : public std::is_same<typename std::underlying_type<T>::type, bool> {};
+
 template <typename From, typename To>
 struct is_noop_convertible {
     using from_t = typename std::remove_cv<From>::type;
@@ -85,7 +91,7 @@ struct is_noop_convertible {
         && std::is_scalar<to_t>::value
         && std::is_floating_point<from_t>::value == std::is_floating_point<to_t>::value
         // bool -> int8 is a noop, but int8 -> bool is not
-        && (std::is_same<to_t, bool>::value ? std::is_same<from_t, bool>::value : true)
+        && (is_noop_convertible_bool<to_t>::value ? is_noop_convertible_bool<from_t>::value : true)
         ;
 };
 
-- 
2.43.0


From 8871c0ae1aee934c03363efc74608ae12bdea638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:58 +0000
Subject: [PATCH 36/41] fix: static_vector: no leak if copying an element
 throws in a constructor

---
 include/itlib/static_vector.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index a532ab2..24874ec 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -185,27 +185,32 @@ public:
     static_vector(allocator_type) {}
 
     explicit static_vector(size_t count, allocator_type = {})
+        : static_vector()
     {
         resize(count);
     }
 
     static_vector(size_t count, const T& value, allocator_type = {})
+        : static_vector()
     {
         assign_impl_val(count, value);
     }
 
     template <class InputIterator, typename = decltype(*std::declval<InputIterator>())>
     static_vector(InputIterator first, InputIterator last, allocator_type = {})
+        : static_vector()
     {
         assign_impl_iter(first, last);
     }
 
     static_vector(std::initializer_list<T> l, allocator_type = {})
+        : static_vector()
     {
         assign_impl_ilist(l);
     }
 
     static_vector(const static_vector& v)
+        : static_vector()
     {
         for (const auto& i : v)
         {
@@ -215,6 +220,7 @@ public:
 
     template <size_t CapacityB>
     static_vector(const static_vector<T, CapacityB>& v)
+        : static_vector()
     {
         I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(v.size() > Capacity);
 
-- 
2.43.0


From 5c574079b6ca66c90ed3cbf9fae62abacec68a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:58 +0000
Subject: [PATCH 37/41] fix: static_vector: inserting (a part of) one of the
 elements, and inserting a copy whose construction throws

---
 include/itlib/static_vector.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index 24874ec..a43a90b 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -469,9 +469,8 @@ public:
 
     iterator insert(const_iterator position, const value_type& val)
     {
-        auto pos = grow_at(position, 1);
-        ::new (pos) T(val);
-        return pos;
+        // a copy, since val may be (a part of) one of the elements which are about to be moved
+        return insert(position, value_type(val));
     }
 
     iterator insert(const_iterator position, value_type&& val)
@@ -483,10 +482,11 @@ public:
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
+        const value_type tmp(val); // val may be (a part of) one of the elements which are about to be moved
         auto pos = grow_at(position, count);
         for (size_type i = 0; i < count; ++i)
         {
-            ::new (pos + i) T(val);
+            ::new (pos + i) T(tmp);
         }
         return pos;
     }
@@ -518,9 +518,8 @@ public:
     template<typename... Args>
     iterator emplace(const_iterator position, Args&&... args)
     {
-        auto pos = grow_at(position, 1);
-        ::new (pos) T(std::forward<Args>(args)...);
-        return pos;
+        // args may refer to (a part of) one of the elements which are about to be moved
+        return insert(position, value_type(std::forward<Args>(args)...));
     }
 
     iterator erase(const_iterator position)
-- 
2.43.0


From dbac8a1519b95217c19e3bac21e38ef5b962b34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:58 +0000
Subject: [PATCH 38/41] fix: small_vector: consistent state if an allocation or
 the construction of an element throws in assign or resize

---
 include/itlib/small_vector.hpp | 49 ++++++++++++++++------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index bbd0480..2a692b4 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -685,7 +685,8 @@ public:
 
         while (new_end > m_end)
         {
-            atraits::construct(get_alloc(), m_end++, v);
+            atraits::construct(get_alloc(), m_end, v);
+            ++m_end;
         }
     }
 
@@ -702,7 +703,8 @@ public:
 
         while (new_end > m_end)
         {
-            atraits::construct(get_alloc(), m_end++);
+            atraits::construct(get_alloc(), m_end);
+            ++m_end;
         }
     }
 
@@ -728,6 +730,7 @@ private:
         {
             atraits::destroy(get_alloc(), p);
         }
+        m_end = m_begin;
     }
 
     void take_impl(small_vector& v)
@@ -895,20 +898,18 @@ private:
     {
         const auto cdr = choose_data(count);
 
-        m_end = cdr.ptr;
-        for (size_t i=0; i<count; ++i)
-        {
-            atraits::construct(get_alloc(), m_end, value);
-            ++m_end;
-        }
-
         if (!is_static() && m_begin != cdr.ptr)
         {
             atraits::deallocate(get_alloc(), m_begin, m_capacity);
         }
 
-        m_begin = cdr.ptr;
+        m_begin = m_end = cdr.ptr;
         m_capacity = cdr.cap;
+        for (size_t i=0; i<count; ++i)
+        {
+            atraits::construct(get_alloc(), m_end, value);
+            ++m_end;
+        }
     }
 
     template <class InputIterator>
@@ -916,20 +917,18 @@ private:
     {
         const auto cdr = choose_data(last - first);
 
-        m_end = cdr.ptr;
-        for (auto p = first; p != last; ++p)
-        {
-            atraits::construct(get_alloc(), m_end, *p);
-            ++m_end;
-        }
-
         if (!is_static() && m_begin != cdr.ptr)
         {
             atraits::deallocate(get_alloc(), m_begin, m_capacity);
         }
 
-        m_begin = cdr.ptr;
+        m_begin = m_end = cdr.ptr;
         m_capacity = cdr.cap;
+        for (auto p = first; p != last; ++p)
+        {
+            atraits::construct(get_alloc(), m_end, *p);
+            ++m_end;
+        }
     }
 
     template <class InputIterator>
@@ -937,20 +936,18 @@ private:
     {
         const auto cdr = choose_data(last - first);
 
-        m_end = cdr.ptr;
-        for (auto p = first; p != last; ++p)
-        {
-            atraits::construct(get_alloc(), m_end, std::move(*p));
-            ++m_end;
-        }
-
         if (!is_static() && m_begin != cdr.ptr)
         {
             atraits::deallocate(get_alloc(), m_begin, m_capacity);
         }
 
-        m_begin = cdr.ptr;
+        m_begin = m_end = cdr.ptr;
         m_capacity = cdr.cap;
+        for (auto p = first; p != last; ++p)
+        {
+            atraits::construct(get_alloc(), m_end, std::move(*p));
+            ++m_end;
+        }
     }
 
     struct choose_data_result {
-- 
2.43.0


From e67181e4b69bd1a3bb5c5566e6a2b43b65d3aeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:58 +0000
Subject: [PATCH 39/41] fix: small_vector: inserting (a part of) one of the
 elements, and inserting a copy whose construction throws

---
 include/itlib/small_vector.hpp | 41 +++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 2a692b4..dc9e63b 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -582,9 +582,8 @@ public:
 
     iterator insert(const_iterator position, const value_type& val)
     {
-        auto pos = grow_at(position, 1);
-        atraits::construct(get_alloc(), pos, val);
-        return pos;
+        // a copy, since val may be (a part of) one of the elements which are about to be moved
+        return insert(position, value_type(val));
     }
 
     iterator insert(const_iterator position, value_type&& val)
@@ -596,10 +595,11 @@ public:
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
+        const value_type tmp(val); // val may be (a part of) one of the elements which are about to be moved
         auto pos = grow_at(position, count);
         for (size_type i = 0; i < count; ++i)
         {
-            atraits::construct(get_alloc(), pos + i, val);
+            atraits::construct(get_alloc(), pos + i, tmp);
         }
         return pos;
     }
@@ -631,9 +631,8 @@ public:
     template<typename... Args>
     iterator emplace(const_iterator position, Args&&... args)
     {
-        auto pos = grow_at(position, 1);
-        atraits::construct(get_alloc(), pos, std::forward<Args>(args)...);
-        return pos;
+        // args may refer to (a part of) one of the elements which are about to be moved
+        return insert(position, value_type(std::forward<Args>(args)...));
     }
 
     iterator erase(const_iterator position)
@@ -649,22 +648,29 @@ public:
 
     void push_back(const_reference val)
     {
-        auto pos = grow_at(m_end, 1);
-        atraits::construct(get_alloc(), pos, val);
+        emplace_back(val);
     }
 
     void push_back(T&& val)
     {
-        auto pos = grow_at(m_end, 1);
-        atraits::construct(get_alloc(), pos, std::move(val));
+        emplace_back(std::move(val));
     }
 
     template<typename... Args>
     reference emplace_back(Args&&... args)
     {
-        auto pos = grow_at(m_end, 1);
-        atraits::construct(get_alloc(), pos, std::forward<Args>(args)...);
-        return *pos;
+        const auto s = size();
+        if (s == m_capacity || (!is_static() && s + 1 < RevertToStaticBelow))
+        {
+            // args may refer to (a part of) one of the elements which are about to be moved
+            value_type tmp(std::forward<Args>(args)...);
+            auto pos = grow_at(m_end, 1);
+            atraits::construct(get_alloc(), pos, std::move(tmp));
+            return *pos;
+        }
+
+        atraits::construct(get_alloc(), m_end, std::forward<Args>(args)...);
+        return *m_end++;
     }
 
     void pop_back()
@@ -674,7 +680,12 @@ public:
 
     void resize(size_type n, const value_type& v)
     {
-        reserve(n);
+        if (n > m_capacity)
+        {
+            const value_type tmp(v); // v may be (a part of) one of the elements which are about to be moved
+            reserve(n);
+            return resize(n, tmp);
+        }
 
         auto new_end = m_begin + n;
 
-- 
2.43.0


From d28c2b0f3f5e15cf813a785ab62e5fa398bbe17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:24 +0000
Subject: [PATCH 40/41] fix: pod_vector: inserting one of the elements

---
 include/itlib/pod_vector.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index 942b233..da390af 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -552,15 +552,17 @@ public:
 
     iterator insert(const_iterator position, const value_type& val)
     {
+        const value_type copy = val; // val may be one of the elements which are about to be moved
         auto pos = grow_at(position, 1);
-        *pos = val;
+        *pos = copy;
         return pos;
     }
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
+        const value_type copy = val; // val may be one of the elements which are about to be moved
         auto pos = grow_at(position, count);
-        fill(pos, count, val);
+        fill(pos, count, copy);
         return pos;
     }
 
@@ -605,7 +607,8 @@ public:
 
     reference push_back(const_reference val)
     {
-        return emplace_back() = val;
+        const value_type copy = val; // val may be one of the elements which are about to be moved
+        return emplace_back() = copy;
     }
 
     // for compatibility
@@ -621,8 +624,9 @@ public:
 
     bool resize(size_type n, const value_type& val)
     {
+        const value_type copy = val; // val may be one of the elements which are about to be moved
         bool ret = reserve(n);
-        if (n > size()) fill(m_end, n - size(), val);
+        if (n > size()) fill(m_end, n - size(), copy);
         m_end = m_begin + n;
         return ret;
     }
-- 
2.43.0


From 78e134609c9aabbab62402edd047d87aa0cb327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:20 +0000
Subject: [PATCH 41/41] fix: mem_ostreambuf: put position after writing more
 characters at once than int_type or int can hold

---
 include/itlib/mem_streambuf.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index ec741d0..0447469 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -175,7 +175,8 @@ private:
         }
 
         memcpy(this->pptr(), s, num * sizeof(char_type));
-        this->pbump(int_type(num));
+        // not pbump, which takes an int (and int_type can be even narrower)
+        this->setp(this->pptr() + num, this->epptr());
 
         return num;
     }
-- 
2.43.0

