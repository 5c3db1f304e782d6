From c38476faf4f6af1ffd418dd4d0a8e0cf31831095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 01/24] fix: count of an empty range must not read the word it
 points at

---
 include/bitlib/bit-algorithms/count.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bitlib/bit-algorithms/count.hpp b/include/bitlib/bit-algorithms/count.hpp
index 1a804b1..181dcb7 100644
--- a/include/bitlib/bit-algorithms/count.hpp
+++ b/include/bitlib/bit-algorithms/count.hpp
@@ -49,6 +49,11 @@ count(
     // Initialization
     difference_type result = 0;
 
+    // An empty range may begin at the end of the sequence: nothing to read
+    if (first == last) {
+        return result;
+    }
+
     // Computation when bits belong to several underlying words
     if (first.base() != last.base()) {
         RandomAccessIt it = first.base();
-- 
2.43.0


From 6bf7aafc2e043a0c395fd40c465b45812bda022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 02/24] fix: rotate with the middle at the end leaves the range
 as it is

---
 include/bitlib/bit-algorithms/rotate.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bitlib/bit-algorithms/rotate.hpp b/include/bitlib/bit-algorithms/rotate.hpp
index f9509ba..3ee1ac7 100644
--- a/include/bitlib/bit-algorithms/rotate.hpp
+++ b/include/bitlib/bit-algorithms/rotate.hpp
@@ -193,6 +193,7 @@ bit_iterator<ForwardIt> rotate(
     _assert_range_viability(first, last);
     //if (first == n_first) return n_first;
     if (first == n_first) return last;
+    if (n_first == last) return first;
 
     // Types and constants
     using word_type = typename bit_iterator<ForwardIt>::word_type;
-- 
2.43.0


From 48408537b77e5a2a4043a781e5ca3b882812e17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 03/24] fix: bit_vector word counts above 2^32 bits were
 truncated

---
 include/bitlib/bit-containers/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index f971c49..ee4e74d 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -41,7 +41,7 @@ class bit_vector {
 
         // TODO are privates always inlined?
         // @brief Get the number of words needed to represet num_bits bits
-        constexpr uint64_t word_count(unsigned int num_bits) {
+        constexpr uint64_t word_count(size_t num_bits) {
             return ((num_bits + digits - 1) / digits);
         }
 
-- 
2.43.0


From bba3864ab3163a0c161682d79eb1d70850d45b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 04/24] fix: bit_vector::insert rounded its available space to
 float

---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index ee4e74d..4ffc137 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -529,7 +529,7 @@ bit_vector<WordType, Allocator>::insert(
     if (count == 0) {
         return begin() + d;
     }
-    const float bits_available = word_vector.size() * digits;
+    const size_type bits_available = word_vector.size() * digits;
     const bool need_to_add = length_ + count > bits_available;
     if (need_to_add) {
         const auto words_to_add = word_count(length_ + count - bits_available);
@@ -552,7 +552,7 @@ bit_vector<WordType, Allocator>::insert(
     if (count == 0) {
         return begin() + d;
     }
-    const float bits_available = word_vector.size()*digits;
+    const size_type bits_available = word_vector.size()*digits;
     const auto need_to_add = length_ + count > bits_available;
     if (need_to_add) {
         const auto words_to_add = word_count(length_ + count - bits_available);
-- 
2.43.0


From a097c7ceba2917ad223c2c9fb057876f8404db32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 05/24] fix: bit_vector::resize(count, value) did not set the
 new bits

---
 include/bitlib/bit-containers/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 4ffc137..4745137 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -621,7 +621,7 @@ constexpr void bit_vector<WordType, Allocator>::resize(size_type count, const va
     word_vector.resize(word_count(count));
     length_ = count;
     if (length_ > old_length) {
-        fill(begin() + length_, end(), value);
+        fill(begin() + old_length, end(), value);
     }
     return;
 }
-- 
2.43.0


From bc7716e70062c93eea2ec19fcb9d27ddc2d7aa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 06/24] fix: bit_vector::resize(count) exposed stale bits when
 growing

---
 include/bitlib/bit-containers/bit_vector.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 4745137..eed7344 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -610,8 +610,7 @@ constexpr void bit_vector<WordType, Allocator>::pop_back() {
 
 template<class WordType, class Allocator>
 constexpr void bit_vector<WordType, Allocator>::resize(size_type count) {
-    word_vector.resize(word_count(count));
-    length_ = count;
+    resize(count, bit0);
     return;
 }
 
-- 
2.43.0


From 1725077bfbe5575d78c801ba6ad3d929a8645a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 07/24] fix: double precision shifts by zero shifted the other
 word by its width

---
 include/bitlib/bit-iterator/bit_details.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index 595cd81..0747675 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -858,7 +858,9 @@ constexpr T _shld(T dst, T src, T cnt) noexcept
 {
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
-    if (cnt < digits) {
+    if (cnt == 0) {
+        return dst;
+    } else if (cnt < digits) {
         dst = (dst << cnt) | (src >> (digits - cnt));
     } else {
         dst = (src << (cnt - digits)) * (cnt < digits + digits);
@@ -876,7 +878,9 @@ constexpr T _shrd(T dst, T src, T cnt) noexcept
 {
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
-    if (cnt < digits) {
+    if (cnt == 0) {
+        return dst;
+    } else if (cnt < digits) {
         dst = (dst >> cnt) | (src << (digits - cnt));
     } else {
         dst = (src >> (cnt - digits)) * (cnt < digits + digits);
-- 
2.43.0


From 80cc10eaba3a095e65f426e0ac5ea7a9686f42fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 08/24] fix: _wider_type recursed into _narrower_type and never
 found a wider type

---
 include/bitlib/bit-iterator/bit_details.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index 0747675..7ec1449 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -235,7 +235,7 @@ struct _wider_type
         typename std::tuple_element<I, tuple>::type,
         typename std::conditional<
             (I + 1 < std::tuple_size<tuple>::value),
-            typename _narrower_type<
+            typename _wider_type<
                 T,
                 (I + 1 < std::tuple_size<tuple>::value ? I + 1 : -1)
             >::type,
-- 
2.43.0


From 1e80a585d644823c28b21b431086b6e178e3b07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 09/24] fix: bit_vector could not be built from a list of bit
 values

---
 include/bitlib/bit-containers/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index eed7344..510d7b9 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -252,7 +252,7 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType,
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(std::initializer_list<bit_value> init, const Allocator& alloc)
     : word_vector(alloc), length_(0) {
-    for (const_reference b : init) {
+    for (const value_type& b : init) {
         this->push_back(b);
     }
 }
-- 
2.43.0


From 1d0380255844d43f91fdc0a68860052bd0a8a1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:19 +0000
Subject: [PATCH 10/24] fix: bit_vector word counts of the largest sizes
 wrapped to zero

---
 include/bitlib/bit-containers/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 510d7b9..bec2560 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -42,7 +42,7 @@ class bit_vector {
         // TODO are privates always inlined?
         // @brief Get the number of words needed to represet num_bits bits
         constexpr uint64_t word_count(size_t num_bits) {
-            return ((num_bits + digits - 1) / digits);
+            return num_bits / digits + (num_bits % digits != 0);
         }
 
         // Iterator pair constructor specializations
-- 
2.43.0


From ee6334159f0595ba217750647fcc2321e26e8b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:02 +0000
Subject: [PATCH 11/24] fix: copy construction of bit_vector with an allocator
 was not defined

---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index bec2560..d1f4ad4 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -241,6 +241,10 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(
     );
 }
 
+template<class WordType, class Allocator>
+constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>& other, const Allocator& alloc)
+    : word_vector(other.word_vector, alloc), length_(other.length_) {}
+
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>&& other) noexcept
     : word_vector(std::move(other.word_vector)), length_(other.length_) {}
-- 
2.43.0


From 3602710bcbab787cc9de3b7f15370a258a9e1b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:26 +0000
Subject: [PATCH 12/24] fix: constant bit_vectors could not be read or
 traversed

---
 include/bitlib/bit-containers/bit_vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index d1f4ad4..7926430 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -82,10 +82,10 @@ class bit_vector {
         using size_type = std::size_t;
         using difference_type = std::ptrdiff_t;
         using reference = bit_reference<WordType>;
-        using const_reference = const reference;
+        using const_reference = bit_reference<const WordType>;
         using pointer = bit_pointer<WordType>;
         using iterator = bit_iterator<typename std::vector<WordType>::iterator>;
-        using const_iterator = bit_iterator<const typename std::vector<WordType>::const_iterator>;
+        using const_iterator = bit_iterator<typename std::vector<WordType>::const_iterator>;
 
 
         /*
@@ -137,7 +137,7 @@ class bit_vector {
          * Element Access
          */
         constexpr reference operator[](size_type pos);
-        constexpr reference operator[](size_type pos) const;
+        constexpr const_reference operator[](size_type pos) const;
         constexpr reference at(size_type pos);
         constexpr const_reference at(size_type pos) const;
         constexpr reference front();
@@ -362,7 +362,7 @@ constexpr typename bit_vector<WordType, Allocator>::reference
 bit_vector<WordType, Allocator>::operator[](size_type pos) {return begin()[pos];}
 
 template<class WordType, class Allocator>
-constexpr typename bit_vector<WordType, Allocator>::reference
+constexpr typename bit_vector<WordType, Allocator>::const_reference
 bit_vector<WordType, Allocator>::operator[](size_type pos) const {return begin()[pos];}
 
 template<class WordType, class Allocator>
-- 
2.43.0


From 4ac3177a26499b24eb2016f097cac54a50c8e15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 13/24] fix: bit iterators and pointers could not be assigned
 from ones to mutable bits

---
 include/bitlib/bit-iterator/bit_iterator.hpp | 4 ++--
 include/bitlib/bit-iterator/bit_pointer.hpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bitlib/bit-iterator/bit_iterator.hpp b/include/bitlib/bit-iterator/bit_iterator.hpp
index 235d028..19c6b81 100644
--- a/include/bitlib/bit-iterator/bit_iterator.hpp
+++ b/include/bitlib/bit-iterator/bit_iterator.hpp
@@ -190,8 +190,8 @@ constexpr bit_iterator<Iterator>& bit_iterator<Iterator>::operator=(
     const bit_iterator<T>& other
 )
 {
-    _current = other._current;
-    _position = other._position;
+    _current = other.base();
+    _position = other.position();
     return *this;
 }
 // -------------------------------------------------------------------------- //
diff --git a/include/bitlib/bit-iterator/bit_pointer.hpp b/include/bitlib/bit-iterator/bit_pointer.hpp
index 4a56472..0302178 100644
--- a/include/bitlib/bit-iterator/bit_pointer.hpp
+++ b/include/bitlib/bit-iterator/bit_pointer.hpp
@@ -212,8 +212,8 @@ constexpr bit_pointer<WordType>& bit_pointer<WordType>::operator=(
     const bit_pointer<T>& other
 ) noexcept
 {
-    _ref._ptr = other._ref._ptr;
-    _ref._mask = other._ref._mask;
+    _ref._ptr = other._ref.address();
+    _ref._mask = other._ref.mask();
     return *this;
 }
 // -------------------------------------------------------------------------- //
-- 
2.43.0


From e4672d5e5691d02663caf0585a8cabfe588d9ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 14/24] fix: bit_vector::debug_string of a range did not
 compile

---
 include/bitlib/bit-containers/bit_vector.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 7926430..32d92ca 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -636,16 +636,14 @@ constexpr void bit_vector<WordType, Allocator>::resize(size_type count, const va
 template<class WordType, class Allocator>
 constexpr std::string bit_vector<WordType, Allocator>::debug_string(const_iterator first, const_iterator last) {
     std::string ret = "";
-    iterator mem = first;
     auto position = 0;
-    for (iterator it = first; it != last; ++it) {
+    for (const_iterator it = first; it != last; ++it) {
         if (position % digits == 0 && position != 0) {
             ret += " ";
         } else if (position % 8 == 0 && position != 0) {
             ret += '.';
         }
         ret += *it == bit1 ? '1' : '0';
-        mem = it;
         ++position;
     }
     return ret;
-- 
2.43.0


From 5e3423114fee75cabe8f53368c795b922d03564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 15/24] fix: copy, move, copy_backward and equal rejected
 ranges of constant words

---
 include/bitlib/bit-algorithms/copy.hpp          | 4 ++--
 include/bitlib/bit-algorithms/copy_backward.hpp | 4 ++--
 include/bitlib/bit-algorithms/equal.hpp         | 4 ++--
 include/bitlib/bit-algorithms/move.hpp          | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/bitlib/bit-algorithms/copy.hpp b/include/bitlib/bit-algorithms/copy.hpp
index 2d50751..903e3e1 100644
--- a/include/bitlib/bit-algorithms/copy.hpp
+++ b/include/bitlib/bit-algorithms/copy.hpp
@@ -34,8 +34,8 @@ constexpr bit_iterator<RandomAccessIt2> copy(bit_iterator<RandomAccessIt1> first
 )
 {
     // Types and constants
-    using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using dst_word_type = typename std::remove_cv<typename bit_iterator<RandomAccessIt2>::word_type>::type;
+    using src_word_type = typename std::remove_cv<typename bit_iterator<RandomAccessIt1>::word_type>::type;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
diff --git a/include/bitlib/bit-algorithms/copy_backward.hpp b/include/bitlib/bit-algorithms/copy_backward.hpp
index 55bd6f6..9333d8a 100644
--- a/include/bitlib/bit-algorithms/copy_backward.hpp
+++ b/include/bitlib/bit-algorithms/copy_backward.hpp
@@ -31,8 +31,8 @@ constexpr bit_iterator<RandomAccessIt2> copy_backward(bit_iterator<RandomAccessI
 )
 {
     // Types and constants
-    using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using dst_word_type = typename std::remove_cv<typename bit_iterator<RandomAccessIt2>::word_type>::type;
+    using src_word_type = typename std::remove_cv<typename bit_iterator<RandomAccessIt1>::word_type>::type;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
diff --git a/include/bitlib/bit-algorithms/equal.hpp b/include/bitlib/bit-algorithms/equal.hpp
index e3fb144..0fbcbda 100644
--- a/include/bitlib/bit-algorithms/equal.hpp
+++ b/include/bitlib/bit-algorithms/equal.hpp
@@ -34,8 +34,8 @@ constexpr bool equal(
 )
 {
     // Types and constants
-    using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using dst_word_type = typename std::remove_cv<typename bit_iterator<RandomAccessIt2>::word_type>::type;
+    using src_word_type = typename std::remove_cv<typename bit_iterator<RandomAccessIt1>::word_type>::type;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
diff --git a/include/bitlib/bit-algorithms/move.hpp b/include/bitlib/bit-algorithms/move.hpp
index 401cbfd..6d811f9 100644
--- a/include/bitlib/bit-algorithms/move.hpp
+++ b/include/bitlib/bit-algorithms/move.hpp
@@ -29,8 +29,8 @@ constexpr bit_iterator<RandomAccessIt2> move(bit_iterator<RandomAccessIt1> first
 )
 {
     // Types and constants
-    using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using dst_word_type = typename std::remove_cv<typename bit_iterator<RandomAccessIt2>::word_type>::type;
+    using src_word_type = typename std::remove_cv<typename bit_iterator<RandomAccessIt1>::word_type>::type;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
-- 
2.43.0


From 2dd348dc9bc870cac8550811432818c61eb198be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 16/24] fix: shifts, reverse and rotate over raw word pointers
 did not compile in C++17

---
 .../bitlib/bit-algorithms/bit_algorithm_details.hpp    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
index 984c499..e609e32 100644
--- a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
+++ b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
@@ -66,7 +66,7 @@ template <class InputIt>
 bool is_within(
         bit_iterator<InputIt> first,
         bit_iterator<InputIt> last,
-        typename InputIt::difference_type n
+        typename std::iterator_traits<InputIt>::difference_type n
 ) {
     //using word_type = typename bit_iterator<InputIt>::word_type;
     //using size_type = typename bit_iterator<InputIt>::size_type;
@@ -279,11 +279,11 @@ void write_word(src_type src, bit_iterator<OutputIt> dst_bit_it,
 template <class RandomAccessIt>
 RandomAccessIt word_shift_left(RandomAccessIt first,
                           RandomAccessIt last,
-                          typename RandomAccessIt::difference_type n
+                          typename std::iterator_traits<RandomAccessIt>::difference_type n
 )
 {
     if (n <= 0) return last;
-    if (n >= distance(first, last)) return first;
+    if (n >= std::distance(first, last)) return first;
     RandomAccessIt mid = first + n;
     auto ret = std::move(mid, last, first);
     return ret;
@@ -296,10 +296,10 @@ RandomAccessIt word_shift_left(RandomAccessIt first,
 template <class RandomAccessIt>
 RandomAccessIt word_shift_right(RandomAccessIt first,
                           RandomAccessIt last,
-                          typename RandomAccessIt::difference_type n
+                          typename std::iterator_traits<RandomAccessIt>::difference_type n
 )
 {
-    auto d = distance(first, last);
+    auto d = std::distance(first, last);
     if (n <= 0) return first;
     if (n >= d) return last;
     std::move_backward(first, last-n, last);
-- 
2.43.0


From f64ba8e263bad86d3545b8080ed3dc263f308b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:41 +0000
Subject: [PATCH 17/24] fix: moving a bit_vector into a new one copied it, and
 ended the program when the copy could not be allocated

---
 include/bitlib/bit-containers/bit_vector.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 32d92ca..d0a2f6a 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -112,8 +112,8 @@ class bit_vector {
                 const Allocator& alloc=Allocator());
         constexpr bit_vector(const bit_vector<WordType, Allocator>& other) = default;
         constexpr bit_vector(const bit_vector<WordType, Allocator>& other, const Allocator& alloc);
-        constexpr bit_vector(const bit_vector<WordType, Allocator>&& other) noexcept;
-        constexpr bit_vector(const bit_vector<WordType, Allocator>&& other, const Allocator& alloc);
+        constexpr bit_vector(bit_vector<WordType, Allocator>&& other) noexcept;
+        constexpr bit_vector(bit_vector<WordType, Allocator>&& other, const Allocator& alloc);
         constexpr bit_vector(std::initializer_list<bit_value> init, const Allocator& alloc=Allocator());
         constexpr bit_vector(std::initializer_list<bool> init, const Allocator& alloc=Allocator());
         constexpr bit_vector(std::initializer_list<WordType> init, const Allocator& alloc=Allocator());
@@ -246,12 +246,17 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType,
     : word_vector(other.word_vector, alloc), length_(other.length_) {}
 
 template<class WordType, class Allocator>
-constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>&& other) noexcept
-    : word_vector(std::move(other.word_vector)), length_(other.length_) {}
+constexpr bit_vector<WordType, Allocator>::bit_vector(bit_vector<WordType, Allocator>&& other) noexcept
+    : word_vector(std::move(other.word_vector)), length_(other.length_) {
+    other.length_ = 0;
+}
 
 template<class WordType, class Allocator>
-constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>&& other, const Allocator& alloc)
-    : word_vector(std::move(other.word_vector), alloc), length_(other.length_) {}
+constexpr bit_vector<WordType, Allocator>::bit_vector(bit_vector<WordType, Allocator>&& other, const Allocator& alloc)
+    : word_vector(std::move(other.word_vector), alloc), length_(other.length_) {
+    other.word_vector.clear();
+    other.length_ = 0;
+}
 
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(std::initializer_list<bit_value> init, const Allocator& alloc)
-- 
2.43.0


From af1e28dc150558d6d05b14b763d67850ebf4e9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:22 +0000
Subject: [PATCH 18/24] fix: the iterators of a bit_vector with an allocator of
 its own did not fit its words

---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index d0a2f6a..76a4225 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -84,8 +84,8 @@ class bit_vector {
         using reference = bit_reference<WordType>;
         using const_reference = bit_reference<const WordType>;
         using pointer = bit_pointer<WordType>;
-        using iterator = bit_iterator<typename std::vector<WordType>::iterator>;
-        using const_iterator = bit_iterator<typename std::vector<WordType>::const_iterator>;
+        using iterator = bit_iterator<typename std::vector<WordType, Allocator>::iterator>;
+        using const_iterator = bit_iterator<typename std::vector<WordType, Allocator>::const_iterator>;
 
 
         /*
-- 
2.43.0


From e7aee12b9a336b1d7a4c7454b81f1fa39a9c3b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:22 +0000
Subject: [PATCH 19/24] fix: inserting more bits than a size can count
 corrupted the bit_vector

---
 include/bitlib/bit-containers/bit_vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 76a4225..a5def9c 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -538,10 +538,10 @@ bit_vector<WordType, Allocator>::insert(
     if (count == 0) {
         return begin() + d;
     }
-    const size_type bits_available = word_vector.size() * digits;
-    const bool need_to_add = length_ + count > bits_available;
+    const size_type bits_available = word_vector.size() * digits - length_;
+    const bool need_to_add = count > bits_available;
     if (need_to_add) {
-        const auto words_to_add = word_count(length_ + count - bits_available);
+        const auto words_to_add = word_count(count - bits_available);
         word_vector.resize(word_vector.size() + words_to_add);
     }
     length_ += count;
-- 
2.43.0


From dd0a990369f7672cfdf02a88148f1be1000c012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:43 +0000
Subject: [PATCH 20/24] fix: construction from a range of words or bools
 dropped the allocator

---
 include/bitlib/bit-containers/bit_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index a5def9c..903ebdc 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -233,7 +233,8 @@ template<class RandomAccessIt>
 constexpr bit_vector<WordType, Allocator>::bit_vector(
         RandomAccessIt first,
         RandomAccessIt last,
-        const Allocator& alloc) {
+        const Allocator& alloc)
+    : word_vector(alloc), length_(0) {
     bit_vector<WordType, Allocator>::range_constructor(
         first,
         last,
-- 
2.43.0


From ff4740504c33523e1537f5fde309a383d47bbf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:03 +0000
Subject: [PATCH 21/24] fix: move assignment between bit_vectors with unequal
 allocators ended the program when memory ran out

---
 include/bitlib/bit-containers/bit_vector.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 903ebdc..9a21ed9 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -130,7 +130,8 @@ class bit_vector {
          * Assignment
          */
         constexpr bit_vector& operator=(const bit_vector<WordType, Allocator>& other) = default;
-        constexpr bit_vector& operator=(bit_vector<WordType, Allocator>&& other) noexcept;
+        constexpr bit_vector& operator=(bit_vector<WordType, Allocator>&& other)
+            noexcept(std::is_nothrow_move_assignable<std::vector<WordType, Allocator>>::value);
 
 
         /*
@@ -352,9 +353,10 @@ constexpr bit_vector<WordType, Allocator>::~bit_vector() {
 // ------------------------ BIT VECTOR: ASSIGNMENT ------------------------ //
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>&
-bit_vector<WordType, Allocator>::operator=(bit_vector<WordType, Allocator>&& other) noexcept {
-    length_ = other.length_;
+bit_vector<WordType, Allocator>::operator=(bit_vector<WordType, Allocator>&& other)
+        noexcept(std::is_nothrow_move_assignable<std::vector<WordType, Allocator>>::value) {
     word_vector = std::move(other.word_vector);
+    length_ = other.length_;
     other.length_ = 0;
     return *this;
 }
-- 
2.43.0


From 931ffbade5148aedec162efcf8aaa5d0dd490476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:43 +0000
Subject: [PATCH 22/24] fix: swap_ranges did not compile for ranges over
 different iterator types

---
 include/bitlib/bit-algorithms/swap_ranges.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/swap_ranges.hpp b/include/bitlib/bit-algorithms/swap_ranges.hpp
index 67cd5a0..9af430a 100644
--- a/include/bitlib/bit-algorithms/swap_ranges.hpp
+++ b/include/bitlib/bit-algorithms/swap_ranges.hpp
@@ -106,7 +106,7 @@ constexpr bit_iterator<RandomAccessIt2> swap_ranges(
                         last1.position()
                 );
             }
-            return bit_iterator<RandomAccessIt1>(it2, last1.position());
+            return bit_iterator<RandomAccessIt2>(it2, last1.position());
 
         // first1 range spans mutliple words and is not aligned with first2
         } else {
-- 
2.43.0


From b934bd8fcdb8a17317d88c97c38f80c7b29171a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:43 +0000
Subject: [PATCH 23/24] fix: swap_ranges between words of different widths ran
 off the end of the function

---
 include/bitlib/bit-algorithms/swap_ranges.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/bitlib/bit-algorithms/swap_ranges.hpp b/include/bitlib/bit-algorithms/swap_ranges.hpp
index 9af430a..59bc135 100644
--- a/include/bitlib/bit-algorithms/swap_ranges.hpp
+++ b/include/bitlib/bit-algorithms/swap_ranges.hpp
@@ -188,6 +188,12 @@ constexpr bit_iterator<RandomAccessIt2> swap_ranges(
             }
             return bit_iterator(it2, first2.position());
         }
+    } else {
+        // Words of different widths: exchange bit by bit
+        for (; first1 != last1; ++first1, ++first2) {
+            swap(*first1, *first2);
+        }
+        return first2;
     }
 }
 
-- 
2.43.0


From 8bed4748c684ebb3e379f317eb3cf749c961d589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:14 +0000
Subject: [PATCH 24/24] fix: write_word of words narrower or wider than the
 destination's words

---
 .../bit-algorithms/bit_algorithm_details.hpp  | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
index e609e32..239c12c 100644
--- a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
+++ b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
@@ -222,20 +222,20 @@ void write_word(src_type src, bit_iterator<OutputIt> dst_bit_it,
             *dst_bit_it.base() = src;
         }
         else {
-            *dst_bit_it.base() = _bitblend<src_type>(
+            *dst_bit_it.base() = _bitblend<dst_type>(
                    *dst_bit_it.base(),
-                   src << dst_bit_it.position(),
+                   static_cast<dst_type>(src) << dst_bit_it.position(),
                    dst_bit_it.position(),
-                   std::min<src_type>(
+                   std::min<dst_type>(
                        dst_digits - dst_bit_it.position(),
                        len
                    )
             );
             if (len > dst_digits - dst_bit_it.position()) {
                 OutputIt overflow_dst = std::next(dst_bit_it.base());
-                *overflow_dst = _bitblend<src_type>(
+                *overflow_dst = _bitblend<dst_type>(
                         *overflow_dst,
-                        src >> (dst_digits - dst_bit_it.position()),
+                        static_cast<dst_type>(src) >> (dst_digits - dst_bit_it.position()),
                         0,
                         len - (dst_digits - dst_bit_it.position())
                     );
@@ -244,12 +244,17 @@ void write_word(src_type src, bit_iterator<OutputIt> dst_bit_it,
     } else {
         OutputIt it = dst_bit_it.base();
         if (dst_bit_it.position() != 0) {
-            *it = _bitblend(
+            const src_type partial_len = std::min<src_type>(
+                    dst_digits - dst_bit_it.position(),
+                    len
+            );
+            *it = _bitblend<dst_type>(
                     *it,
-                    static_cast<dst_type>(src),
-                    static_cast<dst_type>(-1) << dst_bit_it.position()
+                    static_cast<dst_type>(src) << dst_bit_it.position(),
+                    dst_bit_it.position(),
+                    partial_len
             );
-            len -= dst_digits - dst_bit_it.position();
+            len -= partial_len;
             // TODO would it be faster to jsut shift src every time it is
             // passed as an argument and keep track of how much we need to
             // shift?
@@ -263,10 +268,10 @@ void write_word(src_type src, bit_iterator<OutputIt> dst_bit_it,
             ++it;
         }
         if (len > 0 ) {
-            *it = _bitblend(
+            *it = _bitblend<dst_type>(
                     *it,
                     static_cast<dst_type>(src),
-                    (1 << len) - 1
+                    (static_cast<dst_type>(1) << len) - 1
             );
         }
     }
-- 
2.43.0

