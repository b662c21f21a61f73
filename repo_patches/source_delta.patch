From 3d371a16cea26d2e6640f13e8a5818d17a9a5593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:37 +0000
Subject: [PATCH 01/18] fix: twos_compl_cast() between unsigned types narrower
 than int

Negative values were rejected (e.g. std::uint16_t -> std::uint8_t) because
the expected sign extension was computed in type int
---
 src/archon/core/integer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/archon/core/integer.hpp b/src/archon/core/integer.hpp
index 7418368..19b5147 100644
--- a/src/archon/core/integer.hpp
+++ b/src/archon/core/integer.hpp
@@ -1478,8 +1478,8 @@ template<class T, class F> constexpr bool can_twos_compl_cast(F val) noexcept
         else {
             static_assert(width_t < width_f);
             auto sign_bit = core::promote(val) & (core::promote(F(1)) << (width_t - 1));
-            auto expected_sign_extension = ~((sign_bit << 1) - 1);
-            auto actual_sign_extension = core::promote(val) & (core::promote(F(-1)) << width_t);
+            auto expected_sign_extension = F(~((sign_bit << 1) - 1));
+            auto actual_sign_extension = F(core::promote(val) & (core::promote(F(-1)) << width_t));
             return (actual_sign_extension == expected_sign_extension);
         }
     }
@@ -1503,8 +1503,8 @@ template<class T, class F> constexpr bool try_twos_compl_cast(F from, T& to) noe
         else {
             static_assert(width_t < width_f);
             auto sign_bit = core::promote(from) & (core::promote(F(1)) << (width_t - 1));
-            auto expected_sign_extension = ~((sign_bit << 1) - 1);
-            auto actual_sign_extension = core::promote(from) & (core::promote(F(-1)) << width_t);
+            auto expected_sign_extension = F(~((sign_bit << 1) - 1));
+            auto actual_sign_extension = F(core::promote(from) & (core::promote(F(-1)) << width_t));
             if (ARCHON_LIKELY(actual_sign_extension == expected_sign_extension)) {
                 to = T(from);
                 return true;
-- 
2.43.0


From 004dc273e2658d09b5ec5b9ec455d3fabbc5324c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:53 +0000
Subject: [PATCH 02/18] fix: comparisons of large floating-point values with
 integers

The float_*_int() comparisons assumed that adjacent floating-point values are
less than one apart. Round outward with floor() and ceil() instead.
---
 src/archon/core/float.hpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/archon/core/float.hpp b/src/archon/core/float.hpp
index d068c78..d69a028 100644
--- a/src/archon/core/float.hpp
+++ b/src/archon/core/float.hpp
@@ -290,9 +290,8 @@ template<class F, class I> inline bool float_less_int(F float_val, I int_val) no
 {
     if (ARCHON_UNLIKELY(float_val < F(0))) {
         if constexpr (core::is_signed<I>()) {
-            using float_traits_type = core::FloatTraits<F>;
-            F float_val_2 = float_traits_type::nextafter(float_val, F(0));
-            return (float_val < core::min_float_for_int<F, I>() || core::float_to_int_a<I>(float_val_2) <= int_val);
+            F float_val_2 = std::floor(float_val);
+            return (float_val < core::min_float_for_int<F, I>() || core::float_to_int_a<I>(float_val_2) < int_val);
         }
         return (float_val < F(0)); // Catch NaN
     }
@@ -303,9 +302,8 @@ template<class F, class I> inline bool float_less_int(F float_val, I int_val) no
 template<class F, class I> inline bool float_greater_int(F float_val, I int_val) noexcept
 {
     if (ARCHON_LIKELY(float_val > F(0))) {
-        using float_traits_type = core::FloatTraits<F>;
-        F float_val_2 = float_traits_type::nextafter(float_val, F(0));
-        return (float_val > core::max_float_for_int<F, I>() || core::float_to_int_a<I>(float_val_2) >= int_val);
+        F float_val_2 = std::ceil(float_val);
+        return (float_val > core::max_float_for_int<F, I>() || core::float_to_int_a<I>(float_val_2) > int_val);
     }
     if constexpr (core::is_signed<I>()) {
         return (float_val >= core::min_float_for_int<F, I>() && core::float_to_int_a<I>(float_val) > int_val);
@@ -322,9 +320,8 @@ template<class F, class I> inline bool float_less_equal_int(F float_val, I int_v
         }
         return (float_val <= F(0)); // Catch NaN
     }
-    using float_traits_type = core::FloatTraits<F>;
-    F float_val_2 = float_traits_type::nextafter(float_val, F(0));
-    return (float_val <= core::max_float_for_int<F, I>() && core::float_to_int_a<I>(float_val_2) < int_val);
+    F float_val_2 = std::ceil(float_val);
+    return (float_val <= core::max_float_for_int<F, I>() && core::float_to_int_a<I>(float_val_2) <= int_val);
 }
 
 
@@ -333,9 +330,8 @@ template<class F, class I> inline bool float_greater_equal_int(F float_val, I in
     if (ARCHON_LIKELY(float_val >= F(0)))
         return (float_val > core::max_float_for_int<F, I>() || core::float_to_int_a<I>(float_val) >= int_val);
     if constexpr (core::is_signed<I>()) {
-        using float_traits_type = core::FloatTraits<F>;
-        F float_val_2 = float_traits_type::nextafter(float_val, F(0));
-        return (float_val >= core::min_float_for_int<F, I>() && core::float_to_int_a<I>(float_val_2) > int_val);
+        F float_val_2 = std::floor(float_val);
+        return (float_val >= core::min_float_for_int<F, I>() && core::float_to_int_a<I>(float_val_2) >= int_val);
     }
     return (float_val >= F(0)); // Catch NaN
 }
-- 
2.43.0


From 74c469e938f458800b5bd95495ecf8933a6f0268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:08 +0000
Subject: [PATCH 03/18] fix: base64 decoder rejected all padded input (padding
 characters were not consumed)

---
 src/archon/core/base64.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/base64.cpp b/src/archon/core/base64.cpp
index 7a95f2c..383e593 100644
--- a/src/archon/core/base64.cpp
+++ b/src/archon/core/base64.cpp
@@ -424,6 +424,7 @@ bool IncrementalDecoder::decode(const char*& data_begin, const char* data_end, b
         if (ARCHON_LIKELY(is_padding)) {
             bool allow_padding = (m_config.padding != DecodeConfig::Padding::reject);
             if (ARCHON_LIKELY(allow_padding && valid_partial())) {
+                ++data_begin;
                 ++m_padding_size;
                 if (ARCHON_LIKELY(m_holding_size + m_padding_size < 4))
                     goto input;
@@ -435,12 +436,12 @@ bool IncrementalDecoder::decode(const char*& data_begin, const char* data_end, b
     }
     if (ARCHON_LIKELY(!end_of_input))
         return false;
+    if (ARCHON_LIKELY(m_holding_size == 0))
+        return true;
     if (ARCHON_LIKELY(m_padding_size == 0)) {
         bool require_padding = (m_config.padding == DecodeConfig::Padding::require);
         if (ARCHON_LIKELY(!require_padding && valid_partial()))
             goto partial;
-        if (ARCHON_LIKELY(m_holding_size == 0))
-            return true;
     }
     return false; // Prematute end of input
 
-- 
2.43.0


From 4298240f31bb6aaff200a107d5e39a8c16a586b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:46 +0000
Subject: [PATCH 04/18] fix: base64 decode() reported malformed input as lack
 of buffer space

---
 src/archon/core/base64.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/base64.hpp b/src/archon/core/base64.hpp
index ff41809..dc15c89 100644
--- a/src/archon/core/base64.hpp
+++ b/src/archon/core/base64.hpp
@@ -201,6 +201,13 @@ public:
     bool decode(const char*& data_begin, const char* data_end, bool end_of_input,
                 char*& buffer_begin, char* buffer_end) noexcept;
 
+    /// \brief Whether decoded bytes are waiting for buffer space.
+    ///
+    /// After an invocation of \ref decode() has returned `false`, this function returns
+    /// `true` if, and only if decoding stopped due to lack of space in the output buffer.
+    ///
+    bool is_output_pending() const noexcept;
+
 private:
     DecodeConfig m_config;
     bool m_holding_output = false;
@@ -288,7 +295,7 @@ inline bool decode(std::string_view data, core::Span<char> buffer, std::size_t&
         size = std::size_t(buffer_begin - buffer.data());
         return true;
     }
-    insufficient_buffer_space = (buffer_begin == buffer_end);
+    insufficient_buffer_space = decoder.is_output_pending();
     return false;
 }
 
@@ -395,7 +402,7 @@ auto BasicDecoder<C, T>::decode(string_view_type data, core::Buffer<char>& buffe
             const char* data_end   = data_begin + size;
             bool done = decoder.decode(data_begin, data_end, end_of_input, buffer_begin, buffer_end);
             if (ARCHON_LIKELY(!done)) {
-                ARCHON_ASSERT(buffer_begin != buffer_end);
+                ARCHON_ASSERT(!decoder.is_output_pending());
                 if (ARCHON_LIKELY(data_begin == data_end)) {
                     ARCHON_ASSERT(!end_of_input);
                     i += size;
@@ -459,6 +466,12 @@ inline IncrementalDecoder::IncrementalDecoder(DecodeConfig config) noexcept
 }
 
 
+inline bool IncrementalDecoder::is_output_pending() const noexcept
+{
+    return m_holding_output;
+}
+
+
 } // namespace archon::core::base64
 
 #endif // ARCHON_X_CORE_X_BASE64_HPP
-- 
2.43.0


From dda3c3ef63282d43fb3966d0d36e8096dcc37865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:29 +0000
Subject: [PATCH 05/18] fix: lenient Unicode coding overwrote earlier output
 with the replacement character

---
 src/archon/core/unicode.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/archon/core/unicode.hpp b/src/archon/core/unicode.hpp
index 87a6c2e..08173ce 100644
--- a/src/archon/core/unicode.hpp
+++ b/src/archon/core/unicode.hpp
@@ -1392,7 +1392,7 @@ void encode_utf8_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::siz
             traits_type::to_char_type(0xBF),
             traits_type::to_char_type(0xBD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1449,7 +1449,7 @@ void decode_utf8_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::siz
         char_type replacement[] = {
             traits_type::to_char_type(0xFFFD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1502,7 +1502,7 @@ void encode_utf16_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::si
         char_type replacement[] = {
             traits_type::to_char_type(0xFFFD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1559,7 +1559,7 @@ void decode_utf16_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::si
         char_type replacement[] = {
             traits_type::to_char_type(0xFFFD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1613,7 +1613,7 @@ void utf8_to_utf16_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::s
         char_type replacement[] = {
             traits_type::to_char_type(0xFFFD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1669,7 +1669,7 @@ void utf16_to_utf8_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::s
             traits_type::to_char_type(0xBF),
             traits_type::to_char_type(0xBD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
-- 
2.43.0


From 8b1f67cfa4b5fdb46636e5831b934c6ff026cecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:16 +0000
Subject: [PATCH 06/18] fix: Vector::resize() constructed too many elements,
 writing beyond the end of the storage

---
 src/archon/core/impl/vector_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/impl/vector_impl.hpp b/src/archon/core/impl/vector_impl.hpp
index debd31f..46defb8 100644
--- a/src/archon/core/impl/vector_impl.hpp
+++ b/src/archon/core/impl/vector_impl.hpp
@@ -289,7 +289,7 @@ void VectorImpl<T>::resize(std::size_t size)
     }
     else {
         reserve(size); // Throws
-        core::uninit_safe_fill(size, data() + m_size);
+        core::uninit_safe_fill(size - m_size, data() + m_size); // Throws
     }
     m_size = size;
 }
@@ -303,7 +303,7 @@ void VectorImpl<T>::resize(std::size_t size, const T& value)
     }
     else {
         reserve(size); // Throws
-        core::uninit_safe_fill(size, value, data() + m_size);
+        core::uninit_safe_fill(size - m_size, value, data() + m_size); // Throws
     }
     m_size = size;
 }
-- 
2.43.0


From 89fcf0b7e7e070393318e127116f5752a350641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:33 +0000
Subject: [PATCH 07/18] fix: Deque::erase() accessed memory outside its storage
 when the remaining contents wrap around

---
 src/archon/core/deque.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/archon/core/deque.hpp b/src/archon/core/deque.hpp
index 23fe267..77777ac 100644
--- a/src/archon/core/deque.hpp
+++ b/src/archon/core/deque.hpp
@@ -1191,8 +1191,8 @@ void Deque<T>::erase_near_front(size_type begin, size_type end) noexcept
                 core::uninit_destroy(base + m_offset + begin, before);
                 core::uninit_destroy(base, after);
             }
-            size_type n = std::min(after, begin);
-            begin_2 = begin - n;
+            size_type n = std::min(after, begin_2);
+            begin_2 -= n;
             core::uninit_safe_move(base + m_offset + begin_2, n, base + (after - n));
         }
     }
@@ -1237,7 +1237,7 @@ void Deque<T>::erase_near_back(size_type begin, size_type end) noexcept
                 core::uninit_destroy(base + m_offset + begin, before);
                 core::uninit_destroy(base, after);
             }
-            size_type remain = size_type(m_size - end);
+            size_type remain = size_type(m_size - end_2);
             size_type n = std::min(before, remain);
             core::uninit_safe_move(base + after, n, base + m_offset + (top - before));
             end_2 += n;
-- 
2.43.0


From 42a1d8106625bb39366ac98fa1c67e069408fc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:33 +0000
Subject: [PATCH 08/18] fix: copy assignment of a Deque to itself lost its
 contents

---
 src/archon/core/deque.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/deque.hpp b/src/archon/core/deque.hpp
index 77777ac..02e8e09 100644
--- a/src/archon/core/deque.hpp
+++ b/src/archon/core/deque.hpp
@@ -515,8 +515,10 @@ inline Deque<T>::~Deque() noexcept
 template<class T>
 inline auto Deque<T>::operator=(const Deque& other) -> Deque&
 {
-    clear();
-    append(other.begin(), other.end()); // Throws
+    if (ARCHON_LIKELY(&other != this)) {
+        clear();
+        append(other.begin(), other.end()); // Throws
+    }
     return *this;
 }
 
-- 
2.43.0


From 00cb87b8d1727747d4b73af869df9dce268fe081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:22 +0000
Subject: [PATCH 09/18] fix: Buffer::at() accepted an index one past the end

---
 src/archon/core/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/buffer.hpp b/src/archon/core/buffer.hpp
index a514e3a..ec2b744 100644
--- a/src/archon/core/buffer.hpp
+++ b/src/archon/core/buffer.hpp
@@ -697,7 +697,7 @@ void Buffer<T>::prepend_a(T val, std::size_t& offset, std::size_t n)
 template<class T>
 inline void Buffer<T>::verify_index(std::size_t i) const
 {
-    if (ARCHON_LIKELY(i <= size()))
+    if (ARCHON_LIKELY(i < size()))
         return;
     throw std::out_of_range("Buffer element index");
 }
-- 
2.43.0


From b714dd2ae0023ae5e84f1927c310ca4ca464575d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:16 +0000
Subject: [PATCH 10/18] fix: KnuthWrapper::get_badness() was stale after
 wrapping fewer than two words

---
 src/archon/core/word_wrap.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/archon/core/word_wrap.cpp b/src/archon/core/word_wrap.cpp
index 3647a4e..2fb7d55 100644
--- a/src/archon/core/word_wrap.cpp
+++ b/src/archon/core/word_wrap.cpp
@@ -110,8 +110,10 @@ void KnuthWrapper::wrap(core::Span<const word_wrap::Word> words, std::size_t tra
     breakpoints.clear();
 
     std::size_t num_words = words.size();
-    if (ARCHON_UNLIKELY(num_words < 2))
+    if (ARCHON_UNLIKELY(num_words < 2)) {
+        m_badness = 0;
         return;
+    }
 
     m_word_slots.resize(num_words); // Throws
     for (std::size_t i = 0; i < num_words; ++i) {
-- 
2.43.0


From e030855d0eea647428cb1f2cef57fa30d8e749a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:30 +0000
Subject: [PATCH 11/18] fix: pixel::Box::intersects(), contains() and clip()
 gave wrong answers for boxes more than 2^31 - 1 pixels apart

---
 src/archon/util/pixel_box.hpp | 51 ++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/archon/util/pixel_box.hpp b/src/archon/util/pixel_box.hpp
index 0ef5fa1..bad61de 100644
--- a/src/archon/util/pixel_box.hpp
+++ b/src/archon/util/pixel_box.hpp
@@ -182,6 +182,19 @@ auto splice(const pixel::Box& x, const pixel::Box& y) noexcept -> pixel::Box;
 // Implementation
 
 
+namespace impl {
+
+
+// Assumes a <= b. Unlike `b - a`, this cannot overflow.
+constexpr auto distance(int a, int b) noexcept -> unsigned
+{
+    return unsigned(b) - unsigned(a);
+}
+
+
+} // namespace impl
+
+
 constexpr Box::Box(pixel::Size size) noexcept
     : Box({}, size)
 {
@@ -209,10 +222,12 @@ constexpr bool Box::is_empty() const noexcept
 
 constexpr bool Box::intersects(const Box& other) const noexcept
 {
-    bool horz = (pos.x < other.pos.x ? size.width > other.pos.x - pos.x && other.size.width > 0 :
-                 other.size.width > pos.x - other.pos.x && size.width > 0);
-    bool vert = (pos.y < other.pos.y ? size.height > other.pos.y - pos.y && other.size.height > 0 :
-                 other.size.height > pos.y - other.pos.y && size.height > 0);
+    if (ARCHON_UNLIKELY(size.width <= 0 || size.height <= 0 || other.size.width <= 0 || other.size.height <= 0))
+        return false;
+    bool horz = (pos.x < other.pos.x ? unsigned(size.width) > impl::distance(pos.x, other.pos.x) :
+                 unsigned(other.size.width) > impl::distance(other.pos.x, pos.x));
+    bool vert = (pos.y < other.pos.y ? unsigned(size.height) > impl::distance(pos.y, other.pos.y) :
+                 unsigned(other.size.height) > impl::distance(other.pos.y, pos.y));
     return (horz && vert);
 }
 
@@ -220,9 +235,9 @@ constexpr bool Box::intersects(const Box& other) const noexcept
 constexpr bool Box::contains(const Box& other) const noexcept
 {
     bool horz = (other.pos.x >= pos.x && other.size.width <= size.width &&
-                 other.pos.x - pos.x <= size.width - other.size.width);
+                 impl::distance(pos.x, other.pos.x) <= impl::distance(other.size.width, size.width));
     bool vert = (other.pos.y >= pos.y && other.size.height <= size.height &&
-                 other.pos.y - pos.y <= size.height - other.size.height);
+                 impl::distance(pos.y, other.pos.y) <= impl::distance(other.size.height, size.height));
     return (horz && vert);
 }
 
@@ -245,31 +260,31 @@ constexpr bool Box::clip(Box& other) const noexcept
     pixel::Size size_2 = other.size;
 
     if (ARCHON_LIKELY(pos_2.x >= pos.x)) {
-        int discr = size.width - (pos_2.x - pos.x);
-        if (ARCHON_UNLIKELY(discr <= 0 || size_2.width <= 0))
+        unsigned offset = impl::distance(pos.x, pos_2.x);
+        if (ARCHON_UNLIKELY(size.width <= 0 || size_2.width <= 0 || offset >= unsigned(size.width)))
             return false;
-        size_2.width = std::min(size_2.width, discr);
+        size_2.width = std::min(size_2.width, size.width - int(offset));
     }
     else {
-        int discr = size_2.width - (pos.x - pos_2.x);
-        if (ARCHON_UNLIKELY(discr <= 0 || size.width <= 0))
+        unsigned offset = impl::distance(pos_2.x, pos.x);
+        if (ARCHON_UNLIKELY(size.width <= 0 || size_2.width <= 0 || offset >= unsigned(size_2.width)))
             return false;
         pos_2.x = pos.x;
-        size_2.width = std::min(size.width, discr);
+        size_2.width = std::min(size.width, size_2.width - int(offset));
     }
 
     if (ARCHON_LIKELY(pos_2.y >= pos.y)) {
-        int discr = size.height - (pos_2.y - pos.y);
-        if (ARCHON_UNLIKELY(discr <= 0 || size_2.height <= 0))
+        unsigned offset = impl::distance(pos.y, pos_2.y);
+        if (ARCHON_UNLIKELY(size.height <= 0 || size_2.height <= 0 || offset >= unsigned(size.height)))
             return false;
-        size_2.height = std::min(size_2.height, discr);
+        size_2.height = std::min(size_2.height, size.height - int(offset));
     }
     else {
-        int discr = size_2.height - (pos.y - pos_2.y);
-        if (ARCHON_UNLIKELY(discr <= 0 || size.height <= 0))
+        unsigned offset = impl::distance(pos_2.y, pos.y);
+        if (ARCHON_UNLIKELY(size.height <= 0 || size_2.height <= 0 || offset >= unsigned(size_2.height)))
             return false;
         pos_2.y = pos.y;
-        size_2.height = std::min(size.height, discr);
+        size_2.height = std::min(size.height, size_2.height - int(offset));
     }
 
     other = { pos_2, size_2 };
-- 
2.43.0


From 179fdf109ced83e96c511a5daa73a70fee71006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:23 +0000
Subject: [PATCH 12/18] fix: Histogram::add() converted values to an integer
 before checking that they fit (undefined for large and infinite values)

---
 src/archon/core/histogram.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/archon/core/histogram.hpp b/src/archon/core/histogram.hpp
index 45b707c..658bea4 100644
--- a/src/archon/core/histogram.hpp
+++ b/src/archon/core/histogram.hpp
@@ -147,9 +147,8 @@ void Histogram<T>::add(value_type val) noexcept
     if (ARCHON_LIKELY(val_2 >= 0)) {
         value_type val_3 = std::trunc(val_2);
         value_type max = core::max_float_for_int<value_type, std::size_t>();
-        std::size_t val_4 = std::size_t(val_2);
-        if (ARCHON_LIKELY(val_3 <= max && val_4 < m_num_bins)) {
-            m_bins[val_4] += 1;
+        if (ARCHON_LIKELY(val_3 <= max && std::size_t(val_3) < m_num_bins)) {
+            m_bins[std::size_t(val_3)] += 1;
         }
         else {
             m_over += 1;
-- 
2.43.0


From 5d167fa35e42fa89a519df40205eaaf5d543755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:23 +0000
Subject: [PATCH 13/18] fix: printing a histogram to which no value had been
 added threw std::overflow_error

---
 src/archon/core/histogram.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/histogram.hpp b/src/archon/core/histogram.hpp
index 658bea4..b7e39c8 100644
--- a/src/archon/core/histogram.hpp
+++ b/src/archon/core/histogram.hpp
@@ -330,7 +330,7 @@ template<class C, class U> void Histogram<T>::print(std::basic_ostream<C, U>& ou
     deduct(3);
     deduct(count_column_width);
     deduct(3);
-    double scale = double(max_bar_size) / max_count;
+    double scale = (max_count > 0 ? double(max_bar_size) / max_count : 0);
 
     core::BasicSeedMemoryOutputStream<char_type, traits_type> formatter_2; // Throws
     formatter_2.exceptions(std::ios_base::badbit | std::ios_base::failbit); // Throws
-- 
2.43.0


From 5908564639ce21590a2f05a050fdfd945512945c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:29 +0000
Subject: [PATCH 14/18] fix: RectanglePacker::pack() failed an assertion when
 called again, e.g. after a failed attempt

---
 src/archon/util/rectangle_packer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/archon/util/rectangle_packer.hpp b/src/archon/util/rectangle_packer.hpp
index d6c0379..0189c86 100644
--- a/src/archon/util/rectangle_packer.hpp
+++ b/src/archon/util/rectangle_packer.hpp
@@ -296,8 +296,9 @@ bool RectanglePacker<T>::do_pack(comp_type bin_width, comp_type bin_height, std:
     });
 
     // Place rectangles
-    ARCHON_ASSERT(m_nodes.empty());
-    ARCHON_ASSERT(m_bins.empty());
+    // Discard the results of any earlier packing
+    m_nodes.clear();
+    m_bins.clear();
     auto add_node = [&](comp_type x, comp_type y, comp_type w, comp_type h) {
         bool occupied = false;
         std::size_t right_node = std::size_t(-1);
-- 
2.43.0


From f062b256fd81f270f925ca8f6421d606397b7f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 15/18] fix: RectanglePacker::suggest_bin_width() failed an
 assertion when the total area exceeds 64 bits

---
 src/archon/util/rectangle_packer.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/archon/util/rectangle_packer.hpp b/src/archon/util/rectangle_packer.hpp
index 0189c86..c4f27b7 100644
--- a/src/archon/util/rectangle_packer.hpp
+++ b/src/archon/util/rectangle_packer.hpp
@@ -173,7 +173,10 @@ auto RectanglePacker<T>::suggest_bin_width() const noexcept -> comp_type
             }
             goto fallback;
         }
-        width = std::max(comp_type(core::int_sqrt(area) - m_spacing), min_width);
+        part_type side = core::int_sqrt(area);
+        if (ARCHON_UNLIKELY(side > part_type(max_comp)))
+            return max_comp;
+        width = std::max(comp_type(side - m_spacing), min_width);
     }
 
   add_margins:
@@ -194,8 +197,8 @@ auto RectanglePacker<T>::suggest_bin_width() const noexcept -> comp_type
         // Need to be able to hold area of a rectangle whose sides lengths are
         // max_image_wisth + spacing and max_image_height + spacing.
         constexpr int bits = 2 * (core::num_value_bits<comp_type>() + 1);
-        constexpr int num_parts = bits / core::int_width<part_type>();
-        ARCHON_ASSERT(num_parts > 1); // Otherwise the attempt above would have succeeded
+        // One extra part is for the sum of the areas.
+        constexpr int num_parts = bits / core::int_width<part_type>() + 1;
         constexpr bool is_signed = false;
         using mul_prec_type = core::MulPrecInt<part_type, num_parts, is_signed>;
         mul_prec_type spacing = mul_prec_type(m_spacing);
@@ -209,7 +212,10 @@ auto RectanglePacker<T>::suggest_bin_width() const noexcept -> comp_type
             }
             return max_comp;
         }
-        width = std::max(comp_type(core::int_sqrt(area) - mul_prec_type(m_spacing)), min_width);
+        mul_prec_type side = core::int_sqrt(area);
+        if (ARCHON_UNLIKELY(side > mul_prec_type(max_comp)))
+            return max_comp;
+        width = std::max(comp_type(side - spacing), min_width);
     }
     goto add_margins;
 }
-- 
2.43.0


From 195f8b1610a23bbbe817b9d5d45e5b8445ce3b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:57 +0000
Subject: [PATCH 16/18] fix: casting a packed buffer format to an integer
 format reversed the channels when it should not, and did not when it should

---
 src/archon/image/buffer_format.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/image/buffer_format.cpp b/src/archon/image/buffer_format.cpp
index f1396e6..7623ae0 100644
--- a/src/archon/image/buffer_format.cpp
+++ b/src/archon/image/buffer_format.cpp
@@ -165,7 +165,7 @@ bool BufferFormat::try_cast_to(IntegerFormat& format, IntegerType word_type) con
                 word_order,
                 packed.channel_conf,
             };
-            if (word_order == core::Endianness::big)
+            if (packed.word_order == core::Endianness::little)
                 format.channel_conf.reverse();
             return true;
         }
-- 
2.43.0


From da461f8fae62f68d2e7363ffabd3775db82001b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:57 +0000
Subject: [PATCH 17/18] fix: casting a subword buffer format to an integer
 format of bytes gave the wrong number of bytes per channel

---
 src/archon/image/buffer_format.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/image/buffer_format.cpp b/src/archon/image/buffer_format.cpp
index 7623ae0..726d340 100644
--- a/src/archon/image/buffer_format.cpp
+++ b/src/archon/image/buffer_format.cpp
@@ -206,7 +206,7 @@ bool BufferFormat::try_cast_to(IntegerFormat& format, IntegerType word_type) con
                             return false;
                     }
                     int bits_per_word_2 = bits_per_byte;
-                    int words_per_channel = bytes_per_word;
+                    int words_per_channel = subword.bits_per_channel / bits_per_byte;
                     core::Endianness word_order = byte_order;
                     ChannelConf channel_conf = subword.channel_conf;
                     if (byte_order == core::Endianness::little)
-- 
2.43.0


From ec0ca70fb7bb87dc1ba0b46e7bb68e93b6169f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:57 +0000
Subject: [PATCH 18/18] fix: BufferFormat::try_map_integer_type() and
 try_map_float_type() reported success for types that cannot be mapped

---
 src/archon/image/buffer_format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/image/buffer_format.hpp b/src/archon/image/buffer_format.hpp
index d76943e..e76e75f 100644
--- a/src/archon/image/buffer_format.hpp
+++ b/src/archon/image/buffer_format.hpp
@@ -633,7 +633,7 @@ template<class W> constexpr bool BufferFormat::try_map_integer_type(IntegerType&
         return true;
     }
     else {
-        return true;
+        return false;
     }
 }
 
@@ -653,7 +653,7 @@ template<class W> constexpr bool BufferFormat::try_map_float_type(FloatType& wor
         return true;
     }
     else {
-        return true;
+        return false;
     }
 }
 
-- 
2.43.0

