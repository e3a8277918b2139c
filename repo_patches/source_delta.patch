From 0b1553439de315595d102597e9809b4ed5192a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 01/41] fix: do not read past the end of the view when
 detecting a UTF-8 sequence

---
 src/jogasaki/utils/utf8_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/utils/utf8_utils.cpp b/src/jogasaki/utils/utf8_utils.cpp
index 0e77961..3ef52fe 100644
--- a/src/jogasaki/utils/utf8_utils.cpp
+++ b/src/jogasaki/utils/utf8_utils.cpp
@@ -25,18 +25,18 @@ encoding_type detect_next_encoding(std::string_view view, const size_t offset) {
     const auto first      = static_cast<unsigned char>(view[offset]);
     if (first <= 0x7FU) { return encoding_type::ASCII_1BYTE; }
     if (first >= 0xC2U && first <= 0xDFU) {
-        return (size >= 2 && is_continuation_byte(view[offset_2nd])) ? encoding_type::UTF8_2BYTE
+        return (size - offset >= 2 && is_continuation_byte(view[offset_2nd])) ? encoding_type::UTF8_2BYTE
                                                                      : encoding_type::INVALID;
     }
     if (first >= 0xE0U && first <= 0xEFU) {
-        return (size >= 3 && is_continuation_byte(view[offset_2nd]) &&
+        return (size - offset >= 3 && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]))
                    ? encoding_type::UTF8_3BYTE
                    : encoding_type::INVALID;
     }
     if (first >= 0xF0U && first <= 0xF4U) {
         const auto offset_4th = offset + 3;
-        return (size >= 4 && is_continuation_byte(view[offset_2nd]) &&
+        return (size - offset >= 4 && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]) && is_continuation_byte(view[offset_4th]))
                    ? encoding_type::UTF8_4BYTE
                    : encoding_type::INVALID;
-- 
2.43.0


From 56fd359fe0d0e7a54c27013f36dd7b1269b258ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 02/41] fix: do not read past the end of the view in the scalar
 functions' UTF-8 scan

---
 src/jogasaki/executor/function/builtin_scalar_functions.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index 88ceaff..edc4581 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -989,19 +989,19 @@ static encoding_type detect_next_encoding(std::string_view view, const size_t of
     auto first            = static_cast<unsigned char>(view[offset]);
     if (first <= 0x7FU) { return encoding_type::ASCII_1BYTE; }
     if (first >= 0xC2U && first <= 0xDFU) {
-        return (view.size() >= 2 && is_continuation_byte(view[offset_2nd]))
+        return (view.size() - offset >= 2 && is_continuation_byte(view[offset_2nd]))
                    ? encoding_type::UTF8_2BYTE
                    : encoding_type::INVALID;
     }
     if (first >= 0xE0U && first <= 0xEFU) {
-        return (view.size() >= 3 && is_continuation_byte(view[offset_2nd]) &&
+        return (view.size() - offset >= 3 && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]))
                    ? encoding_type::UTF8_3BYTE
                    : encoding_type::INVALID;
     }
     if (first >= 0xF0U && first <= 0xF4U) {
         const auto offset_4th = offset + 3;
-        return (view.size() >= 4 && is_continuation_byte(view[offset_2nd]) &&
+        return (view.size() - offset >= 4 && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]) && is_continuation_byte(view[offset_4th]))
                    ? encoding_type::UTF8_4BYTE
                    : encoding_type::INVALID;
-- 
2.43.0


From 8cef6118d1b8cf95fef44f4151ffda06a821a7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:55 +0000
Subject: [PATCH 03/41] fix: round_down_to_power_of_two returned 0 for values
 above 2^63

---
 src/jogasaki/utils/round.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/utils/round.h b/src/jogasaki/utils/round.h
index 4be5f24..50a9450 100644
--- a/src/jogasaki/utils/round.h
+++ b/src/jogasaki/utils/round.h
@@ -38,7 +38,7 @@ namespace jogasaki::utils {
         v |= v >> i;
     }
 
-    return static_cast<std::size_t>(v + 1) >> 1U;
+    return (v >> 1U) + 1U;
 }
 
 [[nodiscard]] constexpr std::size_t round_up_to_power_of_two(std::size_t v) noexcept {
-- 
2.43.0


From 13f72bf1f346cfe2a4cab8a8cb18a84fdb740c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:55 +0000
Subject: [PATCH 04/41] fix: subtract_vectors underflowed when an element
 occurs more often in the subtrahend

---
 src/jogasaki/utils/subtract_vectors.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/utils/subtract_vectors.h b/src/jogasaki/utils/subtract_vectors.h
index 8e68eac..7cc2e45 100644
--- a/src/jogasaki/utils/subtract_vectors.h
+++ b/src/jogasaki/utils/subtract_vectors.h
@@ -28,8 +28,8 @@ std::vector<T> subtract_vectors(std::vector<T> const& x, std::vector<T> const& y
         ++m[e];
     }
     for(auto&& e : y) {
-        if(m.count(e) > 0) {
-            --m[e];
+        if(auto it = m.find(e); it != m.end() && it->second > 0) {
+            --it->second;
         }
     }
     std::vector<T> ret{};
-- 
2.43.0


From 5084e0719c0f72b13c31fea2a6bfd14c0fc3b6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 05/41] fix: wake waiters of a generic_record_stream_impl that
 is the target of a move assignment

---
 src/jogasaki/udf/generic_record_impl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/udf/generic_record_impl.cpp b/src/jogasaki/udf/generic_record_impl.cpp
index dee1d8b..c02d17e 100644
--- a/src/jogasaki/udf/generic_record_impl.cpp
+++ b/src/jogasaki/udf/generic_record_impl.cpp
@@ -361,6 +361,7 @@ generic_record_stream_impl& generic_record_stream_impl::operator=(
         other.closed_ = true;
         other.eos_ = true;
     }
+    cv_.notify_all(); // waiters on this stream now see the records and end-of-stream taken over
     other.cv_.notify_all();
     return *this;
 }
-- 
2.43.0


From db27fa2995ee819d89b449c7a3d4600a29b97c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:24 +0000
Subject: [PATCH 06/41] fix: page_allocation_info refuses sizes whose end
 offset wraps around

---
 src/jogasaki/memory/details/page_allocation_info.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/memory/details/page_allocation_info.cpp b/src/jogasaki/memory/details/page_allocation_info.cpp
index f51a0eb..66e265f 100644
--- a/src/jogasaki/memory/details/page_allocation_info.cpp
+++ b/src/jogasaki/memory/details/page_allocation_info.cpp
@@ -36,11 +36,12 @@ void *page_allocation_info::try_allocate_back(std::size_t bytes, std::size_t ali
     auto ua_next = head + upper_bound_offset_;
     auto next = (ua_next + (alignment - 1)) / alignment * alignment;
     auto next_lower_offset = next - head; // inclusive
-    auto next_upper_offset = next_lower_offset + bytes; // exclusive
 
-    if (next_upper_offset > page_size) {
+    // compare by subtraction, because the sum may wrap around with huge bytes
+    if (next_lower_offset > page_size || bytes > page_size - next_lower_offset) {
         return nullptr;
     }
+    auto next_upper_offset = next_lower_offset + bytes; // exclusive
     // keep track the first alignment padding
     if (lower_bound_offset_ == upper_bound_offset_ && next_lower_offset > lower_bound_offset_) {
         lower_bound_offset_ = next_lower_offset;
-- 
2.43.0


From 229300eaf44249846d67b6236d9c0ca1805a90ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:24 +0000
Subject: [PATCH 07/41] fix: paged memory resources do not keep an unused page
 after refusing an oversized request

---
 src/jogasaki/memory/fifo_paged_memory_resource.cpp | 4 ++++
 src/jogasaki/memory/lifo_paged_memory_resource.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/jogasaki/memory/fifo_paged_memory_resource.cpp b/src/jogasaki/memory/fifo_paged_memory_resource.cpp
index 87539c7..e36231e 100644
--- a/src/jogasaki/memory/fifo_paged_memory_resource.cpp
+++ b/src/jogasaki/memory/fifo_paged_memory_resource.cpp
@@ -99,6 +99,10 @@ void *fifo_paged_memory_resource::do_allocate(std::size_t bytes, std::size_t ali
         return ptr;
     }
 
+    // the request never fits in a page, so do not leave the unused page behind
+    page_pool_->release_page(current.head());
+    pages_.pop_back();
+
     LOG_LP(ERROR) << "invalid memory request bytes:" << bytes << " alignment:" << alignment;
     throw_exception(std::bad_alloc());
 }
diff --git a/src/jogasaki/memory/lifo_paged_memory_resource.cpp b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
index d845adf..c9c91e7 100644
--- a/src/jogasaki/memory/lifo_paged_memory_resource.cpp
+++ b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
@@ -105,6 +105,10 @@ void *lifo_paged_memory_resource::do_allocate(std::size_t bytes, std::size_t ali
         return ptr;
     }
 
+    // the request never fits in a page, so do not leave the unused page behind
+    release_deallocated_page(current.head());
+    pages_.pop_back();
+
     LOG_LP(ERROR) << "invalid memory request bytes:" << bytes << " alignment:" << alignment;
     throw_exception(std::bad_alloc());
 }
-- 
2.43.0


From a0ff58ee1747dce48268b35c3bf683e5a97d1704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:43 +0000
Subject: [PATCH 08/41] fix: restoring a lifo checkpoint keeps the page the
 checkpoint was taken on

---
 src/jogasaki/memory/lifo_paged_memory_resource.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/memory/lifo_paged_memory_resource.cpp b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
index c9c91e7..be10528 100644
--- a/src/jogasaki/memory/lifo_paged_memory_resource.cpp
+++ b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
@@ -69,7 +69,9 @@ void lifo_paged_memory_resource::deallocate_after(lifo_paged_memory_resource::ch
                 std::abort();
             }
             page.upper_bound_offset(point.offset_);
-            if (page.empty()) {
+            // the page that existed when the checkpoint was taken must remain even if empty,
+            // otherwise restoring this (or an outer) checkpoint again fails to find the page
+            if (point.head_ == nullptr && page.empty()) {
                 release_deallocated_page(page.head());
                 pages_.pop_back();
             }
-- 
2.43.0


From ee6664c70cf72eacb83531b73bd17e3ebc01e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:43 +0000
Subject: [PATCH 09/41] fix: fifo deallocate_before keeps the emptied page
 until a later page is reached

---
 src/jogasaki/memory/fifo_paged_memory_resource.cpp | 13 ++++++++++++-
 src/jogasaki/memory/fifo_paged_memory_resource.h   |  3 +++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/memory/fifo_paged_memory_resource.cpp b/src/jogasaki/memory/fifo_paged_memory_resource.cpp
index e36231e..37dca86 100644
--- a/src/jogasaki/memory/fifo_paged_memory_resource.cpp
+++ b/src/jogasaki/memory/fifo_paged_memory_resource.cpp
@@ -36,6 +36,9 @@ fifo_paged_memory_resource::~fifo_paged_memory_resource() {
     for (const auto& p : pages_) {
         page_pool_->release_page(p.head());
     }
+    if (retired_page_) {
+        page_pool_->release_page(retired_page_);
+    }
 }
 
 std::size_t fifo_paged_memory_resource::count_pages() const noexcept {
@@ -54,6 +57,14 @@ void fifo_paged_memory_resource::deallocate_before(fifo_paged_memory_resource::c
     if (point.head_ == nullptr) {
         return;
     }
+    if (retired_page_) {
+        if (retired_page_.address() == point.head_) {
+            // all the region before the checkpoint has already been released
+            return;
+        }
+        page_pool_->release_page(retired_page_);
+        retired_page_ = page_pool::page_info();
+    }
     while (!pages_.empty()) {
         auto&& page = pages_.front();
         if (page.head().address() == point.head_) {
@@ -64,7 +75,7 @@ void fifo_paged_memory_resource::deallocate_before(fifo_paged_memory_resource::c
             }
             page.lower_bound_offset(point.offset_);
             if (page.empty()) {
-                page_pool_->release_page(page.head());
+                retired_page_ = page.head();
                 pages_.pop_front();
             }
             break;
diff --git a/src/jogasaki/memory/fifo_paged_memory_resource.h b/src/jogasaki/memory/fifo_paged_memory_resource.h
index 67ba3a1..b449634 100644
--- a/src/jogasaki/memory/fifo_paged_memory_resource.h
+++ b/src/jogasaki/memory/fifo_paged_memory_resource.h
@@ -106,6 +106,9 @@ protected:
 private:
     page_pool *page_pool_{};
     std::deque<details::page_allocation_info> pages_{};
+    // the page emptied by the last deallocate_before(). Other checkpoints may still point to it,
+    // so it is not returned to the pool until a checkpoint on another page is processed.
+    page_pool::page_info retired_page_{};
 
     details::page_allocation_info& acquire_new_page();
 };
-- 
2.43.0


From bf9c99130e733262f4999ad6ada3d9b71bffacb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:23 +0000
Subject: [PATCH 10/41] fix: check the space for all three fields of a LOB
 reference before writing it

---
 src/jogasaki/serializer/value_output.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jogasaki/serializer/value_output.cpp b/src/jogasaki/serializer/value_output.cpp
index b70c2c1..b1cf071 100644
--- a/src/jogasaki/serializer/value_output.cpp
+++ b/src/jogasaki/serializer/value_output.cpp
@@ -526,6 +526,7 @@ bool write_blob(
         buffer_view::iterator& position,
         buffer_view::const_iterator end) {
     if (buffer_remaining(position, end) < 1
+            + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)) {
         return false;
@@ -544,6 +545,7 @@ bool write_clob(
         buffer_view::iterator& position,
         buffer_view::const_iterator end) {
     if (buffer_remaining(position, end) < 1
+            + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)) {
         return false;
-- 
2.43.0


From feb71efc14241164fd82eb966ab68fbaffe1c2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 11/41] fix: read short negative coefficients of full-form
 decimals

A decimal in full form whose coefficient is negative and shorter than 8
bytes was rejected by an internal assertion instead of being sign-extended.
---
 src/jogasaki/serializer/value_input.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/serializer/value_input.cpp b/src/jogasaki/serializer/value_input.cpp
index 304a995..17055de 100644
--- a/src/jogasaki/serializer/value_input.cpp
+++ b/src/jogasaki/serializer/value_input.cpp
@@ -324,10 +324,15 @@ takatori::decimal::triple read_decimal(buffer_view::const_iterator& position, bu
     if (negative) {
         // sign extension
         if (coefficient.size() < sizeof(std::uint64_t) * 2) {
-            assert_with_exception(coefficient.size() >= sizeof(std::uint64_t), coefficient.size());
             auto mask = std::numeric_limits<std::uint64_t>::max(); // 0xfff.....
-            std::size_t rest = (coefficient.size() - sizeof(std::uint64_t)) * 8U;
-            c_hi |= mask << rest;
+            if (coefficient.size() < sizeof(std::uint64_t)) {
+                std::size_t rest = coefficient.size() * 8U;
+                c_lo |= mask << rest;
+                c_hi = mask;
+            } else {
+                std::size_t rest = (coefficient.size() - sizeof(std::uint64_t)) * 8U;
+                c_hi |= mask << rest;
+            }
         }
 
         c_lo = ~c_lo + 1;
-- 
2.43.0


From 96b31197b0006c35e98433f93ae0d39624c67ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:15 +0000
Subject: [PATCH 12/41] fix: report a missing terminator when reading text at
 the end of the stream

Reading a character field from a stream that has no bytes left returned an
empty value and moved the position past the end of the buffer.
---
 src/jogasaki/kvs/readable_stream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/kvs/readable_stream.h b/src/jogasaki/kvs/readable_stream.h
index 0be2937..a41d82d 100644
--- a/src/jogasaki/kvs/readable_stream.h
+++ b/src/jogasaki/kvs/readable_stream.h
@@ -154,7 +154,9 @@ public:
             }
             ++pos;
         }
-        return pos - pos_;
+        throw_exception(std::domain_error{ //NOLINT
+            string_builder{} << base_filename() << " text terminator not found with pos_:" << pos_ << " capacity_:" << capacity_ << string_builder::to_string //NOLINT
+        });
     }
 
     /**
-- 
2.43.0


From 60339cee94d2fbd764dd14b40687e1cba09a2374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:03 +0000
Subject: [PATCH 13/41] fix: hash decimals by value so that equal decimals go
 to the same partition

---
 src/jogasaki/executor/hash.h | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/jogasaki/executor/hash.h b/src/jogasaki/executor/hash.h
index 55631de..a33d30b 100644
--- a/src/jogasaki/executor/hash.h
+++ b/src/jogasaki/executor/hash.h
@@ -16,6 +16,7 @@
 #pragma once
 
 #include <cstddef>
+#include <cstdint>
 #include <functional>
 
 #include <jogasaki/meta/record_meta.h>
@@ -76,10 +77,35 @@ private:
         hash_value operator()(accessor::const_record_ref a, std::size_t offset) {
             using rtype = runtime_t<K>;
             auto l = a.get_value<rtype>(offset);
+            if constexpr (K == kind::decimal) {
+                l = reduce(l);
+            }
             return std::hash<rtype>{}(l);
         }
     };
 
+    // decimals compare by their numeric value while the hash of triple depends on its representation (e.g. 1.0 and 1.00
+    // are equal, but not as triple), so trailing zeros of the coefficient must be dropped before calculating hash
+    [[nodiscard]] static runtime_t<kind::decimal> reduce(runtime_t<kind::decimal> const& value) noexcept {
+        constexpr std::uint64_t base = 10;
+        auto exponent = value.exponent();
+        auto coefficient =
+            (static_cast<unsigned __int128>(value.coefficient_high()) << 64U) | value.coefficient_low(); //NOLINT
+        if(coefficient == 0) {
+            return {0, 0, 0, 0};
+        }
+        while(coefficient % base == 0) {
+            coefficient /= base;
+            ++exponent;
+        }
+        return {
+            value.sign(),
+            static_cast<std::uint64_t>(coefficient >> 64U), //NOLINT
+            static_cast<std::uint64_t>(coefficient),
+            exponent
+        };
+    }
+
     [[nodiscard]] hash_value hash_field(accessor::const_record_ref record, std::size_t field_index) const {
         if(meta_->nullable(field_index) && record.is_null(meta_->nullity_offset(field_index))) {
             return static_cast<hash_value>(-1);
-- 
2.43.0


From 431590f71082ad710164fda76dc389af712d9583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:31 +0000
Subject: [PATCH 14/41] fix: publish batch error status together with its error
 info

---
 src/jogasaki/executor/batch/batch_execution_state.cpp | 7 +++++--
 src/jogasaki/executor/batch/batch_execution_state.h   | 1 -
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/executor/batch/batch_execution_state.cpp b/src/jogasaki/executor/batch/batch_execution_state.cpp
index 541b98b..c1881cf 100644
--- a/src/jogasaki/executor/batch/batch_execution_state.cpp
+++ b/src/jogasaki/executor/batch/batch_execution_state.cpp
@@ -46,6 +46,7 @@ std::shared_ptr<error::error_info> batch_execution_state::error_info() const noe
 
 bool batch_execution_state::set_error_status(status st, std::shared_ptr<error::error_info> info) noexcept {  //NOLINT(performance-unnecessary-value-param)
     error_aborting_ = true;
+    info->status(st);
     std::shared_ptr<error::error_info> s{};
     s = std::atomic_load(std::addressof(error_info_));
     do {
@@ -59,7 +60,6 @@ bool batch_execution_state::set_error_status(status st, std::shared_ptr<error::e
             return false;
         }
     } while (! std::atomic_compare_exchange_strong(std::addressof(error_info_), std::addressof(s), info));
-    status_code_ = st;
     return true;
 }
 
@@ -83,7 +83,10 @@ bool batch_execution_state::finished() const noexcept {
 }
 
 status batch_execution_state::status_code() const noexcept {
-    return status_code_;
+    // The status is published together with the error info. Otherwise, other thread finishing the execution could
+    // see the error info without its status.
+    auto info = error_info();
+    return info ? info->status() : status::ok;
 }
 
 void finish(batch_execution_info const& info, batch_execution_state& state) {
diff --git a/src/jogasaki/executor/batch/batch_execution_state.h b/src/jogasaki/executor/batch/batch_execution_state.h
index 6a6288a..887a166 100644
--- a/src/jogasaki/executor/batch/batch_execution_state.h
+++ b/src/jogasaki/executor/batch/batch_execution_state.h
@@ -94,7 +94,6 @@ public:
     [[nodiscard]] bool finished() const noexcept;
 
 private:
-    std::atomic<status> status_code_{status::ok};
     std::atomic_bool error_aborting_{false};
     std::atomic_size_t running_statements_{0};
     std::atomic_bool finished_{false};
-- 
2.43.0


From 5e131a4b44a270b91ffba378762ae8dfd83fa5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:36 +0000
Subject: [PATCH 15/41] fix: load files without row groups as empty ones

---
 src/jogasaki/executor/batch/batch_file_executor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/batch/batch_file_executor.cpp b/src/jogasaki/executor/batch/batch_file_executor.cpp
index abc805d..8da3cca 100644
--- a/src/jogasaki/executor/batch/batch_file_executor.cpp
+++ b/src/jogasaki/executor/batch/batch_file_executor.cpp
@@ -53,7 +53,7 @@ std::pair<bool, std::shared_ptr<batch_block_executor>> batch_file_executor::crea
     std::size_t cur{};
     do {
         cur = next_block_index_.load();
-        if(cur > block_count_-1) {
+        if(cur >= block_count_) {
             return {true, nullptr};
         }
     } while (! next_block_index_.compare_exchange_strong(cur, cur+1));
-- 
2.43.0


From eaaf209dd610bcf9d0e0cf04443c1253955f01ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:44 +0000
Subject: [PATCH 16/41] fix: complete batch execution exactly once when blocks
 and files finish concurrently

---
 src/jogasaki/executor/batch/batch_executor.cpp  | 17 ++++++++---------
 .../executor/batch/batch_file_executor.cpp      |  7 +++----
 .../executor/batch/batch_file_executor.h        |  2 +-
 3 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/jogasaki/executor/batch/batch_executor.cpp b/src/jogasaki/executor/batch/batch_executor.cpp
index 4beb30f..f5d6ed7 100644
--- a/src/jogasaki/executor/batch/batch_executor.cpp
+++ b/src/jogasaki/executor/batch/batch_executor.cpp
@@ -65,7 +65,7 @@ std::pair<bool, std::shared_ptr<batch_file_executor>> batch_executor::next_file(
 
         auto [s, block_created] = create_blocks(file);
         if (! s) {
-            release(file.get());
+            // leave releasing to the destruction of this object as other blocks in the file can still be in progress
             return {false, {}};
         }
         if (! block_created) {
@@ -134,10 +134,12 @@ bool batch_executor::bootstrap() {
 std::pair<std::shared_ptr<batch_file_executor>, std::size_t> batch_executor::release(batch_file_executor *arg) {
     std::shared_ptr<batch_file_executor> ret{};
     decltype(children_)::accessor acc{};
-    if (children_.find(acc, arg)) {
-        ret = std::move(acc->second);
-        children_.erase(acc);
+    if (! children_.find(acc, arg)) {
+        // already released by others
+        return {ret, remaining_file_count_};
     }
+    ret = std::move(acc->second);
+    children_.erase(acc);
     auto cnt = --remaining_file_count_;
 
     if(info_.options().release_file_cb()) {
@@ -180,11 +182,8 @@ void batch_executor::end_of_file(batch_file_executor *arg) {
     auto [f, cnt] = release(arg);
     (void) f;
 
-    if (file) {
-        return;
-    }
-
-    // no more file
+    // even if next file is found, it can be already completed (by other threads) before releasing `arg`, so depend only
+    // on the remaining count
     if(cnt != 0) {
         // other files are in progress, so leave finalizing batch to it
         return;
diff --git a/src/jogasaki/executor/batch/batch_file_executor.cpp b/src/jogasaki/executor/batch/batch_file_executor.cpp
index 8da3cca..fc951b4 100644
--- a/src/jogasaki/executor/batch/batch_file_executor.cpp
+++ b/src/jogasaki/executor/batch/batch_file_executor.cpp
@@ -158,6 +158,7 @@ std::shared_ptr<batch_execution_state> const &batch_file_executor::state() const
 }
 
 void batch_file_executor::end_of_block(batch_block_executor *arg) {
+    auto keep = shared_from_this(); // on releasing the last block, other thread can release this object
     auto [success, next] = next_block();
     if(! success) {
         return;
@@ -166,10 +167,8 @@ void batch_file_executor::end_of_block(batch_block_executor *arg) {
     auto [self, cnt] = release(arg); // keep self by the end of this scope
     (void) self;
 
-    if(next) {
-        return;
-    }
-
+    // even if next block is found, it can be already completed (by other threads) before releasing `arg`, so depend only
+    // on the remaining count
     if(cnt != 0) {
         // other block in the file are in progress, so leave finalizing file to it
         return;
diff --git a/src/jogasaki/executor/batch/batch_file_executor.h b/src/jogasaki/executor/batch/batch_file_executor.h
index 08a553a..8fdcc33 100644
--- a/src/jogasaki/executor/batch/batch_file_executor.h
+++ b/src/jogasaki/executor/batch/batch_file_executor.h
@@ -43,7 +43,7 @@ class batch_executor;
  * @brief batch file executor
  * @details part of the block executor object tree and handles one of the bulk files for batch execution
  */
-class cache_align batch_file_executor {
+class cache_align batch_file_executor : public std::enable_shared_from_this<batch_file_executor> {
 public:
 
     /**
-- 
2.43.0


From 4f29d32937bf0b796be661f83216e86e3cf1090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:56 +0000
Subject: [PATCH 17/41] fix: avoid overflow on checking the range of the next
 sequence value

---
 src/jogasaki/executor/sequence/sequence.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jogasaki/executor/sequence/sequence.cpp b/src/jogasaki/executor/sequence/sequence.cpp
index 3a7625e..4b4ae4d 100644
--- a/src/jogasaki/executor/sequence/sequence.cpp
+++ b/src/jogasaki/executor/sequence/sequence.cpp
@@ -16,6 +16,7 @@
 #include "sequence.h"
 
 #include <atomic>
+#include <memory>
 #include <utility>
 
 #include <jogasaki/common_types.h>
@@ -53,20 +54,20 @@ either<sequence_error, sequence_value> sequence::next(kvs::transaction& tx) {
             continue;
         }
         sequence_value val{};
-        if (info_->increment() > 0 && info_->maximum_value() - cur.value_ < info_->increment()) {
+        // the distance to the end of the range can be larger than max of sequence_value, so check the sum instead
+        bool overflow = __builtin_add_overflow(cur.value_, info_->increment(), std::addressof(val));
+        if (info_->increment() > 0 && (overflow || val > info_->maximum_value())) {
             if(info_->cycle()) {
                 val = info_->minimum_value();
             } else {
                 return sequence_error::out_of_upper_bound;
             }
-        } else if (info_->increment() < 0 && cur.value_ - info_->minimum_value() < -info_->increment()) {
+        } else if (info_->increment() < 0 && (overflow || val < info_->minimum_value())) {
             if(info_->cycle()) {
                 val = info_->maximum_value();
             } else {
                 return sequence_error::out_of_lower_bound;
             }
-        } else {
-            val = cur.value_ + info_->increment();
         }
         next = {cur.version_ + 1, val};
     } while(! body_.compare_exchange_strong(cur, next));
-- 
2.43.0


From 1620a51198b159faaee8b59d1ad0ce07af465f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:47 +0000
Subject: [PATCH 18/41] fix: avoid deadlock between storage lookups by name or
 key and removal of the storage

---
 src/jogasaki/storage/storage_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jogasaki/storage/storage_manager.cpp b/src/jogasaki/storage/storage_manager.cpp
index 759c26f..dcdecb2 100644
--- a/src/jogasaki/storage/storage_manager.cpp
+++ b/src/jogasaki/storage/storage_manager.cpp
@@ -280,6 +280,7 @@ std::optional<std::string> storage_manager::get_storage_key(std::string_view nam
         return std::nullopt;
     }
     auto entry = acc->second;
+    acc.release(); // never wait for storages_ holding this lock, as remove/reserve lock in the opposite order
 
     decltype(storages_)::const_accessor storages_acc{};
     if (! storages_.find(storages_acc, entry)) {
@@ -294,6 +295,7 @@ std::optional<std::string> storage_manager::get_index_name(std::string_view stor
         return std::nullopt;
     }
     auto entry = acc->second;
+    acc.release(); // never wait for storages_ holding this lock, as remove/reserve lock in the opposite order
 
     decltype(storages_)::const_accessor storages_acc{};
     if (! storages_.find(storages_acc, entry)) {
-- 
2.43.0


From a616c07f72ec4563616b63dadbdf9fb83c004d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:10 +0000
Subject: [PATCH 19/41] fix: forget the null flags on resetting value_store

---
 src/jogasaki/data/value_store.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/data/value_store.h b/src/jogasaki/data/value_store.h
index b09de86..519efd8 100644
--- a/src/jogasaki/data/value_store.h
+++ b/src/jogasaki/data/value_store.h
@@ -634,6 +634,7 @@ public:
         prev_ = nullptr;
         ranges_.clear();
         null_prev_ = nullptr;
+        null_flag_base_ = nullptr;
     }
 
 private:
-- 
2.43.0


From d66ecca9dca0327ca289be29bced30a0d54df35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:10 +0000
Subject: [PATCH 20/41] fix: locate null flags of value_store correctly after
 the first range

---
 src/jogasaki/data/value_store.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/data/value_store.h b/src/jogasaki/data/value_store.h
index 519efd8..cfa69ff 100644
--- a/src/jogasaki/data/value_store.h
+++ b/src/jogasaki/data/value_store.h
@@ -108,7 +108,8 @@ public:
         range_(range),
         base_(base),
         offset_(offset),
-        null_flag_base_(null_flag_base)
+        null_flag_base_(null_flag_base),
+        null_flag_offset_(offset)
     {}
 
     /**
@@ -136,6 +137,7 @@ public:
      */
     iterator& operator++() {
         ++offset_;
+        ++null_flag_offset_;
         if (offset_ >= static_cast<std::size_t>(range_->e_ - range_->b_)) {
             ++range_;
             if(range_ != ranges_->end()) {
@@ -179,7 +181,7 @@ public:
         if (null_flag_base_ == nullptr) {
             return false;
         }
-        return *(null_flag_base_ + offset_) == static_cast<null_flag_type>(1);
+        return *(null_flag_base_ + null_flag_offset_) == static_cast<null_flag_type>(1);
     }
 
     /// @brief equivalent comparison
@@ -217,6 +219,8 @@ private:
     value_pointer base_{};
     std::size_t offset_{};
     null_flag_const_pointer null_flag_base_{};
+    // null flags are contiguous over the ranges, so their offset is not reset on moving to the next range
+    std::size_t null_flag_offset_{};
 };
 
 class cache_align typed_store {
-- 
2.43.0


From 9b956d5cdf4c9f5c1bb933c596ce022e4edb79ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:46 +0000
Subject: [PATCH 21/41] fix: serialize use of memory resources by the producer
 and the consumer of fifo_record_store

---
 src/jogasaki/data/fifo_record_store.cpp | 3 +++
 src/jogasaki/data/fifo_record_store.h   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/jogasaki/data/fifo_record_store.cpp b/src/jogasaki/data/fifo_record_store.cpp
index 27367db..2b1ebe1 100644
--- a/src/jogasaki/data/fifo_record_store.cpp
+++ b/src/jogasaki/data/fifo_record_store.cpp
@@ -28,6 +28,7 @@ namespace jogasaki::data {
 
 fifo_record_store::record_pointer fifo_record_store::push(accessor::const_record_ref record) {
     // this is spsc queue and only one thread call the function at a time
+    std::lock_guard lock{resource_mutex_};
     auto* p = resource_->allocate(positive_record_size_, meta_->record_alignment());
     if (!p) std::abort();
     auto cp = varlen_resource_->get_checkpoint();
@@ -38,6 +39,7 @@ fifo_record_store::record_pointer fifo_record_store::push(accessor::const_record
 }
 
 bool fifo_record_store::try_pop(accessor::record_ref& out) {
+    std::lock_guard lock{resource_mutex_};
     // when next record is requested, the previous record can be deallocated
     if(prev_) {
         resource_->deallocate(prev_, positive_record_size_, meta_->record_alignment());
@@ -60,6 +62,7 @@ bool fifo_record_store::try_pop(accessor::record_ref& out) {
 }
 
 fifo_record_store::record_pointer fifo_record_store::allocate_record() {
+    std::lock_guard lock{resource_mutex_};
     auto* p = resource_->allocate(positive_record_size_, meta_->record_alignment());
     if (!p) std::abort();
     auto cp = varlen_resource_->get_checkpoint();
diff --git a/src/jogasaki/data/fifo_record_store.h b/src/jogasaki/data/fifo_record_store.h
index a2544b2..d669028 100644
--- a/src/jogasaki/data/fifo_record_store.h
+++ b/src/jogasaki/data/fifo_record_store.h
@@ -16,6 +16,7 @@
 #pragma once
 
 #include <cstring>
+#include <mutex>
 #include <vector>
 
 #include <takatori/util/maybe_shared_ptr.h>
@@ -134,6 +135,8 @@ private:
     tbb::concurrent_queue<queue_entry> queue_{};
     record_pointer prev_{};
     checkpoint prev_cp_{};
+    // memory resources are not thread-safe while the producer and the consumer (that releases popped records) share them
+    std::mutex resource_mutex_{};
 
 };
 
-- 
2.43.0


From c3d684ef30b724f5cd2e0c965c84f22dcdcd324b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:53 +0000
Subject: [PATCH 22/41] fix: create the store of a forward exchange partition
 before its writer and reader run concurrently

---
 .../executor/exchange/forward/input_partition.cpp    | 12 +++++++-----
 .../executor/exchange/forward/input_partition.h      |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/jogasaki/executor/exchange/forward/input_partition.cpp b/src/jogasaki/executor/exchange/forward/input_partition.cpp
index 2d1c13d..97666e8 100644
--- a/src/jogasaki/executor/exchange/forward/input_partition.cpp
+++ b/src/jogasaki/executor/exchange/forward/input_partition.cpp
@@ -35,7 +35,9 @@ input_partition::input_partition(
     std::shared_ptr<forward_info> info
 ) :
     info_(std::move(info))
-{}
+{
+    initialize();
+}
 
 input_partition::input_partition(
     std::unique_ptr<memory::fifo_paged_memory_resource> resource,
@@ -45,15 +47,15 @@ input_partition::input_partition(
     resource_(std::move(resource)),
     varlen_resource_(std::move(varlen_resource)),
     info_(std::move(info))
-{}
+{
+    initialize();
+}
 
 void input_partition::push(accessor::record_ref record) {
-    initialize_lazy();
     records_->push(record);
 }
 
 bool input_partition::try_pop(accessor::record_ref& out) {
-    initialize_lazy();
     return records_->try_pop(out);
 }
 
@@ -61,7 +63,7 @@ void input_partition::flush() {
     // no-op
 }
 
-void input_partition::initialize_lazy() {
+void input_partition::initialize() {
     if (! resource_) {
         resource_=
             std::make_unique<memory::fifo_paged_memory_resource>(std::addressof(global::page_pool()));
diff --git a/src/jogasaki/executor/exchange/forward/input_partition.h b/src/jogasaki/executor/exchange/forward/input_partition.h
index 6631615..36dbba1 100644
--- a/src/jogasaki/executor/exchange/forward/input_partition.h
+++ b/src/jogasaki/executor/exchange/forward/input_partition.h
@@ -111,7 +111,7 @@ private:
     std::unique_ptr<data::fifo_record_store> records_{};
     std::atomic_bool active_{true};
 
-    void initialize_lazy();
+    void initialize();
 };
 
 }  // namespace jogasaki::executor::exchange::forward
-- 
2.43.0


From a42104539f2ae584723b0e3d91cc5dc23883130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:51 +0000
Subject: [PATCH 23/41] fix: delimit groups of sorted_vector_reader by the
 group key only

---
 .../executor/exchange/group/sorted_vector_reader.cpp  | 11 ++++++-----
 .../executor/exchange/group/sorted_vector_reader.h    |  1 +
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp b/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp
index 02da745..468430e 100644
--- a/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp
+++ b/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp
@@ -42,7 +42,8 @@ sorted_vector_reader::sorted_vector_reader(
     info_(std::move(info)),
     record_size_(info_->record_meta()->record_size()),
     buf_(std::make_unique<char[]>(record_size_)), //NOLINT
-    key_comparator_(info_->sort_compare_info())
+    key_comparator_(info_->compare_info()),
+    sort_key_comparator_(info_->sort_compare_info())
 {
     std::size_t count = 0;
     for(auto& p : partitions_) {
@@ -87,7 +88,7 @@ accessor::record_ref sorted_vector_reader::get_group() const {
 }
 
 void sorted_vector_reader::discard_remaining_members_in_group() {
-    auto k = info_->extract_sort_key(accessor::record_ref(buf_.get(), record_size_));
+    auto k = info_->extract_key(accessor::record_ref(buf_.get(), record_size_));
     while(current_ != aggregated_pointer_table_.end()) {
         if (key_comparator_(k, info_->extract_key(accessor::record_ref(*current_, record_size_))) != 0) {
             break;
@@ -115,8 +116,8 @@ bool sorted_vector_reader::next_member() {
             return false;
         }
         if (key_comparator_(
-                info_->extract_sort_key(accessor::record_ref(buf_.get(), record_size_)),
-                info_->extract_sort_key(accessor::record_ref(*current_, record_size_))) == 0) {
+                info_->extract_key(accessor::record_ref(buf_.get(), record_size_)),
+                info_->extract_key(accessor::record_ref(*current_, record_size_))) == 0) {
             read_and_pop();
             ++record_count_per_group_;
             return true;
@@ -168,7 +169,7 @@ void sorted_vector_reader::init_aggregated_table() {  //NOLINT(readability-funct
             aggregated_pointer_table_.begin(),
             aggregated_pointer_table_.end(),
             [&](auto const&x, auto const& y) {
-                return key_comparator_(
+                return sort_key_comparator_(
                     info_->extract_sort_key(accessor::record_ref(x, sz)),
                     info_->extract_sort_key(accessor::record_ref(y, sz))) < 0;
             }
diff --git a/src/jogasaki/executor/exchange/group/sorted_vector_reader.h b/src/jogasaki/executor/exchange/group/sorted_vector_reader.h
index d72c98f..8d6fb74 100644
--- a/src/jogasaki/executor/exchange/group/sorted_vector_reader.h
+++ b/src/jogasaki/executor/exchange/group/sorted_vector_reader.h
@@ -79,6 +79,7 @@ private:
     std::unique_ptr<char[]> buf_{}; //NOLINT
     reader_state state_{reader_state::init};
     comparator key_comparator_{};
+    comparator sort_key_comparator_{};
     std::vector<pointer> aggregated_pointer_table_{};
     bool aggregated_pointer_table_initialized = false;
     std::vector<pointer>::iterator current_{};
-- 
2.43.0


From d5814c75a04531d2eae69825dc92228b9381493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:53 +0000
Subject: [PATCH 24/41] fix: count equal decimals and NaNs once in
 count(distinct)

---
 .../executor/function/builtin_functions.cpp   | 34 ++++++++++++--
 src/jogasaki/executor/hash.h                  | 45 ++++++++++---------
 2 files changed, 56 insertions(+), 23 deletions(-)

diff --git a/src/jogasaki/executor/function/builtin_functions.cpp b/src/jogasaki/executor/function/builtin_functions.cpp
index 3858981..8e18306 100644
--- a/src/jogasaki/executor/function/builtin_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_functions.cpp
@@ -15,12 +15,14 @@
  */
 #include "builtin_functions.h"
 
+#include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <memory>
 #include <sstream>
 #include <string>
 #include <string_view>
+#include <type_traits>
 #include <variant>
 #include <boost/container/pmr/polymorphic_allocator.hpp>
 #include <tsl/hopscotch_hash.h>
@@ -47,6 +49,7 @@
 #include <jogasaki/accessor/binary.h>
 #include <jogasaki/accessor/record_ref.h>
 #include <jogasaki/accessor/text.h>
+#include <jogasaki/executor/equal_to.h>
 #include <jogasaki/executor/function/aggregate_function_info.h>
 #include <jogasaki/executor/function/aggregate_function_kind.h>
 #include <jogasaki/executor/function/aggregate_function_repository.h>
@@ -54,6 +57,7 @@
 #include <jogasaki/executor/function/field_locator.h>
 #include <jogasaki/executor/function/value_generator.h>
 #include <jogasaki/executor/global.h>
+#include <jogasaki/executor/hash.h>
 #include <jogasaki/memory/monotonic_paged_memory_resource.h>
 #include <jogasaki/memory/page_pool.h>
 #include <jogasaki/meta/field_type.h>
@@ -238,11 +242,35 @@ namespace builtin {
 
 namespace details {
 
+// values equal for comparison (e.g. decimals 1.0 and 1.00, NaNs) must be counted once, so hash/equivalence have to follow
+// that of executor::equal_to
+template <class T>
+struct distinct_hash {
+    std::size_t operator()(T const& value) const {
+        if constexpr (std::is_floating_point_v<T>) {
+            if(std::isnan(value)) {
+                return static_cast<std::size_t>(-1);
+            }
+        }
+        if constexpr (std::is_same_v<T, runtime_t<kind::decimal>>) {
+            return std::hash<T>{}(executor::hash::reduce(value));
+        }
+        return std::hash<T>{}(value);
+    }
+};
+
+template <class T>
+struct distinct_equal {
+    bool operator()(T const& x, T const& y) const {
+        return equal_to<T>(x, y);
+    }
+};
+
 template<class T>
 static std::int64_t count_distinct(data::value_store const& store) {
     using bucket_type = tsl::detail_hopscotch_hash::hopscotch_bucket<T, 62, false>;
     using hash_table_allocator = boost::container::pmr::polymorphic_allocator<T>;
-    using hash_set = tsl::hopscotch_set<T, std::hash<T>, std::equal_to<>, hash_table_allocator>;
+    using hash_set = tsl::hopscotch_set<T, distinct_hash<T>, distinct_equal<T>, hash_table_allocator>;
     // hopscotch default power_of_two_growth_policy forces the # of buckets to be power of two,
     // so round down here to avoid going over allocator limit
     constexpr static std::size_t default_initial_hash_table_size =
@@ -254,8 +282,8 @@ static std::int64_t count_distinct(data::value_store const& store) {
     memory::monotonic_paged_memory_resource resource{&global::page_pool()};
     hash_set values{
         default_initial_hash_table_size,
-        std::hash<T>{},
-        std::equal_to<>{},
+        distinct_hash<T>{},
+        distinct_equal<T>{},
         hash_table_allocator{&resource}
     };
     while(b != e) {
diff --git a/src/jogasaki/executor/hash.h b/src/jogasaki/executor/hash.h
index a33d30b..c3c9376 100644
--- a/src/jogasaki/executor/hash.h
+++ b/src/jogasaki/executor/hash.h
@@ -67,26 +67,14 @@ public:
         return operator()(accessor::record_ref(ptr, meta_->record_size()));
     }
 
-private:
-    meta::record_meta const* meta_{};
-
-    using kind = meta::field_type_kind;
-
-    template <kind K>
-    struct hash_calculator {
-        hash_value operator()(accessor::const_record_ref a, std::size_t offset) {
-            using rtype = runtime_t<K>;
-            auto l = a.get_value<rtype>(offset);
-            if constexpr (K == kind::decimal) {
-                l = reduce(l);
-            }
-            return std::hash<rtype>{}(l);
-        }
-    };
-
-    // decimals compare by their numeric value while the hash of triple depends on its representation (e.g. 1.0 and 1.00
-    // are equal, but not as triple), so trailing zeros of the coefficient must be dropped before calculating hash
-    [[nodiscard]] static runtime_t<kind::decimal> reduce(runtime_t<kind::decimal> const& value) noexcept {
+    /**
+     * @brief reduce decimal value to its representation without trailing zeros
+     * @details decimals compare by their numeric value while the hash of triple depends on its representation (e.g. 1.0
+     * and 1.00 are equal, but not as triple), so trailing zeros of the coefficient must be dropped before calculating hash
+     * @param value the decimal value
+     * @return the reduced decimal value, which is same for all values comparing equal
+     */
+    [[nodiscard]] static runtime_t<meta::field_type_kind::decimal> reduce(runtime_t<meta::field_type_kind::decimal> const& value) noexcept {
         constexpr std::uint64_t base = 10;
         auto exponent = value.exponent();
         auto coefficient =
@@ -106,6 +94,23 @@ private:
         };
     }
 
+private:
+    meta::record_meta const* meta_{};
+
+    using kind = meta::field_type_kind;
+
+    template <kind K>
+    struct hash_calculator {
+        hash_value operator()(accessor::const_record_ref a, std::size_t offset) {
+            using rtype = runtime_t<K>;
+            auto l = a.get_value<rtype>(offset);
+            if constexpr (K == kind::decimal) {
+                l = reduce(l);
+            }
+            return std::hash<rtype>{}(l);
+        }
+    };
+
     [[nodiscard]] hash_value hash_field(accessor::const_record_ref record, std::size_t field_index) const {
         if(meta_->nullable(field_index) && record.is_null(meta_->nullity_offset(field_index))) {
             return static_cast<hash_value>(-1);
-- 
2.43.0


From 920927daa09d527b3dba18f131bce21fadc5a0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:28 +0000
Subject: [PATCH 25/41] fix: match secondary index keys on primary key columns
 regardless of the direction

---
 src/jogasaki/index/secondary_target.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/index/secondary_target.cpp b/src/jogasaki/index/secondary_target.cpp
index 8259fba..38a6e47 100644
--- a/src/jogasaki/index/secondary_target.cpp
+++ b/src/jogasaki/index/secondary_target.cpp
@@ -157,7 +157,7 @@ secondary_target::field_mapping_type secondary_target::create_fields(
     for(auto&& k : idx.keys()) {
         bool found = false;
         for(std::size_t i=0, n=primary->keys().size(); i<n; ++i) {
-            if(primary->keys().at(i) == k) {
+            if(primary->keys().at(i).column() == k.column()) {
                 auto spec = k.direction() == takatori::relation::sort_direction::ascendant ?
                     kvs::spec_key_ascending : kvs::spec_key_descending;
                 ret.emplace_back(
-- 
2.43.0


From ed85a4907ad03b5811189ca604a57c7c5570d68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:20 +0000
Subject: [PATCH 26/41] fix: index join must not ignore failure of finding the
 primary entry

matcher::process()/next() returned false without updating the status when
index_field_mapper::process() failed (e.g. the primary entry pointed by the
secondary index entry is missing or concurrently modified). The operator then
took it for 'no match', ended successfully and, for left outer/anti join, even
sent a wrong row downstream although the transaction was already aborted.
---
 .../executor/process/impl/ops/index_matcher.h | 39 ++++++++++---------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/jogasaki/executor/process/impl/ops/index_matcher.h b/src/jogasaki/executor/process/impl/ops/index_matcher.h
index 4a10e87..aba3013 100644
--- a/src/jogasaki/executor/process/impl/ops/index_matcher.h
+++ b/src/jogasaki/executor/process/impl/ops/index_matcher.h
@@ -184,15 +184,16 @@ public:
                 handle_generic_error(ctx, res, error_code::sql_execution_exception);
                 return false;
             }
-            return field_mapper_.process(
-                       key,
-                       value,
-                       variables.ref(),
-                       primary_stg,
-                       tx,
-                       resource,
-                       ctx
-                   ) == status::ok;
+            status_ = field_mapper_.process(
+                key,
+                value,
+                variables.ref(),
+                primary_stg,
+                tx,
+                resource,
+                ctx
+            );
+            return status_ == status::ok;
         }
         // handle secondary index
         if(auto res = secondary_stg->content_scan(
@@ -332,15 +333,17 @@ public:
                 it_.reset();
                 return false;
             }
-            return field_mapper_.process(
-                       key,
-                       value,
-                       output_ref_,
-                       *primary_storage_,
-                       *tx_,
-                       resource_,
-                       ctx
-                   ) == status::ok;
+            // finding the primary entry can fail - keep the status so that the caller can detect it by result()
+            status_ = field_mapper_.process(
+                key,
+                value,
+                output_ref_,
+                *primary_storage_,
+                *tx_,
+                resource_,
+                ctx
+            );
+            return status_ == status::ok;
         }
     }
 
-- 
2.43.0


From e3894ac068d1a4fd77f83257e371e1a56d207e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:58 +0000
Subject: [PATCH 27/41] fix: left outer index join sends one null-extended row
 per left row at most

With a join condition and two or more index entries matching the search key,
the operator sent a null-extended row for every entry that did not satisfy the
condition, even when another entry satisfied it. LEFT OUTER JOIN must return
the null-extended row only once and only if no entry satisfies the condition.
---
 .../executor/process/impl/ops/index_join.h     | 18 +++++++++++-------
 .../process/impl/ops/index_join_context.h      |  2 ++
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/jogasaki/executor/process/impl/ops/index_join.h b/src/jogasaki/executor/process/impl/ops/index_join.h
index d49355c..fba5b0e 100644
--- a/src/jogasaki/executor/process/impl/ops/index_join.h
+++ b/src/jogasaki/executor/process/impl/ops/index_join.h
@@ -410,7 +410,8 @@ public:
             return operation_status_kind::ok;
         }
         // inner or left_outer join
-        if(ctx.matched_ || join_kind_ == join_kind::left_outer) {
+        ctx.row_sent_ = false;
+        if(ctx.matched_) {
             do {
                 if (condition_) {
                     // newly create c instead of re-using ectx since errors in ectx might have bad impact //TODO resolve this
@@ -427,14 +428,10 @@ public:
                         return operation_status_kind::aborted;
                     }
                     if(! r.template to<bool>()) {
-                        if(join_kind_ != join_kind::left_outer) {
-                            // inner join: skip record
-                            continue;
-                        }
-                        // left outer join: nullify output variables and send record downstream
-                        nullify_output_variables(ctx.variables().ref());
+                        continue;
                     }
                 }
+                ctx.row_sent_ = true;
 resume_calling_child:
                 if (auto call_st = call_downstream(ctx, context); ! call_st) {
                     return call_st;
@@ -449,6 +446,13 @@ resume_calling_child:
             ctx.abort();
             return operation_status_kind::aborted;
         }
+        if(join_kind_ == join_kind::left_outer && ! ctx.row_sent_) {
+            // left outer join: no candidate satisfied the condition, so send exactly one record with null outputs
+            nullify_output_variables(ctx.variables().ref());
+            ctx.matched_ = false; // nothing left to scan even if the downstream yields and this operator is resumed
+            ctx.row_sent_ = true;
+            goto resume_calling_child;  //NOLINT
+        }
         return operation_status_kind::ok;
     }
 
diff --git a/src/jogasaki/executor/process/impl/ops/index_join_context.h b/src/jogasaki/executor/process/impl/ops/index_join_context.h
index c8e7305..aa8c14e 100644
--- a/src/jogasaki/executor/process/impl/ops/index_join_context.h
+++ b/src/jogasaki/executor/process/impl/ops/index_join_context.h
@@ -102,6 +102,8 @@ private:
 
     // frame variables for yield
     bool matched_{};
+    // whether a record has been sent downstream for the current left row (used by inner/left_outer)
+    bool row_sent_{false};
 };
 
 }  // namespace jogasaki::executor::process::impl::ops
-- 
2.43.0


From 20050cc67b46edf31e3b4ed9006ded7b560375aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:21 +0000
Subject: [PATCH 28/41] fix: full outer join must not evaluate the condition
 when left group is empty

Right records without any left record of the same key were paired with a null
left record to evaluate the join condition. If the evaluation fails (e.g. by
overflow), the statement is aborted though no such pair of records exists.
---
 src/jogasaki/executor/process/impl/ops/join.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/process/impl/ops/join.h b/src/jogasaki/executor/process/impl/ops/join.h
index ab2a39a..b0fe176 100644
--- a/src/jogasaki/executor/process/impl/ops/join.h
+++ b/src/jogasaki/executor/process/impl/ops/join.h
@@ -342,7 +342,8 @@ resume_calling_child_3:
                 ctx.unmatched_right_.flip(); // initially all right records are unmatched
                 do {
                     ctx.exists_match_ = false;
-                    if(ctx.secondary_group_available_) {
+                    // if left is empty, there is no pair to evaluate the condition with
+                    if(ctx.secondary_group_available_ && ! cgrp.groups()[0].empty()) {
                         ctx.secondary_group_pos_ = 0;
                         do {
                             {
-- 
2.43.0


From 52a68c3629cc419f49886040ea9fb55c3099b335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:06 +0000
Subject: [PATCH 29/41] fix: null default value for a non-nullable column must
 fail the insert

---
 src/jogasaki/executor/wrt/fill_record_fields.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/wrt/fill_record_fields.cpp b/src/jogasaki/executor/wrt/fill_record_fields.cpp
index c5cc149..c88b1de 100644
--- a/src/jogasaki/executor/wrt/fill_record_fields.cpp
+++ b/src/jogasaki/executor/wrt/fill_record_fields.cpp
@@ -155,7 +155,9 @@ status fill_default_value(
             break;
         case process::impl::ops::default_value_kind::immediate: {
             auto src = f.immediate_value_;
-            assign_value_to_field(f, src, ctx, resource, out);
+            if (auto res = assign_value_to_field(f, src, ctx, resource, out); res != status::ok) {
+                return res;
+            }
             break;
         }
         case process::impl::ops::default_value_kind::sequence: {
@@ -191,7 +193,9 @@ status fill_default_value(
                 );
                 return rc;
             }
-            assign_value_to_field(f, src, ctx, resource, out);
+            if (auto res = assign_value_to_field(f, src, ctx, resource, out); res != status::ok) {
+                return res;
+            }
             break;
         }
     }
-- 
2.43.0


From 4e639e01e5ce1f8b7623a92a767a8cb88247ff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:01 +0000
Subject: [PATCH 30/41] fix: start the tasks of a step only once even if the
 consume event is generated multiple times

---
 src/jogasaki/scheduler/dag_controller_impl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jogasaki/scheduler/dag_controller_impl.cpp b/src/jogasaki/scheduler/dag_controller_impl.cpp
index 0853d02..9dec0cc 100644
--- a/src/jogasaki/scheduler/dag_controller_impl.cpp
+++ b/src/jogasaki/scheduler/dag_controller_impl.cpp
@@ -112,6 +112,10 @@ void dag_controller::impl::operator()(enum_tag_t<internal_event_kind::prepare>,
 }
 
 void dag_controller::impl::operator()(enum_tag_t<internal_event_kind::consume>, internal_event&, step* s) {
+    // the event can be generated multiple times (e.g. steps connected by multiple ports), start the tasks only once
+    if(steps_[s->id()].state_ != step_state_kind::prepared) {
+        return;
+    }
     start_running(*s);
 }
 
-- 
2.43.0


From ff4637b11cafd4d0c2182f27b59885d80d4d1a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:08 +0000
Subject: [PATCH 31/41] fix: integer division and remainder of the minimum
 value by -1 must not crash

---
 src/jogasaki/executor/expr/evaluator.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/jogasaki/executor/expr/evaluator.cpp b/src/jogasaki/executor/expr/evaluator.cpp
index d8eec51..bda2ac6 100644
--- a/src/jogasaki/executor/expr/evaluator.cpp
+++ b/src/jogasaki/executor/expr/evaluator.cpp
@@ -16,6 +16,7 @@
 #include "evaluator.h"
 
 #include <cstdlib>
+#include <limits>
 #include <decimal.hh>
 #include <exception>
 #include <string>
@@ -326,6 +327,18 @@ divide(T const& l, T const& r, evaluator_context& ctx) {
         e.new_argument() << r;
         return any{std::in_place_type<class error>, error_kind::arithmetic_error};
     }
+    if constexpr (std::is_integral_v<T>) {
+        if (r == static_cast<T>(-1) && l == std::numeric_limits<T>::min()) {
+            // the quotient is not representable and the division traps on some platforms
+            auto& e = ctx.add_error(
+                {error_kind::arithmetic_error,
+                 "arithmetic error while performing division"}
+            );
+            e.new_argument() << l;
+            e.new_argument() << r;
+            return any{std::in_place_type<class error>, error_kind::arithmetic_error};
+        }
+    }
     return any{std::in_place_type<T>, l/r};
 }
 
@@ -351,6 +364,12 @@ remainder(T const& l, T const& r, evaluator_context& ctx) {
         e.new_argument() << r;
         return any{std::in_place_type<class error>, error_kind::arithmetic_error};
     }
+    if constexpr (std::is_integral_v<T>) {
+        if (r == static_cast<T>(-1)) {
+            // the result is always zero, while the minimum value % -1 traps on some platforms
+            return any{std::in_place_type<T>, static_cast<T>(0)};
+        }
+    }
     return any{std::in_place_type<T>, l%r};
 }
 
-- 
2.43.0


From 25ccb9e7d413d9a895eb852e2c34836e03ff833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:08 +0000
Subject: [PATCH 32/41] fix: cast must return the error of its operand as is

---
 src/jogasaki/executor/expr/evaluator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/expr/evaluator.cpp b/src/jogasaki/executor/expr/evaluator.cpp
index bda2ac6..05a11e4 100644
--- a/src/jogasaki/executor/expr/evaluator.cpp
+++ b/src/jogasaki/executor/expr/evaluator.cpp
@@ -660,7 +660,7 @@ static loss_precision_policy from(takatori::scalar::cast_loss_policy t) {
 
 any engine::operator()(takatori::scalar::cast const& exp) {
     auto v = dispatch(*this, exp.operand());
-    if (! v) return v;
+    if (! v || v.error()) return v;
     auto& src_type = info_.type_of(exp.operand());
     auto& tgt_type = exp.type();
 
-- 
2.43.0


From 8e9cd885e4e9e8e81662ffd0337cc8db7e6a740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:08 +0000
Subject: [PATCH 33/41] fix: conditional expression must return the error of
 its body as is

---
 src/jogasaki/executor/expr/evaluator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jogasaki/executor/expr/evaluator.cpp b/src/jogasaki/executor/expr/evaluator.cpp
index 05a11e4..daefbe2 100644
--- a/src/jogasaki/executor/expr/evaluator.cpp
+++ b/src/jogasaki/executor/expr/evaluator.cpp
@@ -986,6 +986,9 @@ static any convert_return_type_if_needed(
     any const& v,
     engine::memory_resource* resource
 ) {
+    if(v.error()) {
+        return v;
+    }
     auto& src_type = info.type_of(e);
     if(conv::to_require_conversion(src_type, dest_type)) {
         data::any converted{};
-- 
2.43.0


From b93afb58ba2a3ef58a2439e284bc87918133d64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:08 +0000
Subject: [PATCH 34/41] fix: LIKE must resume matching after any-length
 wildcard at character boundary

---
 src/jogasaki/executor/expr/evaluator.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/executor/expr/evaluator.cpp b/src/jogasaki/executor/expr/evaluator.cpp
index daefbe2..d90850d 100644
--- a/src/jogasaki/executor/expr/evaluator.cpp
+++ b/src/jogasaki/executor/expr/evaluator.cpp
@@ -15,6 +15,7 @@
  */
 #include "evaluator.h"
 
+#include <algorithm>
 #include <cstdlib>
 #include <limits>
 #include <decimal.hh>
@@ -787,6 +788,14 @@ static std::vector<token> tokenize_like_pattern(std::string_view pattern, std::s
     if (!buffer.empty()) { tokens.emplace_back(token::kind::literal, std::move(buffer)); }
     return tokens;
 }
+// advance the index by one character (not by one byte) so that it never points the middle of a multi-byte character
+static void advance_one_character(std::string_view input, std::size_t& index) {
+    std::size_t size = 0;
+    if (index < input.size()) {
+        size = utils::get_byte(utils::detect_next_encoding(input, index));
+    }
+    index += std::max(size, std::size_t{1});
+}
 static bool starts_with(std::string_view str, std::string_view prefix) {
     return str.size() >= prefix.size() && str.substr(0, prefix.size()) == prefix;
 }
@@ -800,7 +809,7 @@ static bool starts_with(std::string_view str, std::string_view prefix) {
         return true;
     }
     if (backtrack_pattern_index != std::string::npos) {
-        ++backtrack_input_index;
+        advance_one_character(input, backtrack_input_index);
         input_index   = backtrack_input_index;
         pattern_index = backtrack_pattern_index + 1;
         return true;
@@ -820,7 +829,7 @@ static bool starts_with(std::string_view str, std::string_view prefix) {
         return false;
     }
     if (backtrack_pattern_index != std::string::npos) {
-        ++backtrack_input_index;
+        advance_one_character(input, backtrack_input_index);
         input_index   = backtrack_input_index;
         pattern_index = backtrack_pattern_index + 1;
         return true;
@@ -919,7 +928,7 @@ static bool match_like_pattern(std::string_view input, std::vector<token> const&
             if (input_index == input.size()) { return true; }
             // input 'a' and pattern '%' reaches here
             if (backtrack_pattern_index != std::string::npos) {
-                ++backtrack_input_index;
+                advance_one_character(input, backtrack_input_index);
                 input_index   = backtrack_input_index;
                 pattern_index = backtrack_pattern_index + 1;
                 // input 'abcde' and pattern 'abc' reaches here
-- 
2.43.0


From 887e2ef096a555ac41eeb51ba630e398600fe5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:20 +0000
Subject: [PATCH 35/41] fix: casting string with only spaces must not read out
 of range

---
 src/jogasaki/executor/expr/details/common.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jogasaki/executor/expr/details/common.h b/src/jogasaki/executor/expr/details/common.h
index bec8bfc..fd82c7c 100644
--- a/src/jogasaki/executor/expr/details/common.h
+++ b/src/jogasaki/executor/expr/details/common.h
@@ -52,6 +52,10 @@ inline std::string_view trim_spaces(std::string_view src) {
     auto b = std::find_if(src.begin(), src.end(), [](char c){
         return c != ' ';
     });
+    if(b == src.end()) {
+        // all characters are spaces
+        return {};
+    }
     auto e = std::find_if(src.rbegin(), src.rend(), [](char c){
         return c != ' ';
     });
-- 
2.43.0


From 12460d8f04ba81b3dbe9aac05b932855add9a905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:20 +0000
Subject: [PATCH 36/41] fix: casting to char(n) must pad the string truncated
 at utf8 character boundary

---
 src/jogasaki/executor/expr/details/cast_evaluation.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jogasaki/executor/expr/details/cast_evaluation.h b/src/jogasaki/executor/expr/details/cast_evaluation.h
index 1f882a7..07f3217 100644
--- a/src/jogasaki/executor/expr/details/cast_evaluation.h
+++ b/src/jogasaki/executor/expr/details/cast_evaluation.h
@@ -220,6 +220,7 @@ any truncate_or_pad_if_needed(
     bool& lost_precision
 ) {
     lost_precision = false;
+    auto const original_dlen = dlen;
     auto slen = src.length();
     if(dlen == slen) {
         return any{std::in_place_type<T>, T{ctx.resource(), src}};
@@ -238,6 +239,12 @@ any truncate_or_pad_if_needed(
         } else {
             lost_precision = true;
         }
+        if(add_padding && dlen < original_dlen) {
+            // truncated string got shorter than the required length due to the utf8 character boundary
+            std::string tmp(original_dlen, PaddingChar);
+            std::memcpy(tmp.data(), src.data(), dlen);
+            return any{std::in_place_type<T>, T{ctx.resource(), tmp}};
+        }
         return any{
             std::in_place_type<T>,
             T{ctx.resource(), std::string_view{src.data(), dlen}}  //NOLINT(bugprone-suspicious-stringview-data-usage)
-- 
2.43.0


From 039363c82aaf29904f6b7b0b447390925a10d0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:20 +0000
Subject: [PATCH 37/41] fix: casting infinity to decimal(p,s) must result in
 the value within the range of the target type

---
 .../executor/expr/details/cast_evaluation.cpp         | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/jogasaki/executor/expr/details/cast_evaluation.cpp b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
index 9fe1d32..f1b5dc8 100644
--- a/src/jogasaki/executor/expr/details/cast_evaluation.cpp
+++ b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
@@ -986,6 +986,17 @@ static any float_to_decimal(
     }
     if(std::isinf(src)) {
         auto tgt = std::signbit(src) ? triple_min : triple_max;
+        if(precision.has_value() && ! scale.has_value()) {
+            // unsupported, let handle_ps report the error
+            return handle_ps(decimal::Decimal{0}, ctx, precision, scale);
+        }
+        if(scale.has_value()) {
+            decimal::Decimal mx{};
+            if(auto a = create_max_decimal(ctx, precision.value_or(decimal_default_precision), *scale, mx); a.error()) {
+                return a;
+            }
+            tgt = static_cast<triple>(mx.copy_sign(decimal::Decimal{std::signbit(src) ? -1 : 1}));
+        }
         if(auto a = handle_precision_lost(src, tgt, ctx); a.error()) {
             return a;
         }
-- 
2.43.0


From f21d34dd18a27538e9d8ace9983d35fef895758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:20 +0000
Subject: [PATCH 38/41] fix: cast must result in null on precision loss if loss
 policy is unknown

---
 .../executor/expr/details/cast_evaluation.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/expr/details/cast_evaluation.cpp b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
index f1b5dc8..f467982 100644
--- a/src/jogasaki/executor/expr/details/cast_evaluation.cpp
+++ b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
@@ -1693,7 +1693,7 @@ static any cast_from_clob(evaluator_context& ctx,
     return return_unsupported();
 }
 
-any conduct_cast(
+static any conduct_cast_internal(
     evaluator_context& ctx,
     ::takatori::type::data const& src,
     ::takatori::type::data const& tgt,
@@ -1765,4 +1765,21 @@ any conduct_cast(
     return return_unsupported();
 }
 
+any conduct_cast(
+    evaluator_context& ctx,
+    ::takatori::type::data const& src,
+    ::takatori::type::data const& tgt,
+    any const& a
+) {
+    auto const lost_before = ctx.lost_precision();
+    ctx.lost_precision(false);
+    auto ret = conduct_cast_internal(ctx, src, tgt, a);
+    if(ctx.lost_precision() && ! ret.error() && ctx.get_loss_precision_policy() == loss_precision_policy::unknown) {
+        // the policy requires null when precision is lost
+        ret = {};
+    }
+    ctx.lost_precision(lost_before || ctx.lost_precision());
+    return ret;
+}
+
 }  // namespace jogasaki::executor::expr::details
-- 
2.43.0


From 27080d534a0f8b1ce2456ca35ee3061e9677537e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:36 +0000
Subject: [PATCH 39/41] fix: SUBSTRING must not iterate beyond the end of the
 string

---
 src/jogasaki/executor/function/builtin_scalar_functions.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index edc4581..2d454e3 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -1037,6 +1037,7 @@ static size_t get_size_byte(std::string_view view, const size_t start_byte, cons
     size_t offset   = start_byte;
     for (size_t i = 0; i < letter_count; ++i) {
         tmp_byte = get_byte(detect_next_encoding(view, offset));
+        if (tmp_byte == 0) { break; } // no more character
         offset += tmp_byte;
     }
     // offset is sum of tmp_bytes
-- 
2.43.0


From 36906b30df9e68670513863c20c0870f4254bd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:36 +0000
Subject: [PATCH 40/41] fix: ROUND must report overflow when the rounded
 integer is out of range

---
 .../executor/function/builtin_scalar_functions.cpp     | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index 2d454e3..01d6e95 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -1204,10 +1204,16 @@ static data::any round_integral(data::any src, int32_t precision, evaluator_cont
     auto fix_value = (value / divide) * divide;
     auto remain    = value - fix_value;
 
+    bool overflow = false;
     if (remain > 0 && remain >= divide / 2) {
-        fix_value += divide;
+        overflow = __builtin_add_overflow(fix_value, divide, &fix_value);
     } else if (remain < 0 && remain <= -divide / 2) {
-        fix_value -= divide;
+        overflow = __builtin_sub_overflow(fix_value, divide, &fix_value);
+    }
+    if (overflow) {
+        ctx.add_error({error_kind::overflow,
+            std::string("integer out of range: rounded value exceeds the range of ") + type_name + "."});
+        return data::any{std::in_place_type<error>, error(error_kind::overflow)};
     }
 
     return data::any{std::in_place_type<T>, fix_value};
-- 
2.43.0


From f25d726aa75b6a7c099cba1baf3379744120ab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:36 +0000
Subject: [PATCH 41/41] fix: ROUND of decimal must not fail when the scale
 exceeds the digits of the value

---
 src/jogasaki/executor/function/builtin_scalar_functions.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index 01d6e95..529f79d 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -1156,6 +1156,7 @@ static data::any round_decimal(data::any src, int32_t precision, evaluator_conte
         return data::any{std::in_place_type<error>, error(error_kind::unsupported)};
     }
     auto value  = src.to<runtime_t<kind::decimal>>();
+    if (value.exponent() >= -precision) { return src; } // no digits to round
     auto type   = std::in_place_type<runtime_t<kind::decimal>>;
     auto one    = data::any{type, takatori::decimal::triple{+1, 0, 1, -precision}};
     auto remain = expr::remainder_any(src, one, ctx);
-- 
2.43.0

