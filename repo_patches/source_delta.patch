From 3fab898df894667b9bd0c7d544b1b3e966c16216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:33 +0000
Subject: [PATCH 01/32] fix: never produce the hash value zero, which the hash
 table reserves for empty slots

---
 src/cachelot/hash_fnv1a.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/hash_fnv1a.h b/src/cachelot/hash_fnv1a.h
index f2fe61a..8d98c83 100644
--- a/src/cachelot/hash_fnv1a.h
+++ b/src/cachelot/hash_fnv1a.h
@@ -30,7 +30,8 @@ namespace cachelot {
                 for (uint8 one_byte : data) {
                     checksum = (checksum ^ one_byte) * Prime;
                 }
-                return checksum;
+                // zero is reserved to mark empty slots in the hash table
+                return checksum != 0 ? checksum : Seed;
             }
         };
 
-- 
2.43.0


From 49084d2c7bacd36e1ddbb0921bd0d2ca75b36a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:34 +0000
Subject: [PATCH 02/32] fix: reject items which do not fit into the page
 together with the block header

---
 src/cachelot/cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 691644b..dad5704 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -645,7 +645,7 @@ namespace cachelot {
                 throw system_error(error::key_too_long);
             }
             const size_t size_required = Item::CalcSizeRequired(key, value_length);
-            if (size_required > m_allocator.page_size) {
+            if (size_required > m_allocator.page_size - memalloc::header_size()) {
                 throw system_error(error::item_too_big);
             }
             const auto on_delete = [=](void * ptr) noexcept -> void {
-- 
2.43.0


From e7f57c5a9ee7f308c76b3f3c2698af61d9bf6a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:34 +0000
Subject: [PATCH 03/32] fix: append and prepend must not ask the allocator for
 more memory than the page has

---
 src/cachelot/cache.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index dad5704..327af35 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -516,8 +516,12 @@ namespace cachelot {
             if (found) {
                 auto old_item = at.value();
                 const size_t new_value_size = old_item->value().length() + piece->value().length();
+                const size_t size_required = Item::CalcSizeRequired(old_item->key(), new_value_size);
+                if (size_required > m_allocator.page_size - memalloc::header_size()) {
+                    throw system_error(error::item_too_big);
+                }
                 // do not evict existing items to avoid accidentally free the `piece` or the `old_item`
-                auto memory = m_allocator.alloc_or_evict(Item::CalcSizeRequired(old_item->key(), new_value_size), false, [=](void *){});
+                auto memory = m_allocator.alloc_or_evict(size_required, false, [=](void *){});
                 if (memory != nullptr) {
                     auto new_item = new (memory) Item(old_item->key(), old_item->hash(), static_cast<uint32>(new_value_size), old_item->opaque_flags(), old_item->ttl(), ++m_newest_timestamp);
                     ItemAutoDelete _item_uniq_ptr(this, new_item);
-- 
2.43.0


From 3e0a7f668ee01f29224fb0173c9258782e11374c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:34 +0000
Subject: [PATCH 04/32] fix: incr and decr used a stale dict position after
 their own allocation evicted items

---
 src/cachelot/cache.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 327af35..203a6ae 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -635,10 +635,16 @@ namespace cachelot {
             const auto new_ascii_value_length = int_to_str(new_int_value, new_ascii_value);
             // create new item to hold value including zero terminator
             ItemPtr new_item;
-            new_item = create_item(old_item->key(), old_item->hash(), new_ascii_value_length, old_item->opaque_flags(), old_item->ttl());
+            new_item = create_item(key, hash, new_ascii_value_length, old_item->opaque_flags(), old_item->ttl());
             ItemAutoDelete _item_uniq_ptr(this, new_item);
             new_item->assign_value(slice(new_ascii_value, new_ascii_value_length));
-            replace_item_at(at, _item_uniq_ptr);
+            // eviction in create_item() removes entries from the dict and may have invalidated the position
+            tie(found, at) = m_dict.entry_for(key, hash);
+            if (found) {
+                replace_item_at(at, _item_uniq_ptr);
+            } else {
+                insert_item_at(at, _item_uniq_ptr);
+            }
             return make_tuple(true, new_int_value);
         }
 
-- 
2.43.0


From 8bcf864f20bbbab8ef8065801759c5b40709a4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:34 +0000
Subject: [PATCH 05/32] fix: very long time to live wrapped around and expired
 the item immediately

---
 src/cachelot/item.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/item.h b/src/cachelot/item.h
index e02683e..ae14247 100644
--- a/src/cachelot/item.h
+++ b/src/cachelot/item.h
@@ -180,10 +180,11 @@ namespace cachelot {
 
 
         inline void Item::set_ttl(seconds s) noexcept {
-            if (s == infinite_TTL) {
+            const auto now = clock::now();
+            if (s == infinite_TTL || s >= expiration_time_point::max() - now) {
                 m_expiration_time = expiration_time_point::max();
             } else {
-                m_expiration_time = clock::now() + s;
+                m_expiration_time = now + s;
             }
         }
 
-- 
2.43.0


From 973039a94be31b39bea2ae5a1964b25421887cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:34 +0000
Subject: [PATCH 06/32] fix: append, prepend, incr and decr keep the exact
 moment of expiration even if the clock ticks meanwhile

---
 src/cachelot/cache.h | 7 +++++--
 src/cachelot/item.h  | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 203a6ae..0cb2a85 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -523,7 +523,8 @@ namespace cachelot {
                 // do not evict existing items to avoid accidentally free the `piece` or the `old_item`
                 auto memory = m_allocator.alloc_or_evict(size_required, false, [=](void *){});
                 if (memory != nullptr) {
-                    auto new_item = new (memory) Item(old_item->key(), old_item->hash(), static_cast<uint32>(new_value_size), old_item->opaque_flags(), old_item->ttl(), ++m_newest_timestamp);
+                    auto new_item = new (memory) Item(old_item->key(), old_item->hash(), static_cast<uint32>(new_value_size), old_item->opaque_flags(), Item::infinite_TTL, ++m_newest_timestamp);
+                    new_item->set_expiration_time(old_item->expiration_time());
                     ItemAutoDelete _item_uniq_ptr(this, new_item);
                     if (op == ExtendOperation::APPEND) {
                         new_item->assign_compose(old_item->value(), piece->value());
@@ -635,7 +636,9 @@ namespace cachelot {
             const auto new_ascii_value_length = int_to_str(new_int_value, new_ascii_value);
             // create new item to hold value including zero terminator
             ItemPtr new_item;
-            new_item = create_item(key, hash, new_ascii_value_length, old_item->opaque_flags(), old_item->ttl());
+            const auto expiration_time = old_item->expiration_time();
+            new_item = create_item(key, hash, new_ascii_value_length, old_item->opaque_flags(), Item::infinite_TTL);
+            new_item->set_expiration_time(expiration_time);
             ItemAutoDelete _item_uniq_ptr(this, new_item);
             new_item->assign_value(slice(new_ascii_value, new_ascii_value_length));
             // eviction in create_item() removes entries from the dict and may have invalidated the position
diff --git a/src/cachelot/item.h b/src/cachelot/item.h
index ae14247..7e6dad8 100644
--- a/src/cachelot/item.h
+++ b/src/cachelot/item.h
@@ -109,6 +109,9 @@ namespace cachelot {
             /// set new time to live
             void set_ttl(seconds secs) noexcept;
 
+            /// set the moment of expiration
+            void set_expiration_time(expiration_time_point when) noexcept { m_expiration_time = when; }
+
             /// check whether Item is expired
             bool is_expired() const noexcept { return m_expiration_time <= clock::now(); }
 
-- 
2.43.0


From 4f2d60efd7e606beab72525b75cfe94e214a842a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:34 +0000
Subject: [PATCH 07/32] fix: accept every 20 digits long number which fits
 uint64

---
 src/cachelot/string_conv.h | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/cachelot/string_conv.h b/src/cachelot/string_conv.h
index 5c18e9a..38e9ca0 100644
--- a/src/cachelot/string_conv.h
+++ b/src/cachelot/string_conv.h
@@ -219,6 +219,7 @@ namespace cachelot {
         inline uint64 str_to_big_unsigned(ConstIterator str, ConstIterator end, error_code & out_error) noexcept {
             // returned on error
             static constexpr uint64 NO_RESULT = std::numeric_limits<uint64>::max();
+            static const char max_uint64[] = "18446744073709551615";
 
             const auto length = end - str;
 
@@ -238,26 +239,7 @@ namespace cachelot {
             switch (length) {
                 case 20: // in ASCII max uint64 number length is 20
                     // check against the biggest uint64 number - 18446744073709551615
-                    if (str[ 0] > '1' ||
-                        str[ 1] > '8' ||
-                        str[ 2] > '4' ||
-                        str[ 3] > '4' ||
-                        str[ 4] > '6' ||
-                        str[ 5] > '7' ||
-                        str[ 6] > '4' ||
-                        str[ 7] > '4' ||
-                        str[ 8] > '0' ||
-                        str[ 9] > '7' ||
-                        str[10] > '3' ||
-                        str[11] > '7' ||
-                        str[12] > '0' ||
-                        str[13] > '9' ||
-                        str[14] > '5' ||
-                        str[15] > '5' ||
-                        str[16] > '1' ||
-                        str[17] > '6' ||
-                        str[18] > '1' ||
-                        str[19] > '5' ) {
+                    if (std::lexicographical_compare(max_uint64, max_uint64 + 20, str, end)) {
                         out_error = error::numeric_overflow;
                         return NO_RESULT;
                     }
-- 
2.43.0


From 9d260ff1facb1b6f79677c4db65adc5dbda7d60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:02 +0000
Subject: [PATCH 08/32] fix: page number was truncated in arenas bigger than
 4Gb

---
 src/cachelot/memalloc-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/memalloc-inl.h b/src/cachelot/memalloc-inl.h
index f9348ec..77f7dad 100644
--- a/src/cachelot/memalloc-inl.h
+++ b/src/cachelot/memalloc-inl.h
@@ -145,7 +145,7 @@ namespace cachelot {
         unsigned page_no_from_addr(const void * const ptr) const noexcept {
             debug_assert(valid_addr(ptr));
             auto ui8_ptr = reinterpret_cast<const uint8 * const>(ptr);
-            auto page_no = static_cast<unsigned>(ui8_ptr - arena_begin) >> log2_page_size;
+            auto page_no = static_cast<unsigned>(static_cast<size_t>(ui8_ptr - arena_begin) >> log2_page_size);
             debug_assert(page_no < num_pages);
             return page_no;
         }
-- 
2.43.0


From 56e8cf4df9d5d97c0654a7bc589e8d67ae68ada2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:02 +0000
Subject: [PATCH 09/32] fix: reject zero initial dict size instead of creating
 unusable cache

---
 src/cachelot/cache.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 0cb2a85..192a379 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -375,6 +375,9 @@ namespace cachelot {
             if (not ispow2(initial_dict_size)) {
                 throw std::invalid_argument("initial_dict_size must be power of 2");
             }
+            if (initial_dict_size == 0) {
+                throw std::invalid_argument("initial_dict_size must be non-zero");
+            }
             if (initial_dict_size > std::numeric_limits<dict_type::size_type>::max()) {
                 throw std::invalid_argument("initial_dict_size is too big");
             }
-- 
2.43.0


From 06b600db60fdac652c6c128ad19779d02ddfa67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:02 +0000
Subject: [PATCH 10/32] fix: destructor of the moved Cache dereferenced null
 pointer

---
 src/cachelot/dict.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/dict.h b/src/cachelot/dict.h
index f7ccf4c..dfb215e 100644
--- a/src/cachelot/dict.h
+++ b/src/cachelot/dict.h
@@ -201,7 +201,9 @@ namespace cachelot {
             if (m_secondary_tbl) {
                 m_secondary_tbl->remove_if(predicate);
             }
-            m_primary_tbl->remove_if(predicate);
+            if (m_primary_tbl) { // there are no tables after the dict was moved
+                m_primary_tbl->remove_if(predicate);
+            }
         }
 
         /// @copydoc hash_table::contains
-- 
2.43.0


From 1d9be45ecff679961c50eec99871e658cf70e63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:02 +0000
Subject: [PATCH 11/32] fix: ASCII length of integers close to the powers of 10
 and of the minimal integers

---
 src/cachelot/string_conv.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cachelot/string_conv.h b/src/cachelot/string_conv.h
index 38e9ca0..cc3d503 100644
--- a/src/cachelot/string_conv.h
+++ b/src/cachelot/string_conv.h
@@ -181,17 +181,20 @@ namespace cachelot {
     template <typename UIntT,
               class = typename std::enable_if<std::is_unsigned<UIntT>::value>::type>
     inline size_t uint_ascii_length(UIntT number) noexcept {
-        if (number == 0) {
-            return 1;
+        size_t length = 1;
+        while (number >= 10) {
+            number /= 10;
+            length += 1;
         }
-        return static_cast<size_t>(log10(number)) + 1;
+        return length;
     }
 
     template <typename IntT,
               class = typename std::enable_if<std::is_signed<IntT>::value>::type>
     inline size_t int_ascii_length(IntT number) noexcept {
         const size_t minus_sign_len = (number < 0) ? 1 : 0;
-        auto unsigned_number = static_cast<typename internal::numeric<IntT>::unsigned_>(abs(number));
+        typedef typename internal::numeric<IntT>::unsigned_ UIntT;
+        const UIntT unsigned_number = (number < 0) ? static_cast<UIntT>(0 - static_cast<UIntT>(number)) : static_cast<UIntT>(number);
         return minus_sign_len + uint_ascii_length(unsigned_number);
     }
 
-- 
2.43.0


From 42d326c5d2389a88b77de2e43a07df2d49b4f3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:02 +0000
Subject: [PATCH 12/32] fix: conversion of empty string to the signed integer
 read past its end

---
 src/cachelot/string_conv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/string_conv.h b/src/cachelot/string_conv.h
index cc3d503..b81eb54 100644
--- a/src/cachelot/string_conv.h
+++ b/src/cachelot/string_conv.h
@@ -301,7 +301,7 @@ namespace cachelot {
             static constexpr int64 NO_RESULT = std::numeric_limits<int64>::max();
 
             int64 sign;
-            if (*str != '-') {
+            if (str == end || *str != '-') {
                 sign = 1;
             } else {
                 sign = -1;
-- 
2.43.0


From bcb47a87afe97f2492735bc6a2a268e0ad4a1ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:02 +0000
Subject: [PATCH 13/32] fix: slice::startswith was wrong for empty slices and
 for the slices of itself

---
 src/cachelot/slice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/slice.h b/src/cachelot/slice.h
index 38948ff..c32efc0 100644
--- a/src/cachelot/slice.h
+++ b/src/cachelot/slice.h
@@ -114,7 +114,7 @@ namespace cachelot {
 
         /// returns `true` if this slice contents starts with `what`
         bool startswith(const slice what) const noexcept {
-            return search(what).begin() == begin();
+            return what.length() <= length() && std::equal(what.begin(), what.end(), begin());
         }
 
         /// returns `true` if this slice contents ends with `what`
-- 
2.43.0


From bd436890ddf7c599dfc3241ff2d3227d066da463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:02 +0000
Subject: [PATCH 14/32] fix: C API left stale error after successful init,
 create_item, incr, decr and flush_all

---
 src/cachelot/c_api.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cachelot/c_api.cpp b/src/cachelot/c_api.cpp
index d16d06c..9570b0e 100644
--- a/src/cachelot/c_api.cpp
+++ b/src/cachelot/c_api.cpp
@@ -74,6 +74,7 @@ extern "C" {
     CachelotPtr cachelot_init(CachelotOptions opts, CachelotError * out_error) {
         try {
             cachelot_t * c = new cachelot_t{cache::Cache::Create(opts.memory_limit, opts.mem_page_size, opts.initial_dict_size, opts.enable_evictions)};
+            none_error(out_error);
             return c;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -97,6 +98,7 @@ extern "C" {
         try {
             auto new_item = c->cache.create_item(slice(k.key, k.keylen), k.hash, valuelen, 0, cache::Item::infinite_TTL);
             new_item->assign_value(slice(value, valuelen));
+            none_error(out_error);
             return reinterpret_cast<CachelotItemPtr>(new_item);
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -292,6 +294,7 @@ extern "C" {
             if (result != nullptr) {
                 *result = newval;
             }
+            none_error(out_error);
             return found;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -311,6 +314,7 @@ extern "C" {
             if (result != nullptr) {
                 *result = newval;
             }
+            none_error(out_error);
             return found;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -326,6 +330,7 @@ extern "C" {
     void cachelot_flush_all(CachelotPtr c, CachelotError * out_error) {
         try {
             c->cache.do_flush_all();
+            none_error(out_error);
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
         } catch(const std::exception & e) {
-- 
2.43.0


From c8483d33e33253b0bab612d2f036f7bea3061d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:02 +0000
Subject: [PATCH 15/32] fix: io_buffer lost its data when it was unable to grow

---
 src/server/io_buffer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/io_buffer.h b/src/server/io_buffer.h
index 4e3102a..9cb549f 100644
--- a/src/server/io_buffer.h
+++ b/src/server/io_buffer.h
@@ -161,8 +161,9 @@ namespace cachelot {
             // grow buffer
             const size_t new_capacity = capacity_advice(at_least);
             if (new_capacity - size() >= at_least) {
-                m_data = reinterpret_cast<char *>(std::realloc(m_data, new_capacity));
-                if (m_data != nullptr) {
+                auto new_data = reinterpret_cast<char *>(std::realloc(m_data, new_capacity));
+                if (new_data != nullptr) {
+                    m_data = new_data;
                     m_capacity = new_capacity;
                 } else {
                     throw std::bad_alloc();
-- 
2.43.0


From a834980f665e95e40aaa623d161eb49e3f913a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:42 +0000
Subject: [PATCH 16/32] fix: pipelined requests waited for more data and
 replies were written while previous ones still being sent

---
 src/server/socket_stream.h | 47 +++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/server/socket_stream.h b/src/server/socket_stream.h
index 3acc8ea..220c017 100644
--- a/src/server/socket_stream.h
+++ b/src/server/socket_stream.h
@@ -62,8 +62,11 @@ namespace cachelot { namespace net {
         /// start asynchronous receive operation, call the Conversation::handle_data on complete
         void async_receive_some() noexcept;
 
-        /// start asynchronous send of the send buffer
-        void async_send_all() noexcept;
+        /// handle everything what was received, continue receive after all the replies are sent
+        void process_received() noexcept;
+
+        /// start asynchronous send of the send buffer, when done either continue to process received data or leave the connection
+        void async_send_all(const bool continue_processing) noexcept;
 
         /// schedule arbitrary function into IO loop
         template <typename Function>
@@ -73,6 +76,8 @@ namespace cachelot { namespace net {
         void publish_stats() noexcept;
 
     private:
+        /// do not process further requests until that amount of replies is sent
+        static constexpr size_t max_pending_reply_size = 64 * 1024;
         SocketType m_socket;
         io_buffer m_recv_buf;
         io_buffer m_send_buf;
@@ -145,21 +150,9 @@ namespace cachelot { namespace net {
         auto self = this->shared_from_this();
         m_socket.async_read_some(asio::buffer(m_recv_buf.begin_write(), m_recv_buf.available()),
             [=](const error_code error, const size_t bytes_received) {
-                slice receive_result;
                 if (not error) {
                     self->m_recv_buf.confirm_write(bytes_received);
-                    ConversationReply reply = handle_data(m_recv_buf, m_send_buf);
-                    self->m_recv_buf.compact();
-                    switch (reply) {
-                    case SEND_REPLY_AND_READ:
-                        self->async_send_all();
-                        // there is no `break` so we'll continue receive
-                    case READ_MORE:
-                        self->async_receive_some();
-                        break;
-                    case CLOSE_IMMEDIATELY:
-                        break;
-                    }
+                    self->process_received();
                 } else {
                     if (error == io_error::message_size) {
                         self->m_recv_buf.confirm_write(bytes_received);
@@ -171,7 +164,26 @@ namespace cachelot { namespace net {
 
 
     template <class Sock, class Conversation>
-    inline void stream_connection<Sock, Conversation>::async_send_all() noexcept {
+    inline void stream_connection<Sock, Conversation>::process_received() noexcept {
+        // there may be more than one request in the buffer, limit amount of the pending replies though
+        ConversationReply reply;
+        size_t left_unread;
+        do {
+            left_unread = m_recv_buf.non_read();
+            reply = handle_data(m_recv_buf, m_send_buf);
+        } while (reply != CLOSE_IMMEDIATELY && m_recv_buf.non_read() > 0 && m_recv_buf.non_read() < left_unread
+                 && m_send_buf.non_read() < max_pending_reply_size);
+        m_recv_buf.compact();
+        if (m_send_buf.non_read() > 0) {
+            async_send_all(reply != CLOSE_IMMEDIATELY);
+        } else if (reply != CLOSE_IMMEDIATELY) {
+            async_receive_some();
+        }
+    }
+
+
+    template <class Sock, class Conversation>
+    inline void stream_connection<Sock, Conversation>::async_send_all(const bool continue_processing) noexcept {
         if (m_killed) { return; }
         auto self = this->shared_from_this();
         asio::async_write(m_socket, asio::buffer(m_send_buf.begin_read(), m_send_buf.non_read()), asio::transfer_all(),
@@ -180,6 +192,9 @@ namespace cachelot { namespace net {
                     debug_assert(self->m_send_buf.non_read() == bytes_sent);
                     self->m_send_buf.confirm_read(bytes_sent);
                     self->m_send_buf.compact();
+                    if (continue_processing) {
+                        self->process_received();
+                    }
                 }
             });
     }
-- 
2.43.0


From abdafae3dc07ea52cb942053c620ae4983b088bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:42 +0000
Subject: [PATCH 17/32] fix: request bigger than the receive buffer terminated
 the server

---
 src/server/socket_stream.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/server/socket_stream.h b/src/server/socket_stream.h
index 220c017..b84a187 100644
--- a/src/server/socket_stream.h
+++ b/src/server/socket_stream.h
@@ -148,6 +148,13 @@ namespace cachelot { namespace net {
     template <class Sock, class Conversation>
     inline void stream_connection<Sock, Conversation>::async_receive_some() noexcept {
         auto self = this->shared_from_this();
+        try {
+            m_recv_buf.begin_write();
+        } catch (const std::exception &) {
+            // request exceeds the maximal buffer size, there is no way to continue
+            close();
+            return;
+        }
         m_socket.async_read_some(asio::buffer(m_recv_buf.begin_write(), m_recv_buf.available()),
             [=](const error_code error, const size_t bytes_received) {
                 if (not error) {
-- 
2.43.0


From 9d7a035fe2866fa2c0ff2074e92f0b5b9a3143e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:42 +0000
Subject: [PATCH 18/32] fix: UDP datagrams without reply or without valid
 request spoiled handling of the following ones

---
 src/server/memcached/conversation.h |  6 +++++-
 src/server/socket_datagram.h        | 20 +++++++++++---------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/server/memcached/conversation.h b/src/server/memcached/conversation.h
index 3eecc29..0887820 100644
--- a/src/server/memcached/conversation.h
+++ b/src/server/memcached/conversation.h
@@ -85,7 +85,11 @@ namespace cachelot {
                 auto w_savepoint = send_buf.write_savepoint();
                 try {
                     handle_udp_frame_header(recv_buf, send_buf);
-                    return handle_received_data(recv_buf, send_buf, cache_api);
+                    auto reply = handle_received_data(recv_buf, send_buf, cache_api);
+                    if (reply != net::SEND_REPLY_AND_READ) {
+                        send_buf.rollback_write_transaction(w_savepoint);
+                    }
+                    return reply;
                 } catch (const std::exception & exc) {
                     send_buf.rollback_write_transaction(w_savepoint);
                     return net::READ_MORE;
diff --git a/src/server/socket_datagram.h b/src/server/socket_datagram.h
index c97af8b..c1a4e3f 100644
--- a/src/server/socket_datagram.h
+++ b/src/server/socket_datagram.h
@@ -64,6 +64,7 @@ namespace cachelot { namespace net {
         void async_send_all(const typename protocol_type::endpoint to) noexcept;
 
     private:
+        static constexpr size_t max_datagram_size = 64 * 1024;
         io_service & m_ios;
         socket_type m_socket;
         io_buffer m_recv_buf;
@@ -84,16 +85,12 @@ namespace cachelot { namespace net {
 
     template <class SocketType>
     inline void datagram_server<SocketType>::async_receive() noexcept {
-        m_socket.async_receive_from(asio::buffer(m_recv_buf.begin_write(), m_recv_buf.available()), m_remote_endpoint,
+        m_socket.async_receive_from(asio::buffer(m_recv_buf.begin_write(max_datagram_size), m_recv_buf.available()), m_remote_endpoint,
             [=] (const error_code error, size_t bytes_recvd) noexcept {
                 m_recv_buf.confirm_write(bytes_recvd);
+                bool has_reply = false;
                 if (not error) {
-                    try {
-                        if (handle_data(m_recv_buf, m_send_buf) == SEND_REPLY_AND_READ) {
-                            async_send_all(m_remote_endpoint);
-                        }
-                        m_recv_buf.compact();
-                    } catch (const std::exception &) { /* swallow exception */ }
+                    has_reply = handle_data(m_recv_buf, m_send_buf) == SEND_REPLY_AND_READ;
                 } else {
                     if (error == io_error::operation_aborted) {
                         // we were closed from the outside
@@ -101,8 +98,12 @@ namespace cachelot { namespace net {
                     }
                 }
                 // we expect only one packet per datagram
-                m_recv_buf.read_all();
-                this->async_receive();
+                m_recv_buf.reset();
+                if (has_reply) {
+                    async_send_all(m_remote_endpoint);
+                } else {
+                    this->async_receive();
+                }
             });
     }
 
@@ -115,6 +116,7 @@ namespace cachelot { namespace net {
                 // even data was not sent completely
                 m_send_buf.confirm_read(need_to_send);
                 m_send_buf.compact();
+                this->async_receive();
             });
     }
 
-- 
2.43.0


From e11ca58a7b5c6d451c2e238f0d62f2f2a23919f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:42 +0000
Subject: [PATCH 19/32] fix: server ignored all signals after the first SIGUSR1

---
 src/server/main.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/server/main.cpp b/src/server/main.cpp
index e48c7af..be308ec 100644
--- a/src/server/main.cpp
+++ b/src/server/main.cpp
@@ -187,18 +187,21 @@ int main(int argc, char * argv[]) {
         signals.add(SIGQUIT);
         signals.add(SIGUSR1);
 #endif
-        signals.async_wait([&reactor](const error_code& error, int signal_number) {
+        std::function<void (const error_code &, int)> on_signal = [&](const error_code& error, int signal_number) {
             if (error) { return; }
             switch (signal_number) {
 #if !defined(_MSC_VER)
             case SIGUSR1:
+                the_cache.publish_stats();
                 PrintStats();
+                signals.async_wait(on_signal);
                 break;
 #endif
             default:
                 reactor.stop();
             }
-        });
+        };
+        signals.async_wait(on_signal);
 
         // Run reactor loop
         do {
-- 
2.43.0


From 1a1da8fbff255c472181d199da0eb7f59d4aeb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:42 +0000
Subject: [PATCH 20/32] fix: overflow in the memory amount command line
 arguments

---
 src/server/main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server/main.cpp b/src/server/main.cpp
index be308ec..b3ff5bd 100644
--- a/src/server/main.cpp
+++ b/src/server/main.cpp
@@ -51,7 +51,11 @@ namespace  {
         }
         size_t memory_amount;
         try {
-            memory_amount = boost::lexical_cast<size_t>(s) * units;
+            const auto number_of_units = boost::lexical_cast<size_t>(s);
+            memory_amount = number_of_units * units;
+            if (memory_amount / units != number_of_units) {
+                throw invalid_configuration("memory amount is too big");
+            }
         } catch (const boost::bad_lexical_cast &) {
             throw po::invalid_option_value(s);
         }
-- 
2.43.0


From 675fb9a532b79b9336844e359db538a05948b47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:06 +0000
Subject: [PATCH 21/32] fix: failed allocation of the bigger hash table left
 the dict without any table

---
 src/cachelot/dict.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/cachelot/dict.h b/src/cachelot/dict.h
index dfb215e..60e5606 100644
--- a/src/cachelot/dict.h
+++ b/src/cachelot/dict.h
@@ -289,17 +289,16 @@ namespace cachelot {
 
         void begin_expand() {
             debug_assert(not is_expanding());
-            m_expand_pos = 0;
-            m_primary_tbl.swap(m_secondary_tbl);
-            m_primary_tbl.reset(new hash_table_type(pow2(m_hashpower + 1)));
-            if (m_primary_tbl && m_primary_tbl->ok()) {
-                m_hashpower += 1;
-                rehash_some();
-            } else {
-                m_primary_tbl.swap(m_secondary_tbl);
-                m_secondary_tbl.reset(nullptr);
+            // do not touch current table until there is enough memory for the new one
+            std::unique_ptr<hash_table_type> bigger_tbl(new hash_table_type(pow2(m_hashpower + 1)));
+            if (not bigger_tbl->ok()) {
                 throw std::bad_alloc();
             }
+            m_expand_pos = 0;
+            m_secondary_tbl = std::move(m_primary_tbl);
+            m_primary_tbl = std::move(bigger_tbl);
+            m_hashpower += 1;
+            rehash_some();
         }
 
         void end_expand() noexcept {
-- 
2.43.0


From 166238361d5f599027ddcb847d89d5b2d066487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:06 +0000
Subject: [PATCH 22/32] fix: hash_table insert returned position of the
 displaced entry instead of the new one

---
 src/cachelot/hash_table.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/hash_table.h b/src/cachelot/hash_table.h
index 3a9c9d2..bdf2e02 100644
--- a/src/cachelot/hash_table.h
+++ b/src/cachelot/hash_table.h
@@ -190,6 +190,8 @@ namespace cachelot {
         size_type insert(size_type pos, const key_type key, hash_type hash, mapped_type value) noexcept {
             debug_assert(not threshold_reached()); debug_assert(hash != 0);
             entry_type entry(key, value);
+            // position of the new entry, following entries displaced by it may go further
+            bool placed = false; size_type new_entry_pos = pos;
             // how far we from the desired position
             size_type lookup_distance = get_distance(pos, hash);
             while (not empty_at(pos)) {
@@ -199,6 +201,10 @@ namespace cachelot {
                     std::swap(hash, m_hashes[pos]);
                     swap(entry, entry_at(pos));
                     lookup_distance = existing_entry_distance;
+                    if (not placed) {
+                        placed = true;
+                        new_entry_pos = pos;
+                    }
                 }
                 pos = inc_pos(pos);
                 lookup_distance += 1;
@@ -207,7 +213,7 @@ namespace cachelot {
             m_hashes[pos] = hash;
             std::swap(m_entries[pos], entry);
             m_size += 1;
-            return pos;
+            return placed ? new_entry_pos : pos;
         }
 
         /// remove element pos given pos
-- 
2.43.0


From 3a1ce5835907a3da1844ccd284ce82fd853db9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:33 +0000
Subject: [PATCH 23/32] fix: size of an enormous value overflowed and passed
 the item size check

---
 src/cachelot/cache.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 192a379..58837f4 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -660,6 +660,9 @@ namespace cachelot {
             if (key.length() > Item::max_key_length) {
                 throw system_error(error::key_too_long);
             }
+            if (value_length > m_allocator.page_size) { // do not let the size calculation overflow
+                throw system_error(error::item_too_big);
+            }
             const size_t size_required = Item::CalcSizeRequired(key, value_length);
             if (size_required > m_allocator.page_size - memalloc::header_size()) {
                 throw system_error(error::item_too_big);
-- 
2.43.0


From 47280b823ea0f6d0fe5c3b175a2d83d3247345b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:52 +0000
Subject: [PATCH 24/32] fix: io_buffer accepted a request so big that the new
 capacity overflowed

---
 src/server/io_buffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/io_buffer.h b/src/server/io_buffer.h
index 9cb549f..8c3c182 100644
--- a/src/server/io_buffer.h
+++ b/src/server/io_buffer.h
@@ -159,8 +159,8 @@ namespace cachelot {
                 return; // we have enough space
             }
             // grow buffer
-            const size_t new_capacity = capacity_advice(at_least);
-            if (new_capacity - size() >= at_least) {
+            if (at_least <= m_max_size - size()) {
+                const size_t new_capacity = capacity_advice(at_least);
                 auto new_data = reinterpret_cast<char *>(std::realloc(m_data, new_capacity));
                 if (new_data != nullptr) {
                     m_data = new_data;
-- 
2.43.0


From 80df4b68f284e2920966542929660ca36e98081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:37 +0000
Subject: [PATCH 25/32] fix: first UDP datagram bigger than the initial receive
 buffer was truncated

Order of evaluation of function arguments is unspecified, available() could be called before begin_write() had grown the buffer
---
 src/server/socket_datagram.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server/socket_datagram.h b/src/server/socket_datagram.h
index c1a4e3f..0616f32 100644
--- a/src/server/socket_datagram.h
+++ b/src/server/socket_datagram.h
@@ -85,7 +85,9 @@ namespace cachelot { namespace net {
 
     template <class SocketType>
     inline void datagram_server<SocketType>::async_receive() noexcept {
-        m_socket.async_receive_from(asio::buffer(m_recv_buf.begin_write(max_datagram_size), m_recv_buf.available()), m_remote_endpoint,
+        // ask for the available size only after the buffer is grown
+        auto dest = m_recv_buf.begin_write(max_datagram_size);
+        m_socket.async_receive_from(asio::buffer(dest, m_recv_buf.available()), m_remote_endpoint,
             [=] (const error_code error, size_t bytes_recvd) noexcept {
                 m_recv_buf.confirm_write(bytes_recvd);
                 bool has_reply = false;
-- 
2.43.0


From d45578f6759c53cf037a80667143de65a163d0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:51 +0000
Subject: [PATCH 26/32] fix: negative port numbers in the command line wrapped
 around and were accepted

---
 src/server/main.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/server/main.cpp b/src/server/main.cpp
index b3ff5bd..56493de 100644
--- a/src/server/main.cpp
+++ b/src/server/main.cpp
@@ -32,6 +32,9 @@ namespace  {
     void validate(boost::any& arg, const std::vector<std::string>& values, po_memory *, int) {
         po::validators::check_first_occurrence(arg);
         auto s = po::validators::get_single_string(values);
+        if (s.empty() || s[0] == '-') {
+            throw po::invalid_option_value(s);
+        }
         size_t units;
         switch (s[s.length()-1]) {
         case 'K':
@@ -68,6 +71,15 @@ namespace  {
         arg = boost::any(po_memory{memory_amount});
     }
 
+    // port number given in the command line (parsed as a signed number, otherwise negative ones wrap around)
+    uint16 port_number(const po::variable_value & arg) {
+        const auto port = arg.as<int>();
+        if (port < 0 || port > std::numeric_limits<uint16>::max()) {
+            throw invalid_configuration("port number must be in the range 0..65535");
+        }
+        return static_cast<uint16>(port);
+    }
+
     /// Command line arguments parser
     int parse_cmdline(int argc, const char * const argv[]) {
         po::options_description desc("Cachelot is lightning fast in-memory caching system\n"
@@ -75,8 +87,8 @@ namespace  {
         desc.add_options()
             ("help,h",                              "Produce this help message")
             ("version,V",                           "Print version and exit")
-            ("tcp-port,p",  po::value<uint16>(),    "TCP port (0 to disable TCP)")
-            ("udp-port,U",  po::value<uint16>(),    "UDP port (0 to disable UDP)")
+            ("tcp-port,p",  po::value<int>(),       "TCP port (0 to disable TCP)")
+            ("udp-port,U",  po::value<int>(),       "UDP port (0 to disable UDP)")
             ("socket,s",    po::value<string>(),    "Unix domain socket path (disabled by default)")
             ("socket_access,a", po::value<unsigned>(), "Access mask for the unix socket, in octal (default: 0700)")
             ("listen,l",    po::value<std::vector<string>>(),
@@ -111,11 +123,11 @@ namespace  {
             return EXIT_FAILURE;
         }
         if (varmap.count("tcp-port")) {
-            settings.net.TCP_port = varmap["tcp-port"].as<uint16>();
+            settings.net.TCP_port = port_number(varmap["tcp-port"]);
         }
         settings.net.has_TCP = settings.net.TCP_port != 0;
         if (varmap.count("udp-port")) {
-            settings.net.UDP_port = varmap["udp-port"].as<uint16>();
+            settings.net.UDP_port = port_number(varmap["udp-port"]);
         }
         settings.net.has_UDP = settings.net.UDP_port != 0;
         if (varmap.count("socket")) {
-- 
2.43.0


From 4ea25a48314e3a3d8bd8f4c8be2ded4932e61a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:16 +0000
Subject: [PATCH 27/32] fix: search for a part of the slice itself returns its
 first occurrence like any other search

---
 src/cachelot/slice.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/cachelot/slice.h b/src/cachelot/slice.h
index c32efc0..3c45388 100644
--- a/src/cachelot/slice.h
+++ b/src/cachelot/slice.h
@@ -90,13 +90,9 @@ namespace cachelot {
         /// search for given range `what` in this slice
         slice search(const slice what) const noexcept {
             if (what.length() <= length()) {
-                if (what.begin() >= begin() && what.end() <= end()) {
-                    return what;
-                } else {
-                    const char * pos = std::search(begin(), end(), what.begin(), what.end());
-                    if (pos != end()) {
-                        return slice(pos, what.length());
-                    }
+                const char * pos = std::search(begin(), end(), what.begin(), what.end());
+                if (pos != end()) {
+                    return slice(pos, what.length());
                 }
             }
             return slice();
-- 
2.43.0


From a8a20aac492b1955cfdf2cd1c74a96cb62d85c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:38 +0000
Subject: [PATCH 28/32] fix: bit::is_set() gave wrong answers for bits 31 and
 above of 64 bit integers

---
 src/cachelot/bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/bits.h b/src/cachelot/bits.h
index ba09a8d..fbc8c49 100644
--- a/src/cachelot/bits.h
+++ b/src/cachelot/bits.h
@@ -55,7 +55,7 @@ namespace cachelot {
         /// Test whether `bitno` is set (`bitno` counts from zero)
         template <typename IntType>
         constexpr bool is_set(const IntType value, const unsigned bitno) noexcept {
-            return value & (1 << bitno);
+            return value & (IntType(1) << bitno);
         }
 
         /// Test whether `bitno` is not set (`bitno` counts from zero)
-- 
2.43.0


From ba79bc8564f2c45f9af7d6ee1af60b624819d360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:38 +0000
Subject: [PATCH 29/32] fix: intrusive_list::is_tail() ignored the link member
 the list is made of

---
 src/cachelot/intrusive_list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/intrusive_list.h b/src/cachelot/intrusive_list.h
index ff9a415..64a00da 100644
--- a/src/cachelot/intrusive_list.h
+++ b/src/cachelot/intrusive_list.h
@@ -108,7 +108,7 @@ namespace cachelot {
         bool is_tail(pointer item) const noexcept {
             debug_assert(is_linked(item));
             debug_assert(has(item));
-            return &item->link == dummy_link.prev;
+            return &(item->*LinkPonter) == dummy_link.prev;
         }
 
         /// move `item` to front
-- 
2.43.0


From b0e6b5717e9b8256efd518fef11de5548a8c9fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:10 +0000
Subject: [PATCH 30/32] fix: load limit of the hash tables bigger than 2^26
 overflowed

---
 src/cachelot/hash_table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/hash_table.h b/src/cachelot/hash_table.h
index bdf2e02..193f27e 100644
--- a/src/cachelot/hash_table.h
+++ b/src/cachelot/hash_table.h
@@ -281,7 +281,7 @@ namespace cachelot {
         constexpr bool empty() const noexcept { return m_size == 0; }
 
         /// returns max number of elements that can be stored in table
-        constexpr size_type max_size() const noexcept { return static_cast<size_type>(capacity() * max_load_factor_percent / 100); }
+        constexpr size_type max_size() const noexcept { return static_cast<size_type>(static_cast<uint64>(capacity()) * max_load_factor_percent / 100); }
 
     private:
         /// return position in table which element with given `hash` would occupy
-- 
2.43.0


From a3c335c75f40c621276dfb4aa806c201cff8432c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:10 +0000
Subject: [PATCH 31/32] fix: pipelined store was refused because of the already
 handled requests in the receive buffer

---
 src/server/memcached/proto_ascii.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/server/memcached/proto_ascii.cpp b/src/server/memcached/proto_ascii.cpp
index 6c145c2..c3f9383 100644
--- a/src/server/memcached/proto_ascii.cpp
+++ b/src/server/memcached/proto_ascii.cpp
@@ -27,7 +27,7 @@ namespace cachelot {
         net::ConversationReply handle_retrieval_command(Command cmd, slice args, io_buffer & send_buf, cache::Cache & cache_api);
 
         /// Handle on of the: `add`, `set`, `replace`, `cas`, `append`, `prepend` commands
-        net::ConversationReply handle_storage_command(Command cmd, slice args, io_buffer & recv_buf, io_buffer & send_buf, cache::Cache & cache_api);
+        net::ConversationReply handle_storage_command(Command cmd, slice args, io_buffer & recv_buf, bool first_in_buf, io_buffer & send_buf, cache::Cache & cache_api);
 
         /// Handle the `delete` command
         net::ConversationReply handle_delete_command(Command cmd, slice args, io_buffer & send_buf, cache::Cache & cache_api);
@@ -126,6 +126,7 @@ namespace cachelot {
 
         net::ConversationReply handle_received_data(io_buffer & recv_buf, io_buffer & send_buf, cache::Cache & cache_api) noexcept {
             auto r_savepoint = recv_buf.read_savepoint();
+            const bool first_in_buf = recv_buf.size() == recv_buf.non_read();
             auto w_savepoint = send_buf.write_savepoint();
             try {
                 // read command header <cmd> <key> <args...>\r\n
@@ -155,7 +156,7 @@ namespace cachelot {
                 case Command::PREPEND:
                 case Command::REPLACE:
                 case Command::SET:
-                    reply = handle_storage_command(command, args, recv_buf, send_buf, cache_api);
+                    reply = handle_storage_command(command, args, recv_buf, first_in_buf, send_buf, cache_api);
                     break;
                 // delete
                 case Command::DEL:
@@ -267,7 +268,7 @@ namespace cachelot {
         }
 
 
-        inline net::ConversationReply handle_storage_command(Command cmd, slice args, io_buffer & recv_buf, io_buffer & send_buf, cache::Cache & cache_api) {
+        inline net::ConversationReply handle_storage_command(Command cmd, slice args, io_buffer & recv_buf, bool first_in_buf, io_buffer & send_buf, cache::Cache & cache_api) {
             slice key; tie(key, args) = parse_key(args);
             slice parsed;
             tie(parsed, args) = args.split(SPACE);
@@ -288,7 +289,12 @@ namespace cachelot {
             // read <value>\r\n
             if (recv_buf.non_read() < datalen + CRLF.length()) {
                 // help buffer to grow up to the necessary size
-                recv_buf.ensure_capacity(datalen + CRLF.length() - recv_buf.non_read());
+                try {
+                    recv_buf.ensure_capacity(datalen + CRLF.length() - recv_buf.non_read());
+                } catch (const std::length_error &) {
+                    // preceding requests are still in the buffer, try again when they'll be discarded
+                    if (first_in_buf) { throw; }
+                }
                 throw system_error(error::incomplete_request);
             }
             auto value = slice(recv_buf.begin_read(), datalen + CRLF.length());
-- 
2.43.0


From 1b5ed7a0aefd36f3b0555ffdd22881ebf4a04fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:07 +0000
Subject: [PATCH 32/32] fix: undefined negation of the minimal 64-bit integer
 in decimal conversion

Negating the minimal value of intptr_t overflows, both when the number
-9223372036854775808 is printed and when it is parsed.
---
 src/cachelot/string_conv.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/string_conv.h b/src/cachelot/string_conv.h
index b81eb54..9cbf6b9 100644
--- a/src/cachelot/string_conv.h
+++ b/src/cachelot/string_conv.h
@@ -131,7 +131,7 @@ namespace cachelot {
                 UnsignedIntType xvalue;
                 if (negative) {
                     *dest++ = '-';
-                    xvalue = - (intptr_t)static_cast<UnsignedIntType>(value);
+                    xvalue = static_cast<UnsignedIntType>(UnsignedIntType(0) - static_cast<UnsignedIntType>(value));
                 } else {
                     xvalue = value;
                 }
@@ -316,7 +316,7 @@ namespace cachelot {
                 return unsigned_value * sign;
             }
             if (unsigned_value == int64_boundary && sign == -1) {
-                return -(intptr_t)unsigned_value;
+                return std::numeric_limits<int64>::min();
             }
             out_error = error::numeric_overflow;
             return NO_RESULT;
-- 
2.43.0

