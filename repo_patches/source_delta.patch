From 8e0a0d53f529bcd0c97cbaab12a4a14a9b71ccc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:16 +0000
Subject: [PATCH 01/64] fix: hexadecimal parsing rejects malformed input and
 never indexes outside its table

---
 include/dottorrent/hex.hpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/include/dottorrent/hex.hpp b/include/dottorrent/hex.hpp
index 281002b..c23fe63 100644
--- a/include/dottorrent/hex.hpp
+++ b/include/dottorrent/hex.hpp
@@ -47,7 +47,7 @@ struct hex_to_int_lookup_table
 {
     constexpr hex_to_int_lookup_table() = default;
     constexpr unsigned char operator()(char i) const noexcept
-    { return table_[i]; }
+    { return table_[static_cast<unsigned char>(i)]; }
 
 private:
     static constexpr std::array<unsigned char, 256> table_ = generate_hex_to_int_table();
@@ -93,17 +93,16 @@ inline constexpr void byte_to_hex_uppercase(std::byte c, char * __restrict out)
 template <std::output_iterator<std::byte> OutputIt>
 inline constexpr void from_hexadecimal_string(OutputIt out, std::string_view hex_string)
 {
-    auto it = hex_string.data();
-    auto end = hex_string.data() + hex_string.size();
-    while (it != end) {
-        char v;
-        auto r = std::from_chars(it, it+2, v, /*base*/ 16);
-
-        if (r.ec != std::errc{}) [[unlikely]] {
-            throw std::system_error(std::make_error_code(r.ec));
+    if (hex_string.size() % 2 != 0) [[unlikely]] {
+        throw std::system_error(std::make_error_code(std::errc::invalid_argument));
+    }
+    for (std::size_t i = 0; i < hex_string.size(); i += 2) {
+        std::byte v {};
+
+        if (!detail::hex_to_byte(hex_string[i], hex_string[i+1], v)) [[unlikely]] {
+            throw std::system_error(std::make_error_code(std::errc::invalid_argument));
         }
-        it = r.ptr;
-        *out = std::byte(v);
+        *out++ = v;
     }
 }
 
@@ -112,9 +111,9 @@ inline std::optional<std::array<std::byte, N>>
 constexpr from_hexadecimal_string(std::string_view hexdigest)
 {
     std::array<std::byte, N> data{};
-    if (hexdigest.size()/2 != N) return std::nullopt;
+    if (hexdigest.size() != 2 * N) return std::nullopt;
 
-    std::byte byte_value;
+    std::byte byte_value {};
     for (size_t i = 0; i < hexdigest.size() / 2; ++i) {
         auto succes = detail::hex_to_byte(hexdigest.substr(2 * i, 2), byte_value);
         if (!succes) [[unlikely]] return std::nullopt;
@@ -136,13 +135,13 @@ inline std::string to_hexadecimal_string(std::span<const std::byte> data)
 }
 
 template <std::output_iterator<char> OutputIt>
-inline constexpr char* to_hexadecimal_string(OutputIt out, std::span<const std::byte> data)
+inline constexpr OutputIt to_hexadecimal_string(OutputIt out, std::span<const std::byte> data)
 {
     std::array<char, 2> buf {};
 
     for (const auto c : data) {
         detail::byte_to_hex(c, buf.data());
-        std::copy_n(buf, 2, out);
+        out = std::copy_n(buf.data(), 2, out);
     }
     return out;
 }
-- 
2.43.0


From 0e5ab13ce89e0a974ead9a0d995709d95d4de0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:16 +0000
Subject: [PATCH 02/64] fix: percent_encode advances its output iterator;
 percent_decode rejects malformed escapes

---
 include/dottorrent/percent_encoding.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dottorrent/percent_encoding.hpp b/include/dottorrent/percent_encoding.hpp
index 136728c..4ac3fed 100644
--- a/include/dottorrent/percent_encoding.hpp
+++ b/include/dottorrent/percent_encoding.hpp
@@ -77,7 +77,7 @@ constexpr void percent_encode(InputIt first, InputIt last, OutputIt out)
 
     for (; first != last; ++first) {
         auto size = detail::percent_encode_char(*first, buffer.data());
-        std::copy_n(buffer.data(), size, out);
+        out = std::copy_n(buffer.data(), size, out);
     }
 }
 
@@ -112,14 +112,14 @@ percent_decode(InputIt first, InputIt last, OutputIt out)
         char c = *first++;
 
         // We must start with copying the two hexadecimal character to the buffer
-        if (c == '%') {
+        if (c == '%' && !copy_to_buffer_status) {
             copy_to_buffer_status = true;
             continue;
         }
 
         // We are busy with decoding an encoded character
         if (copy_to_buffer_status) {
-            if (!detail::is_alphanumerical(c)) [[unlikely]] {
+            if (dottorrent::detail::hex_to_int(c) == std::numeric_limits<unsigned char>::max()) [[unlikely]] {
                 return percent_decode_status::non_hex_encoded_character;
             }
 
@@ -127,7 +127,7 @@ percent_decode(InputIt first, InputIt last, OutputIt out)
 
             // full percent encoded character has been copied to buffer, decode it and reset status
             if (buffer_offset == 2) {
-                std::byte result;
+                std::byte result {};
                 dottorrent::detail::hex_to_byte(buffer[0], buffer[1], result);
                 *out++ = static_cast<char>(result);
 
@@ -140,7 +140,7 @@ percent_decode(InputIt first, InputIt last, OutputIt out)
         }
     }
 
-    if (buffer_offset != 0) [[unlikely]] {
+    if (copy_to_buffer_status) [[unlikely]] {
         return percent_decode_status::incomplete_encoded_character;
     }
     return percent_decode_status{};
-- 
2.43.0


From 63d99047d9d04378c16ea742e126d60b636795e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:42 +0000
Subject: [PATCH 03/64] fix: concurrent_queue honours a changed capacity:
 waiting pushers wake up, try_push never exceeds it

---
 include/dottorrent/concurrent_queue.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/dottorrent/concurrent_queue.hpp b/include/dottorrent/concurrent_queue.hpp
index a2e1c6c..11489eb 100644
--- a/include/dottorrent/concurrent_queue.hpp
+++ b/include/dottorrent/concurrent_queue.hpp
@@ -54,7 +54,7 @@ public:
     bool try_push(T &&item) {
         {
             std::unique_lock<std::mutex> lk(mutex_);
-            if (queue_.size() == capacity_)
+            if (queue_.size() >= capacity_)
                 return false;
             queue_.push(std::move(item));
         }
@@ -92,8 +92,11 @@ public:
 
     void set_capacity(std::size_t n) noexcept
     {
-        std::unique_lock<std::mutex> lk(mutex_);
-        capacity_ = n;
+        {
+            std::unique_lock<std::mutex> lk(mutex_);
+            capacity_ = n;
+        }
+        not_full_.notify_all();
     }
 
 private:
-- 
2.43.0


From 19c4c919ea9f9a42685e8489828aad4d95a727ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:11 +0000
Subject: [PATCH 04/64] fix: concurrent_queue_processor ends without deadlock,
 abort or dangling workers

wait() blocked for ever on a full queue whose workers were gone, a cancelled
processor was destroyed under its running workers, and discarding pending work
on cancellation aborted.
---
 .../dottorrent/concurrent_queue_processor.hpp | 41 +++++++++----------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/include/dottorrent/concurrent_queue_processor.hpp b/include/dottorrent/concurrent_queue_processor.hpp
index 78ab969..a852931 100644
--- a/include/dottorrent/concurrent_queue_processor.hpp
+++ b/include/dottorrent/concurrent_queue_processor.hpp
@@ -75,19 +75,16 @@ public:
         if (!started()) return;
 
         // Wake threads that remain blocked on pop calls.
-        for  (auto i = 0; i < threads_.size(); ++i) {
-            queue_->push(std::nullopt);
-        }
-
-        // Wake threads that remain blocked on pop calls.
-        for  (auto i = 0; !done() && i < threads_.size(); ++i) {
+        // Never block on a full queue: the workers that would empty it may be gone already.
+        while (!all_finished()) {
             queue_->try_push(std::nullopt);
-            std::this_thread::sleep_for(std::chrono::milliseconds(10));
+            std::this_thread::sleep_for(std::chrono::milliseconds(1));
         }
 
         // should all be finished by now and ready to join
         for (auto& t : threads_) {
-            t.join();
+            if (t.joinable())
+                t.join();
         }
         Expects(done());
     }
@@ -109,9 +106,7 @@ public:
     /// Check if the hasher has completed all work or is cancelled.
     bool done() const noexcept
     {
-        bool all_done = std::all_of(done_.begin(), done_.end(),
-                [](auto& b) { return b.load(std::memory_order_relaxed); });
-        return cancelled() || (started() && all_done);
+        return cancelled() || (started() && all_finished());
     }
 
     std::shared_ptr<queue_type> get_queue()
@@ -122,13 +117,19 @@ public:
 
     ~concurrent_queue_processor()
     {
-        if (started() && !done()) {
-            request_stop();
-            wait();
-        }
+        // Cancelled workers can still be running and must be joined as well.
+        request_stop();
+        wait();
     }
 
 private:
+    /// Return true if all workers ran to completion.
+    bool all_finished() const noexcept
+    {
+        return std::all_of(done_.begin(), done_.end(),
+                [](auto& b) { return b.load(std::memory_order_relaxed); });
+    }
+
     void run(std::stop_token stop_token, int thread_idx)
     {
         Ensures(stop_token.stop_possible());
@@ -154,14 +155,10 @@ private:
                 std::invoke(work_function_, std::move(*item));
             }
         }
-        done_[thread_idx] = true;
-
-        // Remaining pieces should all be empty
-        if (queue_->size() != 0) {
-            while (queue_->try_pop(item)) {
-                Ensures(!item.has_value());
-            }
+        else {
+            while (queue_->try_pop(item)) { }
         }
+        done_[thread_idx] = true;
     }
 
     std::vector<std::jthread> threads_;
-- 
2.43.0


From a6f8cfbed943ba4c0881282addae679e160b3840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:11 +0000
Subject: [PATCH 05/64] fix: sha3_384 digests have 384 bits;
 basic_hash::value() compiles

---
 include/dottorrent/hash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/hash.hpp b/include/dottorrent/hash.hpp
index b43632c..2de430a 100644
--- a/include/dottorrent/hash.hpp
+++ b/include/dottorrent/hash.hpp
@@ -104,7 +104,7 @@ public:
     constexpr auto end() const noexcept -> const_iterator
     { return data_.end(); }
 
-    constexpr auto value() const noexcept -> storage_type&
+    constexpr auto value() const noexcept -> const storage_type&
     { return data_; }
 
     constexpr auto data() noexcept -> value_type*
@@ -202,7 +202,7 @@ DOTTORRENT_HASH_CLASS_TEMPLATE(sha384,     384)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha512,     512)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_224,   224)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_256,   256)
-DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_384,   284)
+DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_384,   384)
 DOTTORRENT_HASH_CLASS_TEMPLATE(sha3_512,   512)
 DOTTORRENT_HASH_CLASS_TEMPLATE(shake128,   128)
 DOTTORRENT_HASH_CLASS_TEMPLATE(shake256,   256)
-- 
2.43.0


From 0617a09315c4cd23ea700a7b88ee31666e710fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:56 +0000
Subject: [PATCH 06/64] fix: generic_checksum built from characters holds them

---
 include/dottorrent/checksum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/checksum.hpp b/include/dottorrent/checksum.hpp
index 9c29b80..6a5b289 100644
--- a/include/dottorrent/checksum.hpp
+++ b/include/dottorrent/checksum.hpp
@@ -64,7 +64,7 @@ public:
             , key_(key)
     {
         data_.reserve(value.size());
-        std::transform(std::begin(value), std::end(value), std::begin(data_),
+        std::transform(std::begin(value), std::end(value), std::back_inserter(data_),
                 [](char i) { return std::byte(i); });
     }
 
-- 
2.43.0


From 6968497d6f5ac33d25e70c1ce9ffa379cc582204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:49 +0000
Subject: [PATCH 07/64] fix: merkle_tree assignment and has_root compile, layer
 and range views stay inside the tree

---
 include/dottorrent/merkle_tree.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/dottorrent/merkle_tree.hpp b/include/dottorrent/merkle_tree.hpp
index 94eed2e..9efc172 100644
--- a/include/dottorrent/merkle_tree.hpp
+++ b/include/dottorrent/merkle_tree.hpp
@@ -51,10 +51,11 @@ public:
         if (&other == this)
             return *this;
 
-        std::unique_lock lck1{data_.mutex_, std::defer_lock};
+        std::unique_lock lck1{mutex_, std::defer_lock};
         std::unique_lock lck2{other.mutex_, std::defer_lock};
         std::lock(lck1, lck2);
         data_ = other.data_;
+        return *this;
     }
 
     merkle_tree& operator=(merkle_tree&& other) noexcept
@@ -62,10 +63,11 @@ public:
         if (&other == this)
             return *this;
 
-        std::unique_lock lck1{data_.mutex_, std::defer_lock};
+        std::unique_lock lck1{mutex_, std::defer_lock};
         std::unique_lock lck2{other.mutex_, std::defer_lock};
         std::lock(lck1, lck2);
         data_ = std::move(other.data_);
+        return *this;
     }
 
     /// Set the number of leaf nodes and initialize them to `value`
@@ -84,8 +86,9 @@ public:
     }
 
     /// Return true if the merkle root is set.
-    const value_type& has_root()
+    bool has_root() const
     {
+        std::shared_lock lck{mutex_};
         return data_[0] != value_type{};
     }
 
@@ -163,9 +166,11 @@ public:
     /// Not thread safe
     std::span<const value_type> get_layer(std::size_t depth, std::size_t root_idx = 0)
     {
-        Ensures(depth <= tree_height());
-        auto begin = std::next(data_.cbegin(), get_flat_index(depth, root_idx));
-        return std::span<const value_type>(&*begin, nodes_in_layer(depth));
+        Expects(root_idx < data_.size());
+        Expects(get_node_layer(root_idx) + depth <= tree_height());
+        // index of the leftmost node `depth` layers below the subtree root
+        auto first = ((root_idx + 1) << depth) - 1;
+        return std::span<const value_type>(data_).subspan(first, nodes_in_layer(depth));
     }
 
     /// Return the node at given layer and index
@@ -186,7 +191,7 @@ public:
         std::shared_lock lck{mutex_};
         auto d_first = get_flat_index(layer, first);
         auto d_last = get_flat_index(layer, last);
-        return std::span(&data_[d_first], &data_[d_last]);
+        return std::span<const value_type>(data_).subspan(d_first, d_last - d_first);
     }
 
     const value_type& get_leaf(std::size_t index) const
-- 
2.43.0


From 55c086a5d0afd482dcb4cebc27b6deb2ce480c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:49 +0000
Subject: [PATCH 08/64] fix: file_entry::remove_checksum compiles

---
 include/dottorrent/file_entry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/file_entry.hpp b/include/dottorrent/file_entry.hpp
index f3c9f83..2406afc 100644
--- a/include/dottorrent/file_entry.hpp
+++ b/include/dottorrent/file_entry.hpp
@@ -83,7 +83,7 @@ public:
     {
         std::unique_lock lck{checksum_mutex_};
         if (auto it = checksums_.find(algorithm); it != checksums_.end()) {
-            checksums_.erase(*it);
+            checksums_.erase(it);
         }
     }
 
-- 
2.43.0


From 4d928a4312f51c00cc2ccb5dd29a690114b03c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:19 +0000
Subject: [PATCH 09/64] fix: copying file_storage keeps mode and sizes and
 drops a stale index; move-assigning file_entry keeps checksums

---
 include/dottorrent/file_storage.hpp | 2 +-
 src/file_entry.cpp                  | 2 +-
 src/file_storage.cpp                | 5 +++++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/file_storage.hpp b/include/dottorrent/file_storage.hpp
index 4327bf4..b7c896d 100644
--- a/include/dottorrent/file_storage.hpp
+++ b/include/dottorrent/file_storage.hpp
@@ -260,7 +260,7 @@ private:
     std::vector<sha1_hash> pieces_ {};
     std::mutex pieces_mutex_ {};
 
-    mutable bool index_valid_;
+    mutable bool index_valid_ = false;
     mutable std::vector<std::size_t> files_index_;
 };
 
diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index ffd1b47..37abd00 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -94,7 +94,7 @@ file_entry& file_entry::operator=(file_entry&& other) noexcept
     attributes_ = other.attributes_;
     symlink_path_ = std::move(other.symlink_path_);
     last_modified_time_ = other.last_modified_time_;
-    checksums_ = std::move(checksums_);
+    checksums_ = std::move(other.checksums_);
     has_v2_data_ = other.has_v2_data_;
 
     return *this;
diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index b4539d3..f8a3ed2 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -4,8 +4,10 @@ namespace dottorrent {
 
 file_storage::file_storage(const file_storage& other)
     : total_file_size_(other.total_file_size_)
+    , total_regular_file_size_(other.total_regular_file_size_)
     , piece_size_(other.piece_size_)
     , root_directory_(other.root_directory_)
+    , file_mode_(other.file_mode_)
     , files_(other.files_)
     , pieces_(other.pieces_)
     {}
@@ -14,10 +16,13 @@ file_storage& file_storage::operator=(const file_storage& other)
 {
     if (&other == this) return *this;
     total_file_size_ = other.total_file_size_;
+    total_regular_file_size_ = other.total_regular_file_size_;
     piece_size_ = other.piece_size_;
     root_directory_ = other.root_directory_;
+    file_mode_ = other.file_mode_;
     files_ = other.files_;
     pieces_ = other.pieces_;
+    index_valid_ = false;
 
     return *this;
 }
-- 
2.43.0


From f3f60237ad2faded02cb9de154909a143ce511d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:19 +0000
Subject: [PATCH 10/64] fix: get_pieces_offsets covers the last piece of files
 that do not start on a piece boundary

---
 src/file_storage.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index f8a3ed2..0b39f6b 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -215,9 +215,11 @@ std::pair<std::size_t, std::size_t> file_storage::get_pieces_offsets(std::size_t
             std::plus<>{},
             [&](const file_entry& e) { return e.file_size(); });
 
-    auto offset = cumulative_size / piece_size_;
-    auto count = (entry.file_size() + piece_size_ - 1) / piece_size_;
-    return {offset, offset+count};
+    auto first = cumulative_size / piece_size_;
+    if (entry.file_size() == 0) return {first, first};
+    // the last piece is the one containing the last byte of the file
+    auto last = (cumulative_size + entry.file_size() - 1) / piece_size_;
+    return {first, last + 1};
 }
 
 void file_storage::set_piece_hash(std::size_t index, const sha1_hash& hash)
-- 
2.43.0


From aaa63db213698016f6a97e8856a9aed8716cb001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:19 +0000
Subject: [PATCH 11/64] fix: file_storage drops piece hashes when cleared or
 given another piece size, as documented

---
 include/dottorrent/file_storage.hpp | 2 ++
 src/file_storage.cpp                | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/include/dottorrent/file_storage.hpp b/include/dottorrent/file_storage.hpp
index b7c896d..71a8a59 100644
--- a/include/dottorrent/file_storage.hpp
+++ b/include/dottorrent/file_storage.hpp
@@ -95,7 +95,9 @@ public:
     {
         index_valid_ = false;
         files_.clear();
+        pieces_.clear();
         total_file_size_ = 0;
+        total_regular_file_size_ = 0;
     }
 
     const file_entry& operator[](std::size_t index) const noexcept
diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 0b39f6b..3acf825 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -134,6 +134,14 @@ void file_storage::set_piece_size(std::size_t size) {
     Expects(std::has_single_bit(size));       // size must be a power of two
 
     piece_size_ = size;
+
+    // hashes made for another piece size are meaningless
+    pieces_.clear();
+    for (auto& entry : files_) {
+        entry.has_v2_data_ = false;
+        entry.pieces_root_ = {};
+        entry.piece_layer_.clear();
+    }
 }
 
 void file_storage::allocate_pieces()
-- 
2.43.0


From 9eada9175a41da91331e8c0dbe6ac05768b1dd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:19 +0000
Subject: [PATCH 12/64] fix: directory listings and counts tell directories
 from mere name prefixes

---
 src/file_storage.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 3acf825..9dd0ea0 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -262,6 +262,14 @@ void file_storage::index() const {
     index_valid_ = true;
 }
 
+/// Check if a path equals or is located below a directory.
+static bool is_inside_directory(std::string_view path, std::string_view directory)
+{
+    return path.starts_with(directory) &&
+           (directory.empty() || directory.ends_with('/') ||
+            path.size() == directory.size() || path[directory.size()] == '/');
+}
+
 std::vector<const file_entry*> file_storage::directory_contents(const fs::path& directory) const {
     if (!index_valid()) { index(); }
     auto directory_string = directory.string();
@@ -269,7 +277,7 @@ std::vector<const file_entry*> file_storage::directory_contents(const fs::path&
     auto first = rng::lower_bound(files_index_, directory, std::ranges::less{},
             [this](std::size_t index) { return files_[index].path(); });
     auto last = rng::find_if_not(first, files_index_.end(), [&, this](std::size_t index) {
-        return files_[index].path().string().starts_with(directory_string);
+        return is_inside_directory(files_[index].path().string(), directory_string);
     });
 
     std::vector<const file_entry*> results;
@@ -314,7 +322,7 @@ std::size_t directory_count(const file_storage& storage, const fs::path& root, b
     auto root_string = root.string();
 
     for (const auto& f : storage) {
-        if (!root.empty() && !f.path().string().starts_with(root_string)) {
+        if (!is_inside_directory(f.path().string(), root_string)) {
             continue;
         }
 
@@ -324,7 +332,8 @@ std::size_t directory_count(const file_storage& storage, const fs::path& root, b
         auto last = std::next(f.path().end(), -1);
 
         while (it != last) {
-            auto dir = (current_dir / *it).string();
+            current_dir /= *it;
+            auto dir = current_dir.string();
             directories.emplace(dir);
             if (is_padding_dir_candidate) { padding_dir_candidates.emplace(dir); }
             it++;
-- 
2.43.0


From e2b51dd7f5f72e7da95b55e87395b4af522e8ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:19 +0000
Subject: [PATCH 13/64] fix: optimize_alignment handles empty and already
 padded storages

---
 src/file_storage.cpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index 9dd0ea0..d8af684 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -459,30 +459,27 @@ void optimize_alignment(file_storage& storage)
 
     const std::size_t piece_size = storage.piece_size();
 
-    std::size_t total_padding_bytes = 0;
-    std::vector<file_entry> aligned_entries {};
-
-    for (std::size_t i = 0; i < storage.file_count()-1; ++i) {
-        auto& entry = storage[i];
-        auto size = entry.file_size();
-        aligned_entries.push_back(std::move(entry));
+    if (is_piece_aligned(storage)) return;
 
-        auto bytes_till_next_piece = piece_size - (size % piece_size);
+    std::size_t bytes_offset = 0;
+    std::vector<file_entry> aligned_entries {};
 
-        Expects(bytes_till_next_piece != 0);
-        if (bytes_till_next_piece != piece_size) [[likely]] {
-            aligned_entries.push_back(make_padding_file_entry(bytes_till_next_piece));
-            total_padding_bytes += bytes_till_next_piece;
+    for (auto& entry : storage) {
+        // existing padding files already count towards the alignment of the next file
+        auto bytes_past_piece = bytes_offset % piece_size;
+        if (!entry.is_padding_file() && bytes_past_piece != 0) [[likely]] {
+            aligned_entries.push_back(make_padding_file_entry(piece_size - bytes_past_piece));
+            bytes_offset += piece_size - bytes_past_piece;
         }
+        bytes_offset += entry.file_size();
+        aligned_entries.push_back(std::move(entry));
     }
-    // add the last file
-    aligned_entries.push_back(std::move(storage.back()));
 
     // clear old storage and set new
     storage.clear();
     storage.add_files(aligned_entries.begin(), aligned_entries.end());
 
-    Ensures(storage.total_file_size() == storage.total_regular_file_size() + total_padding_bytes);
+    Ensures(storage.total_file_size() == bytes_offset);
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From 0e8a44343f16405c271b62a52ce35e0f0693709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:19 +0000
Subject: [PATCH 14/64] fix: announce_url_list keeps literal tiers sorted and
 returns valid iterators

---
 include/dottorrent/announce_url_list.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/dottorrent/announce_url_list.hpp b/include/dottorrent/announce_url_list.hpp
index 99c19a0..3f0f5cc 100644
--- a/include/dottorrent/announce_url_list.hpp
+++ b/include/dottorrent/announce_url_list.hpp
@@ -26,12 +26,12 @@ public:
     {
         std::size_t tier = 0;
         for (const auto& level : il) {
+            std::vector<announce_url> tmp {};
             for (const auto& url : level) {
-                std::vector<announce_url> tmp {};
                 tmp.emplace_back(url, tier);
-                rng::sort(tmp, url_comparator);
-                rng::move(tmp, std::back_inserter(announce_list_));
             }
+            rng::sort(tmp, url_comparator);
+            rng::move(tmp, std::back_inserter(announce_list_));
             ++tier;
         }
     }
@@ -114,8 +114,7 @@ public:
         Expects(announce.tier <= tier_count());
 
         auto it = std::upper_bound(announce_list_.begin(), announce_list_.end(), announce);
-        announce_list_.insert(it, announce);
-        return it;
+        return announce_list_.insert(it, announce);
     }
 
     auto insert(announce_url&& announce)
@@ -123,8 +122,7 @@ public:
         Expects(announce.tier <= tier_count());
 
         auto it = std::upper_bound(announce_list_.begin(), announce_list_.end(), announce);
-        announce_list_.insert(it, std::move(announce));
-        return it;
+        return announce_list_.insert(it, std::move(announce));
     }
 
     auto emplace(std::string_view url, std::size_t tier)
@@ -133,8 +131,7 @@ public:
 
         auto [begin, end] = get_tier(tier);
         auto it = std::upper_bound(begin, end, url, url_comparator);
-        announce_list_.emplace(it, url, tier);
-        return it;
+        return announce_list_.emplace(it, url, tier);
     }
 
     auto erase(iterator pos)
-- 
2.43.0


From 61cc3b9a392c13015c20df50cad4f79cb0d2aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:19 +0000
Subject: [PATCH 15/64] fix: info_hash ordering distinguishes hybrid hashes;
 absent versions are reported

---
 include/dottorrent/info_hash.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dottorrent/info_hash.hpp b/include/dottorrent/info_hash.hpp
index 7a1e1c1..d5fb063 100644
--- a/include/dottorrent/info_hash.hpp
+++ b/include/dottorrent/info_hash.hpp
@@ -92,9 +92,9 @@ public:
 
         switch (protocol_version) {
         case protocol::v1:
-            return std::string_view(*v1_hash_);
+            return std::string_view(v1_hash_.value());
         case protocol::v2:
-            return std::string_view(*v2_hash_);
+            return std::string_view(v2_hash_.value());
         default:
             throw std::invalid_argument("only v1 or v2 allowed");
         }
@@ -139,10 +139,10 @@ public:
             return protocol_version_ <=> other.protocol_version_;
         }
 
-        if (protocol_version_ == protocol::v1) {
-            return v1_hash_ <=> other.v1_hash_;
+        if (auto cmp = v2_hash_ <=> other.v2_hash_; cmp != 0) {
+            return cmp;
         }
-        return v2_hash_ <=> other.v2_hash_;
+        return v1_hash_ <=> other.v1_hash_;
     }
 
 
@@ -170,7 +170,7 @@ struct hash<dottorrent::info_hash>
         }
         case dottorrent::protocol::hybrid: {
             return std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v1)) |
-                   std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v1));
+                   std::hash<std::string_view>{}(h.get_binary(dottorrent::protocol::v2));
         }
         default:
             return 0;
-- 
2.43.0


From 0eca12a913c30cf55892b91336808e90d65e8424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:24 +0000
Subject: [PATCH 16/64] fix: make_v1_pieces_string reserves the size of its
 result, not 20 bytes per byte of a piece

---
 src/file_storage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index d8af684..d691e61 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -414,7 +414,7 @@ auto absolute_file_paths(const file_storage& storage) -> std::vector<fs::path>
 std::string make_v1_pieces_string(const file_storage& storage)
 {
     std::string pieces_string{};
-    pieces_string.reserve(storage.piece_size() * sha1_hash::size());
+    pieces_string.reserve(storage.pieces().size() * sha1_hash::size());
     for (const auto& p: storage.pieces()) {
         pieces_string.append(std::string_view(p));
     }
-- 
2.43.0


From 733e2c30645d050ba17dc2b1793ffa8c3a1b0e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:17 +0000
Subject: [PATCH 17/64] fix: padding files are left out of the v2 file tree and
 piece layers

---
 src/metafile_serialization.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/metafile_serialization.cpp b/src/metafile_serialization.cpp
index e209a50..a7d89ed 100644
--- a/src/metafile_serialization.cpp
+++ b/src/metafile_serialization.cpp
@@ -96,6 +96,10 @@ bencode::bvalue make_bvalue_infodict_v2(const metafile& m)
 
     auto ptr = &file_tree;
     for (const auto& file : storage) {
+        // padding files are only for v1
+        if (file.is_padding_file())
+            continue;
+
         for (const auto& component : file.path()) {
             if (auto it = ptr->find(component); it != ptr->end()) {
                 ptr = &get_dict(it->second);
@@ -347,7 +351,7 @@ bencode::bvalue make_bvalue_v2(const dottorrent::metafile& m)
 
     std::size_t f_idx = 0;
     for (const auto& file: storage) {
-        if (file.file_size() > storage.piece_size()) {
+        if (!file.is_padding_file() && file.file_size() > storage.piece_size()) {
             piece_layers.insert_or_assign(
                     std::string(std::string_view(file.pieces_root())),
                     make_v2_piece_layers_string(file));
@@ -376,7 +380,7 @@ bencode::bvalue make_bvalue_hybrid(const metafile& m)
 
     std::size_t f_idx = 0;
     for (const auto& file: storage) {
-        if (file.file_size() > storage.piece_size()) {
+        if (!file.is_padding_file() && file.file_size() > storage.piece_size()) {
             piece_layers.insert_or_assign(
                     std::string(std::string_view(file.pieces_root())),
                     make_v2_piece_layers_string(file));
-- 
2.43.0


From 5e9fe2535683019424387d581cb74c0fd2d0f9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:37 +0000
Subject: [PATCH 18/64] fix: a hybrid single file torrent is named after its
 file, so that it can be read back

---
 src/metafile_serialization.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/metafile_serialization.cpp b/src/metafile_serialization.cpp
index a7d89ed..d7c29a8 100644
--- a/src/metafile_serialization.cpp
+++ b/src/metafile_serialization.cpp
@@ -238,11 +238,14 @@ bencode::bvalue make_bvalue_infodict_hybrid(const metafile& m)
 
     info.insert_or_assign("file tree", std::move(bfile_tree));
 
-    if (m.name().empty()) {
-        info.insert_or_assign("name", storage.root_directory().filename().string());
-    }
-    else {
-        info.insert_or_assign("name", m.name());
+    // the name of a single file torrent is the name of its file, as listed in the file tree
+    if (storage.file_mode() != file_mode::single) {
+        if (m.name().empty()) {
+            info.insert_or_assign("name", storage.root_directory().filename().string());
+        }
+        else {
+            info.insert_or_assign("name", m.name());
+        }
     }
 
     info.insert_or_assign("piece length", storage.piece_size());
-- 
2.43.0


From 75b87a8ec20cae81697197263afbf6c3e1001cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:05 +0000
Subject: [PATCH 19/64] fix: single file torrents keep the attributes, symlink
 target and checksums of their file

---
 src/metafile_parsing.cpp       |  4 ++++
 src/metafile_serialization.cpp | 16 ++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 8a64d07..68408e4 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -352,9 +352,13 @@ void parse_other_info_fields(const T& data, metafile& m)
         "source"sv,
     };
 
+    // the info dict of a single file torrent describes the file
+    const bool is_single_file = !info_dict.contains("files"sv) && info_dict.contains("length"sv);
+
     for (const auto& [k, v] : info_dict) {
         auto tmp = std::string(k);
         if (known_keys.contains(k)) continue;
+        if (is_single_file && (k == "attr" || k == "symlink path" || is_hash_function_name(k))) continue;
         m.other_info_fields().insert_or_assign(std::string(k), v);
     }
 }
diff --git a/src/metafile_serialization.cpp b/src/metafile_serialization.cpp
index d7c29a8..3c1f628 100644
--- a/src/metafile_serialization.cpp
+++ b/src/metafile_serialization.cpp
@@ -8,6 +8,20 @@
 
 namespace dottorrent::detail {
 
+/// Add the attributes, symlink target and checksums of `file` to the dict that describes it.
+static void add_file_fields(bencode::bvalue& file_info, const file_entry& file)
+{
+    if (file.attributes()) {
+        file_info["attr"] = file.attributes().value();
+    }
+    if (file.is_symlink()) {
+        file_info["symlink path"] = file.symlink_path().value();
+    }
+    for (const auto& [algo, checksum] : file.checksums()) {
+        file_info[algo] = checksum->value();
+    }
+}
+
 bencode::bvalue make_bvalue_infodict_v1(const metafile& m)
 {
     bencode::bvalue binfo(bc::btype::dict);
@@ -18,6 +32,7 @@ bencode::bvalue make_bvalue_infodict_v1(const metafile& m)
         auto& file = storage.at(0);
         info.insert_or_assign("length", file.file_size());
         info.insert_or_assign("name", file.path().filename().string());
+        add_file_fields(binfo, file);
     }
     else if (storage.file_mode() == file_mode::multi) {
         bencode::bvalue file_list(bc::btype::list);
@@ -167,6 +182,7 @@ bencode::bvalue make_bvalue_infodict_hybrid(const metafile& m)
         auto& file = storage[0];
         info.insert_or_assign("length", file.file_size());
         info.insert_or_assign("name", file.path().filename().string());
+        add_file_fields(binfo, file);
     }
     else if (storage.file_mode() == file_mode::multi) {
         bencode::bvalue file_list(bc::btype::list);
-- 
2.43.0


From faf3c99add467995696034c5eadfe098d6d409fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:05 +0000
Subject: [PATCH 20/64] fix: serialize_json_to writes to its stream, not to
 standard output

---
 src/metafile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metafile.cpp b/src/metafile.cpp
index 5afaff0..599f3b8 100644
--- a/src/metafile.cpp
+++ b/src/metafile.cpp
@@ -335,7 +335,7 @@ void save_metafile(const std::filesystem::path& path, const metafile& m, protoco
 /// Write a json representation of the metafile to `os`.
 void serialize_json_to(std::ostream& os, const metafile& m, protocol protocol_version)
 {
-    bencode::events::encode_json_to to_json(std::cout);
+    bencode::events::encode_json_to to_json(os);
     if (protocol_version == protocol::v1) {
         bc::connect(to_json, detail::make_bvalue_v1(m));
     }
-- 
2.43.0


From 220d88f5e1a017d394cc1121fe7aebd0ccd8a4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:05 +0000
Subject: [PATCH 21/64] fix: save_metafile reports that the metafile could not
 be written

---
 src/metafile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metafile.cpp b/src/metafile.cpp
index 599f3b8..a73dda8 100644
--- a/src/metafile.cpp
+++ b/src/metafile.cpp
@@ -330,6 +330,10 @@ void save_metafile(const std::filesystem::path& path, const metafile& m, protoco
 {
     std::ofstream ofs(path, std::ios::binary);
     write_metafile_to(ofs, m, protocol_version);
+    ofs.close();
+    if (!ofs) {
+        throw std::ios_base::failure("could not write metafile: " + path.string());
+    }
 }
 
 /// Write a json representation of the metafile to `os`.
-- 
2.43.0


From 4b8f43bd15d05a60fe19ad6cbd224038bca78a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:12 +0000
Subject: [PATCH 22/64] fix: metafile equality does not read an uninitialised
 member

---
 include/dottorrent/metafile.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/metafile.hpp b/include/dottorrent/metafile.hpp
index 364cb8a..2c2a740 100644
--- a/include/dottorrent/metafile.hpp
+++ b/include/dottorrent/metafile.hpp
@@ -160,7 +160,7 @@ public:
     bool operator==(const metafile& other) const = default;
 
 private:
-    enum protocol protocol_;
+    enum protocol protocol_ = protocol::none;
     file_storage storage_;
 
     announce_url_list announce_list_;
-- 
2.43.0


From 9c3a194c708b65162ae257a4ba5ca4453deae283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:12 +0000
Subject: [PATCH 23/64] fix: set_creation_date keeps every second count,
 without overflow

---
 src/metafile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metafile.cpp b/src/metafile.cpp
index a73dda8..aa21736 100644
--- a/src/metafile.cpp
+++ b/src/metafile.cpp
@@ -178,7 +178,7 @@ std::chrono::seconds metafile::creation_date() const
 
 // TODO: [c++20] change system_clock to utc_clock for guaranteed unix epoch.
 void metafile::set_creation_date(std::time_t time)
-{ set_creation_date(std::chrono::system_clock::from_time_t(time)); }
+{ creation_date_ = time; }
 
 const std::unordered_set<info_hash>& metafile::similar_torrents() const
 { return similar_torrents_; }
-- 
2.43.0


From fcfa991f493cc997bc6b8eeff41b78472b7099ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:30 +0000
Subject: [PATCH 24/64] fix: a root directory given with a trailing separator
 keeps its name

---
 src/file_storage.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file_storage.cpp b/src/file_storage.cpp
index d691e61..b466336 100644
--- a/src/file_storage.cpp
+++ b/src/file_storage.cpp
@@ -41,6 +41,10 @@ void file_storage::set_root_directory(const fs::path& root)
 {
     Ensures(fs::exists(root));
     root_directory_ = fs::absolute(root).lexically_normal();
+    // a trailing separator would leave the directory without a name
+    if (!root_directory_.has_filename()) {
+        root_directory_ = root_directory_.parent_path();
+    }
 }
 
 void file_storage::add_file(const file_entry& file)
-- 
2.43.0


From 7c6e2af6e1794e37ec6a5ec24f806518c7f614db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:30 +0000
Subject: [PATCH 25/64] fix: metafiles that are not a dict with an info dict
 are rejected, not fatal

---
 src/metafile_parsing.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 68408e4..0285ac4 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -840,6 +840,16 @@ namespace bc = bencode;
 template<bc::bvalue_or_bview T>
 metafile parse_metafile(const T& data)
 {
+    if (!holds_dict(data)) {
+        throw parse_error("metafile", "expected dict");
+    }
+    const auto& dict = get_dict(data);
+    if (auto it = dict.find("info"); it == dict.end()) {
+        throw parse_error("info", "missing required field");
+    } else if (!holds_dict(it->second)) {
+        throw parse_error("info", "expected dict");
+    }
+
     metafile m{};
     // parse the protocol header to determine if we have v1 or v2.
     auto protocol = detail::parse_protocol(data);
-- 
2.43.0


From 1bee46fb799bd4750b7019eb28009b5a2ad3c1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:30 +0000
Subject: [PATCH 26/64] fix: announce lists with empty tiers or repeated urls
 are read, not fatal

---
 src/metafile_parsing.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 0285ac4..07402a4 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -24,17 +24,16 @@ void parse_announce(const T& data, metafile& m)
     // parse_file announce-url
     try {
         if (auto it = dict.find(list_key); it != dict.end()) {
-            std::size_t tier = 0;
-
             for (const auto& e : get_list(it->second)) {
-                std::size_t item = 0;
+                // empty tiers do not count
+                const std::size_t tier = m.trackers().tier_count();
 
                 for (const auto& a : get_list(e)) {
                     const auto& s = get_string(a);
+                    // an url belongs to the first tier that lists it
+                    if (m.trackers().contains(s)) continue;
                     m.add_tracker(announce_url{s, tier});
-                    ++item;
                 }
-                ++tier;
             }
         }
     } catch (const bencode::bad_access& e) {
-- 
2.43.0


From e89d9fd85c741735cd02324b05b730a038d9989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 27/64] fix: a negative private flag is rejected

---
 src/metafile_parsing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 07402a4..82fb75f 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -80,7 +80,7 @@ void parse_private(const T& data, metafile& m)
     try {
         if (const auto it = info_dict.find(key); it != info_dict.end()) {
             const auto v = get_integer(it->second);
-            if (v > 1) {
+            if (v < 0 || v > 1) {
                 throw parse_error(key, fmt::format("expected integer equal to '0' or '1'"));
             }
             m.set_private(bool(v));
-- 
2.43.0


From e266006b66e1d3950630af66bd0668df240bc847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 28/64] fix: malformed dht nodes are rejected, not fatal, and
 ports do not wrap around

---
 src/metafile_parsing.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 82fb75f..c14399a 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -1,3 +1,5 @@
+#include <cstdint>
+#include <limits>
 #include <optional>
 #include <concepts>
 #include <queue>
@@ -212,10 +214,14 @@ void parse_dht_nodes(const T& data, metafile& m)
             const auto desc = bc::get_list(it->second);
             for (const auto& c : desc) {
                 const auto& tuple = bc::get_list(c);
-                Expects(tuple.size() == 2);
-                m.add_dht_node(
-                        get_string(tuple[0]),
-                        get_integer(tuple[1]));
+                if (tuple.size() != 2) {
+                    throw parse_error(key, "expected a host and a port");
+                }
+                const auto port = get_integer(tuple[1]);
+                if (port < 0 || port > std::numeric_limits<std::uint16_t>::max()) {
+                    throw parse_error(key, "port out of range");
+                }
+                m.add_dht_node(get_string(tuple[0]), static_cast<std::uint16_t>(port));
             }
         }
     } catch (bencode::bad_access& e) {
-- 
2.43.0


From 7cc710d263e25c1f8c432327661b8b02b3e17e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:51 +0000
Subject: [PATCH 29/64] fix: file names that are malformed or lead outside the
 torrent's directory are rejected

---
 src/metafile_parsing.cpp | 43 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index c14399a..6da3031 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -368,10 +368,23 @@ void parse_other_info_fields(const T& data, metafile& m)
     }
 }
 
+/// Check that a name read from a metafile is a single path component that stays inside its directory.
+static std::string_view checked_path_component(std::string_view component)
+{
+    if (component.empty() || component == "." || component == ".." ||
+            component.find('/') != std::string_view::npos ||
+            component.find('\0') != std::string_view::npos) {
+        throw parse_error("path", "invalid path component");
+    }
+    return component;
+}
+
 template <bc::bvalue_or_bview T>
 fs::path parse_path(const T& data)
 {
-    Expects(holds_list(data));
+    if (!holds_list(data)) {
+        throw parse_error("path", "expected list");
+    }
 
     fs::path p{};
     auto& blist = get_list(data);
@@ -381,6 +394,24 @@ fs::path parse_path(const T& data)
     return p;
 }
 
+/// Parse the path of a file, which lies inside the root directory of the torrent.
+template <bc::bvalue_or_bview T>
+static fs::path parse_file_path(const T& data)
+{
+    if (!holds_list(data)) {
+        throw parse_error("path", "expected list");
+    }
+
+    fs::path p{};
+    for (auto& path_component : get_list(data)) {
+        p /= checked_path_component(bc::get_as<std::string_view>(path_component));
+    }
+    if (p.empty()) {
+        throw parse_error("path", "empty path");
+    }
+    return p;
+}
+
 template <bc::bvalue_or_bview T>
 std::optional<file_attributes> parse_file_attributes(const T& data)
 {
@@ -409,7 +440,7 @@ auto parse_file_entry_v1(const T& data) -> file_entry
 
     // multi_file
     if (const auto it = file_dict.find("path"); it != file_dict.end()) {
-        path = parse_path(it->second);
+        path = parse_file_path(it->second);
     }
     // single_file
     else {
@@ -417,7 +448,7 @@ auto parse_file_entry_v1(const T& data) -> file_entry
         if (name_field_it == file_dict.end()) {
             throw parse_error("name", "missing file name");
         }
-        path = bencode::get_as<std::string_view>(name_field_it->second);
+        path = checked_path_component(bencode::get_as<std::string_view>(name_field_it->second));
     }
 
     auto length_field_it = file_dict.find("length");
@@ -581,6 +612,10 @@ void parse_file_tree_v2(const T& data, metafile& m, OutputIterator out)
 
             // leaf node : a file
             if (key == "") {
+                // only the root of the tree itself has no name
+                if (path_components.size() < 2) {
+                    throw parse_error("file tree", "missing file name");
+                }
                 fs::path file_path{};
                 for (const auto& component : path_components) {
                     file_path.append(component);
@@ -591,7 +626,7 @@ void parse_file_tree_v2(const T& data, metafile& m, OutputIterator out)
             }
             else {
                 frames.push(frame_type(value, value.begin()));
-                path_components.push_back(std::string(key));
+                path_components.push_back(std::string(checked_path_component(key)));
             }
             ++it;
         } else {
-- 
2.43.0


From 755ff54cdc8928b807675526acec34815ad9bf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:51 +0000
Subject: [PATCH 30/64] fix: negative file sizes are rejected

---
 src/metafile_parsing.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 6da3031..8be773a 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -430,6 +430,15 @@ std::optional<file_attributes> parse_file_attributes(const T& data)
 }
 
 
+static std::size_t checked_file_size(std::int64_t size)
+{
+    if (size < 0) {
+        throw parse_error("length", "negative file size");
+    }
+    return static_cast<std::size_t>(size);
+}
+
+
 template <bc::bvalue_or_bview T>
 auto parse_file_entry_v1(const T& data) -> file_entry
 {
@@ -455,7 +464,7 @@ auto parse_file_entry_v1(const T& data) -> file_entry
     if (length_field_it == file_dict.end()) {
         throw parse_error("name", "missing file size");
     }
-    std::size_t size = bencode::get_integer(length_field_it->second);
+    std::size_t size = checked_file_size(bencode::get_integer(length_field_it->second));
 
     // file attributes
     std::optional<file_attributes> attributes = parse_file_attributes(data);
@@ -498,7 +507,7 @@ static file_entry parse_file_entry_v2(const T& data, const fs::path& path)
     if (length_field_it == file_dict.end()) {
         throw parse_error("name", "missing file size");
     }
-    std::size_t size = get_integer(length_field_it->second);
+    std::size_t size = checked_file_size(get_integer(length_field_it->second));
 
     std::optional<sha256_hash> pieces_root;
     auto pieces_root_it = file_dict.find("pieces root");
-- 
2.43.0


From 7a48647b0341f0c4f7524e71f13a015547dc9244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:51 +0000
Subject: [PATCH 31/64] fix: symlink targets are read from the key they are
 written to; malformed symlinks are rejected

---
 src/metafile_parsing.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 8be773a..9247b0a 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -430,6 +430,21 @@ std::optional<file_attributes> parse_file_attributes(const T& data)
 }
 
 
+/// A symlink has a target and no content.
+static void check_symlink(const std::optional<file_attributes>& attributes,
+        const std::optional<fs::path>& target, std::size_t size)
+{
+    if (!attributes || (*attributes & file_attributes::symlink) != file_attributes::symlink)
+        return;
+    if (!target) {
+        throw parse_error("symlink path", "missing symlink target");
+    }
+    if (size != 0) {
+        throw parse_error("length", "symlink with content");
+    }
+}
+
+
 static std::size_t checked_file_size(std::int64_t size)
 {
     if (size < 0) {
@@ -472,9 +487,10 @@ auto parse_file_entry_v1(const T& data) -> file_entry
     // symlinks
     std::optional<fs::path> symlink = std::nullopt;
 
-    if (auto it = file_dict.find("symlink"); it != file_dict.end()) {
-        *symlink = parse_path(it->second);
+    if (auto it = file_dict.find("symlink path"); it != file_dict.end()) {
+        symlink = parse_path(it->second);
     }
+    check_symlink(attributes, symlink, size);
 
     file_entry entry(std::move(path), size, attributes, symlink);
 
@@ -527,9 +543,10 @@ static file_entry parse_file_entry_v2(const T& data, const fs::path& path)
     // symlink
     std::optional<fs::path> symlink = std::nullopt;
 
-    if (auto it = file_dict.find("symlink"); it != file_dict.end()) {
-        *symlink = parse_path(it->second);
+    if (auto it = file_dict.find("symlink path"); it != file_dict.end()) {
+        symlink = parse_path(it->second);
     }
+    check_symlink(attributes, symlink, size);
 
     file_entry entry(path, size, attributes, symlink);
     if (pieces_root) {
-- 
2.43.0


From 25ed89aac02e48eea83ad3dd0f09ea7b3e5100a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:51 +0000
Subject: [PATCH 32/64] fix: piece lengths and piece hash lists that do not fit
 are rejected, not fatal

---
 src/metafile_parsing.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 9247b0a..16be0ca 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -1,3 +1,4 @@
+#include <bit>
 #include <cstdint>
 #include <limits>
 #include <optional>
@@ -715,6 +716,9 @@ void parse_pieces_v1(const T& data, metafile& m)
         auto piece_string = get_string(it->second);
         auto piece_count = piece_string.size() / 20;
 
+        if (piece_string.size() % 20 != 0 || piece_count != storage.piece_count()) {
+            throw parse_error("pieces", "the number of piece hashes does not match the file sizes");
+        }
         storage.allocate_pieces();
 
         for (std::size_t idx = 0; idx < piece_count; ++idx) {
@@ -738,7 +742,12 @@ void parse_piece_size(const T& data, metafile& m)
     auto& storage = m.storage();
 
     if (auto it = info_dict.find("piece length"); it!=info_dict.end()) {
-        storage.set_piece_size(get_integer(it->second));
+        const auto size = get_integer(it->second);
+        if (size < static_cast<std::int64_t>(v2_block_size) ||
+                !std::has_single_bit(static_cast<std::uint64_t>(size))) {
+            throw parse_error("piece length", "expected a power of two of at least 16 KiB");
+        }
+        storage.set_piece_size(static_cast<std::size_t>(size));
     }
     else {
         throw parse_error("info", "missing required field \"piece length\"");
-- 
2.43.0


From 36594a3de8a6e4083f986a55728d36101a8b5d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:51 +0000
Subject: [PATCH 33/64] fix: hybrid metafiles whose file list and file tree
 differ are rejected, not fatal

---
 src/metafile_parsing.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 16be0ca..236b567 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -693,11 +693,20 @@ void parse_file_list_and_tree_hybrid(const T& data, metafile& m)
 
     for (auto& v2_entry : v2_entries) {
         auto it = std::find_if(storage.begin(), storage.end(), std::bind_front(path_comparator, v2_entry));
+        if (it == storage.end() || it->is_padding_file() || it->file_size() != v2_entry.file_size()) {
+            throw parse_error("file tree", "does not match the v1 file list");
+        }
         // empty files can ommit the pieces root
         if (v2_entry.file_size() > 0) {
             it->set_pieces_root(v2_entry.pieces_root());
         }
     }
+
+    for (const auto& entry : storage) {
+        if (entry.file_size() > 0 && !entry.is_padding_file() && !entry.has_v2_data()) {
+            throw parse_error("file tree", "does not match the v1 file list");
+        }
+    }
 };
 
 
-- 
2.43.0


From fe66cc8561693c2a8943d3b50a12b485b5923bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:21 +0000
Subject: [PATCH 34/64] fix: the size of a magnet uri that has none is zero

---
 include/dottorrent/magnet_uri.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dottorrent/magnet_uri.hpp b/include/dottorrent/magnet_uri.hpp
index d01d6f2..88d9c66 100644
--- a/include/dottorrent/magnet_uri.hpp
+++ b/include/dottorrent/magnet_uri.hpp
@@ -177,7 +177,7 @@ private:
     //dn	Display Name	A filename to display to the user, for convenience.
     std::string display_name_;
     //xl	eXact Length	Size (in bytes)
-    std::size_t size_;
+    std::size_t size_ = 0;
     //xt	eXact Topic	URN containing file hash.
     // This is the most crucial part of the magnet link, and is used to find and verify the specified file.
     // The URN is specific to the protocol, so a file hash URN under btih (BitTorrent) would be completely different than the file hash URN for ed2k
-- 
2.43.0


From 963f8211c4d5f8c7c283a651ba8d67780a71a1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:21 +0000
Subject: [PATCH 35/64] fix: keywords of magnet uris are encoded, and read
 back, one by one

---
 include/dottorrent/magnet_uri.hpp | 3 ++-
 src/magnet_uri.cpp                | 7 +++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dottorrent/magnet_uri.hpp b/include/dottorrent/magnet_uri.hpp
index 88d9c66..4899e8c 100644
--- a/include/dottorrent/magnet_uri.hpp
+++ b/include/dottorrent/magnet_uri.hpp
@@ -273,11 +273,12 @@ void encode_magnet_uri(const magnet_uri& magnet, OutputIterator out)
     // keywords
     if (!magnet.keywords().empty()) {
         auto it = magnet.keywords().begin();
+        rng::copy("&kt="sv, out);
         rng::copy(detail::percent_encode(*it++), out);
 
         while (it != magnet.keywords().end()) {
             *out++ = '+';
-            rng::copy(detail::percent_encode(*it), out);
+            rng::copy(detail::percent_encode(*it++), out);
         }
     }
 
diff --git a/src/magnet_uri.cpp b/src/magnet_uri.cpp
index 73bcb94..c28e93a 100644
--- a/src/magnet_uri.cpp
+++ b/src/magnet_uri.cpp
@@ -107,10 +107,9 @@ magnet_uri make_magnet_uri(std::string_view uri)
             result.set_exact_source(detail::percent_decode(value));
         }
         else if (key == "kt") {
-            auto keywords_string = detail::percent_decode(value);
-            auto keywords = detail::split_keywords_string(keywords_string);
-            for (auto kw : keywords) {
-                result.add_keyword(kw);
+            // only an unencoded plus sign separates keywords
+            for (auto kw : detail::split_keywords_string(value)) {
+                result.add_keyword(detail::percent_decode(kw));
             }
         }
         else if (key == "mt") {
-- 
2.43.0


From dcccaeeb17859ce8ed636823cb5e5e0eafef36c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:21 +0000
Subject: [PATCH 36/64] fix: magnet uris without topics can be parsed, and can
 be written to any output iterator

---
 include/dottorrent/magnet_uri.hpp | 63 ++++++++++++++++---------------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/include/dottorrent/magnet_uri.hpp b/include/dottorrent/magnet_uri.hpp
index 4899e8c..aceac24 100644
--- a/include/dottorrent/magnet_uri.hpp
+++ b/include/dottorrent/magnet_uri.hpp
@@ -218,80 +218,83 @@ void encode_magnet_uri(const magnet_uri& magnet, OutputIterator out)
 {
     using namespace std::string_view_literals;
 
-    std::string uri = "magnet:?";
-    rng::copy(uri, out);
-
+    auto write = [&](std::string_view value) { out = rng::copy(value, out).out; };
+    // parameters are separated by ampersands
     bool first = true;
+    auto write_key = [&](std::string_view key) {
+        if (!first) {
+            write("&"sv);
+        }
+        first = false;
+        write(key);
+    };
+
+    write("magnet:?"sv);
+
     // topics
     for (const auto& topic : magnet.topics()) {
-        if (first) {
-            rng::copy("xt="sv, out);
-            first = false;
-        }
-        else {
-            rng::copy("&xt="sv, out);
-        }
-        rng::copy(topic, out);
+        write_key("xt="sv);
+        write(topic);
     }
 
     // display name
     if (!magnet.display_name().empty()) {
-        rng::copy("&dn="sv, out);
-        rng::copy(detail::percent_encode(magnet.display_name()), out);
+        write_key("dn="sv);
+        write(detail::percent_encode(magnet.display_name()));
     }
 
     if (magnet.size() != 0) {
         // exact length
-        rng::copy("&xl="sv, out);
-        rng::copy(detail::percent_encode(std::to_string(magnet.size())), out);
+        write_key("xl="sv);
+        write(detail::percent_encode(std::to_string(magnet.size())));
     }
     // trackers
     for (const auto& tr : magnet.trackers()) {
-        rng::copy("&tr="sv, out);
-        rng::copy(detail::percent_encode(tr), out);
+        write_key("tr="sv);
+        write(detail::percent_encode(tr));
     }
 
     // webseeds
     for (const auto& ws : magnet.web_seeds()) {
-        rng::copy("&ws="sv, out);
-        rng::copy(detail::percent_encode(ws), out);
+        write_key("ws="sv);
+        write(detail::percent_encode(ws));
     }
 
     // Acceptable sources
     for (const auto& as : magnet.acceptable_sources()) {
-        rng::copy("&as="sv, out);
-        rng::copy(detail::percent_encode(as), out);
+        write_key("as="sv);
+        write(detail::percent_encode(as));
     }
 
 
     // Exact source
     if (!magnet.exact_source().empty()) {
-        rng::copy("&xs="sv, out);
-        rng::copy(detail::percent_encode(magnet.exact_source()), out);
+        write_key("xs="sv);
+        write(detail::percent_encode(magnet.exact_source()));
     }
 
     // keywords
     if (!magnet.keywords().empty()) {
         auto it = magnet.keywords().begin();
-        rng::copy("&kt="sv, out);
-        rng::copy(detail::percent_encode(*it++), out);
+        write_key("kt="sv);
+        write(detail::percent_encode(*it++));
 
         while (it != magnet.keywords().end()) {
             *out++ = '+';
-            rng::copy(detail::percent_encode(*it++), out);
+            write(detail::percent_encode(*it++));
         }
     }
 
     // manifest
     if (!magnet.manifest().empty()) {
-        rng::copy("&mt="sv, out);
-        rng::copy(detail::percent_encode(magnet.manifest()), out);
+        write_key("mt="sv);
+        write(detail::percent_encode(magnet.manifest()));
     }
 
     // Peers
     for (const auto& pe : magnet.peer_adresses()) {
-        rng::copy("&x.pe="sv, out);
-        rng::copy(detail::percent_encode(pe), out);
+        write_key("x.pe="sv);
+        write(detail::percent_encode(pe));
     }
 }
 
-- 
2.43.0


From f7768585da03b6d4acd7b0cd5817d8f63ccefc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:18 +0000
Subject: [PATCH 37/64] fix: file lists of anything but dicts are rejected, not
 fatal

---
 src/metafile_parsing.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/metafile_parsing.cpp b/src/metafile_parsing.cpp
index 236b567..0f0b3b1 100644
--- a/src/metafile_parsing.cpp
+++ b/src/metafile_parsing.cpp
@@ -458,7 +458,9 @@ static std::size_t checked_file_size(std::int64_t size)
 template <bc::bvalue_or_bview T>
 auto parse_file_entry_v1(const T& data) -> file_entry
 {
-    Expects(holds_dict(data));
+    if (!holds_dict(data)) {
+        throw parse_error("files", "expected dict");
+    }
 
     const auto& file_dict = get_dict(data);
     fs::path path {};
-- 
2.43.0


From efc2d8b0f849277e9615500bca8fe5ad00be1942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:11 +0000
Subject: [PATCH 38/64] fix: any minimum i/o block size is rounded up to
 complete pieces

---
 src/storage_hasher.cpp   | 4 ++++
 src/storage_verifier.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index f44e96a..a1c6727 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -46,6 +46,10 @@ storage_hasher::storage_hasher(file_storage& storage, const storage_hasher_optio
     io_block_size_ = std::max(piece_size, options.min_io_block_size ? *options.min_io_block_size : 1_MiB);
  #endif
 
+    // blocks consist of complete pieces
+    if (piece_size != 0)
+        io_block_size_ = detail::div_ceil(io_block_size_, piece_size) * piece_size;
+
     if (options.max_memory) {
         queue_capacity_ = std::max(std::size_t(4), *options.max_memory / io_block_size_);
     }
diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index de11af4..ae8e998 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -41,6 +41,10 @@ storage_verifier::storage_verifier(file_storage& storage, const storage_verifier
     io_block_size_ = std::max(piece_size, options.min_io_block_size ? *options.min_io_block_size : 1_MiB);
 #endif
 
+    // blocks consist of complete pieces
+    if (piece_size != 0)
+        io_block_size_ = detail::div_ceil(io_block_size_, piece_size) * piece_size;
+
     if (options.max_memory) {
         queue_capacity_ = std::max(std::size_t(4), *options.max_memory / io_block_size_);
     }
-- 
2.43.0


From c680cefcdd72b47fff4334cfef8ac484f8ff0a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:55 +0000
Subject: [PATCH 39/64] fix: stopping and cancelling chunk hashers always ends,
 whatever is queued

---
 include/dottorrent/chunk_processor_base.hpp |  3 ++
 src/chunk_hasher_multi_buffer.cpp           |  8 +++--
 src/chunk_hasher_single_buffer.cpp          |  8 +++--
 src/chunk_processor_base.cpp                | 35 +++++++++------------
 4 files changed, 28 insertions(+), 26 deletions(-)

diff --git a/include/dottorrent/chunk_processor_base.hpp b/include/dottorrent/chunk_processor_base.hpp
index 386443b..3b5a58f 100644
--- a/include/dottorrent/chunk_processor_base.hpp
+++ b/include/dottorrent/chunk_processor_base.hpp
@@ -67,6 +67,9 @@ public:
 protected:
     virtual void run(std::stop_token stop_token, int thread_idx) = 0;
 
+    /// Return true if all workers ran to completion.
+    auto all_finished() const noexcept -> bool;
+
     std::reference_wrapper<file_storage> storage_;
     std::vector<std::jthread> threads_;
     std::shared_ptr<work_queue_type> queue_;
diff --git a/src/chunk_hasher_multi_buffer.cpp b/src/chunk_hasher_multi_buffer.cpp
index d99a182..f408905 100644
--- a/src/chunk_hasher_multi_buffer.cpp
+++ b/src/chunk_hasher_multi_buffer.cpp
@@ -23,8 +23,7 @@ void chunk_hasher_multi_buffer::run(std::stop_token stop_token, int thread_idx)
                 item.piece_index == std::numeric_limits<std::uint32_t>::max() &&
                 item.file_index == std::numeric_limits<std::uint32_t>::max())
         {
-            Ensures(stop_token.stop_requested());
-            break;
+            continue;
         }
 
         hash_chunk(hashers, item);
@@ -39,12 +38,15 @@ void chunk_hasher_multi_buffer::run(std::stop_token stop_token, int thread_idx)
                     item.piece_index == std::numeric_limits<std::uint32_t>::max() &&
                     item.file_index == std::numeric_limits<std::uint32_t>::max())
             {
-                break;
+                continue;
             }
             hash_chunk(hashers, item);
             item.data.reset();
         }
     }
+    else {
+        while (queue_->try_pop(item)) { }
+    }
 
     done_[thread_idx] = true;
 }
diff --git a/src/chunk_hasher_single_buffer.cpp b/src/chunk_hasher_single_buffer.cpp
index acbb213..83cc1d6 100644
--- a/src/chunk_hasher_single_buffer.cpp
+++ b/src/chunk_hasher_single_buffer.cpp
@@ -23,8 +23,7 @@ void chunk_hasher_single_buffer::run(std::stop_token stop_token, int thread_idx)
                 item.piece_index == std::numeric_limits<std::uint32_t>::max() &&
                 item.file_index == std::numeric_limits<std::uint32_t>::max())
         {
-            Ensures(stop_token.stop_requested());
-            break;
+            continue;
         }
 
         hash_chunk(hashers, item);
@@ -39,12 +38,15 @@ void chunk_hasher_single_buffer::run(std::stop_token stop_token, int thread_idx)
                     item.piece_index == std::numeric_limits<std::uint32_t>::max() &&
                     item.file_index == std::numeric_limits<std::uint32_t>::max())
             {
-                break;
+                continue;
             }
             hash_chunk(hashers, item);
             item.data.reset();
         }
     }
+    else {
+        while (queue_->try_pop(item)) { }
+    }
 
     done_[thread_idx] = true;
 }
diff --git a/src/chunk_processor_base.cpp b/src/chunk_processor_base.cpp
index b389da1..796b70f 100644
--- a/src/chunk_processor_base.cpp
+++ b/src/chunk_processor_base.cpp
@@ -36,29 +36,23 @@ void chunk_processor_base::request_cancellation() {
 void chunk_processor_base::wait() {
     if (!started()) return;
 
-    for (auto i = 0; i < threads_.size(); ++i) {
-        queue_->push({
+    // Wake threads that remain blocked on pop calls.
+    // Never block on a full queue: the workers that would empty it may be gone already.
+    while (!all_finished()) {
+        queue_->try_push({
                 std::numeric_limits<std::uint32_t>::max(),
                 std::numeric_limits<std::uint32_t>::max(),
                 nullptr
         });
-    }
-
-    for  (auto i = 0; !done() && i < threads_.size(); ++i) {
-        queue_->push({
-                std::numeric_limits<std::uint32_t>::max(),
-                std::numeric_limits<std::uint32_t>::max(),
-                nullptr
-        });
-        std::this_thread::sleep_for(std::chrono::milliseconds(10));
+        std::this_thread::sleep_for(std::chrono::milliseconds(1));
     }
 
     // should all be finished by now and ready to join
     for (auto& t : threads_) {
-        t.join();
+        if (t.joinable())
+            t.join();
     }
-    Ensures(std::all_of(done_.begin(), done_.end(),
-            [](auto& b) { return b.load(std::memory_order_relaxed); }));
+    Ensures(all_finished());
 }
 
 bool chunk_processor_base::running() const noexcept {
@@ -74,9 +68,12 @@ auto chunk_processor_base::cancelled() const noexcept -> bool
 { return cancelled_.load(std::memory_order_relaxed); }
 
 auto chunk_processor_base::done() const noexcept -> bool {
-    bool all_done = std::all_of(done_.begin(), done_.end(),
+    return cancelled() || (started() && all_finished());
+}
+
+auto chunk_processor_base::all_finished() const noexcept -> bool {
+    return std::all_of(done_.begin(), done_.end(),
             [](auto& b) { return b.load(std::memory_order_relaxed); });
-    return cancelled() || (started() && all_done);
 }
 
 std::shared_ptr<typename chunk_processor_base::work_queue_type> chunk_processor_base::get_queue()
@@ -99,13 +96,11 @@ void chunk_processor_base::register_v2_hashed_piece_queue(const std::shared_ptr<
 
 chunk_processor_base::~chunk_processor_base()
 {
-    if (started() && !done()) {
+    // Cancelled workers can still be running and must be joined as well.
+    if (started() && !all_finished()) {
         request_stop();
         wait();
     }
-    // Destructor should only be called after all workers are done
-    Ensures(std::all_of(done_.begin(), done_.end(),
-                        [](auto& b) { return b.load(std::memory_order_relaxed); }));
 };
 
 }
\ No newline at end of file
-- 
2.43.0


From df91514e074ae748a40ef0822937436a682e779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:55 +0000
Subject: [PATCH 40/64] fix: v1 pieces keep their place whatever the size of
 the files on disk, and padding files are hashed

---
 include/dottorrent/v1_chunk_reader.hpp |  15 +--
 src/v1_chunk_reader.cpp                | 139 +++++++++++--------------
 2 files changed, 70 insertions(+), 84 deletions(-)

diff --git a/include/dottorrent/v1_chunk_reader.hpp b/include/dottorrent/v1_chunk_reader.hpp
index 71bcfc8..291d411 100644
--- a/include/dottorrent/v1_chunk_reader.hpp
+++ b/include/dottorrent/v1_chunk_reader.hpp
@@ -16,7 +16,12 @@ public:
     void run() final;
 
 private:
-    void handle_missing_file();
+    /// Handle bytes of the current file that cannot be read from disk.
+    /// Used for padding files, and for missing or truncated files when verifying torrents.
+    void handle_missing_bytes(std::size_t missing_bytes);
+
+    /// Mark the next bytes of the current chunk as filled and push the chunk when it is complete.
+    void advance(std::size_t bytes);
 
     /// @param file_idx: index of the file the data is read from,
     ///     when a chunk consists of data from multiple files,
@@ -27,12 +32,8 @@ private:
     std::size_t piece_index_ = 0;
     // position of the first free byte in the current chunk
     std::size_t chunk_offset_ = 0;
-    // position of the first byte from a different file than the
-    // previous byte in the current chunk. A file offset of zero
-    // indicates all data is from a single file.
-    std::size_t offset_index_ = 0;
-    // vector of all offsets in the current chunk.
-    std::vector<std::size_t> file_offsets_ {};
+    // index of the file the first byte of the current chunk belongs to
+    std::uint32_t chunk_file_index_ = 0;
     // index of the current file being read in the storage object
     std::size_t file_index_ = 0;
     // the current file being read
diff --git a/src/v1_chunk_reader.cpp b/src/v1_chunk_reader.cpp
index e4eaf0f..b568ff0 100644
--- a/src/v1_chunk_reader.cpp
+++ b/src/v1_chunk_reader.cpp
@@ -13,16 +13,18 @@ void v1_chunk_reader::run()
     const auto piece_size = storage.piece_size();
 
     Expects(chunk_size_ % piece_size == 0);
-    const auto pieces_per_chunk = chunk_size_/piece_size;
     chunk_ = pool_.get();
     chunk_->resize(chunk_size_);
 
     for (const fs::path& file_path: file_paths) {
+        if (cancelled_.load(std::memory_order_relaxed)) break;
+
         const file_entry& file_entry = storage.at(file_index_);
+        std::size_t bytes_remaining = file_entry.file_size();
 
         // handle pieces if the file does not exists. Used when verifying torrents.
         if (!fs::exists(file_path) || file_entry.is_padding_file()) [[unlikely]] {
-            handle_missing_file();
+            handle_missing_bytes(bytes_remaining);
             ++file_index_;
             continue;
         }
@@ -31,33 +33,17 @@ void v1_chunk_reader::run()
         storage.set_last_modified_time(file_index_, fs::last_write_time(file_path));
         f_.open(file_path, std::ios::binary);
         f_.rdbuf()->pubsetbuf(nullptr, 0);
-        // increment file index, file_index points to the next file now
-        ++ file_index_;
 
-        while (! cancelled_.load(std::memory_order_relaxed)) {
+        // read no more than the size of the entry, the offsets of all following files depend on it
+        while (bytes_remaining != 0 && !cancelled_.load(std::memory_order_relaxed)) {
             f_.read(reinterpret_cast<char*>(std::next(chunk_->data(), chunk_offset_)),
-                    (chunk_size_-chunk_offset_)
+                    std::min(chunk_size_-chunk_offset_, bytes_remaining)
             );
-            file_offsets_.push_back(chunk_offset_);
-            chunk_offset_ += f_.gcount();
-            bytes_read_.fetch_add(f_.gcount(), std::memory_order_relaxed);
-
-            if (chunk_offset_ == chunk_size_) [[likely]] {
-                // push chunk to consumers
-                push({static_cast<std::uint32_t>(piece_index_),
-                      static_cast<std::uint32_t>(file_index_-file_offsets_.size()),
-                      chunk_
-                });
-                chunk_.reset();
-                // recycle a new chunk from the pool
-                chunk_ = pool_.get();
-                chunk_->resize(chunk_size_);
-                // clear chunk and file offsets
-                chunk_offset_ = 0;
-                file_offsets_.clear();
-                // increment chunk index
-                piece_index_ += pieces_per_chunk;
-            }
+            const std::size_t bytes = f_.gcount();
+            bytes_read_.fetch_add(bytes, std::memory_order_relaxed);
+            bytes_remaining -= bytes;
+            advance(bytes);
+
             // eof reached
             if (f_.eof())  [[unlikely]] break;
             if (f_.fail()) [[unlikely]] {
@@ -67,14 +53,24 @@ void v1_chunk_reader::run()
         }
         f_.close();
         f_.clear();
+
+        // the file on disk is smaller than it should be
+        if (bytes_remaining != 0) [[unlikely]] {
+            handle_missing_bytes(bytes_remaining);
+        }
+        ++file_index_;
     }
+
+    if (cancelled_.load(std::memory_order_relaxed)) {
+        chunk_.reset();
+        return;
+    }
+
     // push last possibly partial chunk
     if (chunk_offset_ != 0) [[likely]] {
         chunk_->resize(chunk_offset_);
         std::size_t pieces_in_chunk = (chunk_offset_ + piece_size -1) / piece_size;
-        push({static_cast<std::uint32_t>(piece_index_),
-              static_cast<std::uint32_t>(file_index_-file_offsets_.size()),
-              std::move(chunk_)});
+        push({static_cast<std::uint32_t>(piece_index_), chunk_file_index_, std::move(chunk_)});
         piece_index_ += pieces_in_chunk;
     }
 
@@ -82,62 +78,51 @@ void v1_chunk_reader::run()
     Ensures(piece_index_ == storage.piece_count());
 }
 
-void v1_chunk_reader::handle_missing_file()
+void v1_chunk_reader::handle_missing_bytes(std::size_t missing_bytes)
 {
-    auto& storage = storage_.get();
+    const auto& storage = storage_.get();
     const auto piece_size = storage.piece_size();
+    const bool is_padding_file = storage.at(file_index_).is_padding_file();
 
-    Expects(chunk_size_ % piece_size == 0);
-    const auto pieces_per_chunk = chunk_size_ / piece_size;
-
-    // the number of missing bytes
-    auto missing_file_size = storage.at(file_index_).file_size();
-
-    // fill current pieces in this chunk with zero bytes.
-    if (chunk_offset_ != 0) {
-        // we need to fill the remaining chunk data with 0'd bytes from missing_file_size
-        auto bytes_to_fill = std::min(chunk_size_-chunk_offset_, missing_file_size);
-        // add a offset to indicate that the piece contains zero'd bytes from a new file
-        file_offsets_.push_back(chunk_offset_);
-        std::fill_n(std::next(chunk_->data(), chunk_offset_), bytes_to_fill, std::byte(0));
-
-        // resize chunk to the number of pieces it contains
-        chunk_offset_ += bytes_to_fill;
-        missing_file_size -= bytes_to_fill;
-
-        // if the chunk is complete filled -> push it
-        if (chunk_offset_ == chunk_size_) {
-            // push chunk to consumers
+    while (missing_bytes != 0 && !cancelled_.load(std::memory_order_relaxed)) {
+        // push an empty chunk per piece to make hashers aware that these pieces are done,
+        // but they do not require any work.
+        // The bytes of padding files are known and need to be hashed.
+        if (!is_padding_file && chunk_offset_ == 0 && missing_bytes >= piece_size) {
             push({static_cast<std::uint32_t>(piece_index_),
-                  static_cast<std::uint32_t>(file_index_-file_offsets_.size()),
-                  chunk_
-            });
-            chunk_.reset();
-            // recycle a new chunk from the pool
-            chunk_ = pool_.get();
-            chunk_->resize(chunk_size_);
-            // clear chunk and file offsets
-            chunk_offset_ = 0;
-            file_offsets_.clear();
-            piece_index_ += pieces_per_chunk;
+                  static_cast<std::uint32_t>(file_index_),
+                  nullptr});
+            ++piece_index_;
+            missing_bytes -= piece_size;
+            continue;
         }
-    }
 
-    // advance piece index to the first piece that contains data from a new file.
-    // push an empty chunk per piece to make hashers aware that these pieces are done,
-    // but they do not require any workthese
-    auto first_new_piece_index = piece_index_ + missing_file_size / piece_size;
-    missing_file_size -= piece_size * (first_new_piece_index - piece_index_);
-
-    for (; piece_index_ < first_new_piece_index; ++piece_index_) {
-        push({static_cast<std::uint32_t>(piece_index_),
-              static_cast<std::uint32_t>(file_index_),
-              nullptr});
+        // fill the pieces in this chunk with zero bytes.
+        const auto bytes_to_fill = std::min(chunk_size_-chunk_offset_, missing_bytes);
+        std::fill_n(std::next(chunk_->data(), chunk_offset_), bytes_to_fill, std::byte(0));
+        missing_bytes -= bytes_to_fill;
+        advance(bytes_to_fill);
     }
+}
 
-    // Set the last remaining bytes in the new chunk
-    std::fill_n(chunk_->data() + chunk_offset_, missing_file_size, std::byte(0));
-    chunk_offset_ += missing_file_size;
+void v1_chunk_reader::advance(std::size_t bytes)
+{
+    if (chunk_offset_ == 0)
+        chunk_file_index_ = static_cast<std::uint32_t>(file_index_);
+
+    chunk_offset_ += bytes;
+
+    if (chunk_offset_ == chunk_size_) [[likely]] {
+        // push chunk to consumers
+        push({static_cast<std::uint32_t>(piece_index_), chunk_file_index_, chunk_});
+        chunk_.reset();
+        // recycle a new chunk from the pool
+        chunk_ = pool_.get();
+        chunk_->resize(chunk_size_);
+        chunk_offset_ = 0;
+        // increment chunk index
+        piece_index_ += chunk_size_ / storage_.get().piece_size();
+    }
 }
 
 
-- 
2.43.0


From 197e259f3df205491c522d897b36a9a1e0801d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:18 +0000
Subject: [PATCH 41/64] fix: v2 chunks cover exactly the bytes of each file,
 whatever its size on disk

---
 src/v2_chunk_reader.cpp | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/v2_chunk_reader.cpp b/src/v2_chunk_reader.cpp
index b927b69..f9c0b46 100644
--- a/src/v2_chunk_reader.cpp
+++ b/src/v2_chunk_reader.cpp
@@ -17,7 +17,10 @@ void v2_chunk_reader::run()
     chunk->resize(chunk_size_);
 
     for (const fs::path& file_path: file_paths) {
+        if (cancelled_.load(std::memory_order_relaxed)) break;
+
         const file_entry& file_entry = storage.at(file_index_);
+        std::size_t bytes_remaining = file_entry.file_size();
 
         if (file_entry.is_padding_file()) {
             bytes_read_.fetch_add(file_entry.file_size(), std::memory_order_relaxed);
@@ -27,11 +30,12 @@ void v2_chunk_reader::run()
 
         // handle pieces if the file does not exists. Used when verifying torrents.
         if (!fs::exists(file_path)) {
-            auto file_size = file_entry.file_size();
-            push({static_cast<std::uint32_t>(0),
-                  static_cast<std::uint32_t>(file_index_),
-                  nullptr});
-            bytes_read_.fetch_add(file_size, std::memory_order_relaxed);
+            if (bytes_remaining != 0) {
+                push({static_cast<std::uint32_t>(0),
+                      static_cast<std::uint32_t>(file_index_),
+                      nullptr});
+            }
+            bytes_read_.fetch_add(bytes_remaining, std::memory_order_relaxed);
             ++file_index_;
             continue;
         }
@@ -43,12 +47,21 @@ void v2_chunk_reader::run()
         // reset piece index. piece index is per file for v2!
         piece_index_ = 0;
 
-        while (!cancelled_.load(std::memory_order_relaxed)) {
-            f_.read(reinterpret_cast<char*>(chunk->data()), chunk_size_);
-            current_chunk_size_ = f_.gcount();
+        // read no more than the size of the entry, empty files have a single empty chunk
+        do {
+            current_chunk_size_ = std::min(chunk_size_, bytes_remaining);
+            f_.read(reinterpret_cast<char*>(chunk->data()), current_chunk_size_);
+            const std::size_t bytes = f_.gcount();
 
+            if (f_.fail() && !f_.eof()) {
+                throw std::runtime_error(
+                        fmt::format("I/O error reading: {}", file_entry.path().string()));
+            }
             chunk->resize(current_chunk_size_);
-            bytes_read_.fetch_add(current_chunk_size_, std::memory_order_relaxed);
+            // data missing at the end of a truncated file is replaced by zero bytes
+            std::fill(std::next(chunk->begin(), bytes), chunk->end(), std::byte(0));
+            bytes_remaining -= current_chunk_size_;
+            bytes_read_.fetch_add(bytes, std::memory_order_relaxed);
 
             // push chunk to consumers
             push({static_cast<std::uint32_t>(piece_index_),
@@ -61,13 +74,8 @@ void v2_chunk_reader::run()
             // clear chunk and file offsets
             // increment chunk index
             piece_index_ += pieces_per_chunk;
+        } while (bytes_remaining != 0 && !cancelled_.load(std::memory_order_relaxed));
 
-            if (f_.eof()) break;
-            if (f_.fail()) {
-                throw std::runtime_error(
-                        fmt::format("I/O error reading: {}", file_entry.path().string()));
-            }
-        }
         f_.close();
         f_.clear();
         ++file_index_;
@@ -76,8 +84,6 @@ void v2_chunk_reader::run()
 
 
 void v2_chunk_reader::push(const data_chunk& chunk) {
-    Expects(chunk.piece_index < storage_.get().piece_count());
-
     // hasher queues
     for (auto& queue : hash_queues_) {
         queue->push(chunk);
-- 
2.43.0


From b6fee46c71d78a1e540ecc7dcaa09a9180071aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:18 +0000
Subject: [PATCH 42/64] fix: errors reading files are reported by wait instead
 of ending the process

---
 include/dottorrent/chunk_reader.hpp     |  3 +++
 include/dottorrent/storage_hasher.hpp   |  1 +
 include/dottorrent/storage_verifier.hpp |  1 +
 src/chunk_reader.cpp                    | 12 +++++++++++-
 src/storage_hasher.cpp                  | 18 ++++++++++++++++--
 src/storage_verifier.cpp                | 18 ++++++++++++++++--
 6 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/include/dottorrent/chunk_reader.hpp b/include/dottorrent/chunk_reader.hpp
index aa3a426..b5fddc5 100644
--- a/include/dottorrent/chunk_reader.hpp
+++ b/include/dottorrent/chunk_reader.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include <atomic>
 #include <cstdint>
+#include <exception>
 #include <mutex>
 #include <string>
 #include <thread>
@@ -41,6 +42,7 @@ public:
     void request_cancellation() noexcept;
 
     /// Block until the reader completes all work or terminates because of a cancellation request.
+    /// Errors that ended the reader early are rethrown.
     void wait();
 
     bool started() const noexcept;
@@ -62,6 +64,7 @@ protected:
     hash_queue_vector hash_queues_ {};
     checksum_queue_vector checksum_queues_ {};
     std::jthread thread_;
+    std::exception_ptr error_ {};
     std::atomic<std::size_t> bytes_read_ = 0;
     std::atomic<bool> started_ = false;
     std::atomic<bool> cancelled_ = false;
diff --git a/include/dottorrent/storage_hasher.hpp b/include/dottorrent/storage_hasher.hpp
index daacfb9..47eccfd 100644
--- a/include/dottorrent/storage_hasher.hpp
+++ b/include/dottorrent/storage_hasher.hpp
@@ -81,6 +81,7 @@ public:
     void cancel();
 
     /// Wait for all threads to complete
+    /// Errors reading the files are rethrown after all threads completed.
     void wait();
 
     bool running() const noexcept;
diff --git a/include/dottorrent/storage_verifier.hpp b/include/dottorrent/storage_verifier.hpp
index 35f2cc5..c5debf6 100644
--- a/include/dottorrent/storage_verifier.hpp
+++ b/include/dottorrent/storage_verifier.hpp
@@ -80,6 +80,7 @@ public:
     void cancel();
 
     /// Wait for all threads to complete
+    /// Errors reading the files are rethrown after all threads completed.
     void wait();
 
     bool running() const noexcept;
diff --git a/src/chunk_reader.cpp b/src/chunk_reader.cpp
index 66595f6..12a5428 100644
--- a/src/chunk_reader.cpp
+++ b/src/chunk_reader.cpp
@@ -31,7 +31,14 @@ void chunk_reader::start() {
     if (cancelled())
         throw std::runtime_error("cancelled");
 
-    thread_ = std::jthread(&chunk_reader::run, this);
+    thread_ = std::jthread([this]() {
+        try {
+            run();
+        }
+        catch (...) {
+            error_ = std::current_exception();
+        }
+    });
     started_.store(true, std::memory_order_release);
 }
 
@@ -44,6 +51,9 @@ void chunk_reader::wait() {
         throw std::logic_error("not started");
 
     thread_.join();
+
+    if (error_)
+        std::rethrow_exception(error_);
 }
 
 bool chunk_reader::started() const noexcept
diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index a1c6727..3fbd1a7 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -178,7 +178,12 @@ void storage_hasher::cancel() {
     verifier_->request_cancellation();
 
     // wait for all tasks to complete
-    reader_->wait();
+    try {
+        reader_->wait();
+    }
+    catch (...) {
+        // errors do not matter anymore for a cancelled task
+    }
     hasher_->wait();
     for (auto& ch : checksum_hashers_) { ch->wait(); }
     verifier_->wait();
@@ -195,7 +200,13 @@ void storage_hasher::wait()
         throw std::runtime_error("hasher already done");
 
     Expects(hasher_->running());
-    reader_->wait();
+    std::exception_ptr reader_error {};
+    try {
+        reader_->wait();
+    }
+    catch (...) {
+        reader_error = std::current_exception();
+    }
     Expects(hasher_->running());
 
     // no pieces will be added after the reader finishes.
@@ -210,6 +221,9 @@ void storage_hasher::wait()
     verifier_->wait();
 
     stopped_ = true;
+
+    if (reader_error)
+        std::rethrow_exception(reader_error);
 }
 
 bool storage_hasher::running() const noexcept
diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index ae8e998..a3d9fc8 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -149,7 +149,12 @@ void storage_verifier::cancel() {
     verifier_->request_cancellation();
 
     // wait for all tasks to complete
-    reader_->wait();
+    try {
+        reader_->wait();
+    }
+    catch (...) {
+        // errors do not matter anymore for a cancelled task
+    }
     hasher_->wait();
     verifier_->wait();
 
@@ -165,7 +170,13 @@ void storage_verifier::wait()
         throw std::runtime_error("hasher already done");
 
     Expects(hasher_->running());
-    reader_->wait();
+    std::exception_ptr reader_error {};
+    try {
+        reader_->wait();
+    }
+    catch (...) {
+        reader_error = std::current_exception();
+    }
     Expects(hasher_->running());
 
     // no pieces will be added after the reader finishes.
@@ -180,6 +191,9 @@ void storage_verifier::wait()
     Expects(verifier_->done());
 
     stopped_ = true;
+
+    if (reader_error)
+        std::rethrow_exception(reader_error);
 }
 
 bool storage_verifier::running() const noexcept
-- 
2.43.0


From 274b391610b59dff6039e0d66068bbb3e7578524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:18 +0000
Subject: [PATCH 43/64] fix: hashing files that are missing or truncated fails
 instead of giving wrong hashes

---
 include/dottorrent/chunk_reader.hpp |  7 +++++++
 src/chunk_reader.cpp                | 11 +++++++++++
 src/storage_hasher.cpp              |  3 +++
 src/v1_chunk_reader.cpp             |  3 +++
 src/v2_chunk_reader.cpp             |  4 ++++
 5 files changed, 28 insertions(+)

diff --git a/include/dottorrent/chunk_reader.hpp b/include/dottorrent/chunk_reader.hpp
index b5fddc5..46f001e 100644
--- a/include/dottorrent/chunk_reader.hpp
+++ b/include/dottorrent/chunk_reader.hpp
@@ -34,6 +34,9 @@ public:
 
     void register_checksum_queue(std::shared_ptr<checksum_queue> q);
 
+    /// When not allowed, files that are missing or smaller than their entry in the storage are errors.
+    void set_missing_data_allowed(bool flag) noexcept;
+
     /// Start the worker threads
     void start();
 
@@ -58,6 +61,9 @@ public:
 protected:
     virtual void run() = 0;
 
+    /// Throw when data of a file is missing and missing data is not allowed.
+    void check_missing_data(const file_entry& entry) const;
+
     std::reference_wrapper<file_storage> storage_;
     std::size_t chunk_size_;
     pool::object_pool<data_type> pool_;
@@ -65,6 +71,7 @@ protected:
     checksum_queue_vector checksum_queues_ {};
     std::jthread thread_;
     std::exception_ptr error_ {};
+    bool missing_data_allowed_ = true;
     std::atomic<std::size_t> bytes_read_ = 0;
     std::atomic<bool> started_ = false;
     std::atomic<bool> cancelled_ = false;
diff --git a/src/chunk_reader.cpp b/src/chunk_reader.cpp
index 12a5428..8429658 100644
--- a/src/chunk_reader.cpp
+++ b/src/chunk_reader.cpp
@@ -25,6 +25,17 @@ void chunk_reader::register_checksum_queue(std::shared_ptr<checksum_queue> q)
     checksum_queues_.push_back(std::move(q));
 }
 
+void chunk_reader::set_missing_data_allowed(bool flag) noexcept
+{
+    missing_data_allowed_ = flag;
+}
+
+void chunk_reader::check_missing_data(const file_entry& entry) const
+{
+    if (!missing_data_allowed_)
+        throw std::runtime_error("file is missing or smaller than expected: " + entry.path().string());
+}
+
 void chunk_reader::start() {
     if (started()) return;
 
diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index 3fbd1a7..4a120a7 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -107,6 +107,9 @@ void storage_hasher::start() {
         reader_ = std::make_unique<v2_chunk_reader>(storage_, io_block_size_, queue_capacity_);
     }
 
+    // hashes of incomplete data are of no use
+    reader_->set_missing_data_allowed(false);
+
     if (protocol_ == protocol::v1) {
 #ifdef DOTTORRENT_USE_ISAL
         if (enable_multi_buffer_hashing_)
diff --git a/src/v1_chunk_reader.cpp b/src/v1_chunk_reader.cpp
index b568ff0..7b7a4ec 100644
--- a/src/v1_chunk_reader.cpp
+++ b/src/v1_chunk_reader.cpp
@@ -84,6 +84,9 @@ void v1_chunk_reader::handle_missing_bytes(std::size_t missing_bytes)
     const auto piece_size = storage.piece_size();
     const bool is_padding_file = storage.at(file_index_).is_padding_file();
 
+    if (!is_padding_file && missing_bytes != 0 && !cancelled_.load(std::memory_order_relaxed))
+        check_missing_data(storage.at(file_index_));
+
     while (missing_bytes != 0 && !cancelled_.load(std::memory_order_relaxed)) {
         // push an empty chunk per piece to make hashers aware that these pieces are done,
         // but they do not require any work.
diff --git a/src/v2_chunk_reader.cpp b/src/v2_chunk_reader.cpp
index f9c0b46..e35ee94 100644
--- a/src/v2_chunk_reader.cpp
+++ b/src/v2_chunk_reader.cpp
@@ -31,6 +31,7 @@ void v2_chunk_reader::run()
         // handle pieces if the file does not exists. Used when verifying torrents.
         if (!fs::exists(file_path)) {
             if (bytes_remaining != 0) {
+                check_missing_data(file_entry);
                 push({static_cast<std::uint32_t>(0),
                       static_cast<std::uint32_t>(file_index_),
                       nullptr});
@@ -57,6 +58,9 @@ void v2_chunk_reader::run()
                 throw std::runtime_error(
                         fmt::format("I/O error reading: {}", file_entry.path().string()));
             }
+            if (bytes != current_chunk_size_)
+                check_missing_data(file_entry);
+
             chunk->resize(current_chunk_size_);
             // data missing at the end of a truncated file is replaced by zero bytes
             std::fill(std::next(chunk->begin(), bytes), chunk->end(), std::byte(0));
-- 
2.43.0


From 37452fad39cb402e45b101c41365ed3b865246a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:44 +0000
Subject: [PATCH 44/64] fix: every file gets its checksums, also the last one,
 empty ones and those around padding files

---
 .../dottorrent/chunk_hasher_single_buffer.hpp |  3 +
 include/dottorrent/v1_checksum_hasher.hpp     |  5 ++
 include/dottorrent/v2_checksum_hasher.hpp     |  8 +++
 src/chunk_hasher_single_buffer.cpp            |  1 +
 src/v1_checksum_hasher.cpp                    | 32 ++++++++---
 src/v2_checksum_hasher.cpp                    | 56 ++++++++++++++-----
 6 files changed, 85 insertions(+), 20 deletions(-)

diff --git a/include/dottorrent/chunk_hasher_single_buffer.hpp b/include/dottorrent/chunk_hasher_single_buffer.hpp
index c1f8507..fbdeedc 100644
--- a/include/dottorrent/chunk_hasher_single_buffer.hpp
+++ b/include/dottorrent/chunk_hasher_single_buffer.hpp
@@ -13,6 +13,9 @@ protected:
     void run(std::stop_token stop_token, int thread_idx) override;
 
     virtual void hash_chunk(std::vector<std::unique_ptr<single_buffer_hasher>>& hashers, const data_chunk& chunk) = 0;
+
+    /// Called by each worker after it finished all work, but not when cancelled.
+    virtual void finish(std::vector<std::unique_ptr<single_buffer_hasher>>& hashers) {}
 };
 
 } // namespace dottorrent
\ No newline at end of file
diff --git a/include/dottorrent/v1_checksum_hasher.hpp b/include/dottorrent/v1_checksum_hasher.hpp
index c60f38c..c440c79 100644
--- a/include/dottorrent/v1_checksum_hasher.hpp
+++ b/include/dottorrent/v1_checksum_hasher.hpp
@@ -28,7 +28,12 @@ protected:
 
     void hash_chunk(single_buffer_hasher& hasher, const data_chunk& item);
 
+    void finish(std::vector<std::unique_ptr<single_buffer_hasher>>& hashers) override;
+
 private:
+    /// Set the checksum of the current file and move on to the next file.
+    void complete_current_file(single_buffer_hasher& hasher);
+
     std::atomic<std::size_t> current_file_index_ = 0;
     std::atomic<std::size_t> current_file_size_ = 0;
     std::atomic<std::size_t> current_file_data_hashed_ = 0;
diff --git a/include/dottorrent/v2_checksum_hasher.hpp b/include/dottorrent/v2_checksum_hasher.hpp
index 3a7ea77..3750901 100644
--- a/include/dottorrent/v2_checksum_hasher.hpp
+++ b/include/dottorrent/v2_checksum_hasher.hpp
@@ -34,7 +34,15 @@ protected:
 
     void hash_chunk(single_buffer_hasher& hasher, const data_chunk& item);
 
+    void finish(std::vector<std::unique_ptr<single_buffer_hasher>>& hashers) override;
+
 private:
+    /// Set the checksum of the current file and move on to the next file.
+    void complete_current_file(single_buffer_hasher& hasher);
+
+    /// Set the checksums of all empty files, for which no data is received, in front of given file.
+    void complete_empty_files(single_buffer_hasher& hasher, std::size_t last_file_index);
+
     std::atomic<std::size_t> current_file_index_ = 0;
     std::atomic<std::size_t> current_file_size_ = 0;
     std::atomic<std::size_t> current_file_data_hashed_ = 0;
diff --git a/src/chunk_hasher_single_buffer.cpp b/src/chunk_hasher_single_buffer.cpp
index 83cc1d6..5ed06c6 100644
--- a/src/chunk_hasher_single_buffer.cpp
+++ b/src/chunk_hasher_single_buffer.cpp
@@ -43,6 +43,7 @@ void chunk_hasher_single_buffer::run(std::stop_token stop_token, int thread_idx)
             hash_chunk(hashers, item);
             item.data.reset();
         }
+        finish(hashers);
     }
     else {
         while (queue_->try_pop(item)) { }
diff --git a/src/v1_checksum_hasher.cpp b/src/v1_checksum_hasher.cpp
index fd375a1..35d4c02 100644
--- a/src/v1_checksum_hasher.cpp
+++ b/src/v1_checksum_hasher.cpp
@@ -41,13 +41,7 @@ void v1_checksum_hasher::hash_chunk(single_buffer_hasher& hasher, const data_chu
 
         // check if we completed a file checksum
         if (current_file_data_hashed_.load(std::memory_order_relaxed) == current_file_size) {
-            Expects(hash_functions_.size() == 1);
-            auto hash_function = hash_functions_.front();
-            auto checksum = make_checksum(hash_function);
-            hasher.finalize_to(checksum->value());
-            storage[current_file_index_].add_checksum(std::move(checksum));
-
-            current_file_index_.fetch_add(1, std::memory_order_relaxed);
+            complete_current_file(hasher);
 
             if (current_file_index_ < storage.file_count()) {
                 current_file_size = storage[current_file_index_].file_size();
@@ -56,4 +50,28 @@ void v1_checksum_hasher::hash_chunk(single_buffer_hasher& hasher, const data_chu
         }
     }
 }
+
+void v1_checksum_hasher::finish(std::vector<std::unique_ptr<single_buffer_hasher>>& hashers)
+{
+    const file_storage& storage = storage_;
+
+    // no data is received for empty files after the last file with data
+    while (current_file_index_ < storage.file_count() && storage[current_file_index_].file_size() == 0) {
+        complete_current_file(*hashers.front());
+    }
+}
+
+void v1_checksum_hasher::complete_current_file(single_buffer_hasher& hasher)
+{
+    file_storage& storage = storage_;
+
+    Expects(hash_functions_.size() == 1);
+    auto hash_function = hash_functions_.front();
+    auto checksum = make_checksum(hash_function);
+    hasher.finalize_to(checksum->value());
+    storage[current_file_index_].add_checksum(std::move(checksum));
+
+    current_file_index_.fetch_add(1, std::memory_order_relaxed);
+}
+
 } // namespace dottorrent
diff --git a/src/v2_checksum_hasher.cpp b/src/v2_checksum_hasher.cpp
index 1676bd1..761417b 100644
--- a/src/v2_checksum_hasher.cpp
+++ b/src/v2_checksum_hasher.cpp
@@ -17,28 +17,58 @@ void v2_checksum_hasher::hash_chunk(single_buffer_hasher& hasher, const data_chu
 
     file_storage& storage = storage_;
 
-    // offset from the start of data where we are currently processing
-    std::size_t chunk_offset = 0;
     std::size_t chunk_size = item.data->size();
 
     Expects(current_file_index_ <= item.file_index);
 
-    if (item.file_index > current_file_index_) {
-        // Set the hash for the previous file.
-        Expects(hash_functions_.size() == 1);
-        auto hash_function = hash_functions_.front();
-        auto checksum = make_checksum(hash_function);
-        hasher.finalize_to(checksum->value());
-        storage[current_file_index_].add_checksum(std::move(checksum));
-
-        // update current file index
-        ++current_file_index_;
-    }
+    complete_empty_files(hasher, item.file_index);
 
     Expects(current_file_index_ == item.file_index);
     hasher.update(std::span(*item.data));
     bytes_hashed_.fetch_add(chunk_size, std::memory_order_relaxed);
     bytes_done_.fetch_add(chunk_size, std::memory_order_relaxed);
+    current_file_data_hashed_.fetch_add(chunk_size, std::memory_order_relaxed);
+
+    // check if we completed a file checksum
+    if (current_file_data_hashed_.load(std::memory_order_relaxed) == storage[current_file_index_].file_size()) {
+        complete_current_file(hasher);
+    }
+}
+
+void v2_checksum_hasher::finish(std::vector<std::unique_ptr<single_buffer_hasher>>& hashers)
+{
+    const file_storage& storage = storage_;
+    complete_empty_files(*hashers.front(), storage.file_count());
+}
+
+void v2_checksum_hasher::complete_empty_files(single_buffer_hasher& hasher, std::size_t last_file_index)
+{
+    const file_storage& storage = storage_;
+
+    while (current_file_index_ < last_file_index) {
+        const auto& entry = storage[current_file_index_];
+
+        if (entry.is_padding_file())
+            current_file_index_.fetch_add(1, std::memory_order_relaxed);
+        else if (entry.file_size() == 0)
+            complete_current_file(hasher);
+        else
+            break;
+    }
+}
+
+void v2_checksum_hasher::complete_current_file(single_buffer_hasher& hasher)
+{
+    file_storage& storage = storage_;
+
+    Expects(hash_functions_.size() == 1);
+    auto hash_function = hash_functions_.front();
+    auto checksum = make_checksum(hash_function);
+    hasher.finalize_to(checksum->value());
+    storage[current_file_index_].add_checksum(std::move(checksum));
+
+    current_file_index_.fetch_add(1, std::memory_order_relaxed);
+    current_file_data_hashed_.store(0, std::memory_order_relaxed);
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From 24b587a15ebbe224e294c95dd8fc21a0f77d7e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:41 +0000
Subject: [PATCH 45/64] fix: storages with empty files can be verified as v2

---
 src/v2_piece_verifier.cpp | 41 +++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/v2_piece_verifier.cpp b/src/v2_piece_verifier.cpp
index 241a209..98a2302 100644
--- a/src/v2_piece_verifier.cpp
+++ b/src/v2_piece_verifier.cpp
@@ -2,6 +2,17 @@
 
 namespace dottorrent {
 
+/// The number of pieces of a file in the piece map.
+static std::size_t piece_map_entries(const file_entry& entry)
+{
+    // padding files and empty files have no pieces, and empty files have no v2 data.
+    if (entry.is_padding_file() || entry.file_size() == 0)
+        return 0;
+
+    // files smaller then the piece size have only a root hash.
+    return std::max(std::size_t(1), entry.piece_layer().size());
+}
+
 v2_piece_verifier::v2_piece_verifier(dottorrent::file_storage& storage, std::size_t capacity,
         std::size_t max_concurrency)
         : storage_(storage)
@@ -77,18 +88,12 @@ double v2_piece_verifier::percentage(std::size_t file_index) const noexcept {
     if (entry.is_padding_file() || entry.file_size() == 0)
         return 100;
 
-    std::size_t number_of_pieces = 1;
-    if (auto s = entry.piece_layer().size(); s > 0) {
-        number_of_pieces = s;
-    }
+    std::size_t number_of_pieces = piece_map_entries(entry);
 
     auto first_piece_map_index = std::transform_reduce(
             storage.begin(), std::next(storage.begin(), file_index),
             0ul, std::plus<>{},
-            [](const file_entry& e) {
-                if (e.is_padding_file()) return std::size_t(0);
-                return std::max(std::size_t(1), e.piece_layer().size());
-            });
+            [](const file_entry& e) { return piece_map_entries(e); });
 
     auto n_complete_pieces = std::count(
             std::next(piece_map_.begin(), first_piece_map_index),
@@ -120,7 +125,7 @@ void v2_piece_verifier::initialize_offsets_and_trees() {
         }
         else {
             auto& m = merkle_trees_.emplace_back(block_count);
-            auto offset = std::max(std::size_t(1), entry.piece_layer().size());
+            auto offset = piece_map_entries(entry);
 
             // get the offset of the last non-padding file
             std::size_t previous_offset = 0;
@@ -141,18 +146,7 @@ void v2_piece_verifier::initialize_offsets_and_trees() {
 
     auto piece_map_size = 0;
     for (const auto& entry : storage) {
-        if (entry.is_padding_file())
-            continue;
-
-        auto s = entry.piece_layer().size();
-        if (s != 0) {
-            piece_map_size += s;
-        }
-        else {
-            // we have a file smaller then the piece size with only a root hash.
-            // or a padding file
-            piece_map_size += 1;
-        }
+        piece_map_size += piece_map_entries(entry);
     }
     piece_map_.resize(piece_map_size);
 }
@@ -166,6 +160,11 @@ void v2_piece_verifier::verify_finished_piece(const v2_hashed_piece& finished_pi
 
     file_storage& storage = storage_;
     file_entry& entry = storage[finished_piece.file_index];
+
+    // empty files have no pieces to verify
+    if (entry.file_size() == 0)
+        return;
+
     auto& tree = merkle_trees_[finished_piece.file_index];
     auto& file_progress = file_blocks_hashed_[finished_piece.file_index];
 
-- 
2.43.0


From b2d1e67003677f642892b3351c3b01d76ddda9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:12 +0000
Subject: [PATCH 46/64] fix: a storage verifier that was never started can be
 destroyed

---
 src/storage_verifier.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index a3d9fc8..8263437 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -278,7 +278,6 @@ storage_verifier::~storage_verifier()
     if (started() && !done()) {
         std::terminate();
     }
-    Expects(done());
 }
 
 
-- 
2.43.0


From 9c01b2857c8e8ec6bdddd1027f810757d264a7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:12 +0000
Subject: [PATCH 47/64] fix: starting a running storage hasher or verifier
 throws instead of ending the process

---
 src/storage_hasher.cpp   | 2 ++
 src/storage_verifier.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index 4a120a7..fce3766 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -97,6 +97,8 @@ enum protocol storage_hasher::protocol() const noexcept
 void storage_hasher::start() {
     if (done())
         throw std::runtime_error("cannot start finished or cancelled hasher");
+    if (started())
+        throw std::runtime_error("cannot start hasher that is already running");
 
     auto& storage = storage_.get();
 
diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index 8263437..18202b9 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -82,6 +82,8 @@ enum protocol storage_verifier::protocol() const noexcept
 void storage_verifier::start() {
     if (done())
         throw std::runtime_error("cannot start finished or cancelled hasher");
+    if (started())
+        throw std::runtime_error("cannot start hasher that is already running");
 
     auto& storage = storage_.get();
 
-- 
2.43.0


From efeb63fa41ceaae7c6bd69f3dcffcb7df43dd83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:12 +0000
Subject: [PATCH 48/64] fix: progress and results of storage hashers and
 verifiers can be queried before the start

---
 src/storage_hasher.cpp   |  6 +++---
 src/storage_verifier.cpp | 13 +++++++------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index fce3766..d382f11 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -253,17 +253,17 @@ bool storage_hasher::done() const noexcept
 
 std::size_t storage_hasher::bytes_read() const noexcept
 {
-    return reader_->bytes_read();
+    return reader_ ? reader_->bytes_read() : 0;
 }
 
 std::size_t storage_hasher::bytes_hashed() const noexcept
 {
-    return hasher_->bytes_hashed();
+    return hasher_ ? hasher_->bytes_hashed() : 0;
 }
 
 std::size_t storage_hasher::bytes_done() const noexcept
 {
-    return hasher_->bytes_done();
+    return hasher_ ? hasher_->bytes_done() : 0;
 }
 
 
diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index 18202b9..81f6ffe 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -220,17 +220,17 @@ bool storage_verifier::done() const noexcept
 
 std::size_t storage_verifier::bytes_read() const noexcept
 {
-    return reader_->bytes_read();
+    return reader_ ? reader_->bytes_read() : 0;
 }
 
 std::size_t storage_verifier::bytes_hashed() const noexcept
 {
-    return hasher_->bytes_hashed();
+    return hasher_ ? hasher_->bytes_hashed() : 0;
 }
 
 std::size_t storage_verifier::bytes_done() const noexcept
 {
-    return hasher_->bytes_done();
+    return hasher_ ? hasher_->bytes_done() : 0;
 }
 
 
@@ -256,12 +256,13 @@ file_progress_data storage_verifier::current_file_progress() const noexcept
 
 const std::vector<std::uint8_t>& storage_verifier::result() const noexcept
 {
-    return verifier_->result();
+    static const std::vector<std::uint8_t> no_result {};
+    return verifier_ ? verifier_->result() : no_result;
 }
 
 double storage_verifier::percentage(std::size_t file_index) const noexcept
 {
-    return verifier_->percentage(file_index);
+    return verifier_ ? verifier_->percentage(file_index) : 0.0;
 }
 
 double storage_verifier::percentage(const file_entry& entry) const
@@ -272,7 +273,7 @@ double storage_verifier::percentage(const file_entry& entry) const
     if (file_index == storage.file_count())
         throw std::invalid_argument("entry does not exist in storage");
 
-    return verifier_->percentage(file_index);
+    return percentage(file_index);
 }
 
 storage_verifier::~storage_verifier()
-- 
2.43.0


From 44448dfed8b3cdccd3784ddb324b0cc15c52c473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:12 +0000
Subject: [PATCH 49/64] fix: bytes hashed of hybrid torrents are the average of
 v1 and v2

---
 src/storage_hasher.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/storage_hasher.cpp b/src/storage_hasher.cpp
index d382f11..c0e4185 100644
--- a/src/storage_hasher.cpp
+++ b/src/storage_hasher.cpp
@@ -258,7 +258,10 @@ std::size_t storage_hasher::bytes_read() const noexcept
 
 std::size_t storage_hasher::bytes_hashed() const noexcept
 {
-    return hasher_ ? hasher_->bytes_hashed() : 0;
+    if (!hasher_)
+        return 0;
+    // the hasher counts the bytes hashed for v1 and v2 pieces together
+    return protocol_ == protocol::hybrid ? hasher_->bytes_hashed() / 2 : hasher_->bytes_hashed();
 }
 
 std::size_t storage_hasher::bytes_done() const noexcept
-- 
2.43.0


From 3075e24ebf19a12cbc71a7dbe76afbd36971b427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:50 +0000
Subject: [PATCH 50/64] fix: hashing a storage again replaces the checksums of
 its files

---
 src/file_entry.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index 37abd00..077a43b 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -205,7 +205,8 @@ const checksum* file_entry::get_checksum(hash_function algorithm) const {
 void file_entry::add_checksum(std::unique_ptr<checksum> value)
 {
     std::unique_lock lck{checksum_mutex_};
-    checksums_.emplace(std::string(value->name()), std::move(value));
+    auto name = std::string(value->name());
+    checksums_.insert_or_assign(std::move(name), std::move(value));
 }
 
 const file_entry::checksum_map& file_entry::checksums() const
-- 
2.43.0


From 3544d4146eefd2f359a71883c2a960fd852a9063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:16 +0000
Subject: [PATCH 51/64] fix: work queued behind a wake-up is processed when the
 workers stop

---
 include/dottorrent/concurrent_queue_processor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/concurrent_queue_processor.hpp b/include/dottorrent/concurrent_queue_processor.hpp
index a852931..e0d533e 100644
--- a/include/dottorrent/concurrent_queue_processor.hpp
+++ b/include/dottorrent/concurrent_queue_processor.hpp
@@ -150,8 +150,9 @@ private:
         // otherwise discard all remaining work
         if (!cancelled_.load(std::memory_order_relaxed)) {
             while (queue_->try_pop(item)) {
+                // wake-ups can be queued in front of pending work
                 if (!item.has_value())
-                    break;
+                    continue;
                 std::invoke(work_function_, std::move(*item));
             }
         }
-- 
2.43.0


From b090d3f44177f9578391cf9dea0656e7f99f4867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:27 +0000
Subject: [PATCH 52/64] fix: clearing an object pool frees its idle objects and
 lets new ones be made

---
 include/dottorrent/object_pool.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/dottorrent/object_pool.hpp b/include/dottorrent/object_pool.hpp
index a3cebee..740e6f7 100644
--- a/include/dottorrent/object_pool.hpp
+++ b/include/dottorrent/object_pool.hpp
@@ -147,7 +147,13 @@ private:
         /// @copydoc shared_object_pool::free_unused()
         /// not thread safe!
         void clear()
-        { queue_.clear(); }
+        {
+            value_ptr resource;
+            while (queue_.try_pop(resource)) {
+                resource.reset();
+                resources_left_.fetch_add(1, std::memory_order_relaxed);
+            }
+        }
 
         /// @copydoc shared_object_pool::unused_resources()
         size_type capacity() const noexcept
-- 
2.43.0


From 64e2df48309a6ac202644b400b53945b58870645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:27 +0000
Subject: [PATCH 53/64] fix: symlinks are added as symlinks only when asked
 for, and then also those to directories

---
 src/file_entry.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index 077a43b..b86a38c 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -261,7 +261,10 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
         throw std::invalid_argument("file or symlink not located inside root_directory");
 
     fs::directory_entry de {file};
-    std::size_t file_size = de.file_size();
+    const bool copy_symlink =
+            (options & file_options::copy_symlinks) == file_options::copy_symlinks && de.is_symlink();
+    // file size of symlinks should be 0 for backward compatibility
+    std::size_t file_size = copy_symlink ? 0 : de.file_size();
     std::optional<file_attributes> attributes = std::nullopt;
     std::optional<fs::path> symlink_path = std::nullopt;
 
@@ -286,13 +289,9 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
     }
 
     // Copy symlinks as symlinks
-    if ((options & file_options::copy_symlinks) != file_options::none) {
-        if (de.is_symlink()) {
-            *attributes |= file_attributes::symlink;
-            symlink_path = fs::read_symlink(file);
-            // file size of symlinks should be 0 for backward compatibility
-            file_size = 0;
-        }
+    if (copy_symlink) {
+        *attributes |= file_attributes::symlink;
+        symlink_path = fs::read_symlink(file);
     }
 
     return {std::move(relative_file), file_size,
-- 
2.43.0


From 26fef32403ff445f1cb932fb8145f8c1c21f89d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:48 +0000
Subject: [PATCH 54/64] fix: targets of symlinks are stored relative to the
 root directory

---
 src/file_entry.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index b86a38c..da9b914 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -291,7 +291,13 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
     // Copy symlinks as symlinks
     if (copy_symlink) {
         *attributes |= file_attributes::symlink;
-        symlink_path = fs::read_symlink(file);
+        // the target of a symlink is stored relative to the torrent root directory
+        auto target = (file.parent_path() / fs::read_symlink(file)).lexically_normal();
+        if (!target.has_filename())
+            target = target.parent_path();
+        symlink_path = target.lexically_relative(root_directory);
+        if (symlink_path->empty() || *symlink_path->begin() == "..")
+            throw std::invalid_argument("target of symlink not located inside root_directory");
     }
 
     return {std::move(relative_file), file_size,
-- 
2.43.0


From 4880b1798378489474bdd70fa7ecb01d70742c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:48 +0000
Subject: [PATCH 55/64] fix: only files outside the root directory are
 rejected, however their paths are written

---
 src/file_entry.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/file_entry.cpp b/src/file_entry.cpp
index da9b914..d522b1c 100644
--- a/src/file_entry.cpp
+++ b/src/file_entry.cpp
@@ -245,9 +245,7 @@ std::strong_ordering file_entry::operator<=>(const file_entry& rhs) const noexce
 
 file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_options options)
 {
-    if (!file.is_absolute()) {
-        file = fs::absolute(file);
-    }
+    file = fs::absolute(file).lexically_normal();
 
     if (!fs::exists(file))
         throw std::invalid_argument("file does not exist");
@@ -257,7 +255,7 @@ file_entry make_file_entry(fs::path file, const fs::path& root_directory, file_o
 
     fs::path relative_file = file.lexically_relative(root_directory);
 
-    if (relative_file.generic_string().starts_with(".."))
+    if (relative_file.empty() || *relative_file.begin() == "..")
         throw std::invalid_argument("file or symlink not located inside root_directory");
 
     fs::directory_entry de {file};
-- 
2.43.0


From 177287b4122431f662a8df13ebbad62cd13b31f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:58 +0000
Subject: [PATCH 56/64] fix: hybrid pieces include the padding files that
 follow their file, also at the end

---
 src/v2_chunk_hasher_sb.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/v2_chunk_hasher_sb.cpp b/src/v2_chunk_hasher_sb.cpp
index 3b49665..896c5ce 100644
--- a/src/v2_chunk_hasher_sb.cpp
+++ b/src/v2_chunk_hasher_sb.cpp
@@ -106,15 +106,18 @@ void v2_chunk_hasher_sb::hash_chunk(single_buffer_hasher& sha256_hasher, single_
         }
 
         // we have an incomplete final piece so we have the last piece of a file.
-        // we need to pad with zeros in case it is not the last file in the torrent
+        // we need to pad with the zeros of the padding files that follow
         if (needs_padding) {
-            if (chunk.file_index+1 < storage.file_count()-1) {
-                const auto& entry = storage.at(chunk.file_index+1);
-                Expects(entry.is_padding_file());
+            std::size_t padding_size = 0;
+            for (auto i = chunk.file_index+1; i < storage.file_count() && storage[i].is_padding_file(); ++i) {
+                padding_size += storage[i].file_size();
+            }
+
+            if (padding_size != 0) {
                 // add the final partial piece and pad the rest of the piece
                 auto final_piece = data.subspan(piece_in_chunk_index*piece_size);
                 sha1_hasher.update(final_piece);
-                std::size_t padding_size = piece_size-final_piece.size();
+                padding_size = std::min(padding_size, piece_size-final_piece.size());
 
                 {
                     std::unique_lock lck{padding_mutex_};
-- 
2.43.0


From 53b97dadf83e95cc92b59b31ef197b04bd49f717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:49 +0000
Subject: [PATCH 57/64] fix: Merkle trees hashed with multi-buffer hashers put
 each hash at its own parent

---
 include/dottorrent/merkle_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/merkle_tree.hpp b/include/dottorrent/merkle_tree.hpp
index 9efc172..d189a38 100644
--- a/include/dottorrent/merkle_tree.hpp
+++ b/include/dottorrent/merkle_tree.hpp
@@ -130,10 +130,10 @@ public:
             }
             // Update parent nodes
             job_id = 0;
-            for (std::size_t i = 0; job_id < n_jobs; ++job_id, i+=2) {
+            for (; job_id < n_jobs; ++job_id) {
                 value_type hash{};
                 hasher.finalize_to(job_id, hash);
-                set_node(layer-1, parent(i), hash);
+                set_node(layer-1, job_id, hash);
             }
         }
     }
-- 
2.43.0


From 1ad59b101bc95dc4099fb037c5e02333f5ca1379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:49 +0000
Subject: [PATCH 58/64] fix: byte order and word size of multi-buffer MD5 and
 SHA-512 digests

---
 include/dottorrent/hasher/backends/isal.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/dottorrent/hasher/backends/isal.hpp b/include/dottorrent/hasher/backends/isal.hpp
index fbd9e1a..a0743a1 100644
--- a/include/dottorrent/hasher/backends/isal.hpp
+++ b/include/dottorrent/hasher/backends/isal.hpp
@@ -3,6 +3,8 @@
 #include <span>
 #include <string_view>
 #include <cstring>
+#include <cstdint>
+#include <type_traits>
 #include <unordered_set>
 
 #include "dottorrent/hasher/multi_buffer_hasher.hpp"
@@ -109,11 +111,17 @@ public:
         while (!hash_ctx_complete(context_pool_[job_id])) {
             Flush(context_manager_);
         }
-        // Intel ISA-L stores the hash as 32 bit words so we need to byteswap and copy per word
+        // Intel ISA-L stores the hash as words in native byte order: 64 bit words for SHA-512, 32 bit words otherwise.
+        // The words of all algorithms but MD5 have to be converted to big endian.
         for (std::size_t i = 0; i < N_WORDS; ++i) {
-            auto big_endian_word = to_be32(hash_ctx_digest(context_pool_[job_id])[i]);
-            std::memcpy(buffer.data()+ i * sizeof(big_endian_word),
-                        &big_endian_word, sizeof(big_endian_word));
+            auto word = hash_ctx_digest(context_pool_[job_id])[i];
+            if constexpr (std::is_same_v<CTX, MD5_HASH_CTX>)
+                word = to_le32(word);
+            else if constexpr (sizeof(word) == sizeof(std::uint64_t))
+                word = to_be64(word);
+            else
+                word = to_be32(word);
+            std::memcpy(buffer.data() + i * sizeof(word), &word, sizeof(word));
         }
     }
 
-- 
2.43.0


From 54ea0f0e50af8ce19067ec6df0717282a83222ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:49 +0000
Subject: [PATCH 59/64] fix: multi-buffer hybrid hashing pads pieces by the
 padding files that follow and counts the bytes it hashed

---
 src/v2_chunk_hasher_mb.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/v2_chunk_hasher_mb.cpp b/src/v2_chunk_hasher_mb.cpp
index ac0e464..06b80f8 100644
--- a/src/v2_chunk_hasher_mb.cpp
+++ b/src/v2_chunk_hasher_mb.cpp
@@ -72,13 +72,14 @@ void v2_chunk_hasher_mb::hash_chunk(multi_buffer_hasher& sha256_hasher, multi_bu
     for ( ; blocks_in_chunk != 0 && block_in_chunk_idx < blocks_in_chunk; ++block_in_chunk_idx) {
         sha256_hasher.finalize_to(block_in_chunk_idx, leaf);
         process_piece_hash(index_offset + block_in_chunk_idx, chunk.file_index, leaf);
-        bytes_hashed_.fetch_add(v2_block_size);
     }
+    bytes_hashed_.fetch_add(chunk.data->size(), std::memory_order_relaxed);
 
     block_in_chunk_idx = 0;
 
     if (add_v1_compatibility_) {
         std::vector<std::byte> padding {};
+        std::size_t padding_size = 0;
         // v1 compatibility data
         bool needs_padding = chunk.data->size() % piece_size != 0;
         std::size_t pieces_to_process = 0;
@@ -99,15 +100,18 @@ void v2_chunk_hasher_mb::hash_chunk(multi_buffer_hasher& sha256_hasher, multi_bu
         }
 
         // we have an incomplete final piece so we have the last piece of a file.
-        // we need to pad with zeros in case it is not the last file in the torrent
+        // we need to pad with the zeros of the padding files that follow
         if (needs_padding) {
             auto final_piece = data.subspan(piece_in_chunk_index * piece_size);
 
-            if (chunk.file_index+1 < storage.file_count()-1) {
-                const auto& entry = storage.at(chunk.file_index+1);
-                Expects(entry.is_padding_file());
+            for (auto i = chunk.file_index+1; i < storage.file_count() && storage[i].is_padding_file(); ++i) {
+                padding_size += storage[i].file_size();
+            }
+            padding_size = std::min(padding_size, piece_size-final_piece.size());
+
+            if (padding_size != 0) {
                 // add the final partial piece and pad the rest of the piece
-                padding.resize((piece_size-final_piece.size()), std::byte{0});
+                padding.resize(padding_size, std::byte{0});
                 sha1_hasher.submit_first(piece_in_chunk_index, final_piece);
                 sha1_hasher.submit_last(piece_in_chunk_index, padding);
             }
@@ -124,7 +128,7 @@ void v2_chunk_hasher_mb::hash_chunk(multi_buffer_hasher& sha256_hasher, multi_bu
             sha1_hasher.finalize_to(piece_in_chunk_index, piece_hash);
             process_piece_hash(chunk.piece_index + piece_in_chunk_index, chunk.file_index, piece_hash);
         }
-        bytes_hashed_.fetch_add(chunk.data->size(), std::memory_order::relaxed);
+        bytes_hashed_.fetch_add(chunk.data->size() + padding_size, std::memory_order::relaxed);
     }
     bytes_done_.fetch_add(chunk.data->size(), std::memory_order_relaxed);
 }
-- 
2.43.0


From bea1878ba07ab3b8b3f591d9cc4e415fc3944854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:49 +0000
Subject: [PATCH 60/64] fix: multi-buffer verification of hybrid torrents does
 not produce v1 hashes nobody takes

---
 src/storage_verifier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage_verifier.cpp b/src/storage_verifier.cpp
index 81f6ffe..9cbe79f 100644
--- a/src/storage_verifier.cpp
+++ b/src/storage_verifier.cpp
@@ -113,7 +113,7 @@ void storage_verifier::start() {
 #ifdef DOTTORRENT_USE_ISAL
         if (enable_multi_buffer_hashing_)
             hasher_ = std::make_unique<v2_chunk_hasher_mb>(
-                    storage_, queue_capacity_, protocol_ == protocol::hybrid, threads_);
+                    storage_, queue_capacity_, false, threads_);
         else
             hasher_ = std::make_unique<v2_chunk_hasher_sb>(
                     storage_, queue_capacity_, false, threads_);
-- 
2.43.0


From 2b49ad4fc76d913dafb0cd881f8482a6fa42d248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:20 +0000
Subject: [PATCH 61/64] fix: OpenSSL hashers report failures, release their
 context after one, and cannot share it by copying

---
 include/dottorrent/hasher/backends/openssl.hpp |  5 +++++
 src/hasher/backends/openssl.cpp                | 10 ++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/dottorrent/hasher/backends/openssl.hpp b/include/dottorrent/hasher/backends/openssl.hpp
index 36dc9d3..bbabdee 100644
--- a/include/dottorrent/hasher/backends/openssl.hpp
+++ b/include/dottorrent/hasher/backends/openssl.hpp
@@ -316,6 +316,11 @@ class message_digest
 public:
     explicit message_digest(message_digest_algorithm algorithm, ::ENGINE* engine = nullptr);
 
+    // the digest owns its context
+    message_digest(const message_digest&) = delete;
+
+    message_digest& operator=(const message_digest&) = delete;
+
     void update(std::span<const std::byte> data);
 
     void finalize_to(std::span<std::byte> digest);
diff --git a/src/hasher/backends/openssl.cpp b/src/hasher/backends/openssl.cpp
index 0068f21..1cbaa07 100644
--- a/src/hasher/backends/openssl.cpp
+++ b/src/hasher/backends/openssl.cpp
@@ -119,20 +119,26 @@ message_digest::message_digest(message_digest_algorithm algorithm, ::ENGINE* eng
     ::EVP_MD_CTX_init(context_);
 
     if (algorithm_context_ == nullptr) {
+        ::EVP_MD_CTX_free(context_);
         throw std::system_error(make_error_code(evp_errc::unsupported_algorithm));
     }
     if (::EVP_DigestInit_ex(context_, algorithm_context_, engine_) != 1) {
+        ::EVP_MD_CTX_free(context_);
         throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
     }
 }
 
 void message_digest::update(std::span<const std::byte> data) {
-    ::EVP_DigestUpdate(context_, reinterpret_cast<const void*>(data.data()), data.size());
+    if (::EVP_DigestUpdate(context_, reinterpret_cast<const void*>(data.data()), data.size()) != 1) {
+        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
+    }
 }
 
 void message_digest::finalize_to(std::span<std::byte> digest) {
     auto digest_size = static_cast<unsigned int>(digest.size());
-    ::EVP_DigestFinal_ex(context_, reinterpret_cast<unsigned char*>(digest.data()), &digest_size);
+    if (::EVP_DigestFinal_ex(context_, reinterpret_cast<unsigned char*>(digest.data()), &digest_size) != 1) {
+        throw std::system_error((int)ERR_get_error(), openssl_crypto_category());
+    }
 }
 
 void message_digest::reset() {
-- 
2.43.0


From a2b97926dd41a065b6535cf9f4319727b03dcba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:20 +0000
Subject: [PATCH 62/64] fix: wolfSSL hashers report failures, hash updates over
 4 GiB and offer every function they list

---
 .../dottorrent/hasher/backends/wolfssl.hpp    | 28 ++++++++++++++++---
 include/dottorrent/hasher/wolfssl_hasher.hpp  | 12 ++++++++
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/include/dottorrent/hasher/backends/wolfssl.hpp b/include/dottorrent/hasher/backends/wolfssl.hpp
index b80a8c0..fe69caa 100644
--- a/include/dottorrent/hasher/backends/wolfssl.hpp
+++ b/include/dottorrent/hasher/backends/wolfssl.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <limits>
+#include <stdexcept>
 #include <type_traits>
 #include <system_error>
 #include <span>
@@ -29,26 +31,44 @@ public:
     explicit wolfssl_hasher_impl()
             : context_()
     {
-        Init(&context_);
+        reset();
     }
 
     void update(std::span<const std::byte> data)
     {
-        Update(&context_, reinterpret_cast<const byte*>(data.data()), data.size());
+        // wolfSSL takes 32-bit lengths
+        constexpr std::size_t max_size = std::numeric_limits<word32>::max();
+        while (data.size() > max_size) {
+            check([&] { return Update(&context_, reinterpret_cast<const byte*>(data.data()), max_size); });
+            data = data.subspan(max_size);
+        }
+        check([&] { return Update(&context_, reinterpret_cast<const byte*>(data.data()), data.size()); });
     }
 
     void finalize_to(std::span<std::byte> digest)
     {
-        Final(&context_, reinterpret_cast<byte*>(digest.data()));
+        check([&] { return Final(&context_, reinterpret_cast<byte*>(digest.data())); });
         reset();
     }
 
     void reset()
     {
-        Init(&context_);
+        check([&] { return Init(&context_); });
     }
 
 private:
+    /// Throw if a wolfSSL function fails. Some functions cannot fail and return nothing.
+    template <typename F>
+    static void check(F function)
+    {
+        if constexpr (std::is_void_v<decltype(function())>) {
+            function();
+        }
+        else if (function() != 0) {
+            throw std::runtime_error("wolfSSL hash function failed");
+        }
+    }
+
     CTX context_;
 };
 
diff --git a/include/dottorrent/hasher/wolfssl_hasher.hpp b/include/dottorrent/hasher/wolfssl_hasher.hpp
index cf4f903..1106a2a 100644
--- a/include/dottorrent/hasher/wolfssl_hasher.hpp
+++ b/include/dottorrent/hasher/wolfssl_hasher.hpp
@@ -13,6 +13,18 @@ public:
         : hasher_()
     {
         switch (algorithm) {
+#ifdef WOLFSSL_MD2
+        case hash_function::md2 : {
+            hasher_ = std::make_unique<wolfssl::md2_hasher>();
+            break;
+        }
+#endif
+#ifndef NO_MD4
+        case hash_function::md4 : {
+            hasher_ = std::make_unique<wolfssl::md4_hasher>();
+            break;
+        }
+#endif
         case hash_function::md5 : {
             hasher_ = std::make_unique<wolfssl::md5_hasher>();
             break;
-- 
2.43.0


From c240ca83f813441f2f4d9e6ba315d5daa1e0cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:20 +0000
Subject: [PATCH 63/64] fix: WinCNG hashers destroy their hash object, hash
 updates over 4 GiB, and cannot share it by copying

---
 include/dottorrent/hasher/backends/wincng.hpp | 41 ++++++++++---------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/include/dottorrent/hasher/backends/wincng.hpp b/include/dottorrent/hasher/backends/wincng.hpp
index 98dc376..07423cc 100644
--- a/include/dottorrent/hasher/backends/wincng.hpp
+++ b/include/dottorrent/hasher/backends/wincng.hpp
@@ -1,4 +1,7 @@
 
+#include <algorithm>
+#include <limits>
+#include <memory>
 #include <type_traits>
 #include <system_error>
 #include <span>
@@ -185,22 +188,13 @@ public:
     {
         // allocate the hasher object on the heap, pbHashObject
         ULONG hash_object_size_ = algorithm_provider_.hash_object_size();
-        hasher_object_ = new BYTE[hash_object_size_];
-        if (hasher_object_ == nullptr) {
-            throw std::bad_alloc();
-        }
-
-        // allocate the hasher buffer on the heap
-        hasher_buffer_ = new BYTE[algorithm_provider_.hash_size()];
-        if (hasher_object_ == nullptr) {
-            throw std::bad_alloc();
-        }
+        hasher_object_ = std::make_unique<BYTE[]>(hash_object_size_);
 
         //create a hash
         int status = BCryptCreateHash(
                 algorithm_provider_.handle(),
                 &context_,
-                hasher_object_,
+                hasher_object_.get(),
                 hash_object_size_,
                 nullptr,
                 0,
@@ -213,11 +207,15 @@ public:
 
     void update(std::span<const std::byte> data)
     {
-        //hash some data
-        int status = ::BCryptHashData(context_, (PBYTE) data.data(), data.size(), 0);
-        if (!BCRYPT_SUCCESS(status)) {
-            throw std::system_error(make_error_code(wincng_errc(status)));
-        }
+        // hash some data, WinCNG takes 32-bit lengths
+        do {
+            auto part = data.first(std::min<std::size_t>(data.size(), std::numeric_limits<ULONG>::max()));
+            int status = ::BCryptHashData(context_, (PBYTE) part.data(), part.size(), 0);
+            if (!BCRYPT_SUCCESS(status)) {
+                throw std::system_error(make_error_code(wincng_errc(status)));
+            }
+            data = data.subspan(part.size());
+        } while (!data.empty());
     }
 
     void finalize_to(std::span<std::byte> digest)
@@ -233,13 +231,16 @@ public:
 
     ~message_digest()
     {
-        delete[] hasher_object_;
-        delete[] hasher_buffer_;
+        ::BCryptDestroyHash(context_);
     };
 
+    // the digest owns its hash object
+    message_digest(const message_digest&) = delete;
+
+    message_digest& operator=(const message_digest&) = delete;
+
 private:
-    ::PBYTE hasher_object_ = nullptr;
-    ::PBYTE hasher_buffer_ = nullptr;
+    std::unique_ptr<BYTE[]> hasher_object_;
     ::BCRYPT_HASH_HANDLE context_;
     bcrypt_algorithm_provider algorithm_provider_;
 };
-- 
2.43.0


From acd3e5bf75c13acc8f7f01af8d55d8a70e8c608d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:04 +0000
Subject: [PATCH 64/64] fix: multi-buffer hashers finish a job before it is
 submitted again or dropped

---
 include/dottorrent/hasher/backends/isal.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/dottorrent/hasher/backends/isal.hpp b/include/dottorrent/hasher/backends/isal.hpp
index a0743a1..f7c9ade 100644
--- a/include/dottorrent/hasher/backends/isal.hpp
+++ b/include/dottorrent/hasher/backends/isal.hpp
@@ -59,6 +59,7 @@ public:
    void submit(std::size_t job_id, std::span<const std::byte> data) override
     {
         Expects(job_id < context_pool_.size());
+        wait_until_idle(context_pool_[job_id]);
         Submit(context_manager_, context_pool_[job_id], data.data(), data.size(), HASH_ENTIRE);
     }
 
@@ -73,6 +74,7 @@ public:
     void submit_first(std::size_t job_id, std::span<const std::byte> data) override
     {
         Expects(job_id < context_pool_.size());
+        wait_until_idle(context_pool_[job_id]);
         Submit(context_manager_, context_pool_[job_id], data.data(), data.size(), HASH_FIRST);
     }
 
@@ -142,6 +144,7 @@ public:
             auto to_deallocate = context_pool_.size() - len;
             std::size_t idx;
             for (std::size_t i = len; i < context_pool_.size(); ++i) {
+                wait_until_idle(context_pool_[i]);
                 deallocate_hash_context(context_pool_[i]);
             }
             context_pool_.resize(len);
@@ -154,6 +157,8 @@ public:
             deallocate_hash_context(ctx);
         }
         context_pool_.clear();
+        // forget the jobs that were still being processed
+        Init(context_manager_);
     }
 
     ~multi_buffer_hasher_impl() override
@@ -194,6 +199,14 @@ private:
         return hash_ctx;
     }
 
+    /// A job that is still being processed can neither be submitted again nor deallocated.
+    void wait_until_idle(CTX* ctx)
+    {
+        while (hash_ctx_processing(ctx)) {
+            Flush(context_manager_);
+        }
+    }
+
     void deallocate_hash_context(CTX* ctx)
     {
         delete static_cast<user_data*>(ctx->user_data);
-- 
2.43.0

