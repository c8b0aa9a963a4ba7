From 547e3ebb25f698b8314fa3b56c1871c01fe53dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 01/16] fix: BytesMut::commit_write accepted counts that wrap
 write_pos_ + n around SIZE_MAX

---
 kio/core/bytes_mut.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kio/core/bytes_mut.h b/kio/core/bytes_mut.h
index 5ace5fa..c0c1484 100644
--- a/kio/core/bytes_mut.h
+++ b/kio/core/bytes_mut.h
@@ -151,7 +151,7 @@ namespace kio
          */
         void commit_write(const size_t n)
         {
-            if (write_pos_ + n > buffer_.size())
+            if (n > writable())
             {
                 throw std::out_of_range("BytesMut::commit_write() beyond buffer size");
             }
-- 
2.43.0


From b99c4c308d044fe2b7ac44701a476465a6f711d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 02/16] fix: BytesMut::reserve returned without the requested
 space when the size computation wrapped

---
 kio/core/bytes_mut.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kio/core/bytes_mut.h b/kio/core/bytes_mut.h
index c0c1484..87dd5ba 100644
--- a/kio/core/bytes_mut.h
+++ b/kio/core/bytes_mut.h
@@ -63,6 +63,10 @@ namespace kio
             if (writable() >= additional) return;
 
             const size_t data_len = remaining();
+            if (additional > buffer_.max_size() - data_len)
+            {
+                throw std::length_error("BytesMut::reserve() size overflow");
+            }
             const size_t available_total = buffer_.capacity();
 
             // Strategy 1: Compact in place if it fits
-- 
2.43.0


From 8c7ab356a284b32aa31bf70ce74434953e656545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 03/16] fix: RESP parser accepted bulk frames whose payload is
 not followed by CRLF

---
 kio/resp/parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kio/resp/parser.cpp b/kio/resp/parser.cpp
index 2e5901f..013610a 100644
--- a/kio/resp/parser.cpp
+++ b/kio/resp/parser.cpp
@@ -132,6 +132,9 @@ namespace kio::resp
         const auto total = header_len + payload_len + 2;
         if (data.size() < total) return std::unexpected(ParseError::NeedMoreData);
 
+        // The payload must be terminated by CRLF
+        if (data[total - 2] != '\r' || data[total - 1] != '\n') return std::unexpected(ParseError::MalformedFrame);
+
         return FrameHeader{type, data.data(), total, 0};
     }
 
-- 
2.43.0


From 8875d6a445d540b2217acf0298d82ea9e17f2aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 04/16] fix: FileIdGenerator repeated ids after 65536 ids in
 one second

---
 bitcask/include/file_id.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitcask/include/file_id.h b/bitcask/include/file_id.h
index 71384b5..e28e089 100644
--- a/bitcask/include/file_id.h
+++ b/bitcask/include/file_id.h
@@ -83,7 +83,9 @@ namespace bitcask
                 if (sequence_ == 0xFFFF)
                 {
                     // This is a rare edge case: generating >65k files in 1 second.
+                    // Borrow the next second so that ids stay strictly increasing.
                     ALOG_WARN("FileIdGenerator: sequence overflow for partition {}", partition_id_);
+                    now = ++last_timestamp_;
                     sequence_ = 0;
                 }
                 else
-- 
2.43.0


From e4159335c20a4463185f976f791d34637beb4386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:00 +0000
Subject: [PATCH 05/16] fix: DataEntry::deserialize read past the buffer when
 the declared size wraps

---
 bitcask/src/entry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcask/src/entry.cpp b/bitcask/src/entry.cpp
index 5f86e63..b73707a 100644
--- a/bitcask/src/entry.cpp
+++ b/bitcask/src/entry.cpp
@@ -67,7 +67,7 @@ namespace bitcask
         const auto crc = read_le<uint32_t>(buffer.data());
         const auto size = read_le<uint64_t>(buffer.data() + 4);
 
-        if (buffer.size() < kEntryFixedHeaderSize + size)
+        if (buffer.size() - kEntryFixedHeaderSize < size)
         {
             return std::unexpected(Error{ErrorCategory::Serialization, kIoNeedMoreData});
         }
-- 
2.43.0


From 44dcd3d779ef81c6840328bb52e11d963feabd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 06/16] fix: resolve_address fills in the ip and port of the
 address it returns

---
 kio/net/net.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kio/net/net.cpp b/kio/net/net.cpp
index f1eb186..4a71f47 100644
--- a/kio/net/net.cpp
+++ b/kio/net/net.cpp
@@ -28,6 +28,7 @@ namespace kio::net
             addr4->sin_family = AF_INET;
             addr4->sin_port = htons(port);
             result.addrlen = sizeof(sockaddr_in);
+            result.populate_from_storage();
             return result;
         }
 
@@ -39,6 +40,7 @@ namespace kio::net
             addr6->sin6_family = AF_INET6;
             addr6->sin6_port = htons(port);
             result.addrlen = sizeof(sockaddr_in6);
+            result.populate_from_storage();
             return result;
         }
 
@@ -63,6 +65,7 @@ namespace kio::net
         std::memcpy(&result.addr, res->ai_addr, res->ai_addrlen);
 
         freeaddrinfo(res);
+        result.populate_from_storage();
         return result;
     }
 
-- 
2.43.0


From 6cbcf8944105a39f8e1062c934228846dbe374e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 07/16] fix: resolve_endpoint read past the end of a host view
 that is not NUL-terminated

---
 kio/net/net.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kio/net/net.cpp b/kio/net/net.cpp
index 4a71f47..da7e0ab 100644
--- a/kio/net/net.cpp
+++ b/kio/net/net.cpp
@@ -94,10 +94,11 @@ namespace kio::net
     {
         SocketAddress out;
         out.port = port;
+        const std::string host_str(host);
 
         // Try IPv4
         sockaddr_in v4{};
-        if (inet_pton(AF_INET, host.data(), &v4.sin_addr) == 1)
+        if (inet_pton(AF_INET, host_str.c_str(), &v4.sin_addr) == 1)
         {
             v4.sin_family = AF_INET;
             v4.sin_port = htons(port);
@@ -110,7 +111,7 @@ namespace kio::net
 
         // Try IPv6
         sockaddr_in6 v6{};
-        if (inet_pton(AF_INET6, host.data(), &v6.sin6_addr) == 1)
+        if (inet_pton(AF_INET6, host_str.c_str(), &v6.sin6_addr) == 1)
         {
             v6.sin6_family = AF_INET6;
             v6.sin6_port = htons(port);
@@ -128,7 +129,7 @@ namespace kio::net
         hints.ai_socktype = SOCK_STREAM;
 
         addrinfo* res;
-        if (getaddrinfo(host.data(), nullptr, &hints, &res) != 0) return std::unexpected(Error::from_errno(ENOENT));
+        if (getaddrinfo(host_str.c_str(), nullptr, &hints, &res) != 0) return std::unexpected(Error::from_errno(ENOENT));
 
         // Take the first result
         std::memcpy(&out.addr, res->ai_addr, res->ai_addrlen);
-- 
2.43.0


From 12a6463e84eefd54b94858f8ec6db7063abac606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 08/16] fix: reserve the op id before taking an SQE

When the op slot pool was exhausted get_op_id() threw after
io_uring_get_sqe() had already handed out a submission entry. The entry
was never prepared, so the next submit sent whatever an earlier operation
had left in it (stale buffer, stale user_data) to the kernel.
---
 kio/core/uring_awaitable.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kio/core/uring_awaitable.h b/kio/core/uring_awaitable.h
index 42e96bb..7ea1b62 100644
--- a/kio/core/uring_awaitable.h
+++ b/kio/core/uring_awaitable.h
@@ -39,16 +39,20 @@ namespace kio::io
                    "kio::async_* operation was called from the wrong thread. "
                    "You must co_await SwitchToWorker(worker) at the start of your task.");
 
+            // Reserve the op id before taking an SQE: get_op_id() throws when the pool is exhausted, and an SQE that was
+            // taken but never prepared would be submitted with whatever a previous operation left in it.
+            op_id_ = internal::WorkerAccess::get_op_id(worker_);
+
             sqe_ = io_uring_get_sqe(&internal::WorkerAccess::get_ring(worker_));
             if (sqe_ == nullptr)
             {
                 // no SQE available right now; return error immediately
+                internal::WorkerAccess::release_op_id(worker_, op_id_);
                 immediate_result_ = -EAGAIN;
                 return false;
             }
 
-            // allocate an op id and record the coroutine handle
-            op_id_ = internal::WorkerAccess::get_op_id(worker_);
+            // record the coroutine handle
             internal::WorkerAccess::init_op_slot(worker_, op_id_, h);
 
             // Call prep sqe
-- 
2.43.0


From 2e6420a844d52ee54326c9c4141bf70f23467e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 09/16] fix: do not truncate read/write lengths modulo 2^32

---
 kio/core/worker.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 6ae1476..884b08a 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -3,8 +3,10 @@
 //
 #include "worker.h"
 
+#include <algorithm>
 #include <fcntl.h>
 #include <chrono>
+#include <limits>
 #include <liburing.h>
 #include <sys/eventfd.h>
 #include <sys/utsname.h>
@@ -14,6 +16,13 @@
 
 namespace kio::io
 {
+    namespace
+    {
+        // SQEs carry a 32-bit length. A larger request becomes a short transfer instead of being truncated modulo 2^32
+        // (which turned e.g. a 4 GiB read into a zero-length one that looks like EOF).
+        unsigned clamp_rw_len(const size_t len) { return static_cast<unsigned>(std::min<size_t>(len, std::numeric_limits<int>::max())); }
+    }  // namespace
+
     void Worker::check_kernel_version()
     {
         utsname buf{};
@@ -405,7 +414,7 @@ namespace kio::io
 
     Task<Result<int>> Worker::async_read_at(const int client_fd, std::span<char> buf, const uint64_t offset)
     {
-        auto prep = [](io_uring_sqe *sqe, const int fd, char *b, const size_t len, const uint64_t off) { io_uring_prep_read(sqe, fd, b, static_cast<int>(len), off); };
+        auto prep = [](io_uring_sqe *sqe, const int fd, char *b, const size_t len, const uint64_t off) { io_uring_prep_read(sqe, fd, b, clamp_rw_len(len), off); };
         int ret = co_await make_uring_awaitable(*this, prep, client_fd, buf.data(), buf.size(), offset);
         if (ret < 0)
         {
@@ -462,7 +471,7 @@ namespace kio::io
 
     Task<Result<int>> Worker::async_write_at(const int client_fd, std::span<const char> buf, const uint64_t offset)
     {
-        auto prep = [](io_uring_sqe *sqe, const int fd, const char *b, const size_t len, const uint64_t off) { io_uring_prep_write(sqe, fd, b, static_cast<int>(len), off); };
+        auto prep = [](io_uring_sqe *sqe, const int fd, const char *b, const size_t len, const uint64_t off) { io_uring_prep_write(sqe, fd, b, clamp_rw_len(len), off); };
         int ret = co_await make_uring_awaitable(*this, prep, client_fd, buf.data(), buf.size(), offset);
         if (ret < 0)
         {
-- 
2.43.0


From 65a80998125c9ffede1b97f3c12287bfde7a591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 10/16] fix: grow the operation slot pool by at least one slot

---
 kio/core/worker.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kio/core/worker.cpp b/kio/core/worker.cpp
index 884b08a..fefd73b 100644
--- a/kio/core/worker.cpp
+++ b/kio/core/worker.cpp
@@ -81,7 +81,10 @@ namespace kio::io
         }
 
         const auto cur_size = op_data_pool_.size();
-        size_t new_size = std::min(static_cast<size_t>(static_cast<float>(cur_size) * config_.op_slots_growth_factor), config_.max_op_slots);
+        // Always add at least one slot: a small pool or a growth factor close to 1 rounds down to the current size.
+        const float target = static_cast<float>(cur_size) * config_.op_slots_growth_factor;
+        const size_t grown = target < static_cast<float>(config_.max_op_slots) ? static_cast<size_t>(target) : config_.max_op_slots;
+        const size_t new_size = std::clamp(grown, cur_size + 1, config_.max_op_slots);
         ALOG_DEBUG("Growing op_data_pool_ from {} to {}", cur_size, new_size);
         op_data_pool_.resize(new_size);
         for (size_t i = cur_size; i < new_size; ++i)
-- 
2.43.0


From b1dd92fe1009e8380f75870c82720c73867ab8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:17 +0000
Subject: [PATCH 11/16] fix: MPSCQueue with capacity 1 overwrites the queued
 item

With a single cell, the sequence number that marks position p as published is
the one that marks the cell as free for position p+1, so a second push
overwrites the first item and the consumer never sees it. Use at least two
cells.
---
 kio/sync/mpsc_queue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kio/sync/mpsc_queue.h b/kio/sync/mpsc_queue.h
index b174d12..ca800c3 100644
--- a/kio/sync/mpsc_queue.h
+++ b/kio/sync/mpsc_queue.h
@@ -53,13 +53,14 @@ namespace kio
         };
 
     public:
-        explicit MPSCQueue(size_t capacity) : buffer_(capacity), mask_(capacity - 1)
+        // At least two cells: with a single one, "full" and "free for the next round" are the same sequence number.
+        explicit MPSCQueue(size_t capacity) : buffer_(capacity < 2 ? 2 : capacity), mask_(buffer_.size() - 1)
         {
             // Capacity must be power of 2
             assert(capacity > 0 && (capacity & (capacity - 1)) == 0 && "Capacity must be a power of 2");
 
             // Initialize sequence numbers for each slot (no T construction)
-            for (size_t i = 0; i < capacity; ++i)
+            for (size_t i = 0; i < buffer_.size(); ++i)
             {
                 buffer_[i].sequence.store(i, std::memory_order_relaxed);
             }
-- 
2.43.0


From 99ebf8c11790c45767b485ef9122836599a488f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:27 +0000
Subject: [PATCH 12/16] fix: concurrent appends to a data file overwrote each
 other

DataFile::async_write read size_ as its offset and advanced it only after the
write had completed, so a second append that started in between wrote to the
same range. Claim the range before suspending; a failed append gives it back
unless a later one already follows it.
---
 bitcask/src/data_file.cpp | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/bitcask/src/data_file.cpp b/bitcask/src/data_file.cpp
index 453a90a..40c4fe9 100644
--- a/bitcask/src/data_file.cpp
+++ b/bitcask/src/data_file.cpp
@@ -40,17 +40,37 @@ namespace bitcask
         const auto entry_offset = size_;
         const auto written_len = static_cast<uint32_t>(serialized_entry.size());
 
-        // The file must be opened without O_APPEND for this pwrite-based call to work correctly.
-        KIO_TRY(co_await io_worker_.async_write_exact_at(handle_.get(), serialized_entry, entry_offset));
+        // Claim the range before suspending: other appends may start while this one is being written.
+        size_ += written_len;
+        const auto give_back = [this, entry_offset, written_len]
+        {
+            // only if no later append follows it
+            if (size_ == entry_offset + written_len) size_ = entry_offset;
+        };
+
+        Result<void> written;
+        try
+        {
+            // The file must be opened without O_APPEND for this pwrite-based call to work correctly.
+            written = co_await io_worker_.async_write_exact_at(handle_.get(), serialized_entry, entry_offset);
 
-        if (config_.sync_on_write)
+            if (written.has_value() && config_.sync_on_write)
+            {
+                // After the writing completes, force it to disk if the user configured it
+                written = co_await io_worker_.async_fdatasync(handle_.get());
+            }
+        }
+        catch (...)
         {
-            // After the writing completes, force it to disk if the user configured it
-            KIO_TRY(co_await io_worker_.async_fdatasync(handle_.get()));
+            give_back();
+            throw;
         }
 
-        // Atomically update size_ for the next write
-        size_ += written_len;
+        if (!written.has_value())
+        {
+            give_back();
+            co_return std::unexpected(written.error());
+        }
 
         co_return std::pair{entry_offset, written_len};
     }
-- 
2.43.0


From 78a29331ea8253c540157ece5ff349bbf1a92599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:23 +0000
Subject: [PATCH 13/16] fix: concurrent lookups broke the descriptor cache

FDCache::get_or_open evicts before it suspends to open the file and inserts
afterwards. Lookups that run in between could fill the cache beyond its limit,
or cache the same file: the second insertion closed the first descriptor while
it was handed out and left a stale element in the LRU list. Look again after
the file was opened.
---
 bitcask/src/fd_cache.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/bitcask/src/fd_cache.cpp b/bitcask/src/fd_cache.cpp
index 2040b43..74ede82 100644
--- a/bitcask/src/fd_cache.cpp
+++ b/bitcask/src/fd_cache.cpp
@@ -27,10 +27,22 @@ namespace bitcask
 
         // Open file
         int fd = KIO_TRY(co_await worker_.async_openat(path, O_RDONLY, 0));
+        FileHandle handle(fd);
+
+        // Other lookups may have cached this file, or filled the cache, while it was being opened
+        if (const auto it = cache_.find(file_id); it != cache_.end())
+        {
+            touch(file_id);
+            co_return it->second.handle.get();
+        }
+        if (cache_.size() >= max_open_files_)
+        {
+            evict_oldest();
+        }
 
         // Add to cache
         lru_list_.push_front(file_id);
-        cache_[file_id] = CacheEntry{FileHandle(fd), path, lru_list_.begin()};
+        cache_[file_id] = CacheEntry{std::move(handle), path, lru_list_.begin()};
 
         ALOG_DEBUG("FdCache: Opened file {} (cache size: {})", file_id, cache_.size());
 
-- 
2.43.0


From 0a6bc77213c4c03f3fbc377fc6ba3c3d2898dd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:01 +0000
Subject: [PATCH 14/16] fix: a get used an index entry that had changed or
 disappeared meanwhile

---
 bitcask/src/partition.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 013ab3a..e7a7cb6 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -69,7 +69,8 @@ Task<Result<std::optional<std::vector<char>>>> Partition::get(const std::string&
         co_return std::nullopt;
     }
 
-    const auto& loc = it->second;
+    // A copy: the entry may change or disappear while the file is being opened and read
+    const ValueLocation loc = it->second;
     const int fd = KIO_TRY(co_await find_fd(loc.file_id));
 
     ALOG_TRACE("Reading entry from file {} at offset {} with size {}", loc.file_id, loc.offset, loc.total_size);
-- 
2.43.0


From 9adf1b778ecc06c8ba929ec5e16240e85e0ea536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:01 +0000
Subject: [PATCH 15/16] fix: a put overtaken by a later put of its key replaced
 the newer record in the index

---
 bitcask/src/partition.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index e7a7cb6..0142baf 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -31,6 +31,14 @@ Task<Result<void>> Partition::put(std::string&& key, std::vector<char>&& value)
     auto& dst_stats = stats_.data_files[new_loc.file_id];
     if (const auto it = keydir_.find(entry.get_key()); it != keydir_.end())
     {
+        if (it->second.file_id == new_loc.file_id && it->second.offset > new_loc.offset)
+        {
+            // A later put of this key completed while this one was being written: its record is the newest
+            dst_stats.total_bytes += new_loc.total_size;
+            stats_.puts_total++;
+            co_return {};
+        }
+
         // Overwrite: decrement old file stats
         auto& old_stats = stats_.data_files[it->second.file_id];
         old_stats.live_bytes -= it->second.total_size;
-- 
2.43.0


From 180431b5c9fadf85705fd9ed9e99a11d2d0de4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:01 +0000
Subject: [PATCH 16/16] fix: a failed delete lost the index entry of its key

---
 bitcask/src/partition.cpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/bitcask/src/partition.cpp b/bitcask/src/partition.cpp
index 0142baf..75d9bc5 100644
--- a/bitcask/src/partition.cpp
+++ b/bitcask/src/partition.cpp
@@ -103,30 +103,35 @@ Task<Result<void>> Partition::del(const std::string& key)
 
     stats_.deletes_total++;
 
+    if (!keydir_.contains(key))
+    {
+        co_return {};
+    }
+
+    // Write tombstone. The KeyDir is our source of truth: if this fails, the key is still there.
+    const DataEntry tombstone(std::string(key), std::vector<char>{}, kFlagTombstone);
+    const uint64_t tombstone_file_id = active_file_->file_id();
+    auto [offset, size] = KIO_TRY(co_await active_file_->async_write(tombstone));
+
+    // Update active file stats (tombstone adds to total_bytes)
+    auto& active_stats = stats_.data_files[tombstone_file_id];
+    active_stats.total_bytes += size;
+
+    // The entry may have moved or disappeared while the tombstone was being written, or a later put may have replaced it
     const auto it = keydir_.find(key);
-    if (it == keydir_.end())
+    if (it == keydir_.end() || (it->second.file_id == tombstone_file_id && it->second.offset > offset))
     {
         co_return {};
     }
 
     // Update stats for old location
-    auto& old_stats = stats_.data_files[it->second.file_id];
+    const uint64_t old_file_id = it->second.file_id;
+    auto& old_stats = stats_.data_files[old_file_id];
     old_stats.live_bytes -= it->second.total_size;
     old_stats.live_entries--;
 
-    const uint64_t old_file_id = it->second.file_id;
-
-    // Remove from KeyDir first as it's our source of truth
     keydir_.erase(it);
 
-    // Write tombstone
-    const DataEntry tombstone(std::string(key), std::vector<char>{}, kFlagTombstone);
-    auto [_, size] = KIO_TRY(co_await active_file_->async_write(tombstone));
-
-    // Update active file stats (tombstone adds to total_bytes)
-    auto& active_stats = stats_.data_files[active_file_->file_id()];
-    active_stats.total_bytes += size;
-
     // Check if a file needs compaction
     if (should_compact_file(old_file_id))
     {
-- 
2.43.0

