From 2bad66569c05ac15897e777c68fca399301cad8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:38 +0000
Subject: [PATCH 01/69] fix: sync, read and reuse every block of pages that
 hold several blocks

---
 .../libpcache/src/engine/backends/custom/custom_cache.cpp | 8 ++++----
 libs/libpcache/src/engine/page/page.cpp                   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 68ec7d9..bf90c38 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -125,7 +125,7 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
 
     if (this->owner_pages_mapping.find (owner_id) != this->owner_pages_mapping.end ()) {
 
-        auto free_pages = this->owner_free_pages_mapping.at (owner_id);
+        auto& free_pages = this->owner_free_pages_mapping.at (owner_id);
 
         if (free_pages.size () > 0) {
 
@@ -489,10 +489,10 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
         map<int, tuple<int, Page*, pair<int, int>, bool>> new_iterate_blocks;
 
         for (auto cit = iterate_blocks.begin (); cit != iterate_blocks.end (); cit++) {
-            auto pptr = std::get<1> (cit->second);
-            if (pptr->is_page_dirty ()) {
+            // a page may hold several blocks, so check each block's own sync flag
+            if (not std::get<3> (cit->second)) {
                 new_iterate_blocks.insert ({cit->first, cit->second});
-                pptr->set_page_as_dirty (false);
+                std::get<1> (cit->second)->set_page_as_dirty (false);
             }
         }
 
diff --git a/libs/libpcache/src/engine/page/page.cpp b/libs/libpcache/src/engine/page/page.cpp
index 076460a..3c5e479 100644
--- a/libs/libpcache/src/engine/page/page.cpp
+++ b/libs/libpcache/src/engine/page/page.cpp
@@ -110,9 +110,9 @@ void Page::get_block_data (int block_id, char* buffer, int read_to_max_index) {
 
     pair<int, int> offsets = get_block_offsets (block_id);
     int off_min            = offsets.first;
-    int off_max            = read_to_max_index + 1;
 
-    memcpy (buffer, this->data + off_min, off_max - off_min);
+    // 'read_to_max_index' is relative to the start of the block
+    memcpy (buffer, this->data + off_min, read_to_max_index + 1);
 }
 
 pair<int, int> Page::get_block_offsets (int block_id) {
-- 
2.43.0


From 68d3f09641177ba5e0a0e1d3ccf37716d8714fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:08 +0000
Subject: [PATCH 02/69] fix: do not dereference the end of the block map when
 syncing pages

---
 .../src/engine/backends/custom/custom_cache.cpp       | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index bf90c38..080f8dd 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -496,19 +496,18 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
             }
         }
 
-        off_t page_streak_last_offset =
-            (new_iterate_blocks.begin ()->first) * this->config->IO_BLOCK_SIZE;
+        off_t page_streak_last_offset = 0;
 
         vector<tuple<int, Page*, pair<int, int>, bool>> page_chunk;
         page_chunk.reserve (new_iterate_blocks.size ());
 
         for (auto it = new_iterate_blocks.begin (); it != new_iterate_blocks.end (); it++) {
 
-            auto current_block_id     = it->first;
-            auto const& next_block_id = std::next (it, 1)->first;
+            auto current_block_id = it->first;
+            auto next_it          = std::next (it, 1);
 
-            if ((page_streak < (__IOV_MAX - 1)) && (it != prev (new_iterate_blocks.end (), 1)) &&
-                (current_block_id == (next_block_id - 1))) {
+            if ((page_streak < (__IOV_MAX - 1)) && (next_it != new_iterate_blocks.end ()) &&
+                (current_block_id == (next_it->first - 1))) {
 
                 page_streak++;
 
-- 
2.43.0


From 318c588b72ecc4b7d1da58fd6bc1ebba1c7c5192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:53 +0000
Subject: [PATCH 03/69] fix: report fsync failures and keep the data that was
 not persisted as unsynced

---
 .../engine/backends/custom/custom_cache.hpp   | 14 ++-
 .../include/cache/engine/page_cache.hpp       |  5 +-
 libs/libpcache/src/cache.cpp                  |  6 ++
 .../engine/backends/custom/custom_cache.cpp   | 86 +++++++++++++++++--
 4 files changed, 100 insertions(+), 11 deletions(-)

diff --git a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
index 361977b..0784385 100644
--- a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
+++ b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
@@ -18,6 +18,7 @@
 #include <mutex>
 #include <set>
 #include <shared_mutex>
+#include <sys/uio.h>
 #include <thread>
 #include <unordered_map>
 #include <unordered_set>
@@ -149,6 +150,17 @@ class CustomCacheEngine : public PageCacheEngine {
                               int block_id,
                               pair<int, int> block_offsets_inside_page);
 
+    /**
+     * @brief Writes a sequence of contiguous blocks, resuming after short writes
+     *
+     * @param fd file descriptor to write to
+     * @param iov block buffers (modified)
+     * @param count number of buffers
+     * @param offset file offset of the first buffer
+     * @return int 0 on success, -errno otherwise
+     */
+    int _write_streak (int fd, struct iovec* iov, int count, off_t offset);
+
   public:
     /**
      * @brief Construct a new Custom Cache Engine object
@@ -174,7 +186,7 @@ class CustomCacheEngine : public PageCacheEngine {
     void print_page_cache_engine ();
     double get_engine_usage ();
     bool remove_cached_blocks (string content_owner_id);
-    bool sync_pages (string owner, off_t size, char* orig_path);
+    int sync_pages (string owner, off_t size, char* orig_path);
     void make_block_readable_to_offset (string cid, int page_id, int block_id, int offset);
     bool rename_owner_pages (string old_owner, string new_owner);
     bool truncate_cached_blocks (string content_owner_id,
diff --git a/libs/libpcache/include/cache/engine/page_cache.hpp b/libs/libpcache/include/cache/engine/page_cache.hpp
index d05b700..c9a1bdf 100644
--- a/libs/libpcache/include/cache/engine/page_cache.hpp
+++ b/libs/libpcache/include/cache/engine/page_cache.hpp
@@ -136,10 +136,9 @@ class PageCacheEngine {
      * @param owner the content id
      * @param size final file size
      * @param orig_path original file name to sync data
-     * @return true the pages were synced
-     * @return false the content was not found
+     * @return int 0 if the data is persisted, -errno otherwise
      */
-    virtual bool sync_pages (string owner, off_t size, char* orig_path) = 0;
+    virtual int sync_pages (string owner, off_t size, char* orig_path) = 0;
 
     /**
      * @brief Renames the content associated with an owner to the new owner
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 08d79e3..16371af 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -373,6 +373,12 @@ int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
     off_t last_size = get_content_metadata (owner)->size;
 
     res = this->engine->sync_pages (owner, last_size, orig_path);
+
+    if (res < 0) {
+        unlockItem (owner);
+        return res;
+    }
+
     _get_content_ptr (owner)->set_data_sync_flag (true);
 
     if (not only_sync_data) {
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 080f8dd..4912853 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -17,6 +17,7 @@
 #include <iterator>
 #include <map>
 #include <spdlog/spdlog.h>
+#include <sys/stat.h>
 #include <sys/uio.h>
 #include <tuple>
 #include <unistd.h>
@@ -471,17 +472,40 @@ void CustomCacheEngine::make_block_readable_to_offset (string cid,
     }
 }
 
-bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
+int CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
 
     std::unique_lock<std::shared_mutex> lock (lock_cache_mtx);
 
     int fd = open (orig_path, O_WRONLY);
 
+    if (fd < 0) {
+
+        // nothing is lost when there is nothing to persist (e.g. a read-only file)
+
+        int open_errno   = errno;
+        bool has_changes = true;
+        struct stat st;
+
+        if (stat (orig_path, &st) == 0 && st.st_size == size) {
+
+            has_changes = false;
+
+            auto blocks = this->owner_ordered_pages_mapping.find (owner);
+
+            if (blocks != this->owner_ordered_pages_mapping.end ())
+                for (auto const& it : blocks->second)
+                    has_changes = has_changes || not std::get<3> (it.second);
+        }
+
+        return has_changes ? -open_errno : 0;
+    }
+
+    int res = 0;
+
     // std::printf ("\tengine: (fsync) %s opened descriptor %d\n", owner.c_str (), fd);
 
     if (this->owner_pages_mapping.find (owner) != this->owner_pages_mapping.end ()) {
 
-        off_t wrote_bytes = 0;
         off_t page_streak = 0;
 
         auto& iterate_blocks = this->owner_ordered_pages_mapping.at (owner);
@@ -540,12 +564,26 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
                     } else {
                         iov[p_id].iov_len = this->config->IO_BLOCK_SIZE;
                     }
-
-                    // mark block as clean
-                    std::get<3> (iterate_blocks.at (streak_block)) = true;
                 }
 
-                wrote_bytes += pwritev (fd, iov, page_streak, page_streak_last_offset);
+                int streak_res =
+                    this->_write_streak (fd, iov, page_streak, page_streak_last_offset);
+
+                if (streak_res < 0) {
+
+                    // keep these blocks as unsynced, they are not persisted
+                    res = streak_res;
+
+                    for (auto const& streak_page : page_chunk)
+                        get<1> (streak_page)->set_page_as_dirty (true);
+
+                } else {
+
+                    // mark blocks as clean
+                    for (int p_id = 0; p_id < page_streak; p_id++)
+                        std::get<3> (
+                            iterate_blocks.at (current_block_id - page_streak + p_id + 1)) = true;
+                }
 
                 page_streak = 0;
 
@@ -556,12 +594,46 @@ bool CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
         }
     }
 
-    if (ftruncate (fd, size) < 0) {
+    if (res == 0 && ftruncate (fd, size) < 0) {
+        res = -errno;
         spdlog::info ("ftruncate: failed");
     }
 
     close (fd);
 
+    return res;
+}
+
+int CustomCacheEngine::_write_streak (int fd, struct iovec* iov, int count, off_t offset) {
+
+    while (count > 0) {
+
+        ssize_t wrote = pwritev (fd, iov, count, offset);
+
+        if (wrote < 0) {
+            if (errno == EINTR)
+                continue;
+            return -errno;
+        }
+
+        if (wrote == 0 && iov->iov_len > 0)
+            return -EIO;
+
+        offset += wrote;
+
+        // skip what was written, a short write continues from there
+        while (count > 0 && (size_t)wrote >= iov->iov_len) {
+            wrote -= iov->iov_len;
+            iov++;
+            count--;
+        }
+
+        if (count > 0) {
+            iov->iov_base = (char*)iov->iov_base + wrote;
+            iov->iov_len -= wrote;
+        }
+    }
+
     return 0;
 }
 
-- 
2.43.0


From 469378c181afd10cbf2669da31041230231bd9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:06 +0000
Subject: [PATCH 04/69] fix: truncate drops the cached blocks past the new size

---
 lazyfs/src/lazyfs.cpp                         |  2 +-
 .../engine/backends/custom/custom_cache.cpp   | 24 +++++++++++++------
 libs/libpcache/src/engine/page/page.cpp       |  4 +---
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 4709ff3..8266110 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1815,7 +1815,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
 
     } else if (truncate_size < previous_metadata->size) {
 
-        this_ ()->FSCache->truncate_item (owner, truncate_size);
+        this_ ()->FSCache->truncate_item (inode, truncate_size);
     }
 
     // todo: update file size
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 4912853..d371baf 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -680,26 +680,36 @@ bool CustomCacheEngine::truncate_cached_blocks (string content_owner_id,
 
         Page* page = _get_page_ptr (page_id);
 
-        if (page->is_page_owner (content_owner_id)) {
+        if (page != nullptr && page->is_page_owner (content_owner_id) &&
+            page->contains_block (blk_id)) {
 
             // std::printf ("%s: %s is page %d owner\n", __func__, content_owner_id.c_str (),
             // page_id);
 
             if (blk_id == from_block_id && index_inside_block > 0) {
 
-                if (page->contains_block (from_block_id)) {
-                    page->make_block_readable_to (from_block_id, index_inside_block - 1);
-                    page->write_null_from (from_block_id, index_inside_block);
-                }
+                page->make_block_readable_to (from_block_id, index_inside_block - 1);
+                page->write_null_from (from_block_id, index_inside_block);
 
             } else {
 
                 page->remove_block (blk_id);
 
-                this->owner_pages_mapping.at (content_owner_id).erase (page_id);
                 this->owner_ordered_pages_mapping.at (content_owner_id).erase (blk_id);
 
-                if (not page->is_page_dirty ()) {
+                // this page has free space now, unless it is released below
+                auto& owner_free_pages = this->owner_free_pages_mapping.at (content_owner_id);
+                owner_free_pages.erase (
+                    std::remove (owner_free_pages.begin (), owner_free_pages.end (), page_id),
+                    owner_free_pages.end ());
+
+                if (not page->allocated_block_ids.empty ()) {
+
+                    owner_free_pages.push_back (page_id);
+
+                } else {
+
+                    this->owner_pages_mapping.at (content_owner_id).erase (page_id);
 
                     // add page to free pages...
                     this->free_pages.push_back (page_id);
diff --git a/libs/libpcache/src/engine/page/page.cpp b/libs/libpcache/src/engine/page/page.cpp
index 3c5e479..5487f58 100644
--- a/libs/libpcache/src/engine/page/page.cpp
+++ b/libs/libpcache/src/engine/page/page.cpp
@@ -199,9 +199,7 @@ void Page::write_null_from (int block_id, int from_offset) {
     //            off_first + from_offset,
     //             (int)this->config->IO_BLOCK_SIZE - off_first - from_offset);
 
-    memset (this->data + off_first + from_offset,
-            0,
-            this->config->IO_BLOCK_SIZE - off_first - from_offset);
+    memset (this->data + off_first + from_offset, 0, this->config->IO_BLOCK_SIZE - from_offset);
 }
 
 void Page::remove_block (int block_id) {
-- 
2.43.0


From 3d91eec030d318e89655d45da0fe5d966664830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:13 +0000
Subject: [PATCH 05/69] fix: zero-filling inside LazyFS is not an application
 write (no faults, no log, no huge buffer)

---
 lazyfs/include/lazyfs/lazyfs.hpp | 20 ++++++++
 lazyfs/src/lazyfs.cpp            | 80 +++++++++++++++++++-------------
 2 files changed, 68 insertions(+), 32 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 5fcff7c..a5112bc 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -330,6 +330,26 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
 
     static int lfs_fsync (const char* path, int isdatasync, struct fuse_file_info* fi);
 
+    /**
+     * @brief Writes to the page cache (or to the underlying filesystem when it can not be cached),
+     * without counting as an application write for logging and fault injection.
+     *
+     * @return number of bytes written or -errno
+     */
+    static int lfs_cached_write (const char* path,
+                                 const char* buf,
+                                 size_t size,
+                                 off_t offset,
+                                 struct fuse_file_info* fi);
+
+    /**
+     * @brief Fills a file range with zeros.
+     *
+     * @return 0 on success or -errno
+     */
+    static int
+    lfs_zero_fill (const char* path, off_t from, off_t to, struct fuse_file_info* fi);
+
     static int lfs_write (const char* path,
                           const char* buf,
                           size_t size,
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 8266110..300fc1a 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -950,8 +950,49 @@ int LazyFS::lfs_write (const char* path,
         spdlog::info ("[lazyfs.ops]: {}(path={},size={},off={})", __FUNCTION__, path, size, offset);
     }
 
+    int res = lfs_cached_write (path, buf, size, offset, fi);
+
+    string fault_type = CLEAR;
+    bool crash_added = this_ () -> persist_write(path,buf,size,offset);
+    if (!crash_added) { //At the moment only one fault type can be injected
+        crash_added =  this_ () -> split_write(path,buf,size,offset);
+        fault_type = TORN_OP;
+    } else {
+        fault_type = TORN_SEQ; 
+    }
+
+    this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
+    this_ ()->trigger_configured_clear_fault ("write", "after", path, "");
+
+    return res;
+}
+
+int LazyFS::lfs_zero_fill (const char* path, off_t from, off_t to, struct fuse_file_info* fi) {
+
+    const off_t max_chunk = 1 << 20;
+    vector<char> zeros (std::min (max_chunk, std::max (to - from, (off_t)0)), 0);
+
+    while (from < to) {
+
+        int res = lfs_cached_write (path, zeros.data (), std::min (max_chunk, to - from), from, fi);
+
+        if (res < 0)
+            return res;
+
+        from += res;
+    }
+
+    return 0;
+}
+
+int LazyFS::lfs_cached_write (const char* path,
+                              const char* buf,
+                              size_t size,
+                              off_t offset,
+                              struct fuse_file_info* fi) {
+
     int fd;
-    int res;
+    int res = 0;
 
     (void)fi;
     if (fi == NULL) {
@@ -1020,9 +1061,10 @@ int LazyFS::lfs_write (const char* path,
 
                 if (size_to_fill > 0) {
 
-                    char* fill_zeros = (char*)calloc (size_to_fill, 1);
-                    lfs_write (path, fill_zeros, size_to_fill, FILE_SIZE_BEFORE, NULL);
-                    free (fill_zeros);
+                    int fill_res = lfs_zero_fill (path, FILE_SIZE_BEFORE, offset, fi);
+
+                    if (fill_res < 0)
+                        return fill_res;
                 }
             }
         }
@@ -1265,15 +1307,6 @@ int LazyFS::lfs_write (const char* path,
     }
 
     // ----------------------------------------------------------------------------------
-    
-    string fault_type = CLEAR;
-    bool crash_added = this_ () -> persist_write(path,buf,size,offset);
-    if (!crash_added) { //At the moment only one fault type can be injected
-        crash_added =  this_ () -> split_write(path,buf,size,offset);
-        fault_type = TORN_OP;
-    } else {
-        fault_type = TORN_SEQ; 
-    }
 
     // res should be = actual bytes written as pwrite could fail...
     res = size;
@@ -1286,11 +1319,6 @@ int LazyFS::lfs_write (const char* path,
     if (fi == NULL)
         close (fd);
 
-    
-
-    this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
-    this_ ()->trigger_configured_clear_fault ("write", "after", path, "");
-
     return res;
 }
 
@@ -1791,19 +1819,9 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
             2: Content exists? Fill size_before -> size with zeros
         */
 
-        size_t IO_BLOCK_SIZE        = this_ ()->FSConfig->IO_BLOCK_SIZE;
-        off_t file_size             = has_content_cached ? previous_metadata->size : 0;
-        off_t add_bytes_from_offset = file_size;
-        off_t add_bytes_total       = truncate_size - add_bytes_from_offset;
-
-        char* buf = (char*)malloc (add_bytes_total);
-        memset (buf, 0, add_bytes_total);
-
-        int r = lfs_write (path, buf, add_bytes_total, add_bytes_from_offset, fi);
+        off_t file_size = has_content_cached ? previous_metadata->size : 0;
 
-        if (r != add_bytes_total) {
-
-            int res;
+        if (lfs_zero_fill (path, file_size, truncate_size, fi) < 0) {
 
             if (fi != NULL)
                 res = ftruncate (fi->fh, truncate_size);
@@ -1811,8 +1829,6 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
                 res = truncate (path, truncate_size);
         }
 
-        free (buf);
-
     } else if (truncate_size < previous_metadata->size) {
 
         this_ ()->FSCache->truncate_item (inode, truncate_size);
-- 
2.43.0


From cb078fcdeca1d0c17de288ebefcd8b05cbb9436f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:13 +0000
Subject: [PATCH 06/69] fix: report the failure of a write that could neither
 be cached nor written through

---
 lazyfs/src/lazyfs.cpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 300fc1a..bea7304 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -952,6 +952,9 @@ int LazyFS::lfs_write (const char* path,
 
     int res = lfs_cached_write (path, buf, size, offset, fi);
 
+    if (res < 0)
+        return res;
+
     string fault_type = CLEAR;
     bool crash_added = this_ () -> persist_write(path,buf,size,offset);
     if (!crash_added) { //At the moment only one fault type can be injected
@@ -1021,6 +1024,9 @@ int LazyFS::lfs_cached_write (const char* path,
 
         res = pwrite (fd, buf, size, offset);
 
+        if (res == -1)
+            res = -errno;
+
     } else {
 
         // ----------------------------------------------------------------------------------
@@ -1078,6 +1084,7 @@ int LazyFS::lfs_cached_write (const char* path,
         off_t data_allocated       = 0;
         off_t data_buffer_iterator = 0;
         int fd_caching             = open (path, O_RDONLY);
+        int open_errno             = errno;
 
         char block_caching_buffer[IO_BLOCK_SIZE];
         map<int, tuple<const char*, size_t, int, int>> put_mapping;
@@ -1125,7 +1132,7 @@ int LazyFS::lfs_cached_write (const char* path,
                     if any of these fails, pwrite it to the underlying FS.
                 */
 
-                if (fd_caching >= 0) {
+                if (fd_caching >= 0 || !needs_pread) {
 
                     // Always block sized reads for pread calls
 
@@ -1147,7 +1154,7 @@ int LazyFS::lfs_cached_write (const char* path,
                         // Read failed for this file,
                         // We assume that the file is not reachable
 
-                        res = -1;
+                        res = -errno;
                         break;
 
                     } else {
@@ -1212,7 +1219,7 @@ int LazyFS::lfs_cached_write (const char* path,
                                                      CURR_BLK_IDX * IO_BLOCK_SIZE + cache_from);
 
                             if (pwrite_res != cache_wr_sz) {
-                                res = -1;
+                                res = pwrite_res < 0 ? -errno : -EIO;
                                 break;
                             }
                         }
@@ -1223,7 +1230,7 @@ int LazyFS::lfs_cached_write (const char* path,
                     // Read failed for this file,
                     // We assume that the file is not reachable
 
-                    res = -1;
+                    res = -open_errno;
                     break;
                 }
 
@@ -1257,7 +1264,7 @@ int LazyFS::lfs_cached_write (const char* path,
                                              CURR_BLK_IDX * IO_BLOCK_SIZE + blk_readable_from);
 
                     if (pwrite_res != (blk_readable_to - blk_readable_from + 1)) {
-                        res = -1;
+                        res = pwrite_res < 0 ? -errno : -EIO;
                         break;
                     }
                 }
@@ -1272,7 +1279,7 @@ int LazyFS::lfs_cached_write (const char* path,
 
         // ----------------------------------------------------------------------------------
 
-        bool locked = this_ ()->FSCache->lockItemCheckExists (inode);
+        bool locked = res >= 0 && this_ ()->FSCache->lockItemCheckExists (inode);
 
         if (locked) {
 
@@ -1303,19 +1310,18 @@ int LazyFS::lfs_cached_write (const char* path,
             this_ ()->FSCache->unlockItem (inode);
         }
 
-        close (fd_caching);
+        if (fd_caching >= 0)
+            close (fd_caching);
     }
 
     // ----------------------------------------------------------------------------------
 
-    // res should be = actual bytes written as pwrite could fail...
-    res = size;
+    // the whole buffer was written, unless some block could not be read or written
+    if (res >= 0)
+        res = size;
 
     // std::printf ("\twrite: returning %d bytes\n", res);
 
-    if (res == -1)
-        res = -errno;
-
     if (fi == NULL)
         close (fd);
 
-- 
2.43.0


From ae4e5d1857e2970a8fef219fbd8cfcac3f536c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:13 +0000
Subject: [PATCH 07/69] fix: a write never shrinks a file extended by a
 concurrent write

---
 lazyfs/src/lazyfs.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index bea7304..7af4f91 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1285,6 +1285,9 @@ int LazyFS::lfs_cached_write (const char* path,
 
             off_t was_written_until_offset = offset + size;
 
+            // the size may have changed since this write started
+            FILE_SIZE_BEFORE = this_ ()->FSCache->get_content_metadata (inode)->size;
+
             Metadata meta;
             meta.size = was_written_until_offset > FILE_SIZE_BEFORE ? was_written_until_offset
                                                                     : FILE_SIZE_BEFORE;
-- 
2.43.0


From a80d2f27ef975bb7b592a82d704511f2a6bff897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:17 +0000
Subject: [PATCH 08/69] fix: truncate returns its own result and does not use
 metadata after unlocking it

---
 lazyfs/src/lazyfs.cpp | 52 ++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 33 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 7af4f91..fa4d543 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1756,45 +1756,34 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
     std::shared_lock<std::shared_mutex> lock (cache_command_lock);
 
     struct stat stats;
-    lfs_getattr (path, &stats, fi);
+    int res = lfs_getattr (path, &stats, fi);
 
     if (this_ ()->FSConfig->log_all_operations) {
         spdlog::info ("[lazyfs.ops]: {}(path={},size={})", __FUNCTION__, path, truncate_size);
     }
 
-    int res;
+    if (res < 0)
+        return res;
 
     string owner (path);
     string inode = this_ ()->FSCache->get_original_inode (owner);
 
     bool locked_initial = this_ ()->FSCache->lockItemCheckExists (inode);
 
-    Metadata* previous_metadata;
+    // the metadata may change as soon as the item is unlocked
+    off_t previous_size = stats.st_size;
 
     if (locked_initial) {
 
-        previous_metadata = this_ ()->FSCache->get_content_metadata (inode);
+        Metadata* previous_metadata = this_ ()->FSCache->get_content_metadata (inode);
 
-        this_ ()->FSCache->unlockItem (inode);
-
-    } else {
+        if (previous_metadata != nullptr)
+            previous_size = previous_metadata->size;
 
-        if (fi != NULL)
-            res = ftruncate (fi->fh, 0);
-        else
-            res = truncate (path, 0);
-
-        lfs_getattr (path, &stats, fi);
-        string newino = to_string (stats.st_ino);
-        if (this_ ()->FSCache->lockItemCheckExists (newino)) {
-            previous_metadata = this_ ()->FSCache->get_content_metadata (newino);
-            this_ ()->FSCache->unlockItem (newino);
-            inode = newino;
-        } else
-            return -1;
+        this_ ()->FSCache->unlockItem (inode);
     }
 
-    bool has_content_cached  = previous_metadata != nullptr;
+    bool has_content_cached  = locked_initial;
     bool behave_as_lfs_write = false;
 
     if (not has_content_cached) {
@@ -1807,14 +1796,14 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
         behave_as_lfs_write = true;
     }
 
-    if (has_content_cached && truncate_size == previous_metadata->size) {
+    if (has_content_cached && truncate_size == previous_size) {
 
         behave_as_lfs_write = false;
 
         // Since truncate size is the same as the file size, there's nothing to change/truncate.
     }
 
-    if (has_content_cached && truncate_size > previous_metadata->size) {
+    if (has_content_cached && truncate_size > previous_size) {
 
         behave_as_lfs_write = true;
         cout << "***************************** BEHAVE AS " << endl;
@@ -1828,25 +1817,25 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
             2: Content exists? Fill size_before -> size with zeros
         */
 
-        off_t file_size = has_content_cached ? previous_metadata->size : 0;
-
-        if (lfs_zero_fill (path, file_size, truncate_size, fi) < 0) {
+        if (lfs_zero_fill (path, previous_size, truncate_size, fi) < 0) {
 
             if (fi != NULL)
                 res = ftruncate (fi->fh, truncate_size);
             else
                 res = truncate (path, truncate_size);
+
+            if (res == -1)
+                return -errno;
         }
 
-    } else if (truncate_size < previous_metadata->size) {
+    } else if (truncate_size < previous_size) {
 
         this_ ()->FSCache->truncate_item (inode, truncate_size);
     }
 
     // todo: update file size
 
-    if (previous_metadata != nullptr) {
-
+    {
         Metadata new_meta;
         new_meta.size = truncate_size;
 
@@ -1858,7 +1847,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
         new_meta.mtim = modify_time;
         values_to_change.push_back ("mtime");
 
-        if (new_meta.size > previous_metadata->size) {
+        if (new_meta.size > previous_size) {
             new_meta.ctim = modify_time;
             values_to_change.push_back ("ctime");
         }
@@ -1872,9 +1861,6 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
         }
     }
 
-    if (res == -1)
-        return -errno;
-
     this_ ()->trigger_crash_fault ("truncate", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("truncate", "after", path, "");
 
-- 
2.43.0


From 799a332ea0c9eb9e5ea4363bc46d2cef3d5a3427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:35 +0000
Subject: [PATCH 09/69] fix: reads mixing cached, uncached and sparse blocks
 return exactly the file's bytes

---
 lazyfs/src/lazyfs.cpp | 136 ++++++++++++++++++++++--------------------
 1 file changed, 70 insertions(+), 66 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index fa4d543..6fa8f19 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1368,11 +1368,8 @@ int LazyFS::lfs_read (const char* path,
 
     // ----------------------------------------------------------------------------------
 
-    off_t blk_low        = offset / IO_BLOCK_SIZE;
-    off_t blk_high       = (offset + size - 1) / IO_BLOCK_SIZE;
     int fd_caching       = fd;
     off_t BUF_ITERATOR   = 0;
-    off_t BYTES_LEFT     = size;
     off_t data_allocated = 0;
 
     char read_buffer[IO_BLOCK_SIZE];
@@ -1418,14 +1415,51 @@ int LazyFS::lfs_read (const char* path,
         // std::printf ("\tread: file has %d bytes\n", (int)meta.size);
     }
 
-    if (offset > (meta.size - 1))
-        return 0;
+    // there is nothing to read past the end of the file
+
+    if ((off_t)size > meta.size - offset)
+        size = std::max (meta.size - offset, (off_t)0);
+
+    off_t blk_low    = offset / IO_BLOCK_SIZE;
+    off_t blk_high   = size > 0 ? (off_t)((offset + size - 1) / IO_BLOCK_SIZE) : blk_low - 1;
+    off_t BYTES_LEFT = size;
+    res              = 0;
 
     // ---------------------------------------------------------------------------------
 
     off_t last_pread_chunk_size   = 0;
     off_t last_pread_chunk_offset = offset;
 
+    // reads the pending chunk, what is not in the underlying file is a hole
+    auto read_pending_chunk = [&] () {
+        off_t chunk_read = 0;
+
+        while (chunk_read < last_pread_chunk_size) {
+
+            ssize_t pread_res = pread (fd_caching,
+                                       buf + BUF_ITERATOR + chunk_read,
+                                       last_pread_chunk_size - chunk_read,
+                                       last_pread_chunk_offset + chunk_read);
+
+            if (pread_res < 0) {
+                res = -errno;
+                return;
+            }
+
+            if (pread_res == 0)
+                break;
+
+            chunk_read += pread_res;
+        }
+
+        memset (buf + BUF_ITERATOR + chunk_read, 0, last_pread_chunk_size - chunk_read);
+
+        BUF_ITERATOR += last_pread_chunk_size;
+        BYTES_LEFT -= last_pread_chunk_size;
+
+        last_pread_chunk_size = 0;
+    };
+
     off_t blk_readable_from = 0;
     off_t blk_readable_to   = 0;
 
@@ -1445,30 +1479,9 @@ int LazyFS::lfs_read (const char* path,
         else if (CURR_BLK_IDX == blk_high)
             blk_readable_to = size - data_allocated - 1;
 
-        if (this_ ()->FSCache->is_block_cached (inode, CURR_BLK_IDX)) {
-
-            if (last_pread_chunk_size > 0) {
-
-                int pread_res = pread (fd_caching,
-                                       buf + BUF_ITERATOR,
-                                       last_pread_chunk_size,
-                                       last_pread_chunk_offset);
-
-                BUF_ITERATOR += pread_res;
-                BYTES_LEFT -= pread_res;
-
-                last_pread_chunk_size   = 0;
-                last_pread_chunk_offset = (CURR_BLK_IDX + 1) * IO_BLOCK_SIZE;
-
-            } else if (CURR_BLK_IDX < blk_high) {
-
-                last_pread_chunk_offset = (CURR_BLK_IDX + 1) * IO_BLOCK_SIZE;
-            }
-
-            if (BYTES_LEFT <= 0) {
+        bool got_cached_block = false;
 
-                break;
-            }
+        if (this_ ()->FSCache->is_block_cached (inode, CURR_BLK_IDX)) {
 
             /*
                 > Block is cached, so buffer was filled with the requested data:
@@ -1477,42 +1490,34 @@ int LazyFS::lfs_read (const char* path,
             auto GET_BLOCKS_RES =
                 this_ ()->FSCache->get_data_blocks (inode, {{CURR_BLK_IDX, read_buffer}});
 
-            if ((GET_BLOCKS_RES.find (CURR_BLK_IDX) != GET_BLOCKS_RES.end ()) and
-                GET_BLOCKS_RES.at (CURR_BLK_IDX).first) {
-
-                pair<int, int> readable_offsets = GET_BLOCKS_RES.at (CURR_BLK_IDX).second;
-
-                off_t max_readable_offset = readable_offsets.second;
-
-                off_t read_to = std::min (max_readable_offset, blk_readable_to);
+            // the block may have left the cache meanwhile, in that case pread it
+            got_cached_block = (GET_BLOCKS_RES.find (CURR_BLK_IDX) != GET_BLOCKS_RES.end ()) and
+                               GET_BLOCKS_RES.at (CURR_BLK_IDX).first;
 
-                memcpy (buf + BUF_ITERATOR,
-                        read_buffer + blk_readable_from,
-                        (read_to - blk_readable_from) + 1);
+            if (got_cached_block) {
 
-                BUF_ITERATOR += (read_to - blk_readable_from) + 1;
-                BYTES_LEFT -= (read_to - blk_readable_from) + 1;
+                if (last_pread_chunk_size > 0)
+                    read_pending_chunk ();
 
-                if (read_to < (IO_BLOCK_SIZE - 1) && CURR_BLK_IDX < blk_high) {
+                if (res < 0 || BYTES_LEFT <= 0) {
 
-                    memset (buf + BUF_ITERATOR + read_to, 0, IO_BLOCK_SIZE - read_to);
+                    break;
                 }
 
-                data_allocated += (read_to - blk_readable_from) + 1;
+                // bytes that were never written in this block are zero
 
-            } else {
+                memcpy (buf + BUF_ITERATOR,
+                        read_buffer + blk_readable_from,
+                        (blk_readable_to - blk_readable_from) + 1);
 
-                // todo: there could be a race condition between checking if the block is cached
-                // todo: and retrieving its data, so either lock the operation or go to the else
-                // todo: case
+                BUF_ITERATOR += (blk_readable_to - blk_readable_from) + 1;
+                BYTES_LEFT -= (blk_readable_to - blk_readable_from) + 1;
 
-                // goto try_pread;
+                data_allocated += (blk_readable_to - blk_readable_from) + 1;
             }
+        }
 
-        } else {
-
-            // todo:
-            // try_pread:
+        if (not got_cached_block) {
 
             /*
                 > Block is not cached, cache it first: If it fails, call pread if
@@ -1537,34 +1542,33 @@ int LazyFS::lfs_read (const char* path,
 
                 // ----------------------------------------------------------------------------------
 
-                if (needs_pread)
+                if (needs_pread) {
+
+                    if (last_pread_chunk_size == 0)
+                        last_pread_chunk_offset =
+                            CURR_BLK_IDX * IO_BLOCK_SIZE + blk_readable_from;
+
                     last_pread_chunk_size += blk_readable_to - blk_readable_from + 1;
+                }
 
             } else {
 
                 // Read failed for this file,
                 // We assume that the file is not reachable
 
-                res = -1;
+                res = -EBADF;
                 break;
             }
         }
     }
 
-    if (last_pread_chunk_size > 0) {
-        int pread_res =
-            pread (fd_caching, buf + BUF_ITERATOR, last_pread_chunk_size, last_pread_chunk_offset);
-
-        BUF_ITERATOR += pread_res;
-        BYTES_LEFT -= pread_res;
-    }
+    if (res >= 0 && last_pread_chunk_size > 0)
+        read_pending_chunk ();
 
     // ---------------------------------------------------------
 
-    res = BUF_ITERATOR;
-
-    if (res == -1)
-        res = -errno;
+    if (res >= 0)
+        res = BUF_ITERATOR;
 
     if (fi == NULL)
         close (fd);
-- 
2.43.0


From b4034bc2341f2b973ac371b3b0ae5d0b197b0fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:25 +0000
Subject: [PATCH 10/69] fix: descriptors opened with O_TRUNC or O_APPEND read
 and write at the requested offsets

---
 lazyfs/src/lazyfs.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 6fa8f19..523b21e 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -818,9 +818,10 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
 
     int res;
 
-    int access_tmp = fi->flags;
-    if (fi->flags & O_TRUNC)
-        access_tmp = O_WRONLY;
+    // truncation is applied to the cache (below) and offsets of appended data come with
+    // each write, so these flags must not reach the underlying descriptor
+
+    int access_tmp = fi->flags & ~(O_TRUNC | O_APPEND);
 
     res = open (path, access_tmp);
 
@@ -869,7 +870,8 @@ int LazyFS::lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi
 
     int res;
 
-    res = open (path, fi->flags, mode);
+    // offsets of appended data come with each write
+    res = open (path, fi->flags & ~O_APPEND, mode);
 
     if (res == -1)
         return -errno;
-- 
2.43.0


From dd030eb117f7f6339ad77bc598826bb971596af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:40 +0000
Subject: [PATCH 11/69] fix: configured clear faults happen at the given
 occurrence and timing

---
 lazyfs/src/lazyfs.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 523b21e..909b2dd 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -188,7 +188,7 @@ void LazyFS::trigger_configured_clear_fault (string opname,
                     
                     int current_count = clear_fault->counter.load();
                     if (optiming == "before") {
-                        current_count = clear_fault->counter.fetch_add(1);
+                        current_count = clear_fault->counter.fetch_add(1) + 1;
                     }
             
                     if (clear_fault->timing == optiming) {
@@ -2175,7 +2175,7 @@ int LazyFS::lfs_unlink (const char* path) {
         return -errno;
 
     this_ ()->trigger_crash_fault ("unlink", "after", path, "", CLEAR);
-    this_ ()->trigger_configured_clear_fault ("unlink", "before", path, "");
+    this_ ()->trigger_configured_clear_fault ("unlink", "after", path, "");
 
     return 0;
 }
-- 
2.43.0


From b6b7ecca4fa61eccba180957c7a9349af06d4b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:40 +0000
Subject: [PATCH 12/69] fix: clearing the cache after an operation does not
 deadlock with that operation

---
 lazyfs/src/lazyfs.cpp | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 909b2dd..fab2a8e 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -852,8 +852,19 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
         spdlog::info ("[lazyfs.ops]: {}(path={},mode={})", __FUNCTION__, path, access_mode_str);
     }
 
-    if (fi->flags & O_TRUNC)
-        lfs_truncate (path, 0, fi);
+    // faults triggered after an operation may clear the cache, which waits for all the
+    // operations in progress (including this one)
+    lock.unlock ();
+
+    if (fi->flags & O_TRUNC) {
+
+        int truncate_res = lfs_truncate (path, 0, fi);
+
+        if (truncate_res < 0) {
+            close (fi->fh);
+            return truncate_res;
+        }
+    }
 
     this_ ()->trigger_crash_fault ("open", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("open", "after", path, "");
@@ -931,6 +942,8 @@ int LazyFS::lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi
         this_ ()->FSCache->unlockItem (inode);
     }
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("create", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("create", "after", path, "");
 
@@ -966,6 +979,8 @@ int LazyFS::lfs_write (const char* path,
         fault_type = TORN_SEQ; 
     }
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
     this_ ()->trigger_configured_clear_fault ("write", "after", path, "");
 
@@ -1575,6 +1590,8 @@ int LazyFS::lfs_read (const char* path,
     if (fi == NULL)
         close (fd);
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("read", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("read", "after", path, "");
 
@@ -1614,6 +1631,8 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
                               : fsync (fi->fh);
 
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("fsync", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("fsync", "after", path, "");
     
@@ -1746,6 +1765,8 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("rename", "after", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("rename", "after", from, to);
 
@@ -1867,6 +1888,8 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
         }
     }
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("truncate", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("truncate", "after", path, "");
 
@@ -1890,6 +1913,8 @@ int LazyFS::lfs_symlink (const char* from, const char* to) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("symlink", "after", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("symlink", "after", from, to);
     return 0;
@@ -1912,6 +1937,8 @@ int LazyFS::lfs_access (const char* path, int mask) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("access", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("access", "after", path, "");
 
@@ -1957,6 +1984,8 @@ int LazyFS::lfs_link (const char* from, const char* to) {
     if (!inode.empty ())
         this_ ()->FSCache->insert_inode_mapping (to, inode, true);
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("link", "after", from, to, CLEAR);
     this_ ()->trigger_configured_clear_fault ("link", "after", from, to);
 
@@ -2174,6 +2203,8 @@ int LazyFS::lfs_unlink (const char* path) {
     if (res == -1)
         return -errno;
 
+    lock.unlock ();
+
     this_ ()->trigger_crash_fault ("unlink", "after", path, "", CLEAR);
     this_ ()->trigger_configured_clear_fault ("unlink", "after", path, "");
 
-- 
2.43.0


From 822928e4988b5875a0c7542422b6b5696016965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:09 +0000
Subject: [PATCH 13/69] fix: crash faults on rename, link and symlink match
 both the source and the target

---
 lazyfs/src/lazyfs.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index fab2a8e..d7ffd89 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -139,8 +139,7 @@ void LazyFS::trigger_crash_fault (string opname,
                 string to = it.second;
                 std::regex to_rgx (".*" + to + ".*");
 
-                if (std::regex_match ("none", from_rgx))
-                    regex_match = std::regex_match (from_op_path, from_rgx);
+                regex_match = std::regex_match (from_op_path, from_rgx);
                 if (to != "none")
                     regex_match = regex_match && std::regex_match (to_op_path, to_rgx);
 
@@ -223,16 +222,17 @@ void LazyFS::add_crash_fault (string crash_timing,
                               string crash_regex_from,
                               string crash_regex_to) {
 
+    // a path that was not specified matches everything
+    std::regex from_rgx (crash_regex_from == "none" ? ".*" : ".*" + crash_regex_from + ".*");
+
     if (crash_timing == "before") {
 
         auto& crash_regex_list = crash_faults_before_map.at (crash_operation);
-        std::regex from_rgx (".*" + crash_regex_from + ".*");
         crash_regex_list.push_back ({from_rgx, crash_regex_to});
 
     } else {
 
         auto& crash_regex_list = crash_faults_after_map.at (crash_operation);
-        std::regex from_rgx (".*" + crash_regex_from + ".*");
         crash_regex_list.push_back ({from_rgx, crash_regex_to});
     }
 }
-- 
2.43.0


From a6cd7ea9051dd471d5619b3f758c4bbe68675824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:09 +0000
Subject: [PATCH 14/69] fix: torn write faults crash LazyFS whatever characters
 the file name has

---
 lazyfs/include/lazyfs/lazyfs.hpp |  8 +++++++
 lazyfs/src/lazyfs.cpp            | 38 +++++++++++++++++---------------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index a5112bc..c40e042 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -427,6 +427,14 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      */
     void trigger_crash_fault (string opname, string optiming, string from_op_path, string to_op_path, string fault_type);
 
+    /**
+     * @brief Kills LazyFS after reporting its unsynced data
+     *
+     * @param opname operation where the fault is injected
+     * @param optiming one of 'before' or 'after' the operation
+     */
+    void crash (string opname, string optiming);
+
     /**
      * @brief Triggers a clear fault if condition is verified.
      *
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index d7ffd89..e7a2411 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -150,22 +150,27 @@ void LazyFS::trigger_crash_fault (string opname,
 
             if (regex_match) {
 
-                spdlog::critical ("Triggered fault condition (op={},timing={})", opname, optiming);
-
-                this->injecting_fault_lock.lock();
-                this_ ()->command_unsynced_data_report (this->injecting_fault);
-                this->injecting_fault_lock.unlock();
-                
-                pid_t lazyfs_pid = getpid ();
-
-                spdlog::critical ("Killing LazyFS pid {}!", lazyfs_pid);
-
-                kill (lazyfs_pid, SIGKILL);
+                this->crash (opname, optiming);
             }
         }
     }
 }
 
+void LazyFS::crash (string opname, string optiming) {
+
+    spdlog::critical ("Triggered fault condition (op={},timing={})", opname, optiming);
+
+    this->injecting_fault_lock.lock();
+    this_ ()->command_unsynced_data_report (this->injecting_fault);
+    this->injecting_fault_lock.unlock();
+
+    pid_t lazyfs_pid = getpid ();
+
+    spdlog::critical ("Killing LazyFS pid {}!", lazyfs_pid);
+
+    kill (lazyfs_pid, SIGKILL);
+}
+
 void LazyFS::trigger_configured_clear_fault (string opname,
                                   string optiming,
                                   string from_path,
@@ -521,10 +526,8 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
 
                 if (pw==this->pending_write->size) {
                     if ((fault->persist).size()==1) {
-                        this_ ()->add_crash_fault ("after", "write", path_str, "none");            
-                        spdlog::critical ("[lazyfs.faults]: Added crash fault ");
                         (this->write_lock).unlock();
-                        return res;
+                        return true;
                     }
                 } else {
                     spdlog::warn ("[lazyfs.faults]: Something went wrong when trying to persist the 1st write for path {} (pwrite failed).", path);
@@ -552,8 +555,6 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
                     if (pw == size) {
                         int max = fault->persist.back();
                         if (max == fault->counter) {
-                            this_ ()->add_crash_fault ("after", "write", path_str, "none"); 
-                            spdlog::critical ("[lazyfs.faults]: Added crash fault ");
                             res= true;
                         }
                     } else {
@@ -648,8 +649,6 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                         } 
                     }
 
-                    this_ ()->add_crash_fault ("after", "write", path_s, "none");            
-                    spdlog::critical ("[lazyfs.faults]: Added crash fault ");  
                     res = true;        
                 }
                 break; //At the moment only one fault per file is accepted.
@@ -979,6 +978,9 @@ int LazyFS::lfs_write (const char* path,
         fault_type = TORN_SEQ; 
     }
 
+    if (crash_added)
+        this_ ()->crash ("write", "after");
+
     lock.unlock ();
 
     this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
-- 
2.43.0


From f6706fef4d4f64f3381b4186ce241973113d574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:53 +0000
Subject: [PATCH 15/69] fix: torn-seq faults of different files do not take
 each other's first write

---
 lazyfs/include/lazyfs/lazyfs.hpp |  6 +++---
 lazyfs/src/lazyfs.cpp            | 22 ++++++++++++----------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index c40e042..253ef09 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -113,12 +113,12 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
     std::unordered_map<string, unordered_set<string>> crash_faults;
 
     /**
-     * @brief Write that was put on hold and may or may not be persisted.
+     * @brief Write of each file that was put on hold and may or may not be persisted.
      */
-    Write *pending_write;
+    std::unordered_map<string, Write*> pending_writes;
 
     /**
-     * @brief Lock for pending write.
+     * @brief Lock for pending writes.
     */
     std::mutex write_lock;
 
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index e7a2411..85acc21 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -79,7 +79,6 @@ LazyFS::LazyFS (Cache* cache,
     this->faults_handler_thread = faults_handler_thread;
     this->fht_worker            = fht_worker;
     this->faults                = faults;
-    this->pending_write         = NULL;
 
     for (auto const& it : this->allow_crash_fs_operations) {
         this->crash_faults_before_map.insert ({it, {}});
@@ -470,9 +469,10 @@ void LazyFS::restart_counter(string path, string op) {
 bool LazyFS::check_and_delete_pendingwrite(const char* path) {
     bool res = false;
     (this->write_lock).lock();
-    if (this->pending_write && (res = (strcmp(this->pending_write->path,path) == 0))) {
-        delete(this->pending_write); 
-        this->pending_write = NULL;
+    auto pending = this->pending_writes.find(path);
+    if ((res = pending != this->pending_writes.end())) {
+        delete(pending->second);
+        this->pending_writes.erase(pending);
     }
     (this->write_lock).unlock();
 
@@ -516,15 +516,17 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
             fault->group_counter.fetch_add(1);
         }
 
-        if (this->pending_write!=NULL) {
+        auto pending = this->pending_writes.find(path_str);
+        if (pending != this->pending_writes.end()) {
+            Write* pending_write = pending->second;
             //Update group counter
             if (fault->group_counter.load() == fault->occurrence) {
-                fd = open (this->pending_write->path, O_CREAT|O_WRONLY, 0666);
-                pw = pwrite(fd,this->pending_write->buf,this->pending_write->size,this->pending_write->offset);
+                fd = open (pending_write->path, O_CREAT|O_WRONLY, 0666);
+                pw = pwrite(fd,pending_write->buf,pending_write->size,pending_write->offset);
                 spdlog::warn ("[lazyfs.faults]: Going to persist the write 1 for the path {}",path_str);
                 close(fd);
 
-                if (pw==this->pending_write->size) {
+                if (pw==pending_write->size) {
                     if ((fault->persist).size()==1) {
                         (this->write_lock).unlock();
                         return true;
@@ -533,14 +535,14 @@ bool LazyFS::persist_write(const char* path, const char* buf, size_t size, off_t
                     spdlog::warn ("[lazyfs.faults]: Something went wrong when trying to persist the 1st write for path {} (pwrite failed).", path);
                 }
             }
-            delete(this->pending_write); this->pending_write = NULL;
+            delete(pending_write); this->pending_writes.erase(pending);
         }
         (this->write_lock).unlock();
         
         if (find((fault->persist).begin(), (fault->persist).end(), fault->counter.load()) != (fault->persist).end()) {  //If count is in vector persist
             if (fault->counter==1) { //If array persist has 1st write, we need to store this write until we know another write will happen
                 (this->write_lock).lock();
-                this->pending_write = new Write(path,buf,size,offset);
+                this->pending_writes[path_str] = new Write(path,buf,size,offset);
                 (this->write_lock).unlock();
                 
             } else {
-- 
2.43.0


From 1d853e9268adae92fda8f754c45b65da98b6f018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:53 +0000
Subject: [PATCH 16/69] fix: torn-op persists exactly the chosen parts of the
 write

---
 lazyfs/src/lazyfs.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 85acc21..bd8b6eb 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -590,16 +590,16 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
 
                 if (split_fault->counter.load() == split_fault->occurrence) {
                     fd = open(path, O_CREAT|O_WRONLY, 0666);
-                    vector<tuple<int,int,int>> persist_info; 
+                    vector<tuple<size_t,size_t,off_t>> persist_info; 
                     persist_info.reserve((split_fault->persist).size());
 
                     size_t size_to_persist;
                     off_t off_to_persist;
-                    int buf_i;
+                    size_t buf_i;
 
                     if (split_fault->parts == -1) {
                         for (auto & p : split_fault->persist) { //not equal parts
-                            int sum = 0;
+                            size_t sum = 0;
                             int sum_until_persist = 0;
                             buf_i = 0;
                         
@@ -611,13 +611,14 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
 
                             if (sum!=size) {
                                 spdlog::warn ("[lazyfs.faults]: Could not inject fault of split write for file {} because sum of parts is different than the size of write!",path_s);
+                                close(fd);
                                 return res;
                             } else {
                                 size_to_persist = split_fault->parts_bytes[p - 1];
                                 off_to_persist = offset + buf_i;
                             }
 
-                            tuple <int,int,int> info_part (buf_i,size_to_persist,off_to_persist);
+                            tuple <size_t,size_t,off_t> info_part (buf_i,size_to_persist,off_to_persist);
                             persist_info.push_back(info_part);
                         }
                         
@@ -632,25 +633,27 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
                             size_t final_size_to_persist = size_to_persist;
 
                             off_to_persist = offset + (p - 1) * size_to_persist;
-                            if (extra_size_to_persist>0 && p_i == split_fault->persist.size()-1) {
+                            if (extra_size_to_persist>0 && p == split_fault->parts) {
                                 spdlog::info("[lazyfs.warning]: The value of 'parts' specified for the split write fault does not evenly divide the size of the write to split. We recommend changing this value, since to the last part will be added the extra bytes.");
                                 final_size_to_persist += extra_size_to_persist;
                             }
                             
-                            tuple <int,int,int> info_part (buf_i,final_size_to_persist,off_to_persist);
+                            tuple <size_t,size_t,off_t> info_part (buf_i,final_size_to_persist,off_to_persist);
                             persist_info.push_back(info_part);
                          }
                     }
 
                     for (auto & persist : persist_info) {
-                        int pw = pwrite(fd,buf+get<0>(persist),get<1>(persist),get<2>(persist));
-                        if (pw==get<1>(persist)) spdlog::warn ("[lazyfs.faults]: Write to path {}: will persist {} bytes from offset {}",path,get<1>(persist),get<2>(persist));      
+                        ssize_t pw = pwrite(fd,buf+get<0>(persist),get<1>(persist),get<2>(persist));
+                        if (pw==(ssize_t)get<1>(persist)) spdlog::warn ("[lazyfs.faults]: Write to path {}: will persist {} bytes from offset {}",path,get<1>(persist),get<2>(persist));      
                         else {
                             spdlog::warn("[lazyfs.faults]: There was a problem spliting the {} write for the file {} (pwrite failed).",split_fault->occurrence,path);
+                            close(fd);
                             return res;
                         } 
                     }
 
+                    close(fd);
                     res = true;        
                 }
                 break; //At the moment only one fault per file is accepted.
-- 
2.43.0


From 415d312d9c39c472e448f2d6d6bcd7d90e0aeb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:12 +0000
Subject: [PATCH 17/69] fix: invalid torn-seq faults of the configuration file
 are rejected

---
 libs/libpcache/src/config/config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/libpcache/src/config/config.cpp b/libs/libpcache/src/config/config.cpp
index 6466e59..b3a5eea 100644
--- a/libs/libpcache/src/config/config.cpp
+++ b/libs/libpcache/src/config/config.cpp
@@ -202,7 +202,7 @@ unordered_map<string,vector<faults::Fault*>> Config::load_config (string filenam
                 vector<string> errors;
                 if (valid_fault) {
                     fault = new faults::ReorderF(op,persist,occurrence);
-                    vector<string> errors = fault->validate();
+                    errors = fault->validate();
                 }
 
                 if (!valid_fault || errors.size() > 0) {
-- 
2.43.0


From 755a916aa97a7e27564dd60395c50719ca4acef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:13 +0000
Subject: [PATCH 18/69] fix: a cache size without a known unit does not use an
 uninitialised one

---
 libs/libpcache/src/config/config.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libs/libpcache/src/config/config.cpp b/libs/libpcache/src/config/config.cpp
index b3a5eea..aad83ed 100644
--- a/libs/libpcache/src/config/config.cpp
+++ b/libs/libpcache/src/config/config.cpp
@@ -98,16 +98,18 @@ unordered_map<string,vector<faults::Fault*>> Config::load_config (string filenam
                 size_type += curr_char;
         }
 
-        size_t size_bytes;
+        size_t size_bytes = 1;
 
         std::for_each (size_type.begin (), size_type.end (), [] (char& c) { c = ::tolower (c); });
 
         if (size_type == "gb" || size_type == "g")
             size_bytes = One_Gigabyte;
-        if (size_type == "mb" || size_type == "m")
+        else if (size_type == "mb" || size_type == "m")
             size_bytes = One_Megabyte;
-        if (size_type == "kb" || size_type == "k")
+        else if (size_type == "kb" || size_type == "k")
             size_bytes = One_Kilobyte;
+        else if (size_type != "b" && size_type != "")
+            throw std::runtime_error ("Unknown unit in the cache 'custom_size': " + cache_size_str);
 
         size_t total = size_bytes * atof (size_tmp.c_str ());
 
-- 
2.43.0


From 4fc6365a308cddb68cf1e392c2d07796517230f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:13 +0000
Subject: [PATCH 19/69] fix: protect the cache maps from concurrent operations

---
 libs/libpcache/include/cache/cache.hpp        | 22 +++++
 libs/libpcache/src/cache.cpp                  | 97 +++++++++++--------
 .../engine/backends/custom/custom_cache.cpp   |  2 +
 3 files changed, 81 insertions(+), 40 deletions(-)

diff --git a/libs/libpcache/include/cache/cache.hpp b/libs/libpcache/include/cache/cache.hpp
index 68dce2d..afdc4ae 100644
--- a/libs/libpcache/include/cache/cache.hpp
+++ b/libs/libpcache/include/cache/cache.hpp
@@ -42,6 +42,13 @@ class Cache {
      */
     std::shared_mutex lock_cache_mtx;
 
+    /**
+     * @brief Protects the cache maps (file_inode_mapping, contents and item_locks), as they are
+     * also accessed by who holds an item lock only. No other lock is acquired while holding it.
+     *
+     */
+    std::mutex maps_mtx;
+
   private:
     /**
      * @brief Maps filenames to the corresponding inodes.
@@ -89,6 +96,21 @@ class Cache {
      */
     pair<int, int> _get_readable_offsets (string cid, Item* item, int blk);
 
+    /**
+     * @brief Gets the lock of an item
+     *
+     * @param cid content id
+     * @return std::shared_mutex* the item lock
+     */
+    std::shared_mutex* _get_item_lock (string cid);
+
+    /**
+     * @brief Forgets the lock of an item that no longer exists
+     *
+     * @param cid content id
+     */
+    void _erase_item_lock (string cid);
+
   public:
     /**
      * @brief Construct a new Cache object
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 16371af..0b65bd8 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -71,7 +71,7 @@ void Cache::print_cache () {
 void Cache::print_engine () { this->engine->print_page_cache_engine (); }
 
 string Cache::get_original_inode (string path) {
-    lock_guard<std::shared_mutex> lock (lock_cache_mtx);
+    lock_guard<std::mutex> lock (maps_mtx);
     if (this->file_inode_mapping.find (path) != this->file_inode_mapping.end ()) {
         return this->file_inode_mapping.at (path);
     }
@@ -81,31 +81,33 @@ string Cache::get_original_inode (string path) {
 void Cache::insert_inode_mapping (string path, string inode, bool increase) {
 
     lock_guard<std::shared_mutex> lock (lock_cache_mtx);
-    this->file_inode_mapping[path] = inode;
 
-    if (increase) {
-        Metadata* oldmeta = get_content_metadata (inode);
+    {
+        lock_guard<std::mutex> maps_lock (maps_mtx);
+        this->file_inode_mapping[path] = inode;
+    }
+
+    if (increase && has_content_cached (inode)) {
+        lockItem (inode);
         Metadata newmeta;
-        if (oldmeta != nullptr) {
-            newmeta.nlinks = oldmeta->nlinks + 1;
-            this->update_content_metadata (inode, newmeta, {"nlinks"});
-        }
+        newmeta.nlinks = get_content_metadata (inode)->nlinks + 1;
+        this->update_content_metadata (inode, newmeta, {"nlinks"});
+        unlockItem (inode);
     }
 }
 
 bool Cache::has_content_cached (string cid) {
 
-    if (not this->contents.empty ())
-        return this->contents.find (cid) != this->contents.end ();
-    return false;
+    lock_guard<std::mutex> lock (maps_mtx);
+    return this->contents.find (cid) != this->contents.end ();
 }
 
 Item* Cache::_get_content_ptr (string cid) {
 
-    if (has_content_cached (cid))
-        return this->contents.at (cid);
+    lock_guard<std::mutex> lock (maps_mtx);
+    auto it = this->contents.find (cid);
 
-    return nullptr;
+    return it != this->contents.end () ? it->second : nullptr;
 }
 
 bool Cache::is_block_cached (string cid, int blk_id) {
@@ -116,8 +118,10 @@ bool Cache::is_block_cached (string cid, int blk_id) {
 
     if (has_content_cached (cid)) {
 
-        int page  = this->contents.at (cid)->get_data ()->get_page_id (blk_id);
+        lockItem (cid);
+        int page  = _get_content_ptr (cid)->get_data ()->get_page_id (blk_id);
         is_cached = this->engine->is_block_cached (cid, page, blk_id);
+        unlockItem (cid);
     }
 
     return is_cached;
@@ -152,15 +156,28 @@ Item* Cache::_create_item (string cid) {
 
     Item* cid_item = new Item ();
 
+    lock_guard<std::mutex> lock (maps_mtx);
     this->item_locks.insert (make_pair (cid, new std::shared_mutex ()));
     this->contents.insert (make_pair (cid, cid_item));
 
     return cid_item;
 }
 
-void Cache::lockItem (string cid) { item_locks[cid]->lock (); }
+std::shared_mutex* Cache::_get_item_lock (string cid) {
+
+    lock_guard<std::mutex> lock (maps_mtx);
+    return this->item_locks.at (cid);
+}
+
+void Cache::_erase_item_lock (string cid) {
+
+    lock_guard<std::mutex> lock (maps_mtx);
+    this->item_locks.erase (cid);
+}
+
+void Cache::lockItem (string cid) { _get_item_lock (cid)->lock (); }
 
-void Cache::unlockItem (string cid) { item_locks[cid]->unlock (); }
+void Cache::unlockItem (string cid) { _get_item_lock (cid)->unlock (); }
 
 pair<int, int> Cache::_get_readable_offsets (string cid, Item* item, int blk_id) {
 
@@ -300,9 +317,12 @@ bool Cache::_delete_item (string cid) {
 
     Item* item = _get_content_ptr (cid);
     if (item != nullptr) {
-        delete item;
+        {
+            lock_guard<std::mutex> lock (maps_mtx);
+            this->contents.erase (cid);
+        }
 
-        this->contents.erase (cid);
+        delete item;
     }
 
     return true;
@@ -406,17 +426,17 @@ bool Cache::rename_item (string old_cid, string new_cid) {
 
     std::lock_guard<shared_mutex> lock (lock_cache_mtx);
 
-    if (this->file_inode_mapping.find (old_cid) != this->file_inode_mapping.end ()) {
-        string inode = this->file_inode_mapping.at (old_cid);
+    string inode = get_original_inode (old_cid);
 
-        string to_remove_inode = "";
+    if (not inode.empty ()) {
 
-        if (this->file_inode_mapping.find (new_cid) != this->file_inode_mapping.end ()) {
-            to_remove_inode = this->file_inode_mapping.at (new_cid);
-        }
+        string to_remove_inode = get_original_inode (new_cid);
 
-        this->file_inode_mapping.erase (old_cid);
-        this->file_inode_mapping[new_cid] = inode;
+        {
+            lock_guard<std::mutex> maps_lock (maps_mtx);
+            this->file_inode_mapping.erase (old_cid);
+            this->file_inode_mapping[new_cid] = inode;
+        }
 
         if (has_content_cached (to_remove_inode)) {
 
@@ -443,10 +463,7 @@ bool Cache::rename_item (string old_cid, string new_cid) {
 
                 unlockItem (to_remove_inode);
 
-                if (!this->item_locks.empty () &&
-                    (this->item_locks.find (to_remove_inode) != this->item_locks.end ())) {
-                    this->item_locks.erase (to_remove_inode);
-                }
+                _erase_item_lock (to_remove_inode);
             }
         }
     }
@@ -467,7 +484,10 @@ bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cac
 
     lockItem (owner);
 
-    this->file_inode_mapping.erase (string (path));
+    {
+        lock_guard<std::mutex> maps_lock (maps_mtx);
+        this->file_inode_mapping.erase (string (path));
+    }
 
     Item* item = _get_content_ptr (owner);
 
@@ -489,9 +509,7 @@ bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cac
 
     unlockItem (owner);
 
-    if (!this->item_locks.empty () && (this->item_locks.find (owner) != this->item_locks.end ())) {
-        this->item_locks.erase (owner);
-    }
+    _erase_item_lock (owner);
 
     lock.unlock ();
 
@@ -533,10 +551,7 @@ void Cache::clear_all_cache () {
 
             unlockItem (it);
 
-            if (!this->item_locks.empty () &&
-                (this->item_locks.find (it) != this->item_locks.end ())) {
-                this->item_locks.erase (it);
-            }
+            _erase_item_lock (it);
         }
 
         lock.unlock ();
@@ -574,10 +589,12 @@ Cache::report_unsynced_data () {
     std::vector<tuple<string, size_t, vector<tuple<int, pair<int, int>, int>>>> unsynced_data;
 
     for (auto const& it : this->contents) {
+        lockItem (it.first);
         if (not it.second->is_synced ()) {
             unsynced_data.push_back (
                 std::make_tuple (it.first, 0, this->engine->get_dirty_blocks_info (it.first)));
         }
+        unlockItem (it.first);
     }
 
     return unsynced_data;
@@ -585,7 +602,7 @@ Cache::report_unsynced_data () {
 
 vector<string> Cache::find_files_mapped_to_inode (string inode) {
 
-    std::lock_guard<shared_mutex> lock (lock_cache_mtx);
+    std::lock_guard<std::mutex> lock (maps_mtx);
 
     vector<string> res;
 
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index d371baf..0d271ea 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -231,6 +231,8 @@ void CustomCacheEngine::_apply_lru_after_page_visitation_on_READ (int visited_pa
 
 bool CustomCacheEngine::is_block_cached (string content_owner_id, int page_id, int block_id) {
 
+    std::shared_lock<std::shared_mutex> lock (lock_cache_mtx);
+
     Page* p = _get_page_ptr (page_id);
 
     if (p == nullptr)
-- 
2.43.0


From fc82c49598b5549728def030b9e75711275a5ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:13 +0000
Subject: [PATCH 20/69] fix: evicted pages are written back to their file

---
 .../include/cache/engine/page/page.hpp        |  2 +-
 .../include/cache/engine/page_cache.hpp       | 18 ++++++++++++++++++
 libs/libpcache/src/cache.cpp                  |  5 +++++
 .../engine/backends/custom/custom_cache.cpp   | 19 +++++++++++++++----
 libs/libpcache/src/engine/page/page.cpp       | 13 +++++++------
 5 files changed, 46 insertions(+), 11 deletions(-)

diff --git a/libs/libpcache/include/cache/engine/page/page.hpp b/libs/libpcache/include/cache/engine/page/page.hpp
index b087606..93113dc 100644
--- a/libs/libpcache/include/cache/engine/page/page.hpp
+++ b/libs/libpcache/include/cache/engine/page/page.hpp
@@ -179,7 +179,7 @@ class Page {
      * @return true page was synced.
      * @return false error ocurred
      */
-    bool sync_data ();
+    bool sync_data (string path);
 
     /**
      * @brief Checks if a page has the diry flag on.
diff --git a/libs/libpcache/include/cache/engine/page_cache.hpp b/libs/libpcache/include/cache/engine/page_cache.hpp
index c9a1bdf..33e5011 100644
--- a/libs/libpcache/include/cache/engine/page_cache.hpp
+++ b/libs/libpcache/include/cache/engine/page_cache.hpp
@@ -10,6 +10,7 @@
 #ifndef CACHE_ENGINE_HPP
 #define CACHE_ENGINE_HPP
 
+#include <functional>
 #include <map>
 #include <string>
 #include <sys/types.h>
@@ -42,6 +43,13 @@ enum AllocateOperationType {
  */
 class PageCacheEngine {
 
+  protected:
+    /**
+     * @brief Gives the path of some file associated with a content owner
+     *
+     */
+    std::function<string (string)> owner_path_resolver;
+
   public:
     /**
      * @brief Construct a new Page Cache Engine object
@@ -55,6 +63,16 @@ class PageCacheEngine {
      */
     virtual ~PageCacheEngine () {};
 
+    /**
+     * @brief Sets how the engine finds the file of a content owner, needed to write back the
+     * pages it evicts.
+     *
+     * @param resolver function that maps owners to paths, empty if the owner has none
+     */
+    void set_owner_path_resolver (std::function<string (string)> resolver) {
+        this->owner_path_resolver = resolver;
+    }
+
     /**
      * @brief The allocation method that tries to allocate the specified blocks in the cache if
      * space is available.
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 0b65bd8..45baeb2 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -35,6 +35,11 @@ Cache::Cache (cache::config::Config* cache_config, PageCacheEngine* choosenEngin
     this->cache_config = cache_config;
     this->contents.reserve (1000);
     this->file_inode_mapping.reserve (1000);
+
+    this->engine->set_owner_path_resolver ([this] (string inode) {
+        auto files = this->find_files_mapped_to_inode (inode);
+        return files.empty () ? string () : files.front ();
+    });
 }
 
 Cache::~Cache () {
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 0d271ea..320530d 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -160,6 +160,15 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
 
         string old_owner = page_to_reset->get_page_owner ();
 
+        if (page_to_reset->is_page_dirty ()) {
+
+            string path = this->owner_path_resolver ? this->owner_path_resolver (old_owner) : "";
+
+            // data that can not be written back must stay in the cache
+            if (not page_to_reset->sync_data (path))
+                return make_pair (-1, nullptr);
+        }
+
         auto blocks = page_to_reset->allocated_block_ids.get_block_readable_offsets ();
 
         if (this->owner_ordered_pages_mapping.find (old_owner) !=
@@ -171,11 +180,12 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
 
         if (this->owner_pages_mapping.find (old_owner) != this->owner_pages_mapping.end ()) {
             this->owner_pages_mapping.at (old_owner).erase (replace_page_id);
-            // todo: if in free pages remove from there
-        }
 
-        if (page_to_reset->is_page_dirty ())
-            page_to_reset->sync_data ();
+            auto& owner_free_pages = this->owner_free_pages_mapping.at (old_owner);
+            owner_free_pages.erase (
+                std::remove (owner_free_pages.begin (), owner_free_pages.end (), replace_page_id),
+                owner_free_pages.end ());
+        }
 
         // cout << "[engine] _get_next_free_page: Resetting page '" <<
         // replace_page_id << "'...\n";
@@ -183,6 +193,7 @@ pair<int, Page*> CustomCacheEngine::_get_next_free_page (string owner_id) {
         // this->owner_ordered_pages_mapping.at (owner);
 
         page_to_reset->reset ();
+        page_to_reset->change_owner ("none");
 
         return make_pair (replace_page_id, page_to_reset);
     }
diff --git a/libs/libpcache/src/engine/page/page.cpp b/libs/libpcache/src/engine/page/page.cpp
index 5487f58..82b7b37 100644
--- a/libs/libpcache/src/engine/page/page.cpp
+++ b/libs/libpcache/src/engine/page/page.cpp
@@ -152,20 +152,21 @@ bool Page::is_page_dirty () { return this->is_dirty; }
 
 void Page::set_page_as_dirty (bool dirty) { this->is_dirty = dirty; }
 
-bool Page::sync_data () {
+bool Page::sync_data (string path) {
 
-    char const* path;
-    path   = this->page_owner_id.c_str ();
-    int fd = open (path, O_WRONLY);
+    int fd = open (path.c_str (), O_WRONLY);
 
-    int should_write = 0, actually_wrote = 0;
+    if (fd < 0)
+        return false;
+
+    ssize_t should_write = 0, actually_wrote = 0;
 
     map<int, int> block_rdble_offs = this->allocated_block_ids.get_block_readable_offsets ();
 
     for (auto it = block_rdble_offs.begin (); it != block_rdble_offs.end (); ++it) {
         if (contains_block (it->first)) {
             pair<int, int> data_offsets = get_block_offsets (it->first);
-            int offset                  = it->first * this->config->IO_BLOCK_SIZE;
+            off_t offset                = it->first * this->config->IO_BLOCK_SIZE;
             int total_bytes             = this->config->IO_BLOCK_SIZE;
             if (it == prev (block_rdble_offs.end (), 1))
                 total_bytes = it->second + 1;
-- 
2.43.0


From 7d4eba23a50a280923a441f8274ba684daffb8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:13 +0000
Subject: [PATCH 21/69] fix: writing part of a block that is being evicted does
 not lose the rest of the block

---
 lazyfs/src/lazyfs.cpp                             |  2 +-
 .../libpcache/include/cache/engine/page_cache.hpp |  7 ++++---
 .../src/engine/backends/custom/custom_cache.cpp   | 15 +++++++++++++++
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index bd8b6eb..598fd03 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1277,7 +1277,7 @@ int LazyFS::lfs_cached_write (const char* path,
                                                            blk_readable_to - blk_readable_from + 1,
                                                            blk_readable_from,
                                                            blk_readable_to}}},
-                                                        OP_WRITE);
+                                                        OP_UPDATE);
                 bool curr_block_put_exists = put_res.find (CURR_BLK_IDX) != put_res.end ();
 
                 if (!curr_block_put_exists || put_res.at (CURR_BLK_IDX) == false) {
diff --git a/libs/libpcache/include/cache/engine/page_cache.hpp b/libs/libpcache/include/cache/engine/page_cache.hpp
index 33e5011..56c405b 100644
--- a/libs/libpcache/include/cache/engine/page_cache.hpp
+++ b/libs/libpcache/include/cache/engine/page_cache.hpp
@@ -31,9 +31,10 @@ namespace cache::engine {
  *
  */
 enum AllocateOperationType {
-    OP_READ,       /**< Specifies that the put operation comes from a read operation */
-    OP_WRITE,      /**< Specifies that the put operation comes from a write operation */
-    OP_PASSTHROUGH /**< Specifies the otherwise case (equal to OP_READ for now) */
+    OP_READ,        /**< Specifies that the put operation comes from a read operation */
+    OP_WRITE,       /**< Specifies that the put operation comes from a write operation */
+    OP_PASSTHROUGH, /**< Specifies the otherwise case (equal to OP_READ for now) */
+    OP_UPDATE       /**< Specifies a write to part of a block, that only succeeds if it is cached */
 };
 
 /**
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 320530d..bcd2a85 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -387,6 +387,11 @@ map<int, int> CustomCacheEngine::allocate_blocks (
                                                        blk_data_len,
                                                        offset_start);
 
+                page_requested_ptr->make_block_readable_to (
+                    blk_id,
+                    std::max (page_requested_ptr->allocated_block_ids.get_readable_to (blk_id),
+                              (int)(offset_start + blk_data_len - 1)));
+
                 res_block_allocated_pages.insert (pair<int, int> (blk_id, page_id));
 
                 auto& owner_ref =
@@ -399,6 +404,15 @@ map<int, int> CustomCacheEngine::allocate_blocks (
                 continue;
             }
         }
+
+        // the rest of the block is unknown if it left the cache meanwhile
+
+        if (operation_type == OP_UPDATE) {
+
+            res_block_allocated_pages.insert (pair<int, int> (blk_id, -1));
+            continue;
+        }
+
         // default behaviour if a new free page is needed
 
         pair<int, Page*> next_free_page = _get_next_free_page (content_owner_id);
@@ -411,6 +425,7 @@ map<int, int> CustomCacheEngine::allocate_blocks (
 
             auto const& offs = free_page_ptr->get_allocate_free_offset (blk_id);
             free_page_ptr->update_block_data (blk_id, (char*)blk_data, blk_data_len, offset_start);
+            free_page_ptr->make_block_readable_to (blk_id, offset_start + blk_data_len - 1);
 
             if (operation_type == OP_WRITE)
                 free_page_ptr->set_page_as_dirty (true);
-- 
2.43.0


From f722919f57de34b6a09554cc84ccee4c0778d762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:33 +0000
Subject: [PATCH 22/69] fix: fsync persists the timestamps of the file

---
 libs/libpcache/src/cache.cpp         | 9 ++++-----
 libs/libpcache/src/item/metadata.cpp | 3 +++
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 45baeb2..712ae52 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -12,10 +12,12 @@
 #include <cache/constants/constants.hpp>
 #include <cache/item/item.hpp>
 #include <chrono>
+#include <fcntl.h>
 #include <list>
 #include <map>
 #include <mutex>
 #include <spdlog/spdlog.h>
+#include <sys/stat.h>
 #include <sys/syscall.h>
 #include <sys/time.h>
 #include <sys/xattr.h>
@@ -412,12 +414,9 @@ int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
 
         Metadata* meta = _get_content_ptr (owner)->get_metadata ();
 
-        struct timeval times[2];
-        TIMESPEC_TO_TIMEVAL (&times[0], &(meta->atim));
-        TIMESPEC_TO_TIMEVAL (&times[1], &(meta->mtim));
+        struct timespec times[2] = {meta->atim, meta->mtim};
 
-        const char* path = owner.c_str ();
-        utimes (path, times);
+        utimensat (AT_FDCWD, orig_path, times, 0);
     }
 
     unlockItem (owner);
diff --git a/libs/libpcache/src/item/metadata.cpp b/libs/libpcache/src/item/metadata.cpp
index b8427e7..8671cb9 100644
--- a/libs/libpcache/src/item/metadata.cpp
+++ b/libs/libpcache/src/item/metadata.cpp
@@ -40,6 +40,9 @@ int timespec2str (char* buf, int len, struct timespec* ts) {
 Metadata::Metadata () {
     size   = 0;
     nlinks = 1;
+    atim   = {0, 0};
+    ctim   = {0, 0};
+    mtim   = {0, 0};
 }
 
 void Metadata::print_metadata () {
-- 
2.43.0


From 2fcb701f52d78f6c83b1b1353afa6d72966280ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:33 +0000
Subject: [PATCH 23/69] fix: utimens also changes the timestamps of cached
 files

---
 lazyfs/src/lazyfs.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 598fd03..b4c5dfa 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -2151,6 +2151,29 @@ int LazyFS::lfs_utimens (const char* path, const struct timespec ts[2], struct f
     if (res == -1)
         return -errno;
 
+    // the cached timestamps override these, so they must change too
+
+    string inode = this_ ()->FSCache->get_original_inode (path);
+    struct stat st;
+
+    if (lstat (path, &st) == 0 && this_ ()->FSCache->lockItemCheckExists (inode)) {
+
+        Metadata meta;
+        meta.atim = st.st_atim;
+        meta.mtim = st.st_mtim;
+        meta.ctim = st.st_ctim;
+
+        vector<string> values_to_change = {"ctime"};
+
+        if (ts == NULL || ts[0].tv_nsec != UTIME_OMIT)
+            values_to_change.push_back ("atime");
+        if (ts == NULL || ts[1].tv_nsec != UTIME_OMIT)
+            values_to_change.push_back ("mtime");
+
+        this_ ()->FSCache->update_content_metadata (inode, meta, values_to_change);
+        this_ ()->FSCache->unlockItem (inode);
+    }
+
     return 0;
 }
 // #endif
-- 
2.43.0


From 2f7efb5a392e287d9f7328426b124392819ba5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:33 +0000
Subject: [PATCH 24/69] fix: an unlink that fails keeps the cached data of the
 file

---
 lazyfs/src/lazyfs.cpp        | 16 ++++++++++------
 libs/libpcache/src/cache.cpp | 10 +++++-----
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index b4c5dfa..3465268 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -2221,17 +2221,21 @@ int LazyFS::lfs_unlink (const char* path) {
     int res;
 
     string inode = this_ ()->FSCache->get_original_inode (path);
-    if (!inode.empty ())
-        this_ ()->FSCache->remove_cached_item (inode, path, false);
 
-    res = unlink (path);
+    // a new file can not get this inode number until its cached data is removed
+    int fd_inode = open (path, O_PATH | O_NOFOLLOW);
+
+    res              = unlink (path);
+    int unlink_errno = errno;
 
-    if (res == 0 && inode.empty ()) {
+    if (res == 0 && !inode.empty ())
         this_ ()->FSCache->remove_cached_item (inode, path, false);
-    }
+
+    if (fd_inode >= 0)
+        close (fd_inode);
 
     if (res == -1)
-        return -errno;
+        return -unlink_errno;
 
     lock.unlock ();
 
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 712ae52..a23e9e5 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -480,6 +480,11 @@ bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cac
     std::unique_lock<shared_mutex> lock (lock_cache_mtx, std::defer_lock);
     lock.lock ();
 
+    {
+        lock_guard<std::mutex> maps_lock (maps_mtx);
+        this->file_inode_mapping.erase (string (path));
+    }
+
     if (not has_content_cached (owner)) {
 
         lock.unlock ();
@@ -488,11 +493,6 @@ bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cac
 
     lockItem (owner);
 
-    {
-        lock_guard<std::mutex> maps_lock (maps_mtx);
-        this->file_inode_mapping.erase (string (path));
-    }
-
     Item* item = _get_content_ptr (owner);
 
     nlink_t before_nlinks = item->get_metadata ()->nlinks;
-- 
2.43.0


From 0e1d3e61300b5a8c7b22f23d5c87fbc69783806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:06 +0000
Subject: [PATCH 25/69] fix: rename moves the cached data only if it succeeds
 and drops the data of the replaced file

---
 lazyfs/include/lazyfs/lazyfs.hpp |  19 ------
 lazyfs/src/lazyfs.cpp            | 109 +++++++++----------------------
 libs/libpcache/src/cache.cpp     |  13 ++--
 3 files changed, 39 insertions(+), 102 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 253ef09..6b94000 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -261,15 +261,6 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      */
     bool split_write(const char* path, const char* buf, size_t size, off_t offset);
 
-    /**
-     * @brief Checks whether a directory is empty of not by counting the number of entries.
-     *        It must be <= 2 to be empty, only containing "." and ".."
-     *
-     * @param dirname the path for the directory
-     * @return int 1 if is empty, 0 if not empty and -1 if an error occurred
-     */
-    static int lfs_is_dir_empty (const char* dirname);
-
     /**
      * @brief Returns a vector with the list of regular file names of all childs of a directory
      *
@@ -278,16 +269,6 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      */
     static void lfs_get_dir_filenames (const char* dirname, std::vector<string>* result);
 
-    /**
-     * @brief Calls rename recursively to all child files and directories
-     *
-     * @param from the current subpath
-     * @param to desired path
-     * @param flags fuse rename flags
-     * @return int
-     */
-    static int lfs_recursive_rename (const char* from, const char* to, unsigned int flags);
-
     static void* lfs_init (struct fuse_conn_info*, struct fuse_config* cfg);
 
     static void lfs_destroy (void*);
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 3465268..79e880c 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1646,27 +1646,6 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
     return res;
 }
 
-int LazyFS::lfs_is_dir_empty (const char* dirname) {
-
-    struct dirent* from_DIRENT;
-    DIR* from_DIR = opendir (dirname);
-
-    if (!from_DIR)
-        return -1;
-
-    int nr_files = 0;
-
-    while ((from_DIRENT = readdir (from_DIR)) != NULL) {
-
-        if (++nr_files > 2)
-            break;
-    }
-
-    closedir (from_DIR);
-
-    return (nr_files <= 2) ? 1 : 0;
-}
-
 void LazyFS::lfs_get_dir_filenames (const char* dirname, std::vector<string>* result) {
 
     struct dirent* from_DIRENT;
@@ -1684,58 +1663,14 @@ void LazyFS::lfs_get_dir_filenames (const char* dirname, std::vector<string>* re
 
             if (from_DIRENT->d_type == DT_REG)
                 result->push_back (base_path);
-
-            lfs_get_dir_filenames (base_path.c_str (), result);
+            else if (from_DIRENT->d_type == DT_DIR)
+                lfs_get_dir_filenames (base_path.c_str (), result);
         }
     }
 
     closedir (from_DIR);
 }
 
-int LazyFS::lfs_recursive_rename (const char* from, const char* to, unsigned int flags) {
-
-    std::vector<string> from_dir_filepaths;
-    lfs_get_dir_filenames (from, &from_dir_filepaths);
-
-    // Check if destination folder exists
-
-    struct stat to_stat;
-    if (!stat (to, &to_stat) && S_ISDIR (to_stat.st_mode)) {
-
-        // destination folder exists and is a directory
-        // prepend with new prepend and merge
-
-        int is_empty = lfs_is_dir_empty (to);
-
-        if (is_empty == 1) {
-
-            goto replace_prepend;
-
-        } else if (is_empty == 0) {
-
-            errno = ENOTEMPTY;
-
-            return -1;
-        }
-
-    } else {
-
-    replace_prepend:
-
-        // destination folder doesn't exist
-        // all 'from' paths should be replaced with the new prepend
-
-        for (auto const& it : from_dir_filepaths) {
-
-            this_ ()->FSCache->rename_item (it, string (to + it.substr (string (from).size ())))
-                ? 0
-                : -1;
-        }
-    }
-
-    return 0;
-}
-
 int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
 
     this_ ()->trigger_crash_fault ("rename", "before", from, to, CLEAR);
@@ -1752,25 +1687,43 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
     if (flags)
         return -EINVAL;
 
-    string last_owner (from);
-    string inode = this_ ()->FSCache->get_original_inode (last_owner);
-    string new_owner (to);
+    struct stat from_stat, to_stat;
+    bool from_exists = lstat (from, &from_stat) == 0;
+    bool to_exists   = lstat (to, &to_stat) == 0;
 
-    if (inode.empty ()) {
+    // files inside a directory are renamed too
+    std::vector<string> from_dir_filepaths;
+    if (from_exists && S_ISDIR (from_stat.st_mode))
+        lfs_get_dir_filenames (from, &from_dir_filepaths);
 
-        // from: is a dir, because getattr does not cache dirs
+    // a new file can not get the inode number of the replaced one until its cached data is removed
+    int fd_replaced = to_exists ? open (to, O_PATH | O_NOFOLLOW) : -1;
 
-        lfs_recursive_rename (from, to, flags);
-        res = rename (from, to);
+    res              = rename (from, to);
+    int rename_errno = errno;
 
-    } else {
+    // nothing changes when both are links to the same file
+    bool same_file = from_exists && to_exists && from_stat.st_dev == to_stat.st_dev &&
+                     from_stat.st_ino == to_stat.st_ino;
+
+    if (res == 0 && not same_file) {
+
+        if (S_ISDIR (from_stat.st_mode)) {
 
-        res = this_ ()->FSCache->rename_item (last_owner, new_owner) ? 0 : -1;
-        res = rename (from, to);
+            for (auto const& it : from_dir_filepaths)
+                this_ ()->FSCache->rename_item (it, string (to) + it.substr (strlen (from)));
+
+        } else {
+
+            this_ ()->FSCache->rename_item (from, to);
+        }
     }
 
+    if (fd_replaced >= 0)
+        close (fd_replaced);
+
     if (res == -1)
-        return -errno;
+        return -rename_errno;
 
     lock.unlock ();
 
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index a23e9e5..9cdec96 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -430,16 +430,19 @@ bool Cache::rename_item (string old_cid, string new_cid) {
 
     std::lock_guard<shared_mutex> lock (lock_cache_mtx);
 
-    string inode = get_original_inode (old_cid);
+    string inode           = get_original_inode (old_cid);
+    string to_remove_inode = get_original_inode (new_cid);
 
-    if (not inode.empty ()) {
-
-        string to_remove_inode = get_original_inode (new_cid);
+    if (not inode.empty () || not to_remove_inode.empty ()) {
 
         {
             lock_guard<std::mutex> maps_lock (maps_mtx);
             this->file_inode_mapping.erase (old_cid);
-            this->file_inode_mapping[new_cid] = inode;
+
+            if (not inode.empty ())
+                this->file_inode_mapping[new_cid] = inode;
+            else
+                this->file_inode_mapping.erase (new_cid);
         }
 
         if (has_content_cached (to_remove_inode)) {
-- 
2.43.0


From 7fad07d3c9afdfb2ca2ad5f3c5ff0fb22534c8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:06 +0000
Subject: [PATCH 26/69] fix: clearing the cache forgets every file, including
 all hard links

---
 libs/libpcache/src/cache.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 9cdec96..0ca5c5e 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -561,6 +561,12 @@ void Cache::clear_all_cache () {
             _erase_item_lock (it);
         }
 
+        // files without cached contents (e.g. other hard links) are forgotten as well
+        {
+            lock_guard<std::mutex> maps_lock (maps_mtx);
+            this->file_inode_mapping.clear ();
+        }
+
         lock.unlock ();
     }
 }
-- 
2.43.0


From 7ecbaaa634dc73678aadc03d4980b7749eac9d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:06 +0000
Subject: [PATCH 27/69] fix: listing a directory does not give made-up
 attributes of its files

---
 lazyfs/src/lazyfs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 79e880c..2ce5fe6 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -803,7 +803,8 @@ int LazyFS::lfs_readdir (const char* path,
         memset (&st, 0, sizeof (st));
         st.st_ino  = de->d_ino;
         st.st_mode = de->d_type << 12;
-        if (filler (buf, de->d_name, &st, 0, FUSE_FILL_DIR_PLUS))
+        // only the inode and the type are known here, the other attributes come from getattr
+        if (filler (buf, de->d_name, &st, 0, (enum fuse_fill_dir_flags)0))
             break;
     }
 
-- 
2.43.0


From f1633028afdbafcc4015cce72b66f4c104788d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:28 +0000
Subject: [PATCH 28/69] fix: the number of links is the one of the underlying
 file system

---
 lazyfs/src/lazyfs.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 2ce5fe6..758254a 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -765,7 +765,6 @@ int LazyFS::lfs_getattr (const char* path, struct stat* stbuf, struct fuse_file_
             stbuf->st_ctim.tv_sec  = meta->ctim.tv_sec;
             stbuf->st_mtim.tv_nsec = meta->mtim.tv_nsec;
             stbuf->st_mtim.tv_sec  = meta->mtim.tv_sec;
-            stbuf->st_nlink        = meta->nlinks;
         }
 
         this_ ()->FSCache->unlockItem (inode);
-- 
2.43.0


From dc34382d9838d46293bf00943ec399b9587ea6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:28 +0000
Subject: [PATCH 29/69] fix: blocks of sizes that are not a multiple of the
 sector are rounded up

---
 lazyfs/src/lazyfs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 758254a..31bc736 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -754,7 +754,8 @@ int LazyFS::lfs_getattr (const char* path, struct stat* stbuf, struct fuse_file_
             if (get_size > 0)
                 blocks_ioblksize = ((get_size - 1) / this_ ()->FSConfig->IO_BLOCK_SIZE) + 1;
 
-            blkcnt_t blocks = (blocks_ioblksize * this_ ()->FSConfig->IO_BLOCK_SIZE) /
+            blkcnt_t blocks = ((blocks_ioblksize * this_ ()->FSConfig->IO_BLOCK_SIZE) +
+                               this_ ()->FSConfig->DISK_SECTOR_SIZE - 1) /
                               this_ ()->FSConfig->DISK_SECTOR_SIZE;
 
             stbuf->st_size         = get_size;
-- 
2.43.0


From b1a5eaa99930aead392df33318129de87cd639b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:37 +0000
Subject: [PATCH 30/69] fix: commands are the lines of the fifo, whatever their
 length and however they are split by reads

---
 lazyfs/src/main.cpp | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 851f844..828f77c 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -28,6 +28,37 @@ cache::config::Config std_config;
 std::thread faults_handler_thread;
 LazyFS fs;
 
+/**
+ * @brief Reads one command (a line) from the faults fifo.
+ *
+ * @param fd_fifo fifo descriptor
+ * @param pending bytes already read that belong to the next commands
+ * @param command the command read, without the new line
+ * @return true if a command was read, false if the fifo can not be read
+ */
+static bool read_fifo_command (int fd_fifo, std::string& pending, std::string& command) {
+
+    size_t line_end;
+
+    while ((line_end = pending.find ('\n')) == std::string::npos) {
+
+        char buffer[MAX_READ_CHUNK];
+        ssize_t ret = read (fd_fifo, buffer, MAX_READ_CHUNK);
+
+        if (ret < 0 && errno == EINTR)
+            continue;
+        if (ret <= 0)
+            return false;
+
+        pending.append (buffer, ret);
+    }
+
+    command = pending.substr (0, line_end);
+    pending.erase (0, line_end + 1);
+
+    return true;
+}
+
 void fht_worker (LazyFS* filesystem) {
     int fd_fifo, fd_fifo_completed;
     std::shared_mutex fifo_lock;
@@ -54,14 +85,13 @@ void fht_worker (LazyFS* filesystem) {
 
     spdlog::info ("[lazyfs.faults.worker]: waiting for fault commands...");
 
-    char buffer[MAX_READ_CHUNK];
+    std::string pending, command_str;
     int ret;
     while (true) {
-        if ((ret = read (fd_fifo, &buffer, MAX_READ_CHUNK)) > 0) {
+        if (read_fifo_command (fd_fifo, pending, command_str)) {
 
-            buffer[ret - 1] = '\0';
+            const char* buffer = command_str.c_str ();
 
-            std::string command_str = string (buffer);
             if (command_str.rfind ("lazyfs::crash", 0) == 0) {
 
                 std::regex rgx_global ("::");
-- 
2.43.0


From c368bf21662a8d1537e6484d60aafdabdc1f9a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:26 +0000
Subject: [PATCH 31/69] fix: invalid fault commands are reported as invalid and
 do not stop LazyFS

---
 lazyfs/src/main.cpp | 58 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 51 insertions(+), 7 deletions(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 828f77c..ca74642 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -155,6 +155,20 @@ void fht_worker (LazyFS* filesystem) {
                     }
                 }
 
+                if (crash_operation == "none" || crash_timing == "none") {
+                    VF = false;
+                    errors.push_back ("should specify 'op' and 'timing'");
+                }
+
+                for (auto const& rgx : {crash_from_rgx, crash_to_rgx}) {
+                    try {
+                        std::regex test_rgx (".*" + rgx + ".*");
+                    } catch (const std::regex_error& e) {
+                        VF = false;
+                        errors.push_back ("'" + rgx + "' is not a valid regex");
+                    }
+                }
+
                 bool is_from_to = false;
 
                 if (filesystem->fs_op_multi_path.find (crash_operation) !=
@@ -293,16 +307,31 @@ void fht_worker (LazyFS* filesystem) {
                     }
                 }
 
-                if (parts=="none" && parts_bytes=="none") {
+                if (file == "none") {
+                    errors.push_back ("should specify 'file'");
+                    valid_fault = false;
+                }
+
+                if (persist == "none") {
+                    errors.push_back ("should specify 'persist'");
+                    valid_fault = false;
+                }
+
+                if ((parts == "none") == (parts_bytes == "none")) {
                     errors.push_back ("should specify 'parts' or 'parts_bytes', not both");
                     valid_fault = false;
                 }
                 
                 vector<string> errors_add_torn_op;
-                if (valid_fault) 
-                    errors_add_torn_op = filesystem->add_torn_op_fault (file, parts, parts_bytes, persist);
+                if (valid_fault) {
+                    try {
+                        errors_add_torn_op = filesystem->add_torn_op_fault (file, parts, parts_bytes, persist);
+                    } catch (const std::out_of_range& e) {
+                        errors_add_torn_op.push_back ("number is too big");
+                    }
+                }
 
-                if (errors_add_torn_op.size() == 0) 
+                if (valid_fault && errors_add_torn_op.size() == 0) 
                         spdlog::info ("[lazyfs.faults.worker]: configured successfully '{}'", string (buffer));
                 else {
                     spdlog::warn ("[lazyfs.faults.worker]: received: INVALID torn-op fault:");
@@ -375,11 +404,26 @@ void fht_worker (LazyFS* filesystem) {
                     }
                 }
 
+                if (file == "none") {
+                    errors.push_back ("should specify 'file'");
+                    valid_fault = false;
+                }
+
+                if (persist == "none") {
+                    errors.push_back ("should specify 'persist'");
+                    valid_fault = false;
+                }
+
                 vector<string> errors_add_torn_seq;
-                if (valid_fault) 
-                    errors_add_torn_seq = filesystem->add_torn_seq_fault(file, op, persist);
+                if (valid_fault) {
+                    try {
+                        errors_add_torn_seq = filesystem->add_torn_seq_fault(file, op, persist);
+                    } catch (const std::out_of_range& e) {
+                        errors_add_torn_seq.push_back ("number is too big");
+                    }
+                }
 
-                if (errors_add_torn_seq.size() == 0)
+                if (valid_fault && errors_add_torn_seq.size() == 0)
                         spdlog::info ("[lazyfs.faults.worker]: configured successfully '{}'", string (buffer));
                 else {  
                         errors.insert(errors.end(), errors_add_torn_seq.begin(), errors_add_torn_seq.end());
-- 
2.43.0


From 918549489ab860d7ee507fadff5a02c4e6fd5b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:48 +0000
Subject: [PATCH 32/69] fix: torn-op and torn-seq commands take an occurrence
 and the writes to persist in any order

---
 lazyfs/include/lazyfs/lazyfs.hpp |  6 ++++--
 lazyfs/src/lazyfs.cpp            | 11 +++++++----
 lazyfs/src/main.cpp              | 28 ++++++++++++++++++++++++++--
 3 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index 6b94000..ead229e 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -382,9 +382,10 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      * @param path path of the fault
      * @param op system call 
      * @param persist which parts of the write to persist
+     * @param occurrence_nr number of the group of writes
      * @return errors
     */
-    vector<string> add_torn_seq_fault(string path, string op, string persist);
+    vector<string> add_torn_seq_fault(string path, string op, string persist, string occurrence_nr);
 
     /**
      * @brief Adds a torn-op fault to the faults map. Returns a vector with errors if any.
@@ -393,9 +394,10 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      * @param parts which parts of the write to persist
      * @param parts_bytes division of the write in bytes
      * @param persist which parts of the write to persist
+     * @param occurrence_nr number of the write
      * @return errors
     */
-    vector<string> add_torn_op_fault(string path, string parts, string parts_bytes, string persist);
+    vector<string> add_torn_op_fault(string path, string parts, string parts_bytes, string persist, string occurrence_nr);
 
     /**
      * @brief Kills lazyfs with SIGKILL if any fault condition verifies
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 31bc736..5058bb9 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -241,7 +241,7 @@ void LazyFS::add_crash_fault (string crash_timing,
     }
 }
 
-vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts_bytes, string persist) {
+vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts_bytes, string persist, string occurrence_nr) {
     regex number ("\\d+");
     sregex_token_iterator iter(persist.begin(), persist.end(), number);
     sregex_token_iterator end;
@@ -268,7 +268,7 @@ vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts
         partsi = stoi(parts);
     }
 
-    int occurrence=1;
+    int occurrence = std::stoi(occurrence_nr);
 
     faults::SplitWriteF* fault;
     vector<string> errors;
@@ -304,7 +304,7 @@ vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts
     return errors;
 }
 
-vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist) {
+vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist, string occurrence_nr) {
     regex number ("\\d+");
     sregex_token_iterator iter(persist.begin(), persist.end(), number);
     sregex_token_iterator end;
@@ -315,7 +315,10 @@ vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist
         ++iter;
     }
 
-    faults::ReorderF* fault = new faults::ReorderF(op, persistv, 1);
+    //Sorting the persist vector is necessary for injecting this fault
+    sort(persistv.begin(), persistv.end());
+
+    faults::ReorderF* fault = new faults::ReorderF(op, persistv, std::stoi(occurrence_nr));
     vector<string> errors = fault->validate();
 
     bool valid_fault = true;
diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index ca74642..e01d486 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -245,6 +245,7 @@ void fht_worker (LazyFS* filesystem) {
                 string parts = "none";
                 string parts_bytes = "none";
                 string persist = "none";
+                string occurrence = "1";
 
                 bool valid_fault = true;
                 vector<string> errors;
@@ -301,6 +302,17 @@ void fht_worker (LazyFS* filesystem) {
                         } else 
                             persist = tmp_persist;
                         
+                    } else if (current.rfind ("occurrence=", 0) == 0) {
+
+                        string tmp_occurrence = current.erase (0, current.find ("=") + 1);
+                        std::regex pattern(R"(\d+)");
+
+                        if (!std::regex_match(tmp_occurrence, pattern)) {
+                            errors.push_back ("occurrence should be a number");
+                            valid_fault = false;
+                        } else
+                            occurrence = tmp_occurrence;
+
                     } else if (current != "lazyfs" && current != "torn-op") {
                         errors.push_back ("unknown attribute");
                         valid_fault = false;
@@ -325,7 +337,7 @@ void fht_worker (LazyFS* filesystem) {
                 vector<string> errors_add_torn_op;
                 if (valid_fault) {
                     try {
-                        errors_add_torn_op = filesystem->add_torn_op_fault (file, parts, parts_bytes, persist);
+                        errors_add_torn_op = filesystem->add_torn_op_fault (file, parts, parts_bytes, persist, occurrence);
                     } catch (const std::out_of_range& e) {
                         errors_add_torn_op.push_back ("number is too big");
                     }
@@ -358,6 +370,7 @@ void fht_worker (LazyFS* filesystem) {
                 string file = "none";
                 string op = "none";
                 string persist = "none";
+                string occurrence = "1";
 
                 bool valid_fault = true;
                 vector<string> errors;
@@ -398,6 +411,17 @@ void fht_worker (LazyFS* filesystem) {
                         } else 
                             persist = tmp_per;
                         
+                    } else if (current.rfind ("occurrence=", 0) == 0) {
+
+                        string tmp_occurrence = current.erase (0, current.find ("=") + 1);
+                        std::regex pattern(R"(\d+)");
+
+                        if (!std::regex_match(tmp_occurrence, pattern)) {
+                            errors.push_back ("occurrence should be a number");
+                            valid_fault = false;
+                        } else
+                            occurrence = tmp_occurrence;
+
                     } else if (current != "lazyfs" && current != "torn-seq") {
                         errors.push_back ("unknown attribute");
                         valid_fault = false;
@@ -417,7 +441,7 @@ void fht_worker (LazyFS* filesystem) {
                 vector<string> errors_add_torn_seq;
                 if (valid_fault) {
                     try {
-                        errors_add_torn_seq = filesystem->add_torn_seq_fault(file, op, persist);
+                        errors_add_torn_seq = filesystem->add_torn_seq_fault(file, op, persist, occurrence);
                     } catch (const std::out_of_range& e) {
                         errors_add_torn_seq.push_back ("number is too big");
                     }
-- 
2.43.0


From aaead5754ee20db525d524abf95904a4720e2d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:48 +0000
Subject: [PATCH 33/69] fix: the unsynced data report gives each sequence of
 blocks its own start and end

---
 lazyfs/src/lazyfs.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 5058bb9..9e97bfd 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -390,7 +390,9 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
                             first_block_id       = block_id;
                         }
 
-                        if (block_id != (get<0> (*std::next (block_it)) - 1)) {
+                        auto next_it = std::next (block_it);
+
+                        if (next_it == std::get<2> (it).end () || block_id != (get<0> (*next_it) - 1)) {
 
                             spdlog::info (
                                 "[lazyfs.cmds]: report: [inode {}] info: (block {}) to (block "
@@ -402,8 +404,8 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
                                 (offs.second + block_id * FSConfig->IO_BLOCK_SIZE) -
                                     (first_block_id * FSConfig->IO_BLOCK_SIZE));
 
-                            last_block_off_start = offs.first;
-                            last_block_index     = block_id;
+                            // the next block starts another sequence
+                            last_block_index = -1;
                         }
 
                         total_bytes_unsynced +=
-- 
2.43.0


From f4d21bdbbb817025647aa78a0c653c65f5a1aade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:02 +0000
Subject: [PATCH 34/69] fix: the unsynced data report leaves out the files with
 faults being injected, not the other ones

---
 lazyfs/src/lazyfs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 9e97bfd..43216ec 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -365,7 +365,7 @@ void LazyFS::command_unsynced_data_report (vector<string> paths_to_exclude) {
             
             bool report = true;
             if (paths_to_exclude.size() > 0) {
-                report = find_first_of (files_mapped.begin(), files_mapped.end(), paths_to_exclude.begin(), paths_to_exclude.end()) != files_mapped.end();
+                report = find_first_of (files_mapped.begin(), files_mapped.end(), paths_to_exclude.begin(), paths_to_exclude.end()) == files_mapped.end();
             }
 
             if(report) {
-- 
2.43.0


From b4e8b507f6a95cd0888ab77f1e6e347e6b40626b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:46 +0000
Subject: [PATCH 35/69] fix: faults can be added while operations look them up

---
 lazyfs/include/lazyfs/lazyfs.hpp | 11 ++++++++++
 lazyfs/src/lazyfs.cpp            | 35 +++++++++++++++++++++-----------
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index ead229e..f656bf8 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -104,6 +104,10 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      */
     unordered_map<string,vector<faults::Fault*>>* faults;
 
+    /**
+     * @brief Lock for the faults that can be added during runtime.
+     */
+    std::mutex faults_lock;
 
     /**
      * @brief Faults of LazyFS crash injected during runtime.
@@ -195,6 +199,13 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
     */
     vector<string> get_injecting_fault();
 
+    /**
+     * @brief Get the faults programmed for a path.
+     * @param path Path of the file
+     * @return List of faults, empty if none
+    */
+    vector<faults::Fault*> get_faults (string path);
+
     /**
      * @brief Fifo: (fault) Clear the cached contents
      *
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 43216ec..70e2774 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -93,6 +93,12 @@ vector<string> LazyFS::get_injecting_fault() {
     return injecting_fault;
 }
 
+vector<faults::Fault*> LazyFS::get_faults (string path) {
+    lock_guard<mutex> guard (this->faults_lock);
+    auto it = faults->find (path);
+    return it != faults->end () ? it->second : vector<faults::Fault*> ();
+}
+
 void LazyFS::trigger_crash_fault (string opname,
                                   string optiming,
                                   string from_op_path,
@@ -114,11 +120,13 @@ void LazyFS::trigger_crash_fault (string opname,
     status = lstat(char_array, &buffer);
 */
 
+    this->faults_lock.lock ();
     if (optiming == "before") {
         opfaults = this->crash_faults_before_map.at (opname);
     } else {
         opfaults = this->crash_faults_after_map.at (opname);
     }
+    this->faults_lock.unlock ();
 
     if (opfaults.size () > 0) {
 
@@ -175,10 +183,9 @@ void LazyFS::trigger_configured_clear_fault (string opname,
                                   string from_path,
                                   string to_path) {
 
-    auto it = faults->find(from_path);
+    auto v_faults = get_faults (from_path);
 
-    if (it != faults->end()) {
-        auto& v_faults = it->second;
+    if (!v_faults.empty ()) {
 
         for (auto fault : v_faults) {
             faults::ClearF* clear_fault = dynamic_cast<faults::ClearF*>(fault);
@@ -229,6 +236,8 @@ void LazyFS::add_crash_fault (string crash_timing,
     // a path that was not specified matches everything
     std::regex from_rgx (crash_regex_from == "none" ? ".*" : ".*" + crash_regex_from + ".*");
 
+    lock_guard<mutex> guard (this->faults_lock);
+
     if (crash_timing == "before") {
 
         auto& crash_regex_list = crash_faults_before_map.at (crash_operation);
@@ -283,6 +292,7 @@ vector<string> LazyFS::add_torn_op_fault(string path, string parts, string parts
     
     bool valid_fault = true;
     if (errors.size() == 0) {
+        lock_guard<mutex> guard (this->faults_lock);
 
         auto it = faults->find(path);
         if (it == faults->end()) {
@@ -323,6 +333,7 @@ vector<string> LazyFS::add_torn_seq_fault(string path, string op, string persist
 
     bool valid_fault = true;
     if (errors.size() == 0) {
+        lock_guard<mutex> guard (this->faults_lock);
         auto it = faults->find(path);
         if (it == faults->end())
             faults->insert({path, {fault}});
@@ -459,9 +470,9 @@ void LazyFS::command_checkpoint () {
 }
 
 void LazyFS::restart_counter(string path, string op) {
-    auto it = faults->find(path);
-    if (it != faults->end()) {
-        auto& v_faults = it->second;
+    auto v_faults = get_faults (path);
+
+    if (!v_faults.empty ()) {
         for (auto fault : v_faults) {
             faults::ReorderF* reorder_fault = dynamic_cast<faults::ReorderF*>(fault);
             if (reorder_fault && reorder_fault->op == op)  {
@@ -490,9 +501,9 @@ bool LazyFS::check_and_delete_pendingwrite(const char* path) {
 
 faults::ReorderF* LazyFS::get_and_update_reorder_fault(string path, string op) {
     faults::ReorderF* fault_r = NULL;
-    auto it = faults->find(path);
-    if (it != faults->end()) {
-        auto& v_faults = it->second;
+    auto v_faults = get_faults (path);
+
+    if (!v_faults.empty ()) {
         for (auto fault : v_faults) {
             faults::ReorderF* reorder_fault = dynamic_cast<faults::ReorderF*>(fault);
             if (reorder_fault && reorder_fault->op == op) {
@@ -580,9 +591,9 @@ bool LazyFS::split_write(const char* path, const char* buf, size_t size, off_t o
     int fd;
     bool res = false;
 
-    auto it = faults->find(path_s);
-    if (it != faults->end()) {
-        auto& v_faults = it->second;
+    auto v_faults = get_faults (path_s);
+
+    if (!v_faults.empty ()) {
         for (auto fault : v_faults) { 
             faults::SplitWriteF* split_fault = dynamic_cast<faults::SplitWriteF*>(fault);
             if (split_fault) {
-- 
2.43.0


From b1917d22dc92150a98a97a1ba92ffcd0406ce04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:46 +0000
Subject: [PATCH 36/69] fix: all the arguments are passed on and the
 configuration path can have any name

---
 lazyfs/src/main.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index e01d486..bc59001 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -511,18 +511,17 @@ int main (int argc, char* argv[]) {
 
     // Parse command line args
 
-    enum { MAX_ARGS = 10 };
     int i, new_argc;
-    char* new_argv[MAX_ARGS];
+    std::vector<char*> new_argv (argc + 1, nullptr);
 
     string config_path;
     bool path_specified = false;
 
-    for (i = 0, new_argc = 0; (i < argc) && (new_argc < MAX_ARGS); i++)
+    for (i = 0, new_argc = 0; i < argc; i++)
 
         if (!strcmp (argv[i], "--config-path")) {
 
-            if (strcasestr (argv[i + 1], "-o"))
+            if (i + 1 >= argc || !strncmp (argv[i + 1], "-o", 2))
 
                 path_specified = false;
 
@@ -649,7 +648,7 @@ int main (int argc, char* argv[]) {
 
     // Start LazyFS
 
-    int status = fs.run (new_argc, new_argv);
+    int status = fs.run (new_argc, new_argv.data ());
 
     return status;
 }
-- 
2.43.0


From 58f5f8a726c9a47b9f98eff0d2c5b24ba57d0742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:11 +0000
Subject: [PATCH 37/69] fix: unmounting ends LazyFS normally instead of
 aborting

---
 lazyfs/src/lazyfs.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 70e2774..90306fe 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -692,6 +692,9 @@ void* LazyFS::lfs_init (struct fuse_conn_info* conn, struct fuse_config* cfg) {
 
     new (this_ ()->faults_handler_thread) std::thread (this_ ()->fht_worker, this_ ());
 
+    // it waits for commands until LazyFS ends, nobody joins it
+    this_ ()->faults_handler_thread->detach ();
+
     return this_ ();
 }
 
-- 
2.43.0


From 76fcbaafd6ec5040b8490007afde1eb67a3574ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:36 +0000
Subject: [PATCH 38/69] fix: the --files and --group_limit options of the log
 parser take effect

---
 logparse/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/logparse/parse.py b/logparse/parse.py
index 37273d9..83d0c3c 100755
--- a/logparse/parse.py
+++ b/logparse/parse.py
@@ -218,7 +218,7 @@ def output_filter():
 
 
 def main():
-    global log_file, covered_syscalls, files, text, filter_only, out, big_write, big
+    global log_file, covered_syscalls, files, text, filter_only, out, big_write, big, group_limit
 
     parser = argparse.ArgumentParser()
 
@@ -254,7 +254,7 @@ def main():
     if args.page_size:
         big = int(args.page_size[0])
     if args.files:
-        files_arr = args.paths
+        files_arr = args.files
         files = ''
         for file in files_arr[:-1]:
             files += file+'|'
-- 
2.43.0


From 688740f87e63fdef0707774518917c0dc241b8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:36 +0000
Subject: [PATCH 39/69] fix: the log parser groups faults

---
 logparse/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/logparse/parse.py b/logparse/parse.py
index 83d0c3c..657f714 100755
--- a/logparse/parse.py
+++ b/logparse/parse.py
@@ -36,7 +36,7 @@ def compare_ops(op1,op2):
     if op1['syscall'] == 'rename':
         return (op2['syscall'] == 'rename' and op1['from_'] == op2['from_'] and op1['to'] == op2['to'])
     else:
-        return op1['syscall'] == op2['syscall'] and op1['path'] == op2['path'] 
+        return op1['syscall'] == op2['syscall'] and op1.get('path') == op2.get('path') #Faults have no path
 
 def add_to_writes(op):
     global big
@@ -180,7 +180,7 @@ def make_graph():
                     if syscall['syscall'] == 'rename':
                         label += syscall['syscall'] + ' from=' +  syscall['from_'] + ' to=' +  syscall['to'] + '\n'
                     else:
-                        label += syscall['syscall'] + ' path=' +  syscall['path'] + '\n'
+                        label += syscall['syscall'] + (' path=' +  syscall['path'] if 'path' in syscall else '') + '\n'
             else:
                 syscall = op[0]
                 if syscall['syscall'] == 'rename':
-- 
2.43.0


From c94467700ea657f32dc6136c4a1f8fb77ebf0da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:36 +0000
Subject: [PATCH 40/69] fix: the groups of the log parser have exactly the
 operations of the log

---
 logparse/parse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/logparse/parse.py b/logparse/parse.py
index 657f714..87f77f9 100755
--- a/logparse/parse.py
+++ b/logparse/parse.py
@@ -119,8 +119,9 @@ def group_ops(ops):
                 if 'mode' in elem[0]:
                     del elem[0]['mode']
                 group['group'].append(elem[0])
-                buffer_i += elem[1]
-            ops_grouped.append((group,buffer[0][1]))
+            reps = buffer[len(buffer)-1][1]         #The last repetition may be incomplete, its ops are not part of the group
+            buffer_i += reps*len(buffer)-1
+            ops_grouped.append((group,reps))
         else:
             ops_grouped.append((buffer[0][0],1))
     
@@ -160,7 +161,7 @@ def buffer_to_ops_grouped():
                 del elem[0]['mode']
             group1['group'].append(elem[0])
         ops_grouped.append((group1,right_count)) 
-        ops_i-=len(buffer)      # a4b4c3 -> abcabcabcabd
+        ops_i-=i+1              # a4b4c3 -> abcabcabcabd, the ops of the incomplete repetition (i) are considered again
 
     buffer.clear()
     i = 0
-- 
2.43.0


From 28c13d4b47e8a7e5034fa698c33bdb8e5566b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:30 +0000
Subject: [PATCH 41/69] fix: writing part of a block does not bring back bytes
 that were truncated

---
 lazyfs/src/lazyfs.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 90306fe..e583c04 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1191,6 +1191,10 @@ int LazyFS::lfs_cached_write (const char* path,
                                            block_caching_buffer,
                                            IO_BLOCK_SIZE,
                                            CURR_BLK_IDX * IO_BLOCK_SIZE);
+
+                        // the underlying file may still have bytes that were truncated
+                        pread_res = std::min ((off_t)pread_res,
+                                              FILE_SIZE_BEFORE - CURR_BLK_IDX * IO_BLOCK_SIZE);
                     }
 
                     if (pread_res < 0) {
-- 
2.43.0


From 0f282a3ec63f4d53038baa8e4e9ae8d4b25a2399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:15 +0000
Subject: [PATCH 42/69] fix: removing a file by a name that is not cached drops
 its cached data

---
 lazyfs/src/lazyfs.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index e583c04..e57b335 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -2202,6 +2202,11 @@ int LazyFS::lfs_unlink (const char* path) {
     // a new file can not get this inode number until its cached data is removed
     int fd_inode = open (path, O_PATH | O_NOFOLLOW);
 
+    // this name may be unknown, while the file is cached by another one
+    struct stat st;
+    if (inode.empty () && fd_inode >= 0 && fstat (fd_inode, &st) == 0 && S_ISREG (st.st_mode))
+        inode = to_string (st.st_ino);
+
     res              = unlink (path);
     int unlink_errno = errno;
 
-- 
2.43.0


From 74deb791368631a817dc9eab9387aad706518844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:30 +0000
Subject: [PATCH 43/69] fix: crash patterns can have alternatives

---
 lazyfs/src/lazyfs.cpp | 10 +++++-----
 lazyfs/src/main.cpp   |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index e57b335..0f40be9 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -144,15 +144,15 @@ void LazyFS::trigger_crash_fault (string opname,
             if (is_multi_path) {
 
                 string to = it.second;
-                std::regex to_rgx (".*" + to + ".*");
+                std::regex to_rgx (to);
 
-                regex_match = std::regex_match (from_op_path, from_rgx);
+                regex_match = std::regex_search (from_op_path, from_rgx);
                 if (to != "none")
-                    regex_match = regex_match && std::regex_match (to_op_path, to_rgx);
+                    regex_match = regex_match && std::regex_search (to_op_path, to_rgx);
 
             } else {
 
-                regex_match = std::regex_match (from_op_path, from_rgx);
+                regex_match = std::regex_search (from_op_path, from_rgx);
             }
 
             if (regex_match) {
@@ -234,7 +234,7 @@ void LazyFS::add_crash_fault (string crash_timing,
                               string crash_regex_to) {
 
     // a path that was not specified matches everything
-    std::regex from_rgx (crash_regex_from == "none" ? ".*" : ".*" + crash_regex_from + ".*");
+    std::regex from_rgx (crash_regex_from == "none" ? ".*" : crash_regex_from);
 
     lock_guard<mutex> guard (this->faults_lock);
 
diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index bc59001..300ab21 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -162,7 +162,7 @@ void fht_worker (LazyFS* filesystem) {
 
                 for (auto const& rgx : {crash_from_rgx, crash_to_rgx}) {
                     try {
-                        std::regex test_rgx (".*" + rgx + ".*");
+                        std::regex test_rgx (rgx);
                     } catch (const std::regex_error& e) {
                         VF = false;
                         errors.push_back ("'" + rgx + "' is not a valid regex");
-- 
2.43.0


From 91c85c7b2f3004de7e0b039905f5e3a59d9832a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:06 +0000
Subject: [PATCH 44/69] fix: relative fifo paths work

---
 lazyfs/src/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 300ab21..957ce8a 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -12,6 +12,7 @@
 
 #include <cache/config/config.hpp>
 #include <errno.h>
+#include <filesystem>
 #include <fstream>
 #include <lazyfs/lazyfs.hpp>
 #include <regex>
@@ -604,6 +605,11 @@ int main (int argc, char* argv[]) {
     
     //Fifos
 
+    // libfuse changes the working directory before the fifos are opened
+    std_config.FIFO_PATH = std::filesystem::absolute (std_config.FIFO_PATH);
+    if (std_config.FIFO_PATH_COMPLETED != "")
+        std_config.FIFO_PATH_COMPLETED = std::filesystem::absolute (std_config.FIFO_PATH_COMPLETED);
+
     spdlog::info ("[lazyfs]: trying to create fifo '{}'", std_config.FIFO_PATH);
     
     // Create fifo, if not exists already
-- 
2.43.0


From 89d009f683f42861bfb5cdea3fa48bf926a0eedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:40 +0000
Subject: [PATCH 45/69] fix: metadata of a newly cached file appears together
 with it

---
 lazyfs/src/lazyfs.cpp                  | 35 +++++++++++---------------
 libs/libpcache/include/cache/cache.hpp | 11 ++++++++
 libs/libpcache/src/cache.cpp           | 17 +++++++++++++
 3 files changed, 42 insertions(+), 21 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 0f40be9..c1f8803 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -733,29 +733,22 @@ int LazyFS::lfs_getattr (const char* path, struct stat* stbuf, struct fuse_file_
 
     if (!locked) {
 
-        this_ ()->FSCache->put_data_blocks (inode, {}, OP_PASSTHROUGH);
-
-        bool locked_now = this_ ()->FSCache->lockItemCheckExists (inode);
-
-        if (locked_now) {
-
-            Metadata meta;
-
-            meta.size   = stbuf->st_size;
-            meta.atim   = stbuf->st_atim;
-            meta.ctim   = stbuf->st_ctim;
-            meta.mtim   = stbuf->st_mtim;
-            meta.nlinks = stbuf->st_nlink;
-
-            this_ ()->FSCache->update_content_metadata (
-                inode,
-                meta,
-                {"size", "atime", "ctime", "mtime", "nlinks"});
+        Metadata meta;
 
-            this_ ()->FSCache->unlockItem (inode);
-        }
+        meta.size   = stbuf->st_size;
+        meta.atim   = stbuf->st_atim;
+        meta.ctim   = stbuf->st_ctim;
+        meta.mtim   = stbuf->st_mtim;
+        meta.nlinks = stbuf->st_nlink;
+
+        // the item must not be visible without its metadata, another operation may create it first
+        if (!this_ ()->FSCache->insert_item (inode,
+                                             meta,
+                                             {"size", "atime", "ctime", "mtime", "nlinks"}))
+            locked = this_ ()->FSCache->lockItemCheckExists (inode);
+    }
 
-    } else if (locked) {
+    if (locked) {
 
         /*
         Content is cached, must return cached metadata
diff --git a/libs/libpcache/include/cache/cache.hpp b/libs/libpcache/include/cache/cache.hpp
index afdc4ae..3101708 100644
--- a/libs/libpcache/include/cache/cache.hpp
+++ b/libs/libpcache/include/cache/cache.hpp
@@ -229,6 +229,17 @@ class Cache {
      */
     void unlockItem (string cid);
 
+    /**
+     * @brief Creates an item together with its metadata, unless it exists.
+     *
+     * @param cid content id
+     * @param meta the item's metadata
+     * @param values_to_update which values of the metadata are given
+     * @return true if the item was created
+     * @return false if it was there already
+     */
+    bool insert_item (string cid, Metadata meta, vector<string> values_to_update);
+
     /**
      * @brief Locks the Item if it exists
      *
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 0ca5c5e..292c6b2 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -571,6 +571,23 @@ void Cache::clear_all_cache () {
     }
 }
 
+bool Cache::insert_item (string cid, Metadata meta, vector<string> values_to_update) {
+
+    std::lock_guard<shared_mutex> lock (lock_cache_mtx);
+
+    if (has_content_cached (cid))
+        return false;
+
+    Item* item = new Item ();
+    item->update_metadata (meta, values_to_update);
+
+    lock_guard<std::mutex> maps_lock (maps_mtx);
+    this->item_locks.insert (make_pair (cid, new std::shared_mutex ()));
+    this->contents.insert (make_pair (cid, item));
+
+    return true;
+}
+
 bool Cache::lockItemCheckExists (string cid) {
 
     std::lock_guard<shared_mutex> lock (lock_cache_mtx);
-- 
2.43.0


From e172830bc38a00b48d06052879f28d9a38f2d73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:48 +0000
Subject: [PATCH 46/69] fix: a read does not see a truncate of the same file
 half done

---
 lazyfs/src/lazyfs.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index c1f8803..fae7088 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -7,6 +7,7 @@
  *
  */
 
+#include <array>
 #include <chrono>
 #include <cmath>
 #include <ctime>
@@ -15,6 +16,7 @@
 #include <lazyfs/lazyfs.hpp>
 #include <map>
 #include <regex>
+#include <shared_mutex>
 #include <signal.h>
 #include <spdlog/spdlog.h>
 #include <string>
@@ -40,6 +42,13 @@ using namespace cache::engine::backends::custom;
 
 std::shared_mutex cache_command_lock;
 
+// a read must not overlap with a truncate of the same file (which may share a lock with others)
+static std::array<std::shared_mutex, 64> truncate_locks;
+
+static std::shared_mutex& truncate_lock_of (ino_t inode) {
+    return truncate_locks[inode % truncate_locks.size ()];
+}
+
 namespace lazyfs {
 
 /* Write class */
@@ -1400,9 +1409,11 @@ int LazyFS::lfs_read (const char* path,
 
     std::string OWNER (path);
 
-    struct stat stats;
+    struct stat stats = {};
     lfs_getattr (path, &stats, fi);
 
+    std::shared_lock<std::shared_mutex> file_lock (truncate_lock_of (stats.st_ino));
+
     string inode = this_ ()->FSCache->get_original_inode (OWNER);
 
     int IO_BLOCK_SIZE = this_ ()->FSConfig->IO_BLOCK_SIZE;
@@ -1614,6 +1625,7 @@ int LazyFS::lfs_read (const char* path,
     if (fi == NULL)
         close (fd);
 
+    file_lock.unlock ();
     lock.unlock ();
 
     this_ ()->trigger_crash_fault ("read", "after", path, "", CLEAR);
@@ -1769,6 +1781,8 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
     if (res < 0)
         return res;
 
+    std::unique_lock<std::shared_mutex> file_lock (truncate_lock_of (stats.st_ino));
+
     string owner (path);
     string inode = this_ ()->FSCache->get_original_inode (owner);
 
@@ -1865,6 +1879,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
         }
     }
 
+    file_lock.unlock ();
     lock.unlock ();
 
     this_ ()->trigger_crash_fault ("truncate", "after", path, "", CLEAR);
-- 
2.43.0


From 5bce8a798443d460b9391c03a43be05b743117e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:49 +0000
Subject: [PATCH 47/69] fix: the inode tells whether a removed name was the
 file's last

---
 lazyfs/src/lazyfs.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index fae7088..23b9b2a 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1700,6 +1700,25 @@ void LazyFS::lfs_get_dir_filenames (const char* dirname, std::vector<string>* re
     closedir (from_DIR);
 }
 
+// A name of the open file was removed: operations on other names may not have counted it yet, the
+// inode knows the links. The cache expects the count from before the removal.
+static void refresh_links (Cache* cache, int fd) {
+
+    struct stat st;
+
+    if (fd < 0 || fstat (fd, &st) != 0 || !S_ISREG (st.st_mode))
+        return;
+
+    string inode = to_string (st.st_ino);
+
+    if (cache->lockItemCheckExists (inode)) {
+        Metadata meta;
+        meta.nlinks = st.st_nlink + 1;
+        cache->update_content_metadata (inode, meta, {"nlinks"});
+        cache->unlockItem (inode);
+    }
+}
+
 int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
 
     this_ ()->trigger_crash_fault ("rename", "before", from, to, CLEAR);
@@ -1744,6 +1763,7 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
 
         } else {
 
+            refresh_links (this_ ()->FSCache, fd_replaced);
             this_ ()->FSCache->rename_item (from, to);
         }
     }
@@ -2218,8 +2238,10 @@ int LazyFS::lfs_unlink (const char* path) {
     res              = unlink (path);
     int unlink_errno = errno;
 
-    if (res == 0 && !inode.empty ())
+    if (res == 0 && !inode.empty ()) {
+        refresh_links (this_ ()->FSCache, fd_inode);
         this_ ()->FSCache->remove_cached_item (inode, path, false);
+    }
 
     if (fd_inode >= 0)
         close (fd_inode);
-- 
2.43.0


From 9c143348065ffae552b9e53a49c6a3235c062a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:14 +0000
Subject: [PATCH 48/69] fix: an evicted page is not written into the file that
 replaces its own

---
 libs/libpcache/src/engine/page/page.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libs/libpcache/src/engine/page/page.cpp b/libs/libpcache/src/engine/page/page.cpp
index 82b7b37..b646883 100644
--- a/libs/libpcache/src/engine/page/page.cpp
+++ b/libs/libpcache/src/engine/page/page.cpp
@@ -16,6 +16,7 @@
 #include <iterator>
 #include <map>
 #include <string.h>
+#include <sys/stat.h>
 #include <unistd.h>
 #include <utility>
 
@@ -159,6 +160,14 @@ bool Page::sync_data (string path) {
     if (fd < 0)
         return false;
 
+    // while a rename is in progress the name may already be that of another file
+    struct stat st;
+
+    if (fstat (fd, &st) != 0 || to_string (st.st_ino) != this->page_owner_id) {
+        close (fd);
+        return false;
+    }
+
     ssize_t should_write = 0, actually_wrote = 0;
 
     map<int, int> block_rdble_offs = this->allocated_block_ids.get_block_readable_offsets ();
-- 
2.43.0


From 159dcac52ee8c7111c2ba8ef1f8bb0ac58677039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:27 +0000
Subject: [PATCH 49/69] fix: a truncate that cannot fill the new part with
 zeros fails

It truncated the backing file behind the cache instead and reported
success: older bytes showed up in the new part.
---
 lazyfs/src/lazyfs.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 23b9b2a..dea92d5 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1855,16 +1855,10 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
             2: Content exists? Fill size_before -> size with zeros
         */
 
-        if (lfs_zero_fill (path, previous_size, truncate_size, fi) < 0) {
+        int fill_res = lfs_zero_fill (path, previous_size, truncate_size, fi);
 
-            if (fi != NULL)
-                res = ftruncate (fi->fh, truncate_size);
-            else
-                res = truncate (path, truncate_size);
-
-            if (res == -1)
-                return -errno;
-        }
+        if (fill_res < 0)
+            return fill_res;
 
     } else if (truncate_size < previous_size) {
 
-- 
2.43.0


From e2d33c605005bc512078f1726f02c99aa0779c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:55 +0000
Subject: [PATCH 50/69] fix: a rename moves the cached names itself and fails
 if it cannot

It listed the renamed directory to find the cached files in it, and
left out what it could not list. A stat that failed counted as a file
that does not exist. The cached data of the files left out was lost.
---
 lazyfs/include/lazyfs/lazyfs.hpp       |  8 -----
 lazyfs/src/lazyfs.cpp                  | 44 ++++++--------------------
 libs/libpcache/include/cache/cache.hpp |  8 +++++
 libs/libpcache/src/cache.cpp           | 18 +++++++++++
 4 files changed, 36 insertions(+), 42 deletions(-)

diff --git a/lazyfs/include/lazyfs/lazyfs.hpp b/lazyfs/include/lazyfs/lazyfs.hpp
index f656bf8..eff01ec 100644
--- a/lazyfs/include/lazyfs/lazyfs.hpp
+++ b/lazyfs/include/lazyfs/lazyfs.hpp
@@ -272,14 +272,6 @@ class LazyFS : public Fusepp::Fuse<LazyFS> {
      */
     bool split_write(const char* path, const char* buf, size_t size, off_t offset);
 
-    /**
-     * @brief Returns a vector with the list of regular file names of all childs of a directory
-     *
-     * @param dirname the directory path
-     * @param result list of filenames
-     */
-    static void lfs_get_dir_filenames (const char* dirname, std::vector<string>* result);
-
     static void* lfs_init (struct fuse_conn_info*, struct fuse_config* cfg);
 
     static void lfs_destroy (void*);
diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index dea92d5..8603153 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1675,31 +1675,6 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
     return res;
 }
 
-void LazyFS::lfs_get_dir_filenames (const char* dirname, std::vector<string>* result) {
-
-    struct dirent* from_DIRENT;
-    DIR* from_DIR = opendir (dirname);
-
-    if (!from_DIR)
-        return;
-
-    while ((from_DIRENT = readdir (from_DIR)) != NULL) {
-
-        // skip "." and ".." folders
-        if (strcmp (from_DIRENT->d_name, ".") != 0 && strcmp (from_DIRENT->d_name, "..") != 0) {
-
-            string base_path = string (string (dirname) + "/" + string (from_DIRENT->d_name));
-
-            if (from_DIRENT->d_type == DT_REG)
-                result->push_back (base_path);
-            else if (from_DIRENT->d_type == DT_DIR)
-                lfs_get_dir_filenames (base_path.c_str (), result);
-        }
-    }
-
-    closedir (from_DIR);
-}
-
 // A name of the open file was removed: operations on other names may not have counted it yet, the
 // inode knows the links. The cache expects the count from before the removal.
 static void refresh_links (Cache* cache, int fd) {
@@ -1736,13 +1711,14 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
         return -EINVAL;
 
     struct stat from_stat, to_stat;
-    bool from_exists = lstat (from, &from_stat) == 0;
-    bool to_exists   = lstat (to, &to_stat) == 0;
 
-    // files inside a directory are renamed too
-    std::vector<string> from_dir_filepaths;
-    if (from_exists && S_ISDIR (from_stat.st_mode))
-        lfs_get_dir_filenames (from, &from_dir_filepaths);
+    if (lstat (from, &from_stat) == -1)
+        return -errno;
+
+    bool to_exists = lstat (to, &to_stat) == 0;
+
+    if (not to_exists && errno != ENOENT)
+        return -errno;
 
     // a new file can not get the inode number of the replaced one until its cached data is removed
     int fd_replaced = to_exists ? open (to, O_PATH | O_NOFOLLOW) : -1;
@@ -1751,15 +1727,15 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
     int rename_errno = errno;
 
     // nothing changes when both are links to the same file
-    bool same_file = from_exists && to_exists && from_stat.st_dev == to_stat.st_dev &&
+    bool same_file = to_exists && from_stat.st_dev == to_stat.st_dev &&
                      from_stat.st_ino == to_stat.st_ino;
 
     if (res == 0 && not same_file) {
 
         if (S_ISDIR (from_stat.st_mode)) {
 
-            for (auto const& it : from_dir_filepaths)
-                this_ ()->FSCache->rename_item (it, string (to) + it.substr (strlen (from)));
+            // files inside a directory are renamed too
+            this_ ()->FSCache->rename_directory (from, to);
 
         } else {
 
diff --git a/libs/libpcache/include/cache/cache.hpp b/libs/libpcache/include/cache/cache.hpp
index 3101708..f298beb 100644
--- a/libs/libpcache/include/cache/cache.hpp
+++ b/libs/libpcache/include/cache/cache.hpp
@@ -287,6 +287,14 @@ class Cache {
      */
     bool rename_item (string old_cid, string new_cid);
 
+    /**
+     * @brief Renames the ids of the items inside a directory
+     *
+     * @param old_dir the old path of the directory
+     * @param new_dir the new path of the directory
+     */
+    void rename_directory (string old_dir, string new_dir);
+
     /**
      * @brief Removes all cache contents
      *
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 292c6b2..33b048a 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -478,6 +478,24 @@ bool Cache::rename_item (string old_cid, string new_cid) {
     return return_val;
 }
 
+void Cache::rename_directory (string old_dir, string new_dir) {
+
+    std::lock_guard<shared_mutex> lock (lock_cache_mtx);
+    lock_guard<std::mutex> maps_lock (maps_mtx);
+
+    const string prefix = old_dir + "/";
+    vector<pair<string, string>> moved;
+
+    for (auto const& it : this->file_inode_mapping)
+        if (it.first.compare (0, prefix.size (), prefix) == 0)
+            moved.push_back (it);
+
+    for (auto const& it : moved) {
+        this->file_inode_mapping.erase (it.first);
+        this->file_inode_mapping[new_dir + it.first.substr (old_dir.size ())] = it.second;
+    }
+}
+
 bool Cache::remove_cached_item (string owner, const char* path, bool is_from_cache) {
 
     std::unique_lock<shared_mutex> lock (lock_cache_mtx, std::defer_lock);
-- 
2.43.0


From 0cdc65214cf5d86248ed6b0f354eda0aace90c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:09 +0000
Subject: [PATCH 51/69] fix: an operation that cannot stat its file fails

The result of getattr was ignored: with a file that is not cached, a
write filled it up to an arbitrary size, a read found nothing and a
sync of another name of a cached file did nothing.
---
 lazyfs/src/lazyfs.cpp | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 8603153..4b87358 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -857,7 +857,12 @@ int LazyFS::lfs_open (const char* path, struct fuse_file_info* fi) {
     fi->fh = res;
 
     struct stat st;
-    lfs_getattr (path, &st, fi);
+    res = lfs_getattr (path, &st, fi);
+
+    if (res < 0) {
+        close (fi->fh);
+        return res;
+    }
 
     // --------------------------------------------------------------------------
 
@@ -916,7 +921,12 @@ int LazyFS::lfs_create (const char* path, mode_t mode, struct fuse_file_info* fi
     fi->fh = res;
 
     struct stat stbuf;
-    lfs_getattr (path, &stbuf, fi);
+    res = lfs_getattr (path, &stbuf, fi);
+
+    if (res < 0) {
+        close (fi->fh);
+        return res;
+    }
 
     string owner (path);
     string inode = to_string (stbuf.st_ino);
@@ -1056,7 +1066,13 @@ int LazyFS::lfs_cached_write (const char* path,
 
     struct stat stats;
 
-    lfs_getattr (path, &stats, fi);
+    res = lfs_getattr (path, &stats, fi);
+
+    if (res < 0) {
+        if (fi == NULL)
+            close (fd);
+        return res;
+    }
 
     string inode = this_ ()->FSCache->get_original_inode (OWNER);
 
@@ -1409,8 +1425,14 @@ int LazyFS::lfs_read (const char* path,
 
     std::string OWNER (path);
 
-    struct stat stats = {};
-    lfs_getattr (path, &stats, fi);
+    struct stat stats;
+    res = lfs_getattr (path, &stats, fi);
+
+    if (res < 0) {
+        if (fi == NULL)
+            close (fd);
+        return res;
+    }
 
     std::shared_lock<std::shared_mutex> file_lock (truncate_lock_of (stats.st_ino));
 
@@ -1643,11 +1665,14 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
     std::shared_lock<std::shared_mutex> lock (cache_command_lock);
 
     struct stat stats;
-    lfs_getattr (path, &stats, fi);
+    int res = lfs_getattr (path, &stats, fi);
 
     if (this_ ()->FSConfig->log_all_operations) {
         spdlog::info ("[lazyfs.ops]: {}(path={},isdatasync={})", __FUNCTION__, path, isdatasync);
     }
+
+    if (res < 0)
+        return res;
     
     this_ ()->restart_counter(path,"write"); //Reset counter of op write for this path
     this_ ()->check_and_delete_pendingwrite(path); //If there's a pending write, remove it
@@ -1657,8 +1682,6 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
 
     bool is_owner_cached = this_ ()->FSCache->has_content_cached (inode);
 
-    int res;
-
     if (isdatasync)
         res = is_owner_cached ? this_ ()->FSCache->sync_owner (inode, true, (char*)path)
                               : fdatasync (fi->fh);
-- 
2.43.0


From a5faebd0509e669ee1cd9de7e12075804b9e7c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:45 +0000
Subject: [PATCH 52/69] fix: the log parser finds the truncates in the log

They are logged with a size but no offset.
---
 logparse/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logparse/parse.py b/logparse/parse.py
index 87f77f9..7538f3f 100755
--- a/logparse/parse.py
+++ b/logparse/parse.py
@@ -64,7 +64,7 @@ def parse_ops():
         to = '(' + files + ')'
     for line in lines:  
         #.*\[lazyfs.ops\]:\s*lfs_((rename|write|open)\((path=([^,]*)|from=(.*?),to=(.*?)\)))(,size=(\d+),off=(\d+))?(,mode=([A-Z_\-]+))?\)
-        if op:=re.match(r'.*\[lazyfs.ops\]:\s*lfs_((' + covered_syscalls + r')\((path=' + path + r'|from='+ from_ + r',to=' + to + r'))(,size=(\d+),off=(\d+))?(,mode=([A-Z_\-]+))?(,isdatasync=[01])?\)',line):
+        if op:=re.match(r'.*\[lazyfs.ops\]:\s*lfs_((' + covered_syscalls + r')\((path=' + path + r'|from='+ from_ + r',to=' + to + r'))(,size=(\d+)(?:,off=(\d+))?)?(,mode=([A-Z_\-]+))?(,isdatasync=[01])?\)',line):
             op_parsed = {'syscall':op.group(2)}
             if op.group(2)!='rename':
                 op_parsed['path'] = op.group(4)
-- 
2.43.0


From fb0eca3b94646ecdf5a736911e6fec7c79e7112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:45 +0000
Subject: [PATCH 53/69] fix: the log parser finds operations on files with
 commas in their names

---
 logparse/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/logparse/parse.py b/logparse/parse.py
index 7538f3f..18827c8 100755
--- a/logparse/parse.py
+++ b/logparse/parse.py
@@ -55,7 +55,7 @@ def parse_ops():
     with open(log_file) as f:
         lines = f.readlines()
 
-    path = r'([^,]*)'
+    path = r'(.*?)'
     from_ = r'(.*?)'
     to = r'(.*?)'
     if len(files)!=0:
@@ -64,7 +64,7 @@ def parse_ops():
         to = '(' + files + ')'
     for line in lines:  
         #.*\[lazyfs.ops\]:\s*lfs_((rename|write|open)\((path=([^,]*)|from=(.*?),to=(.*?)\)))(,size=(\d+),off=(\d+))?(,mode=([A-Z_\-]+))?\)
-        if op:=re.match(r'.*\[lazyfs.ops\]:\s*lfs_((' + covered_syscalls + r')\((path=' + path + r'|from='+ from_ + r',to=' + to + r'))(,size=(\d+)(?:,off=(\d+))?)?(,mode=([A-Z_\-]+))?(,isdatasync=[01])?\)',line):
+        if op:=re.match(r'.*\[lazyfs.ops\]:\s*lfs_((' + covered_syscalls + r')\((path=' + path + r'|from='+ from_ + r',to=' + to + r'))(,size=(\d+)(?:,off=(\d+))?)?(,mode=([A-Z_\-]+))?(,isdatasync=[01])?\)$',line):
             op_parsed = {'syscall':op.group(2)}
             if op.group(2)!='rename':
                 op_parsed['path'] = op.group(4)
-- 
2.43.0


From 46ee1c0ee9d3ccd7efe355f145fd17c4b7f68caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:32 +0000
Subject: [PATCH 54/69] fix: unmounting does not destroy what the faults worker
 is using

---
 lazyfs/src/main.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 957ce8a..837a5ec 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -656,5 +656,7 @@ int main (int argc, char* argv[]) {
 
     int status = fs.run (new_argc, new_argv.data ());
 
-    return status;
+    // the faults worker may still be using what returning from here would destroy
+    fflush (nullptr);
+    _exit (status);
 }
-- 
2.43.0


From 9a40a482d1bec6a4244171e2a163f368ac639387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:58 +0000
Subject: [PATCH 55/69] fix: blocks that are larger than the stack do not crash
 LazyFS

---
 lazyfs/src/lazyfs.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 4b87358..0324ec3 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -15,6 +15,7 @@
 #include <iostream>
 #include <lazyfs/lazyfs.hpp>
 #include <map>
+#include <memory>
 #include <regex>
 #include <shared_mutex>
 #include <signal.h>
@@ -1148,7 +1149,9 @@ int LazyFS::lfs_cached_write (const char* path,
         int fd_caching             = open (path, O_RDONLY);
         int open_errno             = errno;
 
-        char block_caching_buffer[IO_BLOCK_SIZE];
+        // blocks can be larger than the stack
+        std::unique_ptr<char[]> block_caching_memory (new char[IO_BLOCK_SIZE]);
+        char* block_caching_buffer = block_caching_memory.get ();
         map<int, tuple<const char*, size_t, int, int>> put_mapping;
 
         bool cache_full = (this_ ()->FSCache->get_cache_usage () == 100) &&
@@ -1446,7 +1449,9 @@ int LazyFS::lfs_read (const char* path,
     off_t BUF_ITERATOR   = 0;
     off_t data_allocated = 0;
 
-    char read_buffer[IO_BLOCK_SIZE];
+    // blocks can be larger than the stack
+    std::unique_ptr<char[]> read_memory (new char[IO_BLOCK_SIZE]);
+    char* read_buffer = read_memory.get ();
 
     // ----------------------------------------------------------------------------------
 
-- 
2.43.0


From 120e53557ec1854c132659cd540f32a97a3163ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:58 +0000
Subject: [PATCH 56/69] fix: blocks of one byte keep their data

---
 libs/libpcache/src/engine/page/page.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/libpcache/src/engine/page/page.cpp b/libs/libpcache/src/engine/page/page.cpp
index b646883..c5f3a31 100644
--- a/libs/libpcache/src/engine/page/page.cpp
+++ b/libs/libpcache/src/engine/page/page.cpp
@@ -135,7 +135,7 @@ bool Page::update_block_data (int block_id, char* new_data, size_t data_length,
     // block exists, update data
     int off_min = block_offsets.first;
 
-    if (block_offsets.first >= 0 && block_offsets.second > 0) {
+    if (block_offsets.first >= 0 && block_offsets.second >= 0) {
 
         assert (data_length <= this->config->IO_BLOCK_SIZE);
 
-- 
2.43.0


From 547a0576922349ec283371012d8ce6671a089486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:46 +0000
Subject: [PATCH 57/69] fix: long values in commands do not exhaust the stack

std::regex recurses for each character of a value, a number of 100000
digits in a command ended the program. Numbers are checked without it and
regular expressions have a maximum length.
---
 lazyfs/src/main.cpp | 53 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 837a5ec..f983977 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -24,6 +24,8 @@
 using namespace lazyfs;
 
 #define MAX_READ_CHUNK 100
+#define MAX_NUMBER_DIGITS 1000
+#define MAX_REGEX_LENGTH 4096
 
 cache::config::Config std_config;
 std::thread faults_handler_thread;
@@ -60,6 +62,31 @@ static bool read_fifo_command (int fd_fifo, std::string& pending, std::string& c
     return true;
 }
 
+/**
+ * @brief Checks if a value is a number or, if allowed, numbers separated by commas. Values can be
+ * long, and std::regex recurses for each one of their characters.
+ *
+ * @param value the value
+ * @param allow_list true if there can be several numbers
+ * @return true if the value is valid
+ */
+static bool is_number (const std::string& value, bool allow_list) {
+
+    size_t digits = 0;
+
+    for (char c : value) {
+
+        if (c >= '0' && c <= '9' && digits < MAX_NUMBER_DIGITS)
+            digits++;
+        else if (c == ',' && digits > 0 && allow_list)
+            digits = 0;
+        else
+            return false;
+    }
+
+    return digits > 0;
+}
+
 void fht_worker (LazyFS* filesystem) {
     int fd_fifo, fd_fifo_completed;
     std::shared_mutex fifo_lock;
@@ -162,6 +189,14 @@ void fht_worker (LazyFS* filesystem) {
                 }
 
                 for (auto const& rgx : {crash_from_rgx, crash_to_rgx}) {
+
+                    // std::regex recurses to parse and match groups
+                    if (rgx.length () > MAX_REGEX_LENGTH) {
+                        VF = false;
+                        errors.push_back ("a regex is too long");
+                        continue;
+                    }
+
                     try {
                         std::regex test_rgx (rgx);
                     } catch (const std::regex_error& e) {
@@ -271,9 +306,8 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("parts=", 0) == 0) {
 
                         string tmp_parts = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"(\d+)");
 
-                        if (!std::regex_match(tmp_parts, pattern)) {
+                        if (!is_number (tmp_parts, false)) {
                             errors.push_back ("parts should be a number");
                             valid_fault = false;
                         } else 
@@ -283,9 +317,8 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("parts_bytes=", 0) == 0) {
                         
                         string tmp_parts_bytes = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"((\d+,)*\d+)");
 
-                        if (!std::regex_match(tmp_parts_bytes, pattern)) {
+                        if (!is_number (tmp_parts_bytes, true)) {
                             errors.push_back ("parts_bytes should be a list of numbers separated by commas");
                             valid_fault = false;
                         } else 
@@ -295,9 +328,8 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("persist=", 0) == 0) {
 
                         string tmp_persist = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"((\d+,)*\d+)");
 
-                        if (!std::regex_match(tmp_persist, pattern)) {
+                        if (!is_number (tmp_persist, true)) {
                             errors.push_back ("persist should be a list of numbers separated by commas");
                             valid_fault = false;
                         } else 
@@ -306,9 +338,8 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("occurrence=", 0) == 0) {
 
                         string tmp_occurrence = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"(\d+)");
 
-                        if (!std::regex_match(tmp_occurrence, pattern)) {
+                        if (!is_number (tmp_occurrence, false)) {
                             errors.push_back ("occurrence should be a number");
                             valid_fault = false;
                         } else
@@ -404,9 +435,8 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("persist=", 0) == 0) {
 
                         string tmp_per = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"((\d+,)*\d+)");
 
-                        if (!std::regex_match(tmp_per, pattern)) {
+                        if (!is_number (tmp_per, true)) {
                             errors.push_back ("persist should be a list of numbers separated by commas");
                             valid_fault = false;
                         } else 
@@ -415,9 +445,8 @@ void fht_worker (LazyFS* filesystem) {
                     } else if (current.rfind ("occurrence=", 0) == 0) {
 
                         string tmp_occurrence = current.erase (0, current.find ("=") + 1);
-                        std::regex pattern(R"(\d+)");
 
-                        if (!std::regex_match(tmp_occurrence, pattern)) {
+                        if (!is_number (tmp_occurrence, false)) {
                             errors.push_back ("occurrence should be a number");
                             valid_fault = false;
                         } else
-- 
2.43.0


From fb1f652e47b8b519d897e364d5fe43a3fe9744f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:46 +0000
Subject: [PATCH 58/69] fix: a command followed by a NUL byte is unknown

The line was compared up to its first NUL byte, so whatever followed one
was ignored and the command was executed.
---
 lazyfs/src/main.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index f983977..6ab56fa 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -252,7 +252,7 @@ void fht_worker (LazyFS* filesystem) {
                     }
                 }
 
-            } else if (!strcmp (buffer, "lazyfs::clear-cache")) {
+            } else if (command_str == "lazyfs::clear-cache") {
 
                 spdlog::info ("[lazyfs.faults.worker]: received '{}'", string (buffer));
                 filesystem->command_fault_clear_cache ();
@@ -489,23 +489,23 @@ void fht_worker (LazyFS* filesystem) {
                         }
                 }      
             
-            } else if (!strcmp (buffer, "lazyfs::display-cache-usage")) {
+            } else if (command_str == "lazyfs::display-cache-usage") {
 
                 spdlog::info ("[lazyfs.faults.worker]: received '{}'", string (buffer));
                 filesystem->command_display_cache_usage ();
 
-            } else if (!strcmp (buffer, "lazyfs::cache-checkpoint")) {
+            } else if (command_str == "lazyfs::cache-checkpoint") {
 
                 spdlog::info ("[lazyfs.faults.worker]: received '{}'", string (buffer));
                 filesystem->command_checkpoint ();
 
-            } else if (!strcmp (buffer, "lazyfs::unsynced-data-report")) {
+            } else if (command_str == "lazyfs::unsynced-data-report") {
 
                 spdlog::info ("[lazyfs.faults.worker]: received '{}'", string (buffer));
                 vector<string> injecting_fault = filesystem->get_injecting_fault ();
                 filesystem->command_unsynced_data_report (injecting_fault);
                 
-            } else if (!strcmp (buffer, "lazyfs::help")) {
+            } else if (command_str == "lazyfs::help") {
 
                 spdlog::info ("[lazyfs.faults.worker]: <" + string (buffer) + ">");
 
-- 
2.43.0


From e314984c8a102a7a1799a41c2aa942ee95180d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:52 +0000
Subject: [PATCH 59/69] fix: fsync persists files that only the descriptor
 allows to write

The pages were written through a descriptor opened by path, so the fsync of
a file whose permissions deny writing (e.g. created with mode 0444) failed
when LazyFS does not run as root.
---
 lazyfs/src/lazyfs.cpp                                      | 4 ++--
 libs/libpcache/include/cache/cache.hpp                     | 3 ++-
 .../include/cache/engine/backends/custom/custom_cache.hpp  | 2 +-
 libs/libpcache/include/cache/engine/page_cache.hpp         | 3 ++-
 libs/libpcache/src/cache.cpp                               | 4 ++--
 libs/libpcache/src/engine/backends/custom/custom_cache.cpp | 7 ++++++-
 6 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 0324ec3..43e0aea 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1688,10 +1688,10 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
     bool is_owner_cached = this_ ()->FSCache->has_content_cached (inode);
 
     if (isdatasync)
-        res = is_owner_cached ? this_ ()->FSCache->sync_owner (inode, true, (char*)path)
+        res = is_owner_cached ? this_ ()->FSCache->sync_owner (inode, true, (char*)path, fi->fh)
                               : fdatasync (fi->fh);
     else
-        res = is_owner_cached ? this_ ()->FSCache->sync_owner (inode, false, (char*)path)
+        res = is_owner_cached ? this_ ()->FSCache->sync_owner (inode, false, (char*)path, fi->fh)
                               : fsync (fi->fh);
 
 
diff --git a/libs/libpcache/include/cache/cache.hpp b/libs/libpcache/include/cache/cache.hpp
index f298beb..ec95bd8 100644
--- a/libs/libpcache/include/cache/cache.hpp
+++ b/libs/libpcache/include/cache/cache.hpp
@@ -273,9 +273,10 @@ class Cache {
      * @param owner the content id
      * @param only_sync_data only sync data from content
      * @param orig_path original path to write data
+     * @param fd_open descriptor the client has, used when the file's permissions deny opening it
      * @return int true if item was removed
      */
-    int sync_owner (string owner, bool only_sync_data, char* orig_path);
+    int sync_owner (string owner, bool only_sync_data, char* orig_path, int fd_open = -1);
 
     /**
      * @brief Renames an item id
diff --git a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
index 0784385..548d6aa 100644
--- a/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
+++ b/libs/libpcache/include/cache/engine/backends/custom/custom_cache.hpp
@@ -186,7 +186,7 @@ class CustomCacheEngine : public PageCacheEngine {
     void print_page_cache_engine ();
     double get_engine_usage ();
     bool remove_cached_blocks (string content_owner_id);
-    int sync_pages (string owner, off_t size, char* orig_path);
+    int sync_pages (string owner, off_t size, char* orig_path, int fd_open = -1);
     void make_block_readable_to_offset (string cid, int page_id, int block_id, int offset);
     bool rename_owner_pages (string old_owner, string new_owner);
     bool truncate_cached_blocks (string content_owner_id,
diff --git a/libs/libpcache/include/cache/engine/page_cache.hpp b/libs/libpcache/include/cache/engine/page_cache.hpp
index 56c405b..23b4040 100644
--- a/libs/libpcache/include/cache/engine/page_cache.hpp
+++ b/libs/libpcache/include/cache/engine/page_cache.hpp
@@ -155,9 +155,10 @@ class PageCacheEngine {
      * @param owner the content id
      * @param size final file size
      * @param orig_path original file name to sync data
+     * @param fd_open descriptor the client has, used when the file's permissions deny opening it
      * @return int 0 if the data is persisted, -errno otherwise
      */
-    virtual int sync_pages (string owner, off_t size, char* orig_path) = 0;
+    virtual int sync_pages (string owner, off_t size, char* orig_path, int fd_open = -1) = 0;
 
     /**
      * @brief Renames the content associated with an owner to the new owner
diff --git a/libs/libpcache/src/cache.cpp b/libs/libpcache/src/cache.cpp
index 33b048a..5d061e9 100644
--- a/libs/libpcache/src/cache.cpp
+++ b/libs/libpcache/src/cache.cpp
@@ -379,7 +379,7 @@ bool Cache::truncate_item (string owner, off_t new_size) {
     return true;
 }
 
-int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
+int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path, int fd_open) {
 
     std::unique_lock<shared_mutex> lock (lock_cache_mtx, std::defer_lock);
     lock.lock ();
@@ -399,7 +399,7 @@ int Cache::sync_owner (string owner, bool only_sync_data, char* orig_path) {
 
     off_t last_size = get_content_metadata (owner)->size;
 
-    res = this->engine->sync_pages (owner, last_size, orig_path);
+    res = this->engine->sync_pages (owner, last_size, orig_path, fd_open);
 
     if (res < 0) {
         unlockItem (owner);
diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index bcd2a85..6c63cd8 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -500,12 +500,17 @@ void CustomCacheEngine::make_block_readable_to_offset (string cid,
     }
 }
 
-int CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path) {
+int CustomCacheEngine::sync_pages (string owner, off_t size, char* orig_path, int fd_open) {
 
     std::unique_lock<std::shared_mutex> lock (lock_cache_mtx);
 
     int fd = open (orig_path, O_WRONLY);
 
+    // the file was opened for writing, its permissions may not allow it (anymore)
+    if (fd < 0 && errno == EACCES && fd_open >= 0 &&
+        (fcntl (fd_open, F_GETFL) & O_ACCMODE) != O_RDONLY)
+        fd = dup (fd_open);
+
     if (fd < 0) {
 
         // nothing is lost when there is nothing to persist (e.g. a read-only file)
-- 
2.43.0


From c768b03a10c7c2227f603f9334e7394c63a175b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:30 +0000
Subject: [PATCH 60/69] fix: writes use an open descriptor to read blocks

The rest of a block that is written in part was read through a descriptor
opened by path, so writes to a file open for reading and writing failed
when its permissions deny reading and LazyFS does not run as root.
---
 lazyfs/src/lazyfs.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 43e0aea..71055a0 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -1149,6 +1149,10 @@ int LazyFS::lfs_cached_write (const char* path,
         int fd_caching             = open (path, O_RDONLY);
         int open_errno             = errno;
 
+        // the file was opened for reading, its permissions may not allow it (anymore)
+        if (fd_caching < 0 && open_errno == EACCES && (fcntl (fd, F_GETFL) & O_ACCMODE) == O_RDWR)
+            fd_caching = dup (fd);
+
         // blocks can be larger than the stack
         std::unique_ptr<char[]> block_caching_memory (new char[IO_BLOCK_SIZE]);
         char* block_caching_buffer = block_caching_memory.get ();
-- 
2.43.0


From db46ac5b1e72993730271f0c6679502e6cd4653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:14 +0000
Subject: [PATCH 61/69] fix: overwriting a cached block is a use of its page

---
 libs/libpcache/src/engine/backends/custom/custom_cache.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
index 6c63cd8..acf6acc 100644
--- a/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
+++ b/libs/libpcache/src/engine/backends/custom/custom_cache.cpp
@@ -398,6 +398,10 @@ map<int, int> CustomCacheEngine::allocate_blocks (
                     this->owner_ordered_pages_mapping.at (content_owner_id).at (blk_id);
                 get<3> (owner_ref) = false;
 
+                // overwriting a block is a use of its page
+                if (this->config->APPLY_LRU_EVICTION)
+                    _apply_lru_after_page_visitation_on_WRITE (page_id);
+
                 lock.unlock ();
 
                 // skip page allocation algorithm
-- 
2.43.0


From e6907debe40f441a4a806e28981b9b9036f46de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:53 +0000
Subject: [PATCH 62/69] fix: new files have the permissions their creators ask
 for

---
 lazyfs/src/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lazyfs/src/main.cpp b/lazyfs/src/main.cpp
index 6ab56fa..9c8df98 100644
--- a/lazyfs/src/main.cpp
+++ b/lazyfs/src/main.cpp
@@ -681,6 +681,9 @@ int main (int argc, char* argv[]) {
 
     spdlog::info ("[lazyfs.fifo]: running LazyFS...");
 
+    // the permissions of new files are for their creators to choose, who have umasks of their own
+    umask (0);
+
     // Start LazyFS
 
     int status = fs.run (new_argc, new_argv.data ());
-- 
2.43.0


From 11624808e8695276e3545ff533ceef449fd39a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:18 +0000
Subject: [PATCH 63/69] fix: configured faults count overlapping operations
 apart

The number of an operation was read again after it: with several at the same
time the fault acted after another one, twice or never.
---
 lazyfs/src/lazyfs.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 71055a0..5ccb8da 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -206,7 +206,9 @@ void LazyFS::trigger_configured_clear_fault (string opname,
 
                 if ((is_multi_path && to_path == clear_fault->to) || !is_multi_path) {
                     
-                    int current_count = clear_fault->counter.load();
+                    // the same operation may be running in other threads, this one keeps its number until it ends
+                    static thread_local std::unordered_map<faults::ClearF*, int> current_counts;
+                    int& current_count = current_counts[clear_fault];
                     if (optiming == "before") {
                         current_count = clear_fault->counter.fetch_add(1) + 1;
                     }
-- 
2.43.0


From 6790fd9cec01c4e50cebb4137dfd181a55995771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:18 +0000
Subject: [PATCH 64/69] fix: writes through different hard links of a file do
 not lose each other

Hard links are different inodes for the kernel, so its locks do not order their
writes, truncates and syncs: zero filling overwrote what was written meanwhile.
---
 lazyfs/src/lazyfs.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index 5ccb8da..d034f0b 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -43,11 +43,12 @@ using namespace cache::engine::backends::custom;
 
 std::shared_mutex cache_command_lock;
 
-// a read must not overlap with a truncate of the same file (which may share a lock with others)
-static std::array<std::shared_mutex, 64> truncate_locks;
+// a read must not overlap with a truncate of the same file (which may share a lock with others), and
+// writes, truncates and syncs not with each other: for the kernel hard links are different files
+static std::array<std::shared_mutex, 64> file_locks;
 
-static std::shared_mutex& truncate_lock_of (ino_t inode) {
-    return truncate_locks[inode % truncate_locks.size ()];
+static std::shared_mutex& file_lock_of (ino_t inode) {
+    return file_locks[inode % file_locks.size ()];
 }
 
 namespace lazyfs {
@@ -1004,7 +1005,15 @@ int LazyFS::lfs_write (const char* path,
         spdlog::info ("[lazyfs.ops]: {}(path={},size={},off={})", __FUNCTION__, path, size, offset);
     }
 
-    int res = lfs_cached_write (path, buf, size, offset, fi);
+    struct stat stats;
+    int res = fi != NULL ? fstat (fi->fh, &stats) : lstat (path, &stats);
+
+    if (res == -1)
+        return -errno;
+
+    std::unique_lock<std::shared_mutex> file_lock (file_lock_of (stats.st_ino));
+
+    res = lfs_cached_write (path, buf, size, offset, fi);
 
     if (res < 0)
         return res;
@@ -1021,6 +1030,7 @@ int LazyFS::lfs_write (const char* path,
     if (crash_added)
         this_ ()->crash ("write", "after");
 
+    file_lock.unlock ();
     lock.unlock ();
 
     this_ ()->trigger_crash_fault ("write", "after", path, "",fault_type);
@@ -1443,7 +1453,7 @@ int LazyFS::lfs_read (const char* path,
         return res;
     }
 
-    std::shared_lock<std::shared_mutex> file_lock (truncate_lock_of (stats.st_ino));
+    std::shared_lock<std::shared_mutex> file_lock (file_lock_of (stats.st_ino));
 
     string inode = this_ ()->FSCache->get_original_inode (OWNER);
 
@@ -1684,7 +1694,9 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
 
     if (res < 0)
         return res;
-    
+
+    std::unique_lock<std::shared_mutex> file_lock (file_lock_of (stats.st_ino));
+
     this_ ()->restart_counter(path,"write"); //Reset counter of op write for this path
     this_ ()->check_and_delete_pendingwrite(path); //If there's a pending write, remove it
 
@@ -1700,7 +1712,7 @@ int LazyFS::lfs_fsync (const char* path, int isdatasync, struct fuse_file_info*
         res = is_owner_cached ? this_ ()->FSCache->sync_owner (inode, false, (char*)path, fi->fh)
                               : fsync (fi->fh);
 
-
+    file_lock.unlock ();
     lock.unlock ();
 
     this_ ()->trigger_crash_fault ("fsync", "after", path, "", CLEAR);
@@ -1811,7 +1823,7 @@ int LazyFS::lfs_truncate (const char* path, off_t truncate_size, struct fuse_fil
     if (res < 0)
         return res;
 
-    std::unique_lock<std::shared_mutex> file_lock (truncate_lock_of (stats.st_ino));
+    std::unique_lock<std::shared_mutex> file_lock (file_lock_of (stats.st_ino));
 
     string owner (path);
     string inode = this_ ()->FSCache->get_original_inode (owner);
-- 
2.43.0


From 705fb7b620b3323126c442996744a285258379c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:18 +0000
Subject: [PATCH 65/69] fix: the mount scripts quote the paths they are given

---
 lazyfs/scripts/mount-lazyfs.sh  | 8 ++++----
 lazyfs/scripts/umount-lazyfs.sh | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lazyfs/scripts/mount-lazyfs.sh b/lazyfs/scripts/mount-lazyfs.sh
index 8ec0d6a..3016cc4 100755
--- a/lazyfs/scripts/mount-lazyfs.sh
+++ b/lazyfs/scripts/mount-lazyfs.sh
@@ -65,15 +65,15 @@ if [ ! -d "$ROOT_DIR" ]; then
 fi
 
 echo "Creating ROOT_DIR=$ROOT_DIR and MOUNT_DIR=$MOUNT_DIR"    
-mkdir -p $MOUNT_DIR
-mkdir -p $ROOT_DIR
+mkdir -p "$MOUNT_DIR"
+mkdir -p "$ROOT_DIR"
 echo "Using config '${CMD_CONFIG}'"    
 echo -e "Running LazyFS (stop with ctrl+c or umount-lazyfs.sh)...\n"
 if [ -z "$CMD_FG" ]; then
    echo -e "(running in no foreground mode)\n"
    echo -e "Note: run in foreground to see the <stdio> logs.\n"
-   ./build/lazyfs $MOUNT_DIR --config-path $CMD_CONFIG -o allow_other -o modules=subdir -o subdir=$ROOT_DIR &
+   ./build/lazyfs "$MOUNT_DIR" --config-path "$CMD_CONFIG" -o allow_other -o modules=subdir -o "subdir=$ROOT_DIR" &
 else
    echo -e "(running in foreground mode)\n"
-   ./build/lazyfs $MOUNT_DIR --config-path $CMD_CONFIG -o allow_other -o modules=subdir -o subdir=$ROOT_DIR -f
+   ./build/lazyfs "$MOUNT_DIR" --config-path "$CMD_CONFIG" -o allow_other -o modules=subdir -o "subdir=$ROOT_DIR" -f
 fi
diff --git a/lazyfs/scripts/umount-lazyfs.sh b/lazyfs/scripts/umount-lazyfs.sh
index f9dbd97..e71d6b5 100755
--- a/lazyfs/scripts/umount-lazyfs.sh
+++ b/lazyfs/scripts/umount-lazyfs.sh
@@ -38,4 +38,4 @@ done
 set -- "${POSITIONAL_ARGS[@]}"
 
 echo "Umounting FUSE on $MOUNT_DIR..."
-fusermount3 -u ${MOUNT_DIR}
\ No newline at end of file
+fusermount3 -u "${MOUNT_DIR}"
\ No newline at end of file
-- 
2.43.0


From 91a1ea3bdbb5db3cd7f92ae5258d03fcb903c9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:18 +0000
Subject: [PATCH 66/69] fix: the mount scripts report unknown options instead
 of looping

---
 lazyfs/scripts/mount-lazyfs.sh  | 4 ++++
 lazyfs/scripts/umount-lazyfs.sh | 3 +--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lazyfs/scripts/mount-lazyfs.sh b/lazyfs/scripts/mount-lazyfs.sh
index 3016cc4..093d9b3 100755
--- a/lazyfs/scripts/mount-lazyfs.sh
+++ b/lazyfs/scripts/mount-lazyfs.sh
@@ -44,6 +44,10 @@ while [[ $# -gt 0 ]]; do
       echo -e "$HELP_MSG"
       exit
       ;;
+    *)
+      echo "Unknown option $1"
+      exit 1
+      ;;
   esac
 done
 
diff --git a/lazyfs/scripts/umount-lazyfs.sh b/lazyfs/scripts/umount-lazyfs.sh
index e71d6b5..a1fcf50 100755
--- a/lazyfs/scripts/umount-lazyfs.sh
+++ b/lazyfs/scripts/umount-lazyfs.sh
@@ -27,11 +27,10 @@ while [[ $# -gt 0 ]]; do
       echo -e "$HELP_MSG"
       exit
       ;;
-    -*|--*)
+    *)
       echo "Unknown option $1"
       exit 1
       ;;
-    *)
   esac
 done
 
-- 
2.43.0


From 78d67a4ea0d3bcf443f4ce14cd74b7da4062a262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:18 +0000
Subject: [PATCH 67/69] fix: the mount script ends with an error when something
 does not exist

---
 lazyfs/scripts/mount-lazyfs.sh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lazyfs/scripts/mount-lazyfs.sh b/lazyfs/scripts/mount-lazyfs.sh
index 093d9b3..0f72b30 100755
--- a/lazyfs/scripts/mount-lazyfs.sh
+++ b/lazyfs/scripts/mount-lazyfs.sh
@@ -55,17 +55,17 @@ set -- "${POSITIONAL_ARGS[@]}"
 
 if [ ! -f "$CMD_CONFIG" ]; then
     echo "Error: Configuration file '${CMD_CONFIG}' does not exist."    
-    exit
+    exit 1
 fi
 
 if [ ! -d "$MOUNT_DIR" ]; then
     echo "Error: Mount directory '${MOUNT_DIR}' does not exist."    
-    exit
+    exit 1
 fi
 
 if [ ! -d "$ROOT_DIR" ]; then
     echo "Error: Root directory '${ROOT_DIR}' does not exist."    
-    exit
+    exit 1
 fi
 
 echo "Creating ROOT_DIR=$ROOT_DIR and MOUNT_DIR=$MOUNT_DIR"    
-- 
2.43.0


From 6e34efea6b5a0c5e3096eac27c9bf013a66d9087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:18 +0000
Subject: [PATCH 68/69] fix: the mount script accepts relative roots and commas
 in names

---
 lazyfs/scripts/mount-lazyfs.sh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lazyfs/scripts/mount-lazyfs.sh b/lazyfs/scripts/mount-lazyfs.sh
index 0f72b30..aa50f58 100755
--- a/lazyfs/scripts/mount-lazyfs.sh
+++ b/lazyfs/scripts/mount-lazyfs.sh
@@ -71,6 +71,12 @@ fi
 echo "Creating ROOT_DIR=$ROOT_DIR and MOUNT_DIR=$MOUNT_DIR"    
 mkdir -p "$MOUNT_DIR"
 mkdir -p "$ROOT_DIR"
+
+# LazyFS changes its working directory, and FUSE separates options with commas
+ROOT_DIR=$(realpath "$ROOT_DIR")
+ROOT_DIR=${ROOT_DIR//\\/\\\\}
+ROOT_DIR=${ROOT_DIR//,/\\,}
+
 echo "Using config '${CMD_CONFIG}'"    
 echo -e "Running LazyFS (stop with ctrl+c or umount-lazyfs.sh)...\n"
 if [ -z "$CMD_FG" ]; then
-- 
2.43.0


From b81ad1ee4875d614892ccf03fa2ff8adbbb756d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:15 +0000
Subject: [PATCH 69/69] fix: names of a file removed at the same time keep its
 cached data while one is left

---
 lazyfs/src/lazyfs.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lazyfs/src/lazyfs.cpp b/lazyfs/src/lazyfs.cpp
index d034f0b..91518f0 100644
--- a/lazyfs/src/lazyfs.cpp
+++ b/lazyfs/src/lazyfs.cpp
@@ -44,7 +44,8 @@ using namespace cache::engine::backends::custom;
 std::shared_mutex cache_command_lock;
 
 // a read must not overlap with a truncate of the same file (which may share a lock with others), and
-// writes, truncates and syncs not with each other: for the kernel hard links are different files
+// writes, truncates and syncs not with each other: for the kernel hard links are different files,
+// and names of a file that are removed at the same time are counted one after the other
 static std::array<std::shared_mutex, 64> file_locks;
 
 static std::shared_mutex& file_lock_of (ino_t inode) {
@@ -1785,6 +1786,10 @@ int LazyFS::lfs_rename (const char* from, const char* to, unsigned int flags) {
 
         } else {
 
+            std::unique_lock<std::shared_mutex> file_lock;
+            if (to_exists)
+                file_lock = std::unique_lock<std::shared_mutex> (file_lock_of (to_stat.st_ino));
+
             refresh_links (this_ ()->FSCache, fd_replaced);
             this_ ()->FSCache->rename_item (from, to);
         }
@@ -2255,6 +2260,7 @@ int LazyFS::lfs_unlink (const char* path) {
     int unlink_errno = errno;
 
     if (res == 0 && !inode.empty ()) {
+        std::unique_lock<std::shared_mutex> file_lock (file_lock_of (stoull (inode)));
         refresh_links (this_ ()->FSCache, fd_inode);
         this_ ()->FSCache->remove_cached_item (inode, path, false);
     }
-- 
2.43.0

