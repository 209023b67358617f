From 081595af43788d69d33efe23c9db13649ef9bb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:17 +0000
Subject: [PATCH 01/35] fix: return outstanding oversized blocks when a memory
 pool is destroyed

The destructor of the pool is documented to free all allocations. It did so
for all of the pooled blocks, but only for the oversized/overaligned blocks
that were sitting in the cache at that moment.
---
 core/src/memory/details/pool_memory_resource_impl.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index a2d78be..1678b13 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -87,8 +87,9 @@ pool_memory_resource_impl::~pool_memory_resource_impl() {
                                     m_options.alignment);
     }
 
-    // Deallocate the cached oversized/overaligned memory.
-    for (oversized_block_descriptor& block : m_cached_oversized) {
+    // Deallocate all of the oversized/overaligned memory, whether it is cached
+    // at the moment, or was never returned by the client.
+    for (oversized_block_descriptor& block : m_oversized) {
         m_upstream.get().deallocate(block.pointer, block.size, block.alignment);
     }
 }
-- 
2.43.0


From 93fbc4742cdbf743cf69c5fa965ec5ef965ce5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:17 +0000
Subject: [PATCH 02/35] fix: do not lose upstream memory in the pool on a
 bookkeeping failure

When one of the bookkeeping vectors could not be grown after the upstream
allocation succeeded, the upstream memory was leaked. Similarly, returning a
block to the pool could throw std::bad_alloc, and lose the block. The memory
for the bookkeeping is now reserved before going to upstream.
---
 .../details/pool_memory_resource_impl.cpp     | 29 +++++++++++++++++++
 .../details/pool_memory_resource_impl.hpp     |  3 ++
 2 files changed, 32 insertions(+)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index 1678b13..58dd5ac 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -64,6 +64,22 @@ void check_valid(const pool_memory_resource::options& opts) {
     CHECK_VALID(opts.alignment > opts.smallest_block_size);
 }
 
+/// Make sure that a vector can grow to a given size without an allocation
+///
+/// Unlike a bare @c std::vector::reserve, it keeps growing the storage
+/// geometrically.
+///
+/// @param vec  The vector to reserve memory for
+/// @param size The size that the vector needs to be able to grow to
+///
+template <typename T>
+void reserve_for(std::vector<T>& vec, std::size_t size) {
+
+    if (size > vec.capacity()) {
+        vec.reserve(std::max(size, 2 * vec.capacity()));
+    }
+}
+
 }  // namespace
 
 pool_memory_resource_impl::pool_memory_resource_impl(
@@ -160,6 +176,13 @@ void* pool_memory_resource_impl::allocate(std::size_t bytes,
             }
         }
 
+        // Make sure that neither remembering, nor later on caching the new
+        // block could fail.
+        reserve_for(m_oversized, m_oversized.size() + 1);
+        if (m_options.cache_oversized) {
+            reserve_for(m_cached_oversized, m_oversized.size() + 1);
+        }
+
         // No fitting cached block found; allocate a new one that's just up to
         // the specs.
         oversized.pointer = m_upstream.get().allocate(bytes, alignment);
@@ -203,12 +226,18 @@ void* pool_memory_resource_impl::allocate(std::size_t bytes,
         assert(bytes >= m_options.min_bytes_per_chunk);
         assert(bytes <= m_options.max_bytes_per_chunk);
 
+        // Make sure that remembering the new chunk, and handling its blocks,
+        // could not fail.
+        reserve_for(m_allocated, m_allocated.size() + 1);
+        reserve_for(bucket.free_blocks, bucket.total_blocks + n);
+
         chunk_descriptor allocated;
         allocated.size = bytes;
         allocated.pointer =
             m_upstream.get().allocate(bytes, m_options.alignment);
         m_allocated.push_back(allocated);
         bucket.previous_allocated_count = n;
+        bucket.total_blocks += n;
 
         for (std::size_t i = 0; i < n; ++i) {
             bucket.free_blocks.push_back(static_cast<void*>(
diff --git a/core/src/memory/details/pool_memory_resource_impl.hpp b/core/src/memory/details/pool_memory_resource_impl.hpp
index b2d563d..8a86ef2 100644
--- a/core/src/memory/details/pool_memory_resource_impl.hpp
+++ b/core/src/memory/details/pool_memory_resource_impl.hpp
@@ -65,7 +65,10 @@ private:
     struct pool {
         /// Available blocks, ready for use
         std::vector<void*> free_blocks;
+        /// Number of blocks in the chunk that was allocated last
         std::size_t previous_allocated_count = 0u;
+        /// Number of blocks in all of the chunks allocated so far
+        std::size_t total_blocks = 0u;
     };
 
     /// Helper variable, with the base-2 log of the smallest block size
-- 
2.43.0


From fe9e10f5501e772b6a0a10022abd720aa9a1e4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:17 +0000
Subject: [PATCH 03/35] fix: never request empty chunks in the memory pool

With a zero min_blocks_per_chunk option, which is accepted by the options'
validity check, the pool could end up requesting a 0 byte sized chunk, and then
serving a block from an empty free list.
---
 core/src/memory/details/pool_memory_resource_impl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index 58dd5ac..a0cc2f2 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -218,6 +218,11 @@ void* pool_memory_resource_impl::allocate(std::size_t bytes,
                 n = m_options.max_blocks_per_chunk;
             }
         }
+        // A chunk must provide at least one block, even if the options set no
+        // lower limit on the size of the chunks.
+        if (n == 0) {
+            n = 1;
+        }
 
         bytes = n << bytes_log2;
 
-- 
2.43.0


From 5b30fbd9ca054b34ecbc8e14111100bc2bfea040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 04/35] fix: honour alignment and reject oversized requests in
 the binary page resource

Pages were only as aligned as the (default aligned) superpage allowed, and
requests larger than the largest representable page were silently served
with a page of the minimum size.
---
 .../binary_page_memory_resource_impl.cpp      | 54 +++++++++++++------
 .../binary_page_memory_resource_impl.hpp      | 27 +++++++---
 2 files changed, 58 insertions(+), 23 deletions(-)

diff --git a/core/src/memory/details/binary_page_memory_resource_impl.cpp b/core/src/memory/details/binary_page_memory_resource_impl.cpp
index 33741eb..e7857c1 100644
--- a/core/src/memory/details/binary_page_memory_resource_impl.cpp
+++ b/core/src/memory/details/binary_page_memory_resource_impl.cpp
@@ -15,7 +15,9 @@
 // System include(s).
 #include <algorithm>
 #include <cassert>
+#include <cstddef>
 #include <memory>
+#include <new>
 #include <optional>
 #include <stdexcept>
 
@@ -26,12 +28,21 @@ binary_page_memory_resource_impl::binary_page_memory_resource_impl(
     : m_upstream(upstream) {}
 
 void *binary_page_memory_resource_impl::allocate(std::size_t size,
-                                                 std::size_t) {
+                                                 std::size_t align) {
+    /*
+     * Requests larger than our largest possible page can never be satisfied.
+     */
+    if (size > max_request_size) {
+        throw std::bad_alloc();
+    }
+
     /*
      * First, we round our allocation request up to a power of two, since
-     * that is what the sizes of all our pages are.
+     * that is what the sizes of all our pages are. Pages sit at multiples of
+     * their own size inside of their superpage, so a page that is at least as
+     * big as the requested alignment is aligned as well as its superpage is.
      */
-    std::size_t goal = std::max(min_page_size, round_up(size));
+    std::size_t goal = std::max(min_page_size, round_up(std::max(size, align)));
 
     VECMEM_DEBUG_MSG(3,
                      "Request received to allocate %ld bytes, looking for page "
@@ -41,7 +52,7 @@ void *binary_page_memory_resource_impl::allocate(std::size_t size,
     /*
      * Attempt to find a free page that can fit our allocation goal.
      */
-    std::optional<page_ref> cand = find_free_page(goal);
+    std::optional<page_ref> cand = find_free_page(goal, align);
 
     /*
      * If we don't have a candidate, there is no available page that can fit
@@ -51,9 +62,9 @@ void *binary_page_memory_resource_impl::allocate(std::size_t size,
     if (!cand) {
         VECMEM_DEBUG_MSG(
             5, "No suitable page found, requesting upstream allocation");
-        allocate_upstream(goal);
+        allocate_upstream(goal, align);
 
-        cand = find_free_page(goal);
+        cand = find_free_page(goal, align);
     }
 
     /*
@@ -99,7 +110,7 @@ void *binary_page_memory_resource_impl::allocate(std::size_t size,
 }
 
 void binary_page_memory_resource_impl::deallocate(void *p, std::size_t s,
-                                                  std::size_t) {
+                                                  std::size_t align) {
     VECMEM_DEBUG_MSG(2, "De-allocating memory at %p", p);
 
     /*
@@ -137,7 +148,8 @@ void binary_page_memory_resource_impl::deallocate(void *p, std::size_t s,
      * the memory gives us the offset from the first page of that size, which
      * allows us to easily find the page we're looking for.
      */
-    std::size_t goal = std::max(sp->get().m_min_page_size, round_up(s));
+    std::size_t goal =
+        std::max(sp->get().m_min_page_size, round_up(std::max(s, align)));
     std::size_t p_min = 0;
     for (; page_ref(sp->get(), p_min).get_size() > goal; p_min = 2 * p_min + 1)
         ;
@@ -178,7 +190,8 @@ void binary_page_memory_resource_impl::deallocate(void *p, std::size_t s,
 }
 
 std::optional<binary_page_memory_resource_impl::page_ref>
-binary_page_memory_resource_impl::find_free_page(std::size_t size) {
+binary_page_memory_resource_impl::find_free_page(std::size_t size,
+                                                 std::size_t align) {
     bool candidate_sp_found;
     std::size_t search_size = size;
 
@@ -199,9 +212,11 @@ binary_page_memory_resource_impl::find_free_page(std::size_t size) {
             /*
              * For each superpage, we check if the total size is enougn to
              * support the page size we're looking for. If not, we will never
-             * find such a page in this superpage.
+             * find such a page in this superpage. The same is true if the
+             * superpage itself is not aligned strictly enough.
              */
-            if (size >= sp.m_min_page_size && search_size <= sp.m_size) {
+            if (size >= sp.m_min_page_size && search_size <= sp.m_size &&
+                align <= sp.m_align) {
                 candidate_sp_found = true;
 
                 /*
@@ -242,28 +257,33 @@ binary_page_memory_resource_impl::find_free_page(std::size_t size) {
     return {};
 }
 
-void binary_page_memory_resource_impl::allocate_upstream(std::size_t size) {
+void binary_page_memory_resource_impl::allocate_upstream(std::size_t size,
+                                                         std::size_t align) {
     /*
      * Add our new page to the list of root pages.
      */
     if (size >= min_superpage_size) {
-        m_superpages.emplace_back(size, m_upstream);
+        m_superpages.emplace_back(size, align, m_upstream);
     } else {
         m_superpages.emplace_back(
-            std::min(size + delta_superpage_size, min_superpage_size),
+            std::min(size + delta_superpage_size, min_superpage_size), align,
             m_upstream);
     }
 }
 
 binary_page_memory_resource_impl::superpage::superpage(
-    std::size_t size, memory_resource &resource)
+    std::size_t size, std::size_t align, memory_resource &resource)
     : m_size(size),
+      m_align(std::max(align, alignof(std::max_align_t))),
       m_min_page_size((assert(m_size - delta_superpage_size >= min_page_size),
                        m_size - delta_superpage_size)),
       m_num_pages((2UL << (m_size - m_min_page_size)) - 1),
       m_pages(std::make_unique<page_state[]>(m_num_pages)),
-      m_memory(make_unique_alloc<std::byte[]>(
-          resource, static_cast<std::size_t>(1UL) << m_size)) {
+      m_memory(static_cast<std::byte *>(resource.allocate(
+                   static_cast<std::size_t>(1UL) << m_size, m_align)),
+               unique_alloc_deleter<std::byte[]>(
+                   resource, static_cast<std::size_t>(1UL) << m_size,
+                   m_align)) {
     /*
      * Set all pages as non-extant, except the first one.
      */
diff --git a/core/src/memory/details/binary_page_memory_resource_impl.hpp b/core/src/memory/details/binary_page_memory_resource_impl.hpp
index a7cc001..7bc2769 100644
--- a/core/src/memory/details/binary_page_memory_resource_impl.hpp
+++ b/core/src/memory/details/binary_page_memory_resource_impl.hpp
@@ -15,6 +15,7 @@
 // System include(s).
 #include <cstddef>
 #include <functional>
+#include <limits>
 #include <memory>
 #include <optional>
 #include <vector>
@@ -55,6 +56,13 @@ struct binary_page_memory_resource_impl {
      */
     static constexpr std::size_t min_page_size = 8;
 
+    /**
+     * @brief The largest request (in bytes) that a page can represent.
+     */
+    static constexpr std::size_t max_request_size =
+        static_cast<std::size_t>(1UL)
+        << (std::numeric_limits<std::size_t>::digits - 1);
+
     /// Constructor, on top of another memory resource
     binary_page_memory_resource_impl(memory_resource &upstream);
 
@@ -76,10 +84,10 @@ struct binary_page_memory_resource_impl {
      */
     struct superpage {
         /**
-         * @brief Construct a superpage with a given size and upstream
-         * resource.
+         * @brief Construct a superpage with a given size, alignment and
+         * upstream resource.
          */
-        superpage(std::size_t, memory_resource &);
+        superpage(std::size_t, std::size_t, memory_resource &);
 
         /**
          * @brief Return the total number of pages in the superpage.
@@ -92,6 +100,12 @@ struct binary_page_memory_resource_impl {
          */
         std::size_t m_size;
 
+        /**
+         * @brief Alignment (in bytes) of the allocation represented by this
+         * superpage.
+         */
+        std::size_t m_align;
+
         /**
          * @brief The size of the smallest page in this superpage.
          */
@@ -260,14 +274,15 @@ struct binary_page_memory_resource_impl {
     /// @}
 
     /**
-     * @brief Find the smallest free page that could fit the requested size.
+     * @brief Find the smallest free page that could fit the requested size
+     * and alignment.
      *
      * Note that this method might return split pages if both children are
      * free. In that case, the page should first be unsplit. In some cases,
      * the returned page might be (significantly) larger than the request,
      * and should be split before allocating.
      */
-    std::optional<page_ref> find_free_page(std::size_t);
+    std::optional<page_ref> find_free_page(std::size_t, std::size_t);
 
     /**
      * @brief Perform an upstream allocation.
@@ -276,7 +291,7 @@ struct binary_page_memory_resource_impl {
      * resource and immediately creates a page to represent this new chunk
      * of memory.
      */
-    void allocate_upstream(std::size_t);
+    void allocate_upstream(std::size_t, std::size_t);
 
     memory_resource &m_upstream;
     std::vector<superpage> m_superpages;
-- 
2.43.0


From e09c18f9e70d20ae965b9b14d8c0a0963afb4597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:03 +0000
Subject: [PATCH 05/35] fix: never lose or hand out twice the superblocks of
 the arena memory resource

Requests larger than a superblock returned null pointers, large blocks were
never re-used, adjacent superblocks were merged and returned upstream with
pointers and sizes that were never received from it, and an empty list of
free blocks was dereferenced.
---
 .../details/arena_memory_resource_impl.cpp    | 176 +++++++-----------
 .../details/arena_memory_resource_impl.hpp    |  31 +--
 2 files changed, 82 insertions(+), 125 deletions(-)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index 54692b6..aaa4a08 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -12,6 +12,8 @@
 // System include(s).
 #include <algorithm>
 #include <cassert>
+#include <iterator>
+#include <utility>
 
 namespace {
 
@@ -98,21 +100,14 @@ arena_memory_resource_impl::arena_memory_resource_impl(std::size_t initial_size,
         }
     }
     // initial size exceeds the maxium pool size
-    this->free_blocks_.emplace(this->expand_arena(initial_size));
+    this->expand_arena(initial_size);
 }
 
 arena_memory_resource_impl::~arena_memory_resource_impl() {
 
-    for (auto itr = allocated_blocks_.begin();
-         itr != allocated_blocks_.end();) {
-        auto aux = itr++;
-        deallocate(aux->pointer(), aux->size());
-    }
-
-    for (auto itr = free_blocks_.begin(); itr != free_blocks_.end();) {
-        auto aux = itr++;
-        void* p = aux->pointer();
-        std::size_t size = aux->size();
+    // Return every superblock to the upstream resource exactly as it was
+    // received, whether or not all the blocks inside of it were de-allocated.
+    for (auto const& [p, size] : superblocks_) {
         mm_.deallocate(p, size);
     }
 }
@@ -121,143 +116,102 @@ void* arena_memory_resource_impl::allocate(std::size_t bytes, std::size_t) {
 
     bytes = align_up(bytes);
 
-    auto const b = get_block(bytes);
-    this->allocated_blocks_.emplace(b);
-
-    return b.pointer();
+    return get_block(bytes).pointer();
 }
 
-bool arena_memory_resource_impl::deallocate(void* p, std::size_t bytes,
+bool arena_memory_resource_impl::deallocate(void* p, std::size_t,
                                             std::size_t) {
 
-    bytes = align_up(bytes);
-
-    auto const b = free_block(p, bytes);
-    if (b.is_valid()) {
-        coalesce_block(free_blocks_, b);
+    auto const i = allocated_blocks_.find(block{p, 0});
+    if (i == allocated_blocks_.end()) {
+        return false;
     }
-
-    return b.is_valid();
+    coalesce_block(allocated_blocks_.extract(i));
+    return true;
 }
 
 arena_memory_resource_impl::block arena_memory_resource_impl::first_fit(
-    std::set<block>& free_blocks, std::size_t size) {
+    std::size_t size) {
 
     auto const iter =
-        std::find_if(free_blocks.cbegin(), free_blocks.cend(),
+        std::find_if(free_blocks_.cbegin(), free_blocks_.cend(),
                      [size](auto const& b) { return b.fits(size); });
 
-    if (iter == free_blocks.cend()) {
+    if (iter == free_blocks_.cend()) {
         return {};
-    } else {
-        // remove the block from the freeList
-        auto const b = *iter;
-        auto const i = free_blocks.erase(iter);
-
-        if (b.size() > size) {
-            // split the block and put the remainder back.
-            auto const split = b.split(size);
-            free_blocks.insert(i, split.second);
-            return split.first;
-        } else {
-            // b.size == size then return b
-            return b;
-        }
     }
-}
 
-arena_memory_resource_impl::block arena_memory_resource_impl::coalesce_block(
-    std::set<block>& free_blocks, block const& b) {
+    // split the block if necessary, and put the remainder back. This is the
+    // only step that could fail, so nothing is modified before it.
+    auto const split = iter->split(size);
+    if (split.second.is_valid()) {
+        free_blocks_.insert(std::next(iter), split.second);
+    }
+
+    // move the block from the free list to the list of allocated blocks
+    auto node = free_blocks_.extract(iter);
+    node.value() = split.first;
+    return *(allocated_blocks_.insert(std::move(node)).position);
+}
 
-    // return the given block in case is not valid
-    if (!b.is_valid())
-        return b;
+void arena_memory_resource_impl::coalesce_block(
+    std::set<block>::node_type node) {
 
     // find the right place (in ascending address order) to insert the block
-    auto const next = free_blocks.lower_bound(b);
-    auto const previous = next == free_blocks.cbegin() ? next : std::prev(next);
-
-    // coalesce with neighboring blocks
-    bool const merge_prev = previous->is_contiguous_before(b);
-    bool const merge_next =
-        next != free_blocks.cend() && b.is_contiguous_before(*next);
-
-    block merged{};
-    if (merge_prev && merge_next) {
-        // if can merge with prev and next neighbors
-        merged = previous->merge(b).merge(*next);
-
-        free_blocks.erase(previous);
-
-        auto const i = free_blocks.erase(next);
-        free_blocks.insert(i, merged);
-    } else if (merge_prev) {
-        // if only can merge with prev neighbor
-        merged = previous->merge(b);
-
-        auto const i = free_blocks.erase(previous);
-        free_blocks.insert(i, merged);
-    } else if (merge_next) {
-        // if only can merge with next neighbor
-        merged = b.merge(*next);
-
-        auto const i = free_blocks.erase(next);
-        free_blocks.insert(i, merged);
-    } else {
-        // if can't be merge with either
-        free_blocks.emplace(b);
-        merged = b;
+    auto const next = free_blocks_.lower_bound(node.value());
+
+    // coalesce with the neighboring blocks, as long as they belong to the same
+    // superblock. (Superblocks may happen to be adjacent to each other.)
+    if (next != free_blocks_.cend() &&
+        node.value().is_contiguous_before(*next) &&
+        superblocks_.count(next->pointer()) == 0) {
+        node.value() = node.value().merge(*next);
+        free_blocks_.erase(next);
+    }
+    auto const after = free_blocks_.lower_bound(node.value());
+    if (after != free_blocks_.cbegin()) {
+        auto const previous = std::prev(after);
+        if (previous->is_contiguous_before(node.value()) &&
+            superblocks_.count(node.value().pointer()) == 0) {
+            node.value() = previous->merge(node.value());
+            free_blocks_.erase(previous);
+        }
     }
 
-    return merged;
+    free_blocks_.insert(std::move(node));
 }
 
 arena_memory_resource_impl::block arena_memory_resource_impl::get_block(
     std::size_t size) {
 
-    if (size < minimum_superblock_size) {
-        auto const b = first_fit(this->free_blocks_, size);
-        if (b.is_valid()) {
-            return b;
-        }
+    auto const b = first_fit(size);
+    if (b.is_valid()) {
+        return b;
     }
 
-    auto const superblock = expand_arena(size);
-    coalesce_block(this->free_blocks_, superblock);
-    return first_fit(this->free_blocks_, size);
+    expand_arena(size);
+    return first_fit(size);
 }
 
-arena_memory_resource_impl::block arena_memory_resource_impl::expand_arena(
-    std::size_t size) {
+void arena_memory_resource_impl::expand_arena(std::size_t size) {
 
     if (size > this->size_superblocks_)
-        size = minimum_superblock_size;
+        size = std::max(size, minimum_superblock_size);
     else {
         size = size_superblocks_;
     }
-    std::pair<std::set<block>::iterator, bool> ret =
-        free_blocks_.insert({mm_.allocate(size), size});
-
-    current_size_ += size;
-    return *(ret.first);
-}
-
-arena_memory_resource_impl::block arena_memory_resource_impl::free_block(
-    void* p, std::size_t /*size*/) noexcept {
 
-    auto const i =
-        std::find_if(allocated_blocks_.cbegin(), allocated_blocks_.cend(),
-                     [p](auto const& b) { return b.pointer() == p; });
-
-    if (i == this->allocated_blocks_.end()) {
-        return {};
+    void* const p = mm_.allocate(size);
+    try {
+        superblocks_.emplace(p, size);
+        free_blocks_.emplace(p, size);
+    } catch (...) {
+        superblocks_.erase(p);
+        mm_.deallocate(p, size);
+        throw;
     }
 
-    auto const found = *i;
-
-    this->allocated_blocks_.erase(i);
-
-    return found;
+    current_size_ += size;
 }
 
 }  // namespace vecmem::details
diff --git a/core/src/memory/details/arena_memory_resource_impl.hpp b/core/src/memory/details/arena_memory_resource_impl.hpp
index 7c290f8..3a43975 100644
--- a/core/src/memory/details/arena_memory_resource_impl.hpp
+++ b/core/src/memory/details/arena_memory_resource_impl.hpp
@@ -14,6 +14,7 @@
 // System include(s).
 #include <cstddef>
 #include <limits>
+#include <map>
 #include <set>
 
 namespace vecmem::details {
@@ -117,8 +118,17 @@ private:
         std::size_t size_{};  // size in bytes
     };
 
-    static block first_fit(std::set<block>& free_blocks, std::size_t size);
-    static block coalesce_block(std::set<block>& free_blocks, block const& b);
+    // Move the first free block of at least `size` bytes to the allocated
+    // blocks, leaving the part of it that is not needed free.
+    //
+    // @param[in] size The number of bytes to allocate.
+    // @return block The allocated block, or an invalid block.
+    block first_fit(std::size_t size);
+
+    // Put a block back among the free blocks, merging it with its neighbors.
+    //
+    // @param[in] node The node (of the allocated blocks) holding the block.
+    void coalesce_block(std::set<block>::node_type node);
 
     // @brief Get an available memory block of at least `size` bytes.
     //
@@ -126,18 +136,9 @@ private:
     // @return block A block of memory of at least `size` bytes.
     block get_block(std::size_t size);
 
-    // Allocate space from upstream to supply the arena and return a superblock.
-    //
-    // @return block A superblock.
-    block expand_arena(std::size_t size);
-
-    // Finds, frees and returns the block associated with pointer `p`.
-    //
-    // @param[in] p The pointer to the memory to free.
-    // @param[in] size The size of the memory to free. Must be equal to the
-    // original allocation size. return The (now freed) block associated with
-    // `p`. The caller is expected to return the block to the arena.
-    block free_block(void* p, std::size_t size) noexcept;
+    // Allocate a superblock from upstream, which could hold a block of at
+    // least `size` bytes, and add it to the free blocks.
+    void expand_arena(std::size_t size);
 
     memory_resource& mm_;
     // The size of superblocks to allocate in case of is necessarry
@@ -149,6 +150,8 @@ private:
     // Address-ordered set of free blocks
     std::set<block> free_blocks_;
     std::set<block> allocated_blocks_;
+    // Superblocks received from upstream, with their sizes
+    std::map<void*, std::size_t> superblocks_;
 
 };  // class arena_memory_resource_impl
 
-- 
2.43.0


From e48775e7c45b22f5b2333e9947b44274a98e0f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 06/35] fix: honour alignment and reject oversized requests in
 the arena resource

---
 .../details/arena_memory_resource_impl.cpp    | 81 ++++++++++++++-----
 .../details/arena_memory_resource_impl.hpp    | 20 +++--
 2 files changed, 72 insertions(+), 29 deletions(-)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index aaa4a08..72ceb0c 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -12,7 +12,10 @@
 // System include(s).
 #include <algorithm>
 #include <cassert>
+#include <cstdint>
 #include <iterator>
+#include <limits>
+#include <new>
 #include <utility>
 
 namespace {
@@ -31,6 +34,9 @@ inline constexpr std::size_t align_up(std::size_t v,
 
 static constexpr std::size_t minimum_superblock_size = 1u << 18u;
 
+/// The size and alignment of every block is a multiple of this value
+static constexpr std::size_t block_alignment = 256u;
+
 }  // namespace
 
 namespace vecmem::details {
@@ -55,6 +61,12 @@ bool arena_memory_resource_impl::block::is_contiguous_before(
     return this->pointer_ + this->size_ == b.pointer_;
 }
 
+std::size_t arena_memory_resource_impl::block::padding(
+    std::size_t alignment) const {
+    auto const address = reinterpret_cast<std::uintptr_t>(this->pointer_);
+    return (alignment - (address & (alignment - 1))) & (alignment - 1);
+}
+
 bool arena_memory_resource_impl::block::fits(std::size_t size_of_bytes) const {
     return this->size_ >= size_of_bytes;
 }
@@ -100,23 +112,29 @@ arena_memory_resource_impl::arena_memory_resource_impl(std::size_t initial_size,
         }
     }
     // initial size exceeds the maxium pool size
-    this->expand_arena(initial_size);
+    if (initial_size != 0) {
+        this->expand_arena(initial_size, block_alignment);
+    }
 }
 
 arena_memory_resource_impl::~arena_memory_resource_impl() {
 
     // Return every superblock to the upstream resource exactly as it was
     // received, whether or not all the blocks inside of it were de-allocated.
-    for (auto const& [p, size] : superblocks_) {
-        mm_.deallocate(p, size);
+    for (auto const& [p, layout] : superblocks_) {
+        mm_.deallocate(p, layout.first, layout.second);
     }
 }
 
-void* arena_memory_resource_impl::allocate(std::size_t bytes, std::size_t) {
+void* arena_memory_resource_impl::allocate(std::size_t bytes,
+                                           std::size_t alignment) {
 
-    bytes = align_up(bytes);
+    if (bytes > std::numeric_limits<std::size_t>::max() - block_alignment) {
+        throw std::bad_alloc();
+    }
+    bytes = align_up(bytes, block_alignment);
 
-    return get_block(bytes).pointer();
+    return get_block(bytes, std::max(alignment, block_alignment)).pointer();
 }
 
 bool arena_memory_resource_impl::deallocate(void* p, std::size_t,
@@ -131,25 +149,43 @@ bool arena_memory_resource_impl::deallocate(void* p, std::size_t,
 }
 
 arena_memory_resource_impl::block arena_memory_resource_impl::first_fit(
-    std::size_t size) {
+    std::size_t size, std::size_t alignment) {
 
-    auto const iter =
-        std::find_if(free_blocks_.cbegin(), free_blocks_.cend(),
-                     [size](auto const& b) { return b.fits(size); });
+    auto const iter = std::find_if(
+        free_blocks_.cbegin(), free_blocks_.cend(), [&](auto const& b) {
+            auto const padding = b.padding(alignment);
+            return b.fits(padding) && (b.size() - padding >= size);
+        });
 
     if (iter == free_blocks_.cend()) {
         return {};
     }
 
+    // If the start of the block is not aligned strictly enough, leave that
+    // part of it free. (Which also leaves two adjacent free blocks for now.)
+    auto fit = iter;
+    if (auto const padding = iter->padding(alignment); padding != 0) {
+        auto const split = iter->split(padding);
+        fit = free_blocks_.insert(std::next(iter), split.second);
+        auto head = free_blocks_.extract(iter);
+        head.value() = split.first;
+        free_blocks_.insert(std::move(head));
+    }
+
     // split the block if necessary, and put the remainder back. This is the
-    // only step that could fail, so nothing is modified before it.
-    auto const split = iter->split(size);
+    // last step that could fail, so nothing is lost before it.
+    auto const split = fit->split(size);
     if (split.second.is_valid()) {
-        free_blocks_.insert(std::next(iter), split.second);
+        try {
+            free_blocks_.insert(std::next(fit), split.second);
+        } catch (...) {
+            coalesce_block(free_blocks_.extract(fit));
+            throw;
+        }
     }
 
     // move the block from the free list to the list of allocated blocks
-    auto node = free_blocks_.extract(iter);
+    auto node = free_blocks_.extract(fit);
     node.value() = split.first;
     return *(allocated_blocks_.insert(std::move(node)).position);
 }
@@ -182,18 +218,19 @@ void arena_memory_resource_impl::coalesce_block(
 }
 
 arena_memory_resource_impl::block arena_memory_resource_impl::get_block(
-    std::size_t size) {
+    std::size_t size, std::size_t alignment) {
 
-    auto const b = first_fit(size);
+    auto const b = first_fit(size, alignment);
     if (b.is_valid()) {
         return b;
     }
 
-    expand_arena(size);
-    return first_fit(size);
+    expand_arena(size, alignment);
+    return first_fit(size, alignment);
 }
 
-void arena_memory_resource_impl::expand_arena(std::size_t size) {
+void arena_memory_resource_impl::expand_arena(std::size_t size,
+                                              std::size_t alignment) {
 
     if (size > this->size_superblocks_)
         size = std::max(size, minimum_superblock_size);
@@ -201,13 +238,13 @@ void arena_memory_resource_impl::expand_arena(std::size_t size) {
         size = size_superblocks_;
     }
 
-    void* const p = mm_.allocate(size);
+    void* const p = mm_.allocate(size, alignment);
     try {
-        superblocks_.emplace(p, size);
+        superblocks_.emplace(p, std::make_pair(size, alignment));
         free_blocks_.emplace(p, size);
     } catch (...) {
         superblocks_.erase(p);
-        mm_.deallocate(p, size);
+        mm_.deallocate(p, size, alignment);
         throw;
     }
 
diff --git a/core/src/memory/details/arena_memory_resource_impl.hpp b/core/src/memory/details/arena_memory_resource_impl.hpp
index 3a43975..5b98984 100644
--- a/core/src/memory/details/arena_memory_resource_impl.hpp
+++ b/core/src/memory/details/arena_memory_resource_impl.hpp
@@ -16,6 +16,7 @@
 #include <limits>
 #include <map>
 #include <set>
+#include <utility>
 
 namespace vecmem::details {
 
@@ -45,7 +46,7 @@ public:
     // Allocates memory of size at least `bytes`
     //
     // @param[in] bytes the size in bytes of the allocation
-    // @param[in] alignment the alignment of the allocation (unused)
+    // @param[in] alignment the alignment of the allocation
     // @return void* pointer to the newly allocated memory
     void* allocate(std::size_t bytes, std::size_t alignment = 0);
 
@@ -91,6 +92,9 @@ private:
         // b.isHead`, false otherwise
         bool is_contiguous_before(block const& b) const;
 
+        // number of bytes to skip to get to an aligned address in the block
+        std::size_t padding(std::size_t alignment) const;
+
         // is this block large enough to fit that size of bytes?
         //
         // @param[in] size_of_bytes the size in bytes to check for fit
@@ -119,11 +123,12 @@ private:
     };
 
     // Move the first free block of at least `size` bytes to the allocated
-    // blocks, leaving the part of it that is not needed free.
+    // blocks, leaving the parts of it that are not needed free.
     //
     // @param[in] size The number of bytes to allocate.
+    // @param[in] alignment The alignment of the block.
     // @return block The allocated block, or an invalid block.
-    block first_fit(std::size_t size);
+    block first_fit(std::size_t size, std::size_t alignment);
 
     // Put a block back among the free blocks, merging it with its neighbors.
     //
@@ -133,12 +138,13 @@ private:
     // @brief Get an available memory block of at least `size` bytes.
     //
     // @param[in] size The number of bytes to allocate.
+    // @param[in] alignment The alignment of the block.
     // @return block A block of memory of at least `size` bytes.
-    block get_block(std::size_t size);
+    block get_block(std::size_t size, std::size_t alignment);
 
     // Allocate a superblock from upstream, which could hold a block of at
     // least `size` bytes, and add it to the free blocks.
-    void expand_arena(std::size_t size);
+    void expand_arena(std::size_t size, std::size_t alignment);
 
     memory_resource& mm_;
     // The size of superblocks to allocate in case of is necessarry
@@ -150,8 +156,8 @@ private:
     // Address-ordered set of free blocks
     std::set<block> free_blocks_;
     std::set<block> allocated_blocks_;
-    // Superblocks received from upstream, with their sizes
-    std::map<void*, std::size_t> superblocks_;
+    // Superblocks received from upstream, with their sizes and alignments
+    std::map<void*, std::pair<std::size_t, std::size_t>> superblocks_;
 
 };  // class arena_memory_resource_impl
 
-- 
2.43.0


From 70ec6918949537d8367f23d2d82baf94ae18672d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 07/35] fix: return the memory upstream when an allocation can
 not be recorded

The choice, coalescing and debug memory resources lost the block received
from upstream if the insertion into their maps failed. The coalescing one
even went on to allocate another block from its next upstream resource.
---
 .../details/choice_memory_resource_impl.cpp   | 10 +++++++-
 .../coalescing_memory_resource_impl.cpp       | 24 +++++++++++++------
 .../details/debug_memory_resource_impl.cpp    | 10 +++++++-
 3 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/core/src/memory/details/choice_memory_resource_impl.cpp b/core/src/memory/details/choice_memory_resource_impl.cpp
index 383bffc..7a57be0 100644
--- a/core/src/memory/details/choice_memory_resource_impl.cpp
+++ b/core/src/memory/details/choice_memory_resource_impl.cpp
@@ -34,7 +34,15 @@ void *choice_memory_resource_impl::allocate(std::size_t size,
 
     void *ptr = res.allocate(size, align);
 
-    m_allocations.emplace(ptr, res);
+    try {
+        m_allocations.emplace(ptr, res);
+    } catch (...) {
+        /*
+         * Without a record of the allocation, nobody could ever return it.
+         */
+        res.deallocate(ptr, size, align);
+        throw;
+    }
 
     return ptr;
 }
diff --git a/core/src/memory/details/coalescing_memory_resource_impl.cpp b/core/src/memory/details/coalescing_memory_resource_impl.cpp
index cf8b653..e2e6034 100644
--- a/core/src/memory/details/coalescing_memory_resource_impl.cpp
+++ b/core/src/memory/details/coalescing_memory_resource_impl.cpp
@@ -29,22 +29,32 @@ void *coalescing_memory_resource_impl::allocate(std::size_t size,
      * Try to allocate with each of the upstream resources.
      */
     for (memory_resource &res : m_upstreams) {
+        void *ptr = nullptr;
         try {
             /*
-             * Try to allocate the memory, and store the result with the
-             * allocator reference in the allocation map.
+             * Try to allocate the memory.
              */
-            void *ptr = res.allocate(size, align);
-
-            m_allocations.emplace(ptr, res);
-
-            return ptr;
+            ptr = res.allocate(size, align);
         } catch (std::bad_alloc &) {
             /*
              * If we cannot allocate with this resource, try the next one.
              */
             continue;
         }
+        try {
+            /*
+             * Store the result with the allocator reference in the allocation
+             * map.
+             */
+            m_allocations.emplace(ptr, res);
+        } catch (...) {
+            /*
+             * Without a record of the allocation, nobody could ever return it.
+             */
+            res.deallocate(ptr, size, align);
+            throw;
+        }
+        return ptr;
     }
 
     /*
diff --git a/core/src/memory/details/debug_memory_resource_impl.cpp b/core/src/memory/details/debug_memory_resource_impl.cpp
index 3dd2740..b1bdc61 100644
--- a/core/src/memory/details/debug_memory_resource_impl.cpp
+++ b/core/src/memory/details/debug_memory_resource_impl.cpp
@@ -61,7 +61,15 @@ void *debug_memory_resource_impl::allocate(std::size_t size,
     /*
      * Store the current allocation as an outstanding one.
      */
-    m_allocations.emplace(ptr, std::pair(size, align));
+    try {
+        m_allocations.emplace(ptr, std::pair(size, align));
+    } catch (...) {
+        /*
+         * Without a record of the allocation, nobody could ever return it.
+         */
+        m_upstream.deallocate(ptr, size, align);
+        throw;
+    }
 
     return ptr;
 }
-- 
2.43.0


From af435a4c986f17c08f483fc48c52462a1c461bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:10 +0000
Subject: [PATCH 08/35] fix: measure durations with a clock that can not be
 adjusted

---
 .../instrumenting_memory_resource_impl.cpp       | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/src/memory/details/instrumenting_memory_resource_impl.cpp b/core/src/memory/details/instrumenting_memory_resource_impl.cpp
index c4003c3..76e4bff 100644
--- a/core/src/memory/details/instrumenting_memory_resource_impl.cpp
+++ b/core/src/memory/details/instrumenting_memory_resource_impl.cpp
@@ -61,8 +61,8 @@ void *instrumenting_memory_resource_impl::allocate(std::size_t size,
      * We record the time before the request, so we can compute the total
      * execution time afterwards.
      */
-    std::chrono::high_resolution_clock::time_point t1 =
-        std::chrono::high_resolution_clock::now();
+    std::chrono::steady_clock::time_point t1 =
+        std::chrono::steady_clock::now();
 
     void *ptr;
 
@@ -82,8 +82,8 @@ void *instrumenting_memory_resource_impl::allocate(std::size_t size,
      * Record the time after the allocation, and compute the difference in
      * nanoseconds from the start of the allocation.
      */
-    std::chrono::high_resolution_clock::time_point t2 =
-        std::chrono::high_resolution_clock::now();
+    std::chrono::steady_clock::time_point t2 =
+        std::chrono::steady_clock::now();
 
     std::size_t time = static_cast<std::size_t>(
         std::chrono::duration_cast<std::chrono::nanoseconds>(t2 - t1).count());
@@ -135,8 +135,8 @@ void instrumenting_memory_resource_impl::deallocate(void *ptr, std::size_t size,
      * As with allocation, we calculate the time taken to process this
      * deallocation.
      */
-    std::chrono::high_resolution_clock::time_point t1 =
-        std::chrono::high_resolution_clock::now();
+    std::chrono::steady_clock::time_point t1 =
+        std::chrono::steady_clock::now();
 
     /*
      * The deallocation, like allocation, is a forwarding method.
@@ -146,8 +146,8 @@ void instrumenting_memory_resource_impl::deallocate(void *ptr, std::size_t size,
     /*
      * Compute the total elapsed time during the deallocation request.
      */
-    std::chrono::high_resolution_clock::time_point t2 =
-        std::chrono::high_resolution_clock::now();
+    std::chrono::steady_clock::time_point t2 =
+        std::chrono::steady_clock::now();
 
     std::size_t time = static_cast<std::size_t>(
         std::chrono::duration_cast<std::chrono::nanoseconds>(t2 - t1).count());
-- 
2.43.0


From cc6e2d5bf74c4a85e9bc2e8b6de5a52adf107036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:27 +0000
Subject: [PATCH 09/35] fix: do not lose memory in the instrumenting resource
 on a failure

A failure to record an allocation, or a throwing post-allocation hook, lost
the block received from upstream. And a failure to record a de-allocation
made the de-allocation itself throw.
---
 .../instrumenting_memory_resource_impl.cpp    | 34 +++++++++++++++++--
 .../instrumenting_memory_resource_impl.hpp    |  5 +++
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/core/src/memory/details/instrumenting_memory_resource_impl.cpp b/core/src/memory/details/instrumenting_memory_resource_impl.cpp
index 76e4bff..070540b 100644
--- a/core/src/memory/details/instrumenting_memory_resource_impl.cpp
+++ b/core/src/memory/details/instrumenting_memory_resource_impl.cpp
@@ -10,6 +10,7 @@
 #include "instrumenting_memory_resource_impl.hpp"
 
 // System include(s).
+#include <algorithm>
 #include <chrono>
 
 namespace vecmem::details {
@@ -49,6 +50,15 @@ void *instrumenting_memory_resource_impl::allocate(std::size_t size,
         return nullptr;
     }
 
+    /*
+     * Make sure that neither recording this allocation, nor recording the
+     * de-allocation of any outstanding block could fail later on.
+     */
+    const std::size_t n_events = m_events.size() + m_outstanding + 2;
+    if (n_events > m_events.capacity()) {
+        m_events.reserve(std::max(n_events, 2 * m_events.capacity()));
+    }
+
     /*
      * First, we will execute all pre-allocation hooks.
      */
@@ -100,9 +110,22 @@ void *instrumenting_memory_resource_impl::allocate(std::size_t size,
      * Now, we can run the post-allocation hooks. For failed allocations, the
      * pointer will be null.
      */
-    for (const std::function<void(std::size_t, std::size_t, void *)> &f :
-         m_post_allocate_hooks) {
-        f(size, align, ptr);
+    try {
+        for (const std::function<void(std::size_t, std::size_t, void *)> &f :
+             m_post_allocate_hooks) {
+            f(size, align, ptr);
+        }
+    } catch (...) {
+        /*
+         * The client will not receive the memory, so it has to be returned.
+         */
+        if (ptr != nullptr) {
+            m_upstream.deallocate(ptr, size, align);
+            m_events.emplace_back(
+                instrumenting_memory_resource::memory_event::type::DEALLOCATION,
+                size, align, ptr, 0);
+        }
+        throw;
     }
 
     /*
@@ -113,6 +136,8 @@ void *instrumenting_memory_resource_impl::allocate(std::size_t size,
         throw std::bad_alloc();
     }
 
+    ++m_outstanding;
+
     return ptr;
 }
 
@@ -142,6 +167,9 @@ void instrumenting_memory_resource_impl::deallocate(void *ptr, std::size_t size,
      * The deallocation, like allocation, is a forwarding method.
      */
     m_upstream.deallocate(ptr, size, align);
+    if (m_outstanding > 0) {
+        --m_outstanding;
+    }
 
     /*
      * Compute the total elapsed time during the deallocation request.
diff --git a/core/src/memory/details/instrumenting_memory_resource_impl.hpp b/core/src/memory/details/instrumenting_memory_resource_impl.hpp
index 96943fe..d3b398b 100644
--- a/core/src/memory/details/instrumenting_memory_resource_impl.hpp
+++ b/core/src/memory/details/instrumenting_memory_resource_impl.hpp
@@ -94,6 +94,11 @@ private:
      */
     std::vector<instrumenting_memory_resource::memory_event> m_events;
 
+    /*
+     * The number of blocks that were not de-allocated yet.
+     */
+    std::size_t m_outstanding = 0;
+
     /*
      * The list of all pre-allocation hooks.
      */
-- 
2.43.0


From 38984059f7943c587fb7858fc8a75ae4e64d8e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:27 +0000
Subject: [PATCH 10/35] fix: average allocation size before the first
 allocation

---
 core/src/utils/memory_monitor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/utils/memory_monitor.cpp b/core/src/utils/memory_monitor.cpp
index a4003fa..28ed790 100644
--- a/core/src/utils/memory_monitor.cpp
+++ b/core/src/utils/memory_monitor.cpp
@@ -40,6 +40,11 @@ std::size_t memory_monitor::outstanding_allocation() const {
 
 std::size_t memory_monitor::average_allocation() const {
 
+    // There is no average to speak of before the first allocation.
+    if (m_n_alloc == 0) {
+        return 0;
+    }
+
     return static_cast<std::size_t>(std::round(
         static_cast<double>(m_total_alloc) / static_cast<double>(m_n_alloc)));
 }
-- 
2.43.0


From 8aabe07039a76f8588c5b0a796b83b9c5e316970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:27 +0000
Subject: [PATCH 11/35] fix: refuse host memory requests that overflow when
 padded

---
 core/src/memory/host_memory_resource.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/src/memory/host_memory_resource.cpp b/core/src/memory/host_memory_resource.cpp
index c9454b1..42f97c8 100644
--- a/core/src/memory/host_memory_resource.cpp
+++ b/core/src/memory/host_memory_resource.cpp
@@ -15,7 +15,9 @@
 #include <cassert>
 #include <cstddef>
 #include <cstdlib>
+#include <limits>
 #include <memory>
+#include <new>
 
 namespace vecmem {
 
@@ -30,6 +32,12 @@ void *host_memory_resource::do_allocate(std::size_t bytes,
         return nullptr;
     }
 
+    // Refuse requests whose size would overflow once it is padded for alignment.
+    if (bytes > std::numeric_limits<std::size_t>::max() - alignment -
+                    alignof(std::max_align_t)) {
+        throw std::bad_alloc();
+    }
+
 #ifdef VECMEM_HAVE_STD_ALIGNED_ALLOC
     // Rely on std::aligned_alloc to give us properly aligned memory.
     // Note that std::aligned_alloc has a number of quirks about the parameters
-- 
2.43.0


From b858ab7f218f2daa076ce120c9ea048e3f365749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:31 +0000
Subject: [PATCH 12/35] fix: enforce the maximum size of the arena memory
 resource

---
 core/src/memory/details/arena_memory_resource_impl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index 72ceb0c..c938c7f 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -232,11 +232,17 @@ arena_memory_resource_impl::block arena_memory_resource_impl::get_block(
 void arena_memory_resource_impl::expand_arena(std::size_t size,
                                               std::size_t alignment) {
 
+    std::size_t const remaining = maximum_size_ - current_size_;
+    if (size > remaining) {
+        throw std::bad_alloc();
+    }
+
     if (size > this->size_superblocks_)
         size = std::max(size, minimum_superblock_size);
     else {
         size = size_superblocks_;
     }
+    size = std::min(size, remaining);
 
     void* const p = mm_.allocate(size, alignment);
     try {
-- 
2.43.0


From eecc06f373fe1d668709d62fd153b7e74c8d3c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:13 +0000
Subject: [PATCH 13/35] fix: do not leak memory when the construction of an
 object fails

---
 core/include/vecmem/memory/impl/allocator.ipp | 10 ++++-
 core/include/vecmem/memory/unique_ptr.hpp     | 45 +++++++++++++------
 2 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/core/include/vecmem/memory/impl/allocator.ipp b/core/include/vecmem/memory/impl/allocator.ipp
index 6273cd2..1e74728 100644
--- a/core/include/vecmem/memory/impl/allocator.ipp
+++ b/core/include/vecmem/memory/impl/allocator.ipp
@@ -47,7 +47,15 @@ T *allocator::new_object(Args &&... args) {
      * forward the arguments passed to this method so they can be used to
      * call the constructor of the class.
      */
-    return new (p) T(std::forward<Args>(args)...);
+    try {
+        return new (p) T(std::forward<Args>(args)...);
+    } catch (...) {
+        /*
+         * Without an object, nobody else could return the memory.
+         */
+        deallocate_object<T>(static_cast<T *>(p));
+        throw;
+    }
 }
 
 template <typename T>
diff --git a/core/include/vecmem/memory/unique_ptr.hpp b/core/include/vecmem/memory/unique_ptr.hpp
index a6362e6..4862972 100644
--- a/core/include/vecmem/memory/unique_ptr.hpp
+++ b/core/include/vecmem/memory/unique_ptr.hpp
@@ -83,9 +83,14 @@ make_unique_obj(memory_resource& m, Args&&... a) {
 
     /*
      * Perform a placement-new with forwarded arguments to construct the
-     * object.
+     * object. If that fails, nobody else could return the memory.
      */
-    new (p) T(std::forward<Args>(a)...);
+    try {
+        new (p) T(std::forward<Args>(a)...);
+    } catch (...) {
+        m.deallocate(p, s);
+        throw;
+    }
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
@@ -124,10 +129,18 @@ make_unique_obj(memory_resource& m, std::size_t n) {
     pointer_t p = static_cast<pointer_t>(m.allocate(s));
 
     /*
-     * Use placement-new to default-construct each of our elements.
+     * Use placement-new to default-construct each of our elements. If that
+     * fails, destroy the ones that we already have, and return the memory.
      */
-    for (std::size_t i = 0; i < n; ++i) {
-        new (&p[i]) std::remove_extent_t<T>();
+    std::size_t i = 0;
+    try {
+        for (; i < n; ++i) {
+            new (&p[i]) std::remove_extent_t<T>();
+        }
+    } catch (...) {
+        std::destroy_n(p, i);
+        m.deallocate(p, s);
+        throw;
     }
 
     /*
@@ -321,12 +334,15 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, const T* f,
     std::size_t s = sizeof(T);
     pointer_t p = static_cast<pointer_t>(m.allocate(s));
 
-    c(p, f, s);
-
     /*
-     * Create a new unique_ptr, with its own deleter, and return it.
+     * Create a new unique_ptr, with its own deleter, before attempting to
+     * copy. So that a failed copy would not lose the memory.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s));
+    unique_alloc_ptr<T> result(p, details::unique_alloc_deleter<T>(m, s));
+
+    c(p, f, s);
+
+    return result;
 }
 
 /**
@@ -398,11 +414,14 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n,
     std::size_t s = n * sizeof(std::remove_extent_t<T>);
     pointer_t p = static_cast<pointer_t>(m.allocate(s));
 
-    c(p, f, s);
-
     /*
-     * Create a new unique_ptr, with its own deleter, and return it.
+     * Create a new unique_ptr, with its own deleter, before attempting to
+     * copy. So that a failed copy would not lose the memory.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s, 0));
+    unique_alloc_ptr<T> result(p, details::unique_alloc_deleter<T>(m, s, 0));
+
+    c(p, f, s);
+
+    return result;
 }
 }  // namespace vecmem
-- 
2.43.0


From 88dad289a592fe3a660e1b1c2cb629cce6b125b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:21 +0000
Subject: [PATCH 14/35] fix: alignment and size of smart pointer and allocator
 requests

Over-aligned types were allocated with the default alignment only, and array
sizes that overflow were silently truncated.
---
 core/CMakeLists.txt                           |  1 +
 .../vecmem/memory/details/alloc_layout.hpp    | 43 +++++++++++++++++
 core/include/vecmem/memory/impl/allocator.ipp |  5 +-
 core/include/vecmem/memory/unique_ptr.hpp     | 46 ++++++++++++-------
 4 files changed, 77 insertions(+), 18 deletions(-)
 create mode 100644 core/include/vecmem/memory/details/alloc_layout.hpp

diff --git a/core/CMakeLists.txt b/core/CMakeLists.txt
index 2705bb2..bd36cc0 100644
--- a/core/CMakeLists.txt
+++ b/core/CMakeLists.txt
@@ -52,6 +52,7 @@ vecmem_add_library( vecmem_core core
    "include/vecmem/memory/impl/atomic.ipp"
    "include/vecmem/memory/polymorphic_allocator.hpp"
    "include/vecmem/memory/memory_resource.hpp"
+   "include/vecmem/memory/details/alloc_layout.hpp"
    "include/vecmem/memory/details/unique_alloc_deleter.hpp"
    "include/vecmem/memory/details/unique_obj_deleter.hpp"
    "include/vecmem/memory/unique_ptr.hpp"
diff --git a/core/include/vecmem/memory/details/alloc_layout.hpp b/core/include/vecmem/memory/details/alloc_layout.hpp
new file mode 100644
index 0000000..92f9bc2
--- /dev/null
+++ b/core/include/vecmem/memory/details/alloc_layout.hpp
@@ -0,0 +1,43 @@
+/*
+ * VecMem project, part of the ACTS project (R&D line)
+ *
+ * (c) 2024 CERN for the benefit of the ACTS project
+ *
+ * Mozilla Public License Version 2.0
+ */
+
+#pragma once
+
+// System include(s).
+#include <algorithm>
+#include <cstddef>
+#include <limits>
+#include <new>
+#include <type_traits>
+
+namespace vecmem {
+namespace details {
+
+/// Alignment to request for (an array of) objects of a given type
+///
+/// Only over-aligned types need anything more than the default.
+///
+template <typename T>
+inline constexpr std::size_t alloc_align =
+    std::max(alignof(std::remove_all_extents_t<T>), alignof(std::max_align_t));
+
+/// Size of an array with a given number of elements in bytes
+///
+/// @throw std::bad_array_new_length if the size can not be represented
+///
+template <typename T>
+std::size_t array_bytes(std::size_t n) {
+
+    if (n > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+        throw std::bad_array_new_length();
+    }
+    return n * sizeof(T);
+}
+
+}  // namespace details
+}  // namespace vecmem
diff --git a/core/include/vecmem/memory/impl/allocator.ipp b/core/include/vecmem/memory/impl/allocator.ipp
index 1e74728..fe1e295 100644
--- a/core/include/vecmem/memory/impl/allocator.ipp
+++ b/core/include/vecmem/memory/impl/allocator.ipp
@@ -8,6 +8,8 @@
 
 #pragma once
 
+#include "vecmem/memory/details/alloc_layout.hpp"
+
 #include <cstddef>
 
 namespace vecmem {
@@ -19,7 +21,8 @@ T *allocator::allocate_object(std::size_t n) {
      * also use the compiler's knowledge about the alignment requirements of
      * the class.
      */
-    return static_cast<T *>(m_mem.allocate(n * sizeof(T), alignof(T)));
+    return static_cast<T *>(
+        m_mem.allocate(details::array_bytes<T>(n), alignof(T)));
 }
 
 template <typename T>
diff --git a/core/include/vecmem/memory/unique_ptr.hpp b/core/include/vecmem/memory/unique_ptr.hpp
index 4862972..14de639 100644
--- a/core/include/vecmem/memory/unique_ptr.hpp
+++ b/core/include/vecmem/memory/unique_ptr.hpp
@@ -11,6 +11,7 @@
 #include <memory>
 #include <type_traits>
 
+#include "vecmem/memory/details/alloc_layout.hpp"
 #include "vecmem/memory/details/unique_alloc_deleter.hpp"
 #include "vecmem/memory/details/unique_obj_deleter.hpp"
 #include "vecmem/memory/memory_resource.hpp"
@@ -79,7 +80,7 @@ make_unique_obj(memory_resource& m, Args&&... a) {
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    T* p = static_cast<T*>(m.allocate(s));
+    T* p = static_cast<T*>(m.allocate(s, details::alloc_align<T>));
 
     /*
      * Perform a placement-new with forwarded arguments to construct the
@@ -88,14 +89,15 @@ make_unique_obj(memory_resource& m, Args&&... a) {
     try {
         new (p) T(std::forward<Args>(a)...);
     } catch (...) {
-        m.deallocate(p, s);
+        m.deallocate(p, s, details::alloc_align<T>);
         throw;
     }
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(m, s));
+    return unique_obj_ptr<T>(
+        p, details::unique_obj_deleter<T>(m, s, details::alloc_align<T>));
 }
 
 /**
@@ -125,8 +127,9 @@ make_unique_obj(memory_resource& m, std::size_t n) {
      * Calculate the size of the allocation and use the memory resource to
      * perform an allocation of the requested size.
      */
-    std::size_t s = n * sizeof(std::remove_extent_t<T>);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    std::size_t s = details::array_bytes<std::remove_extent_t<T>>(n);
+    pointer_t p =
+        static_cast<pointer_t>(m.allocate(s, details::alloc_align<T>));
 
     /*
      * Use placement-new to default-construct each of our elements. If that
@@ -139,14 +142,15 @@ make_unique_obj(memory_resource& m, std::size_t n) {
         }
     } catch (...) {
         std::destroy_n(p, i);
-        m.deallocate(p, s);
+        m.deallocate(p, s, details::alloc_align<T>);
         throw;
     }
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(m, s, 0, n));
+    return unique_obj_ptr<T>(
+        p, details::unique_obj_deleter<T>(m, s, details::alloc_align<T>, n));
 }
 
 /**
@@ -199,12 +203,14 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m) {
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p =
+        static_cast<pointer_t>(m.allocate(s, details::alloc_align<T>));
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s));
+    return unique_alloc_ptr<T>(
+        p, details::unique_alloc_deleter<T>(m, s, details::alloc_align<T>));
 }
 
 /**
@@ -259,13 +265,15 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n) {
      * Calculate the size of the allocation and use the memory resource to
      * perform an allocation of the requested size.
      */
-    std::size_t s = n * sizeof(std::remove_extent_t<T>);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    std::size_t s = details::array_bytes<std::remove_extent_t<T>>(n);
+    pointer_t p =
+        static_cast<pointer_t>(m.allocate(s, details::alloc_align<T>));
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s, 0));
+    return unique_alloc_ptr<T>(
+        p, details::unique_alloc_deleter<T>(m, s, details::alloc_align<T>));
 }
 
 /**
@@ -332,13 +340,15 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, const T* f,
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p =
+        static_cast<pointer_t>(m.allocate(s, details::alloc_align<T>));
 
     /*
      * Create a new unique_ptr, with its own deleter, before attempting to
      * copy. So that a failed copy would not lose the memory.
      */
-    unique_alloc_ptr<T> result(p, details::unique_alloc_deleter<T>(m, s));
+    unique_alloc_ptr<T> result(
+        p, details::unique_alloc_deleter<T>(m, s, details::alloc_align<T>));
 
     c(p, f, s);
 
@@ -411,14 +421,16 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n,
      * Calculate the size of the allocation and use the memory resource to
      * perform an allocation of the requested size.
      */
-    std::size_t s = n * sizeof(std::remove_extent_t<T>);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    std::size_t s = details::array_bytes<std::remove_extent_t<T>>(n);
+    pointer_t p =
+        static_cast<pointer_t>(m.allocate(s, details::alloc_align<T>));
 
     /*
      * Create a new unique_ptr, with its own deleter, before attempting to
      * copy. So that a failed copy would not lose the memory.
      */
-    unique_alloc_ptr<T> result(p, details::unique_alloc_deleter<T>(m, s, 0));
+    unique_alloc_ptr<T> result(
+        p, details::unique_alloc_deleter<T>(m, s, details::alloc_align<T>));
 
     c(p, f, s);
 
-- 
2.43.0


From 1e1324fde5b4f7dc9e1db6a74cf4afdf6510929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:52 +0000
Subject: [PATCH 15/35] fix: reset the size of resizable vectors when copying
 an empty vector into them

---
 core/include/vecmem/utils/impl/copy.ipp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index d73a789..c6e1e8b 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -492,10 +492,6 @@ bool copy::copy_view_impl(
     // Get the size of the source view.
     const typename data::vector_view<std::add_const_t<TYPE>>::size_type size =
         get_size(from_view);
-    // If it's zero, don't do an actual copy.
-    if (size == 0u) {
-        return false;
-    }
 
     // Make sure that the copy can happen.
     if (to_view.capacity() < size) {
@@ -533,6 +529,11 @@ bool copy::copy_view_impl(
         create_event()->wait();
     }
 
+    // If the source is empty, there is no payload to copy.
+    if (size == 0u) {
+        return (to_view.size_ptr() != nullptr);
+    }
+
     // Copy the payload.
     do_copy(size * sizeof(TYPE), from_view.ptr(), to_view.ptr(), cptype);
     return true;
-- 
2.43.0


From 6c48c3498a892f2a84530841ab8c63c11083a484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:52 +0000
Subject: [PATCH 16/35] fix: do not look into the inner vectors of an empty
 jagged vector in memset

---
 core/include/vecmem/utils/impl/copy.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index c6e1e8b..ab5757a 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -176,6 +176,11 @@ template <typename TYPE>
 copy::event_type copy::memset(data::jagged_vector_view<TYPE> data,
                               int value) const {
 
+    // Check if anything needs to be done.
+    if (data.size() == 0) {
+        return vecmem::copy::create_event();
+    }
+
     // Do different things for jagged vectors that are contiguous in memory.
     if (is_contiguous(data.host_ptr(), data.capacity())) {
         // For contiguous jagged vectors we can just do a single memset
-- 
2.43.0


From 43af5e0235bb8bc451d73be2936c2b7b95ca19cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:52 +0000
Subject: [PATCH 17/35] fix: do not access the sizes of jagged vectors directly
 on the host in copy::to

---
 core/include/vecmem/utils/impl/copy.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index ab5757a..1afeb49 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -222,9 +222,10 @@ data::jagged_vector_buffer<std::remove_cv_t<TYPE>> copy::to(
     const data::jagged_vector_view<TYPE>& data, memory_resource& resource,
     memory_resource* host_access_resource, type::copy_type cptype) const {
 
-    // Create the result buffer object.
+    // Create the result buffer object. Note that the sizes of the inner vectors
+    // may not be accessible from the host directly.
     data::jagged_vector_buffer<std::remove_cv_t<TYPE>> result(
-        data, resource, host_access_resource);
+        get_sizes(data), resource, host_access_resource);
     assert(result.size() == data.size());
 
     // Copy the description of the "inner vectors" if necessary.
-- 
2.43.0


From d8a3b62782e332e163cd4e5d2fd2dc1e2df0c975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:09 +0000
Subject: [PATCH 18/35] fix: set up the size of resizable SoA buffers with zero
 capacity

---
 core/include/vecmem/utils/impl/copy.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index 1afeb49..bde9707 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -336,8 +336,9 @@ copy::event_type copy::set_sizes(
 template <typename SCHEMA>
 copy::event_type copy::setup(edm::view<SCHEMA> data) const {
 
-    // For empty containers nothing needs to be done.
-    if (data.capacity() == 0) {
+    // Containers that have neither a layout nor a size to set up, need nothing.
+    // Note that a resizable container has a size even if its capacity is zero.
+    if ((data.capacity() == 0) && (data.size().ptr() == nullptr)) {
         return vecmem::copy::create_event();
     }
 
-- 
2.43.0


From 314913ff19ba0ef701253da26d78fae7689e348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 19/35] fix: only copy SoA payloads in one go between identical
 memory layouts

---
 core/include/vecmem/utils/copy.hpp      |  6 +++
 core/include/vecmem/utils/impl/copy.ipp | 58 +++++++++++++++++++++++--
 2 files changed, 61 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/utils/copy.hpp b/core/include/vecmem/utils/copy.hpp
index e548d85..34c0fd6 100644
--- a/core/include/vecmem/utils/copy.hpp
+++ b/core/include/vecmem/utils/copy.hpp
@@ -232,6 +232,12 @@ private:
     template <typename TYPE>
     static bool is_contiguous(const data::vector_view<TYPE>* data,
                               std::size_t size);
+    /// Check if the variables of two SoA containers sit at the same place
+    template <std::size_t INDEX, typename... VARTYPES>
+    static bool payload_layouts_match(
+        const edm::view<edm::details::add_const_t<edm::schema<VARTYPES...>>>&
+            from,
+        const edm::view<edm::schema<VARTYPES...>>& to);
     /// Implementation for the variadic @c memset function
     template <std::size_t INDEX, typename... VARTYPES>
     void memset_impl(edm::view<edm::schema<VARTYPES...>> data, int value) const;
diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index bde9707..55df75c 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -388,11 +388,12 @@ copy::event_type copy::operator()(
         from_view,
     edm::view<edm::schema<VARTYPES...>> to_view, type::copy_type cptype) const {
 
-    // First, handle the simple case, when both views have a contiguous memory
-    // layout.
+    // First, handle the simple case, when both views have the same, contiguous
+    // memory layout.
     if ((from_view.payload().ptr() != nullptr) &&
         (to_view.payload().ptr() != nullptr) &&
-        (from_view.payload().capacity() == to_view.payload().capacity())) {
+        (from_view.payload().capacity() == to_view.payload().capacity()) &&
+        payload_layouts_match<0>(from_view, to_view)) {
 
         // If the "common size" is zero, we're done.
         if (from_view.payload().capacity() == 0) {
@@ -750,6 +751,57 @@ bool copy::is_contiguous(const data::vector_view<TYPE>* data,
     return true;
 }
 
+template <std::size_t INDEX, typename... VARTYPES>
+bool copy::payload_layouts_match(
+    const edm::view<edm::details::add_const_t<edm::schema<VARTYPES...>>>&
+        from_view,
+    const edm::view<edm::schema<VARTYPES...>>& to_view) {
+
+    // Helper lambda comparing two pointers relative to the respective payloads.
+    auto same_offset = [&](const void* from_ptr, const void* to_ptr) {
+        return ((static_cast<const char*>(from_ptr) -
+                 from_view.payload().ptr()) ==
+                (static_cast<const char*>(to_ptr) - to_view.payload().ptr()));
+    };
+
+    // Check this variable.
+    const auto& from_var = from_view.template get<INDEX>();
+    const auto& to_var = to_view.template get<INDEX>();
+    using var_type =
+        typename std::tuple_element<INDEX, std::tuple<VARTYPES...>>::type;
+    if constexpr (edm::type::details::is_scalar<var_type>::value) {
+        if (!same_offset(from_var, to_var)) {
+            return false;
+        }
+    } else if constexpr (edm::type::details::is_jagged_vector<
+                             var_type>::value) {
+        if (from_var.size() != to_var.size()) {
+            return false;
+        }
+        for (std::size_t i = 0; i < from_var.size(); ++i) {
+            const auto& from_inner = from_var.host_ptr()[i];
+            const auto& to_inner = to_var.host_ptr()[i];
+            if ((from_inner.capacity() != to_inner.capacity()) ||
+                ((from_inner.capacity() != 0u) &&
+                 !same_offset(from_inner.ptr(), to_inner.ptr()))) {
+                return false;
+            }
+        }
+    } else {
+        if ((from_var.capacity() != to_var.capacity()) ||
+            ((from_var.capacity() != 0u) &&
+             !same_offset(from_var.ptr(), to_var.ptr()))) {
+            return false;
+        }
+    }
+    // Recurse into the next variable.
+    if constexpr (sizeof...(VARTYPES) > (INDEX + 1)) {
+        return payload_layouts_match<INDEX + 1>(from_view, to_view);
+    } else {
+        return true;
+    }
+}
+
 template <std::size_t INDEX, typename... VARTYPES>
 void copy::memset_impl(edm::view<edm::schema<VARTYPES...>> data,
                        int value) const {
-- 
2.43.0


From e005e18875563607e0963d2e997a5c9f1f2b463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:14 +0000
Subject: [PATCH 20/35] fix: read the size of SoA device containers atomically

device::push_back_default() is documented to be thread safe, and updates the
size atomically. Reading it with a plain access at the same time, as
device::size() did, is a data race.
---
 core/include/vecmem/edm/impl/device.ipp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/include/vecmem/edm/impl/device.ipp b/core/include/vecmem/edm/impl/device.ipp
index fd4b112..6fe732d 100644
--- a/core/include/vecmem/edm/impl/device.ipp
+++ b/core/include/vecmem/edm/impl/device.ipp
@@ -38,7 +38,15 @@ VECMEM_HOST_AND_DEVICE auto device<schema<VARTYPES...>, INTERFACE>::size() const
     assert(details::device_capacities_match<VARTYPES...>(
         m_capacity, m_data, std::index_sequence_for<VARTYPES...>{}));
 
-    return (m_size == nullptr ? m_capacity : *m_size);
+    if (m_size == nullptr) {
+        return m_capacity;
+    } else {
+        // The size may be increased by other threads at the same time (see
+        // push_back_default()), it needs to be read atomically. The const cast
+        // is needed for the same reason as in device_vector::size().
+        device_atomic_ref<size_type> asize(*(const_cast<size_type*>(m_size)));
+        return asize.load();
+    }
 }
 
 template <typename... VARTYPES, template <typename> class INTERFACE>
-- 
2.43.0


From 8c782eeeeae74aca0fbd73dfc9cdf0e1cba48b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:11 +0000
Subject: [PATCH 21/35] fix: report the outcome of
 vecmem::atomic::compare_exchange_strong in device code

atomicCAS returns the old value of the variable, not whether the exchange was
made. The expected value was also not updated on a failure.
---
 core/include/vecmem/memory/impl/atomic.ipp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/include/vecmem/memory/impl/atomic.ipp b/core/include/vecmem/memory/impl/atomic.ipp
index 2b96d2c..145cadd 100644
--- a/core/include/vecmem/memory/impl/atomic.ipp
+++ b/core/include/vecmem/memory/impl/atomic.ipp
@@ -89,7 +89,15 @@ VECMEM_HOST_AND_DEVICE bool atomic<T>::compare_exchange_strong(
 
 #if (defined(__CUDA_ARCH__) || defined(__HIP_DEVICE_COMPILE__)) && \
     (!defined(SYCL_LANGUAGE_VERSION))
-    return atomicCAS(m_ptr, expected, desired);
+    const value_type r = atomicCAS(m_ptr, expected, desired);
+    // atomicCAS returns the old value, so the change will have succeeded if
+    // the old value was the expected value.
+    if (r == expected) {
+        return true;
+    } else {
+        expected = r;
+        return false;
+    }
 #elif defined(CL_SYCL_LANGUAGE_VERSION) || defined(SYCL_LANGUAGE_VERSION)
     return __VECMEM_SYCL_ATOMIC_CALL2(compare_exchange_strong, m_ptr, expected,
                                       desired);
-- 
2.43.0


From 59019c1ecc581bf361edcd89292994b636877077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:33 +0000
Subject: [PATCH 22/35] fix: Do not drop the events of the inner operations in
 copy::memset(edm::view)

The SoA memset discarded the events returned by the memset operations it
delegated to. Events that are destroyed without being waited for (or
explicitly ignored) abort the application when the CUDA/HIP/SYCL libraries
are built with VECMEM_FAIL_ON_ASYNC_ERRORS.
---
 core/include/vecmem/utils/impl/copy.ipp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index 55df75c..b24b6dc 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -372,7 +372,7 @@ copy::event_type copy::memset(edm::view<edm::schema<VARTYPES...>> data,
 
     // For buffers, we can do this in one go.
     if (data.payload().ptr() != nullptr) {
-        memset(data.payload(), value);
+        return memset(data.payload(), value);
     } else {
         // Do the operation using the helper function, recursively.
         memset_impl<0>(data, value);
@@ -813,8 +813,9 @@ void copy::memset_impl(edm::view<edm::schema<VARTYPES...>> data,
                          INDEX, std::tuple<VARTYPES...>>::type::type),
                   data.template get<INDEX>(), value);
     } else {
-        // But vectors and jagged vectors do.
-        memset(data.template get<INDEX>(), value);
+        // But vectors and jagged vectors do. Every event has to be waited for
+        // (or explicitly ignored) by whoever receives it.
+        memset(data.template get<INDEX>(), value)->wait();
     }
     // Recurse into the next variable.
     if constexpr (sizeof...(VARTYPES) > (INDEX + 1)) {
-- 
2.43.0


From bc5973c4000bd678d0aefb3230bd404ef1b5d1b3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:44:09 +0000
Subject: [PATCH 23/35] fix: vecmem::array::front() const did not compile

---
 core/include/vecmem/containers/impl/array.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/impl/array.ipp b/core/include/vecmem/containers/impl/array.ipp
index 86e1859..172484a 100644
--- a/core/include/vecmem/containers/impl/array.ipp
+++ b/core/include/vecmem/containers/impl/array.ipp
@@ -86,7 +86,7 @@ auto array<T, N>::front() const -> const_reference {
             "Called vecmem::array::front() on an empty "
             "array");
     }
-    return (*m_memory);
+    return (m_memory[0]);
 }
 
 template <typename T, std::size_t N>
-- 
2.43.0


From 48bf11b53de7cccfda4f5ede43f5cf173564f828 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:44:09 +0000
Subject: [PATCH 24/35] fix: align the payload of fixed size jagged buffers of
 over-aligned types

---
 core/include/vecmem/containers/impl/jagged_vector_buffer.ipp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp b/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
index a449baa..07a537b 100644
--- a/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
+++ b/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
@@ -96,9 +96,8 @@ jagged_vector_buffer<TYPE>::jagged_vector_buffer(
 
     // Allocate the "inner memory" for a fixed size buffer.
     if (type == buffer_type::fixed_size && total_elements != 0) {
-        m_inner_memory = vecmem::make_unique_alloc<char[]>(
-            resource, total_elements * sizeof(TYPE));
-        data_ptr = reinterpret_cast<TYPE*>(m_inner_memory.get());
+        std::tie(m_inner_memory, data_ptr) =
+            details::aligned_multiple_placement<TYPE>(resource, total_elements);
     }
     // Allocate the "inner memory" for a resizable buffer.
     else if (type == buffer_type::resizable && capacities.size() != 0) {
-- 
2.43.0


From 4fae2ca73c9507c55c0d4dad86a787c935843a0b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:44:09 +0000
Subject: [PATCH 25/35] fix: edm::host::resize() left the variables with
 different sizes when it failed

---
 .../vecmem/edm/details/host_traits.hpp        | 38 ++++++++++++++-----
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/core/include/vecmem/edm/details/host_traits.hpp b/core/include/vecmem/edm/details/host_traits.hpp
index a897cf0..dd9fd29 100644
--- a/core/include/vecmem/edm/details/host_traits.hpp
+++ b/core/include/vecmem/edm/details/host_traits.hpp
@@ -15,6 +15,7 @@
 #include "vecmem/memory/memory_resource.hpp"
 
 // System include(s).
+#include <cstddef>
 #include <stdexcept>
 #include <tuple>
 #include <type_traits>
@@ -135,17 +136,36 @@ template <typename... VARTYPES, std::size_t INDEX, std::size_t... Is>
 void host_resize(std::tuple<typename host_type<VARTYPES>::type...>& data,
                  std::size_t size, std::index_sequence<INDEX, Is...>) {
 
+    // Helper for resizing this variable.
+    auto resize_variable = [&data](std::size_t s) {
+        if constexpr (type::details::is_jagged_vector_v<
+                          typename std::tuple_element<
+                              INDEX, std::tuple<VARTYPES...>>::type>) {
+            vecmem::details::resize_jagged_vector(std::get<INDEX>(data), s);
+        } else if constexpr (type::details::is_vector_v<
+                                 typename std::tuple_element<
+                                     INDEX, std::tuple<VARTYPES...>>::type>) {
+            std::get<INDEX>(data).resize(s);
+        }
+        (void)data;
+        (void)s;
+    };
+
     // Resize this variable.
-    if constexpr (type::details::is_jagged_vector_v<typename std::tuple_element<
-                      INDEX, std::tuple<VARTYPES...>>::type>) {
-        vecmem::details::resize_jagged_vector(std::get<INDEX>(data), size);
-    } else if constexpr (type::details::is_vector_v<typename std::tuple_element<
-                             INDEX, std::tuple<VARTYPES...>>::type>) {
-        std::get<INDEX>(data).resize(size);
-    }
-    // Terminate, or continue.
+    const std::size_t old_size = std::get<INDEX>(data).size();
+    resize_variable(size);
+    // Terminate, or continue. If growing one of the later variables fails, take
+    // back what was done to this one. So that the variables would always have
+    // the same size.
     if constexpr (sizeof...(Is) > 0) {
-        host_resize<VARTYPES...>(data, size, std::index_sequence<Is...>{});
+        try {
+            host_resize<VARTYPES...>(data, size, std::index_sequence<Is...>{});
+        } catch (...) {
+            if (old_size < size) {
+                resize_variable(old_size);
+            }
+            throw;
+        }
     }
 }
 
-- 
2.43.0


From 2ac0ec7ac931fd0f695b9bdbf612ddf375db0039 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:51:34 +0000
Subject: [PATCH 26/35] fix: element life times, self-insertion and alignment
 in vecmem::static_vector

 - the size constructor destroyed elements that were never constructed;
 - copy assignment copied the elements bytewise;
 - over-aligned element types were not aligned;
 - insert()/emplace() used the value after moving it away, and left a
   half-moved vector behind if the element's constructor threw;
 - the constructors and assign() did not keep the size in step with the
   constructed elements when one of them threw.
---
 .../vecmem/containers/impl/static_vector.ipp  | 89 ++++++++++---------
 .../vecmem/containers/static_vector.hpp       | 11 ++-
 2 files changed, 56 insertions(+), 44 deletions(-)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index 8a4baf9..ffd1dfb 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -20,7 +20,7 @@ VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::static_vector()
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::static_vector(
     size_type size, const_reference value)
-    : m_size(size), m_elements() {
+    : static_vector() {
 
     assign(size, value);
 }
@@ -28,11 +28,12 @@ VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::static_vector(
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::static_vector(
     const static_vector& parent)
-    : m_size(parent.m_size), m_elements() {
+    : static_vector() {
 
     // Make copies of all of the elements.
-    for (size_type i = 0; i < m_size; ++i) {
+    for (size_type i = 0; i < parent.m_size; ++i) {
         construct(i, parent[i]);
+        ++m_size;
     }
 }
 
@@ -42,6 +43,22 @@ VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::~static_vector() {
     clear();
 }
 
+template <typename TYPE, std::size_t MAX_SIZE>
+VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::operator=(
+    const static_vector& rhs) -> static_vector& {
+
+    // Avoid self-assignment.
+    if (this != &rhs) {
+        // Replace the elements with copies of the other vector's elements.
+        clear();
+        for (size_type i = 0; i < rhs.m_size; ++i) {
+            construct(i, rhs[i]);
+            ++m_size;
+        }
+    }
+    return *this;
+}
+
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE typename static_vector<TYPE, MAX_SIZE>::reference
 static_vector<TYPE, MAX_SIZE>::at(size_type pos) {
@@ -149,35 +166,15 @@ VECMEM_HOST_AND_DEVICE void static_vector<TYPE, MAX_SIZE>::assign(
     // Create the required number of identical elements.
     for (size_type i = 0; i < count; ++i) {
         construct(i, value);
+        ++m_size;
     }
-
-    // Set the assigned size of the vector.
-    m_size = count;
 }
 
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::insert(
     const_iterator pos, const_reference value) -> iterator {
 
-    // Make sure that one more position is available.
-    assert(m_size < array_max_size);
-
-    // Find the index of this iterator inside of the vector.
-    auto id = element_id(pos);
-
-    // Move the payload of the existing elements after "pos".
-    memmove(static_cast<void*>(id.m_ptr + 1),
-            static_cast<const void*>(id.m_ptr),
-            (m_size - id.m_index) * value_size);
-
-    // Instantiate the new value.
-    construct(id.m_index, value);
-
-    // Increment the size.
-    ++m_size;
-
-    // Return an iterator to the inserted element.
-    return id.m_ptr;
+    return emplace(pos, value);
 }
 
 template <typename TYPE, std::size_t MAX_SIZE>
@@ -190,19 +187,15 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::insert(
     // Find the index of this iterator inside of the vector.
     auto id = element_id(pos);
 
-    // Move the payload of the existing elements after "pos".
-    memmove(static_cast<void*>(id.m_ptr + count),
-            static_cast<const void*>(id.m_ptr),
-            (m_size - id.m_index) * value_size);
+    // Make a copy of the value, as it may be one of the elements that are about
+    // to be moved.
+    const value_type copy(value);
 
-    // Instantiate all the new values.
+    // Insert all of the new values.
     for (size_type i = 0; i < count; ++i) {
-        construct(id.m_index + i, value);
+        emplace(id.m_ptr + i, copy);
     }
 
-    // Increment the size.
-    m_size += count;
-
     // Return an iterator to the first inserted element.
     return id.m_ptr;
 }
@@ -218,13 +211,27 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::emplace(
     // Find the index of this iterator inside of the vector.
     auto id = element_id(pos);
 
-    // Move the payload of the existing elements after "pos".
-    memmove(static_cast<void*>(id.m_ptr + 1),
-            static_cast<const void*>(id.m_ptr),
-            (m_size - id.m_index) * value_size);
-
-    // Instantiate the new value.
-    new (id.m_ptr) value_type(std::forward<Args>(args)...);
+    if (id.m_index == m_size) {
+        // Instantiate the new value in its final place.
+        new (static_cast<void*>(id.m_ptr))
+            value_type(std::forward<Args>(args)...);
+    } else {
+        // Instantiate the new value outside of the array at first. So that the
+        // arguments could refer to elements of the vector, and that nothing
+        // would happen to the vector if the instantiation would fail.
+        alignas(value_type) char element[value_size];
+        new (static_cast<void*>(element))
+            value_type(std::forward<Args>(args)...);
+
+        // Move the payload of the existing elements after "pos".
+        memmove(static_cast<void*>(id.m_ptr + 1),
+                static_cast<const void*>(id.m_ptr),
+                (m_size - id.m_index) * value_size);
+
+        // Move the new element to its place.
+        memcpy(static_cast<void*>(id.m_ptr), static_cast<const void*>(element),
+               value_size);
+    }
 
     // Increment the size.
     ++m_size;
diff --git a/core/include/vecmem/containers/static_vector.hpp b/core/include/vecmem/containers/static_vector.hpp
index ef68ddb..458b901 100644
--- a/core/include/vecmem/containers/static_vector.hpp
+++ b/core/include/vecmem/containers/static_vector.hpp
@@ -85,7 +85,7 @@ public:
         std::enable_if_t<details::is_iterator_of<InputIt, value_type>::value,
                          bool> = true>
     VECMEM_HOST_AND_DEVICE static_vector(InputIt other_begin, InputIt other_end)
-        : m_size(0), m_elements() {
+        : static_vector() {
 
         assign<InputIt>(other_begin, other_end);
     }
@@ -97,6 +97,10 @@ public:
     VECMEM_HOST_AND_DEVICE
     ~static_vector();
 
+    /// Copy assignment operator
+    VECMEM_HOST_AND_DEVICE
+    static_vector& operator=(const static_vector& rhs);
+
     /// @}
 
     /// @name Vector element access functions
@@ -159,7 +163,8 @@ public:
         // inefficient, but we can't make any assumptions about the type of the
         /// input iterator eceived by this function.
         for (InputIt itr = other_begin; itr != other_end; ++itr) {
-            construct(m_size++, *itr);
+            construct(m_size, *itr);
+            ++m_size;
         }
     }
 
@@ -316,7 +321,7 @@ private:
     /// Size of the vector
     size_type m_size;
     /// Array that holds the PoD elements of the vector
-    array_type m_elements;
+    alignas(value_type) array_type m_elements;
 
 };  // class static_vector
 
-- 
2.43.0


From 93e5cef52f9e43d15f68d566dc04f30c9c47822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:11 +0000
Subject: [PATCH 27/35] fix: sycl::queue_wrapper kept its own queue when a
 non-owning wrapper was copied into it

---
 sycl/src/utils/sycl/queue_wrapper.sycl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sycl/src/utils/sycl/queue_wrapper.sycl b/sycl/src/utils/sycl/queue_wrapper.sycl
index f6f2d4e..818ddce 100644
--- a/sycl/src/utils/sycl/queue_wrapper.sycl
+++ b/sycl/src/utils/sycl/queue_wrapper.sycl
@@ -85,8 +85,12 @@ queue_wrapper& queue_wrapper::operator=(const queue_wrapper& rhs) {
         m_queue = m_managedQueue.get();
     } else {
         // If not, then let's just point at the same queue that somebody else
-        // owns.
+        // owns. Giving up the queue owned by this object so far. (Unless that
+        // is the very same queue.)
         m_queue = rhs.m_queue;
+        if (m_managedQueue.get() != m_queue) {
+            m_managedQueue.reset();
+        }
     }
 
     // Return this object.
-- 
2.43.0


From 863c9ef1bb7e1b81af1831704b9003efd84a3445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:11 +0000
Subject: [PATCH 28/35] fix: lost events, and waiting twice for failed ones, in
 sycl::async_copy

---
 sycl/src/utils/sycl/async_copy.sycl | 49 ++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/sycl/src/utils/sycl/async_copy.sycl b/sycl/src/utils/sycl/async_copy.sycl
index 491e7ee..9ddecd7 100644
--- a/sycl/src/utils/sycl/async_copy.sycl
+++ b/sycl/src/utils/sycl/async_copy.sycl
@@ -17,6 +17,8 @@
 // System include(s).
 #include <algorithm>
 #include <exception>
+#include <memory>
+#include <utility>
 #include <vector>
 
 namespace {
@@ -25,14 +27,20 @@ namespace {
 struct sycl_event : public vecmem::abstract_event {
 
     /// Constructor with a SYCL event
-    sycl_event(const std::vector<::sycl::event>& events) : m_events(events) {}
+    sycl_event(std::vector<::sycl::event>&& events)
+        : m_events(std::move(events)) {}
     /// Destructor
     ~sycl_event() {
         // Check if the user forgot to wait on this asynchronous event.
         if (!m_events.empty()) {
             // If so, wait implicitly now.
             VECMEM_DEBUG_MSG(1, "Asynchronous SYCL event was not waited on!");
-            wait();
+            try {
+                wait();
+            } catch (...) {
+                // Destructors must not throw.
+                VECMEM_DEBUG_MSG(1, "The implicit wait has failed!");
+            }
 #ifdef VECMEM_FAIL_ON_ASYNC_ERRORS
             // If the user wants to fail on asynchronous errors, do so now.
             std::terminate();
@@ -42,8 +50,11 @@ struct sycl_event : public vecmem::abstract_event {
 
     /// Synchronize on the underlying SYCL event
     virtual void wait() override {
-        ::sycl::event::wait_and_throw(m_events);
-        ignore();
+        // The events are not needed anymore, even if waiting for them reports
+        // an error. So that nothing would try to wait for them again.
+        std::vector<::sycl::event> events;
+        events.swap(m_events);
+        ::sycl::event::wait_and_throw(events);
     }
 
     /// Ignore the underlying SYCL event
@@ -62,6 +73,13 @@ namespace details {
 struct async_copy_data {
     queue_wrapper m_queue;
     std::vector<::sycl::event> m_events;
+
+    /// Make sure that one more event can be recorded without a failure
+    void reserve_event() {
+        if (m_events.size() == m_events.capacity()) {
+            m_events.reserve(2 * m_events.size() + 8);
+        }
+    }
 };
 
 }  // namespace details
@@ -84,7 +102,8 @@ void async_copy::do_copy(std::size_t size, const void* from_ptr, void* to_ptr,
     assert(from_ptr != nullptr);
     assert(to_ptr != nullptr);
 
-    // Perform the copy.
+    // Perform the copy. Making sure first that its event can be recorded.
+    m_data->reserve_event();
     m_data->m_events.push_back(
         details::get_queue(m_data->m_queue).memcpy(to_ptr, from_ptr, size));
 
@@ -106,6 +125,7 @@ void async_copy::do_memset(std::size_t size, void* ptr, int value) const {
 
     // Perform the operation.
 #if defined(VECMEM_HAVE_SYCL_MEMSET)
+    m_data->reserve_event();
     m_data->m_events.push_back(
         details::get_queue(m_data->m_queue).memset(ptr, value, size));
 #else
@@ -127,12 +147,19 @@ void async_copy::do_memset(std::size_t size, void* ptr, int value) const {
 
 copy::event_type async_copy::create_event() const {
 
-    // Construct an event object out of all of the events collected.
-    auto result = std::make_unique<::sycl_event>(m_data->m_events);
-    // Forget about the events in this object.
-    m_data->m_events.clear();
-    // Return the event object.
-    return result;
+    // Take all of the events collected so far.
+    std::vector<::sycl::event> events;
+    events.swap(m_data->m_events);
+
+    try {
+        // Construct an event object out of them.
+        return std::make_unique<::sycl_event>(std::move(events));
+    } catch (...) {
+        // Without an event nobody could wait for the operations that were
+        // already started. So they need to be waited for here.
+        ::sycl::event::wait(events);
+        throw;
+    }
 }
 
 }  // namespace vecmem::sycl
-- 
2.43.0


From e61ae94cde9024f10c162ab2f5da570b685d5b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:11 +0000
Subject: [PATCH 29/35] fix: hip::details::select_device went back to device 0
 if the current one was unknown

---
 hip/src/utils/select_device.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hip/src/utils/select_device.cpp b/hip/src/utils/select_device.cpp
index ca21b33..3ddb078 100644
--- a/hip/src/utils/select_device.cpp
+++ b/hip/src/utils/select_device.cpp
@@ -9,7 +9,6 @@
 // Local include(s).
 #include "select_device.hpp"
 
-#include "get_device.hpp"
 #include "hip_error_handling.hpp"
 
 // HIP include(s).
@@ -17,8 +16,10 @@
 
 namespace vecmem::hip::details {
 
-select_device::select_device(int device) : m_device(get_device()) {
+select_device::select_device(int device) : m_device(0) {
 
+    // The current device needs to be known, to be able to go back to it.
+    VECMEM_HIP_ERROR_CHECK(hipGetDevice(&m_device));
     VECMEM_HIP_ERROR_CHECK(hipSetDevice(device));
 }
 
-- 
2.43.0


From 26ce9aa6aaa449605f73c7376bf4ea7e36cd217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:11 +0000
Subject: [PATCH 30/35] fix: events of cuda::async_copy in case of errors, and
 on streams of other devices

---
 .../vecmem/utils/cuda/stream_wrapper.hpp      |  9 ++-
 cuda/src/utils/cuda/async_copy.cpp            | 62 +++++++++++++------
 cuda/src/utils/cuda_wrappers.cpp              |  7 +++
 cuda/src/utils/cuda_wrappers.hpp              |  8 +++
 cuda/src/utils/opaque_stream.cpp              |  2 +-
 cuda/src/utils/opaque_stream.hpp              |  6 +-
 cuda/src/utils/stream_wrapper.cpp             |  9 +--
 7 files changed, 75 insertions(+), 28 deletions(-)

diff --git a/cuda/include/vecmem/utils/cuda/stream_wrapper.hpp b/cuda/include/vecmem/utils/cuda/stream_wrapper.hpp
index 157bdee..62b84b8 100644
--- a/cuda/include/vecmem/utils/cuda/stream_wrapper.hpp
+++ b/cuda/include/vecmem/utils/cuda/stream_wrapper.hpp
@@ -16,10 +16,14 @@
 namespace vecmem {
 namespace cuda {
 
+// Forward declaration(s).
+class stream_wrapper;
+
 /// @brief Namespace for types that should not be used directly by clients
 namespace details {
 class opaque_stream;
-}
+int get_device(const stream_wrapper& stream);
+}  // namespace details
 
 /// Wrapper class for @c cudaStream_t
 ///
@@ -69,6 +73,9 @@ public:
     void synchronize();
 
 private:
+    /// Helper function needing to know the device of the managed stream
+    friend int details::get_device(const stream_wrapper& stream);
+
     /// Bare pointer to the wrapped @c cudaStream_t object
     void* m_stream;
     /// Smart pointer to the managed @c cudaStream_t object
diff --git a/cuda/src/utils/cuda/async_copy.cpp b/cuda/src/utils/cuda/async_copy.cpp
index 4803f69..5126cd9 100644
--- a/cuda/src/utils/cuda/async_copy.cpp
+++ b/cuda/src/utils/cuda/async_copy.cpp
@@ -11,6 +11,7 @@
 
 #include "../cuda_error_handling.hpp"
 #include "../cuda_wrappers.hpp"
+#include "../select_device.hpp"
 #include "vecmem/utils/debug.hpp"
 
 // CUDA include(s).
@@ -19,6 +20,7 @@
 // System include(s).
 #include <cassert>
 #include <exception>
+#include <memory>
 #include <string>
 
 namespace {
@@ -26,17 +28,18 @@ namespace {
 /// CUDA specific implementation of the abstract event interface
 struct cuda_event : public vecmem::abstract_event {
 
-    /// Constructor with the created event.
-    cuda_event(cudaEvent_t event) : m_event(event) {
-        assert(m_event != nullptr);
-    }
     /// Destructor
     ~cuda_event() {
         // Check if the user forgot to wait on this asynchronous event.
         if (m_event != nullptr) {
             // If so, wait implicitly now.
             VECMEM_DEBUG_MSG(1, "Asynchronous CUDA event was not waited on!");
-            wait();
+            try {
+                wait();
+            } catch (...) {
+                // Destructors must not throw.
+                VECMEM_DEBUG_MSG(1, "The implicit wait has failed!");
+            }
 #ifdef VECMEM_FAIL_ON_ASYNC_ERRORS
             // If the user wants to fail on asynchronous errors, do so now.
             std::terminate();
@@ -49,8 +52,11 @@ struct cuda_event : public vecmem::abstract_event {
         if (m_event == nullptr) {
             return;
         }
-        VECMEM_CUDA_ERROR_CHECK(cudaEventSynchronize(m_event));
+        // The event is not needed anymore, even if the synchronization reported
+        // an error. So that nothing would try to wait for it again.
+        const cudaError_t status = cudaEventSynchronize(m_event);
         ignore();
+        VECMEM_CUDA_ERROR_CHECK(status);
     }
 
     /// Ignore the underlying CUDA event
@@ -58,12 +64,13 @@ struct cuda_event : public vecmem::abstract_event {
         if (m_event == nullptr) {
             return;
         }
-        VECMEM_CUDA_ERROR_CHECK(cudaEventDestroy(m_event));
+        const cudaEvent_t event = m_event;
         m_event = nullptr;
+        VECMEM_CUDA_ERROR_CHECK(cudaEventDestroy(event));
     }
 
     /// The CUDA event wrapped by this struct
-    cudaEvent_t m_event;
+    cudaEvent_t m_event = nullptr;
 
 };  // struct cuda_event
 
@@ -137,20 +144,35 @@ void async_copy::do_memset(std::size_t size, void* ptr, int value) const {
 
 async_copy::event_type async_copy::create_event() const {
 
-    // Create a CUDA event.
-    cudaEvent_t cudaEvent = nullptr;
-    VECMEM_CUDA_ERROR_CHECK(cudaEventCreate(&cudaEvent));
-
-    // Create a smart pointer around it to make memory management a little
-    // safer.
-    auto event = std::make_unique<::cuda_event>(cudaEvent);
+    try {
+        // Make sure that the event is created on the device of the stream.
+        std::unique_ptr<details::select_device> dev_selector;
+        const int device = details::get_device(m_stream);
+        if (device != stream_wrapper::INVALID_DEVICE) {
+            dev_selector = std::make_unique<details::select_device>(device);
+        }
 
-    // Record it into the copy object's CUDA stream.
-    VECMEM_CUDA_ERROR_CHECK(
-        cudaEventRecord(cudaEvent, details::get_stream(m_stream)));
+        // Create a CUDA event, owned by a vecmem event from the start.
+        auto event = std::make_unique<::cuda_event>();
+        VECMEM_CUDA_ERROR_CHECK(cudaEventCreate(&(event->m_event)));
 
-    // Return the smart pointer.
-    return event;
+        // Record it into the copy object's CUDA stream.
+        const cudaError_t status =
+            cudaEventRecord(event->m_event, details::get_stream(m_stream));
+        if (status != cudaSuccess) {
+            event->ignore();
+        }
+        VECMEM_CUDA_ERROR_CHECK(status);
+
+        // Return the smart pointer.
+        return event;
+    } catch (...) {
+        // Without an event nobody could wait for the operations that were
+        // already started. So they need to be waited for here.
+        VECMEM_CUDA_ERROR_IGNORE(
+            cudaStreamSynchronize(details::get_stream(m_stream)));
+        throw;
+    }
 }
 
 }  // namespace vecmem::cuda
diff --git a/cuda/src/utils/cuda_wrappers.cpp b/cuda/src/utils/cuda_wrappers.cpp
index e37efe7..43deac9 100644
--- a/cuda/src/utils/cuda_wrappers.cpp
+++ b/cuda/src/utils/cuda_wrappers.cpp
@@ -10,6 +10,7 @@
 #include "cuda_wrappers.hpp"
 
 #include "cuda_error_handling.hpp"
+#include "opaque_stream.hpp"
 
 // CUDA include(s).
 #include <cuda_runtime_api.h>
@@ -26,6 +27,12 @@ int get_device() {
     return d;
 }
 
+int get_device(const stream_wrapper& stream) {
+
+    return (stream.m_managedStream ? stream.m_managedStream->m_device
+                                   : stream_wrapper::INVALID_DEVICE);
+}
+
 cudaStream_t get_stream(const stream_wrapper& stream) {
 
     assert(stream.stream() != nullptr);
diff --git a/cuda/src/utils/cuda_wrappers.hpp b/cuda/src/utils/cuda_wrappers.hpp
index c7ae811..0ad749b 100644
--- a/cuda/src/utils/cuda_wrappers.hpp
+++ b/cuda/src/utils/cuda_wrappers.hpp
@@ -27,6 +27,14 @@ namespace details {
  */
 int get_device();
 
+/**
+ * @brief Get the device that the stream of a wrapper was created on.
+ *
+ * @return The number of the device, or @c stream_wrapper::INVALID_DEVICE if
+ *         the wrapper does not own its stream.
+ */
+int get_device(const stream_wrapper& stream);
+
 /// Get concrete @c cudaStream_t object out of our wrapper
 cudaStream_t get_stream(const stream_wrapper& stream);
 
diff --git a/cuda/src/utils/opaque_stream.cpp b/cuda/src/utils/opaque_stream.cpp
index 35bf23a..34240a0 100644
--- a/cuda/src/utils/opaque_stream.cpp
+++ b/cuda/src/utils/opaque_stream.cpp
@@ -12,7 +12,7 @@
 
 namespace vecmem::cuda::details {
 
-opaque_stream::opaque_stream() : m_stream(nullptr) {
+opaque_stream::opaque_stream(int device) : m_stream(nullptr), m_device(device) {
 
     VECMEM_CUDA_ERROR_CHECK(cudaStreamCreate(&m_stream));
 }
diff --git a/cuda/src/utils/opaque_stream.hpp b/cuda/src/utils/opaque_stream.hpp
index f5344e3..3754896 100644
--- a/cuda/src/utils/opaque_stream.hpp
+++ b/cuda/src/utils/opaque_stream.hpp
@@ -19,13 +19,15 @@ namespace vecmem::cuda::details {
 class opaque_stream {
 
 public:
-    /// Default constructor
-    opaque_stream();
+    /// Constructor, creating a stream on the device that is currently selected
+    opaque_stream(int device);
     /// Destructor
     ~opaque_stream();
 
     /// Stream managed by the object
     cudaStream_t m_stream;
+    /// Device that the stream was created on
+    int m_device;
 
 };  // class opaque_stream
 
diff --git a/cuda/src/utils/stream_wrapper.cpp b/cuda/src/utils/stream_wrapper.cpp
index cdd5b97..285e62a 100644
--- a/cuda/src/utils/stream_wrapper.cpp
+++ b/cuda/src/utils/stream_wrapper.cpp
@@ -26,16 +26,17 @@ stream_wrapper::stream_wrapper(int device)
     : m_stream(nullptr), m_managedStream() {
 
     // Make sure that the stream is constructed on the correct device.
-    details::select_device dev_selector(
-        device == INVALID_DEVICE ? details::get_device() : device);
+    const int selected =
+        (device == INVALID_DEVICE ? details::get_device() : device);
+    details::select_device dev_selector(selected);
 
     // Construct the stream.
-    m_managedStream = std::make_shared<details::opaque_stream>();
+    m_managedStream = std::make_shared<details::opaque_stream>(selected);
     m_stream = m_managedStream->m_stream;
 
     // Tell the user what happened.
     VECMEM_DEBUG_MSG(1, "Created stream on device: %s",
-                     details::get_device_name(dev_selector.device()).c_str());
+                     details::get_device_name(selected).c_str());
 }
 
 stream_wrapper::stream_wrapper(void* stream)
-- 
2.43.0


From d0532ae26eb912e69dd73b44aa05be8af5f5a1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:59 +0000
Subject: [PATCH 31/35] fix: copy::to freed a jagged buffer while operations on
 it were pending, if one failed

---
 core/include/vecmem/utils/impl/copy.ipp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index b24b6dc..53c29ba 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -228,12 +228,23 @@ data::jagged_vector_buffer<std::remove_cv_t<TYPE>> copy::to(
         get_sizes(data), resource, host_access_resource);
     assert(result.size() == data.size());
 
-    // Copy the description of the "inner vectors" if necessary.
-    setup(result)->wait();
-
-    // Copy the payload of the inner vectors. Explicitly waiting for the copy to
-    // finish before returning the buffer.
-    operator()(data, result, cptype)->wait();
+    try {
+        // Copy the description of the "inner vectors" if necessary.
+        setup(result)->wait();
+
+        // Copy the payload of the inner vectors. Explicitly waiting for the
+        // copy to finish before returning the buffer.
+        operator()(data, result, cptype)->wait();
+    } catch (...) {
+        // Some of the operations may have been started already. They have to
+        // finish before the buffer could be deleted.
+        try {
+            create_event()->wait();
+        } catch (...) {
+            VECMEM_DEBUG_MSG(1, "Could not wait for the started operations");
+        }
+        throw;
+    }
 
     // Return the newly created object.
     return result;
-- 
2.43.0


From 5bdd1f7523e1a53eb5663a3b59496c322158f0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:09 +0000
Subject: [PATCH 32/35] fix: do not describe edm::buffer payloads of more than
 4 GiB with a truncated size

The view of the payload has an unsigned int capacity. Copying or memset-ing
such a buffer as a single block only touched the remainder of its size modulo
4 GiB. Leave the payload view empty in this case, which makes the operations
handle the buffer variable-by-variable.
---
 core/include/vecmem/edm/details/buffer_traits.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/include/vecmem/edm/details/buffer_traits.hpp b/core/include/vecmem/edm/details/buffer_traits.hpp
index 117b98a..4413d70 100644
--- a/core/include/vecmem/edm/details/buffer_traits.hpp
+++ b/core/include/vecmem/edm/details/buffer_traits.hpp
@@ -17,6 +17,7 @@
 
 // System include(s).
 #include <array>
+#include <limits>
 #include <numeric>
 #include <tuple>
 #include <type_traits>
@@ -252,6 +253,13 @@ find_payload_view(
         reinterpret_cast<typename result_type::pointer>(find_last_pointer(
             payloads, sizes, std::index_sequence_for<TYPES...>()));
 
+    // Payloads that the view could not describe completely must not be operated
+    // on as a single block. They need to be handled variable-by-variable.
+    if (static_cast<std::size_t>(end_ptr - ptr) >
+        std::numeric_limits<typename result_type::size_type>::max()) {
+        return {0, nullptr};
+    }
+
     // Construct the result.
     return {static_cast<typename result_type::size_type>(end_ptr - ptr), ptr};
 }
-- 
2.43.0


From c25b87de0a33509d76af31344f2d067d6b54d05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:08 +0000
Subject: [PATCH 33/35] fix: memory pools' first chunks could be smaller than
 min_bytes_per_chunk

The number of blocks was rounded down, which did not honour (and with
assertions enabled, did not survive) minimal sizes that are not a multiple
of the block size.
---
 core/src/memory/details/pool_memory_resource_impl.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index a0cc2f2..cb83436 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -205,10 +205,14 @@ void* pool_memory_resource_impl::allocate(std::size_t bytes,
 
         std::size_t n = bucket.previous_allocated_count;
         if (n == 0) {
-            n = m_options.min_blocks_per_chunk;
-            if (n < (m_options.min_bytes_per_chunk >> bytes_log2)) {
-                n = m_options.min_bytes_per_chunk >> bytes_log2;
+            // As many blocks as it takes to reach the minimal size, as long as
+            // that is possible within the maximal one.
+            n = m_options.min_bytes_per_chunk >> bytes_log2;
+            if (((n << bytes_log2) < m_options.min_bytes_per_chunk) &&
+                (n < (m_options.max_bytes_per_chunk >> bytes_log2))) {
+                ++n;
             }
+            n = std::max(n, m_options.min_blocks_per_chunk);
         } else {
             n = n * 3 / 2;
             if (n > (m_options.max_bytes_per_chunk >> bytes_log2)) {
-- 
2.43.0


From 659bde3ba6f9dc6fffcba5c56fbb97c2c4204382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:08 +0000
Subject: [PATCH 34/35] fix: apply the size cutoff to every block that a memory
 pool may take from its cache

A block chosen because of its alignment was never compared with the
requested size, so a small request could be given an arbitrarily large
cached block.
---
 .../details/pool_memory_resource_impl.cpp     | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index cb83436..f1d4c58 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -136,16 +136,6 @@ void* pool_memory_resource_impl::allocate(std::size_t bytes,
             auto it = std::lower_bound(m_cached_oversized.begin(),
                                        m_cached_oversized.end(), oversized);
 
-            // If the size is bigger than the requested size by a factor
-            // bigger than or equal to the specified cutoff for size,
-            // allocate a new block.
-            if (it != m_cached_oversized.end()) {
-                const std::size_t size_factor = it->size / bytes;
-                if (size_factor >= m_options.cached_size_cutoff_factor) {
-                    it = m_cached_oversized.end();
-                }
-            }
-
             // Make sure that the alignment of the cached block is appropriate.
             if ((it != m_cached_oversized.end()) &&
                 (it->alignment < alignment)) {
@@ -157,6 +147,16 @@ void* pool_memory_resource_impl::allocate(std::size_t bytes,
                 ;
             }
 
+            // If the size is bigger than the requested size by a factor
+            // bigger than or equal to the specified cutoff for size,
+            // allocate a new block.
+            if (it != m_cached_oversized.end()) {
+                const std::size_t size_factor = it->size / bytes;
+                if (size_factor >= m_options.cached_size_cutoff_factor) {
+                    it = m_cached_oversized.end();
+                }
+            }
+
             // If the alignment is bigger than the requested one by a factor
             // bigger than or equal to the specified cutoff for alignment,
             // allocate a new block.
-- 
2.43.0


From d28ce201fe1158b6729fc3368ef718d9445f040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:21 +0000
Subject: [PATCH 35/35] fix: check the options of memory pools before using
 them

With a smallest block size of zero, the logarithm of zero was taken first,
which is undefined (and an endless loop without compiler support for it),
instead of refusing the options.
---
 core/src/memory/details/pool_memory_resource_impl.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index f1d4c58..b5fbadc 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -34,8 +34,10 @@ namespace {
 /// Function checking whether a given set of options are valid/consistent
 ///
 /// @param opts The options to check
+/// @return The options received
 ///
-void check_valid(const pool_memory_resource::options& opts) {
+const pool_memory_resource::options& check_valid(
+    const pool_memory_resource::options& opts) {
 
     CHECK_VALID(!vecmem::details::is_power_of_2(opts.smallest_block_size));
     CHECK_VALID(!vecmem::details::is_power_of_2(opts.largest_block_size));
@@ -62,6 +64,8 @@ void check_valid(const pool_memory_resource::options& opts) {
                 opts.min_bytes_per_chunk);
 
     CHECK_VALID(opts.alignment > opts.smallest_block_size);
+
+    return opts;
 }
 
 /// Make sure that a vector can grow to a given size without an allocation
@@ -85,11 +89,10 @@ void reserve_for(std::vector<T>& vec, std::size_t size) {
 pool_memory_resource_impl::pool_memory_resource_impl(
     memory_resource& upstream, const pool_memory_resource::options& opts)
     : m_upstream(upstream),
-      m_options(opts),
+      m_options(check_valid(opts)),
       m_smallest_block_log2(
           vecmem::details::log2_ri(opts.smallest_block_size)) {
 
-    check_valid(opts);
     m_pools.resize(vecmem::details::log2_ri(m_options.largest_block_size) -
                    m_smallest_block_log2 + 1);
     VECMEM_DEBUG_MSG(5, "Created %lu pools", m_pools.size());
-- 
2.43.0

