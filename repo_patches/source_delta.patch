From 3413dd74599fa88a3844727288653c1a96c07c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:27 +0000
Subject: [PATCH 01/29] fix: quota_use: do not overflow on a request close to
 QUOTA_MAX

used + size could wrap around 32 bits, which failed the assertion in a debug
build and in a release build granted the request and lost track of usage.
The request must just be refused.
---
 include/small/quota.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/small/quota.h b/include/small/quota.h
index 238d15e..b993e71 100644
--- a/include/small/quota.h
+++ b/include/small/quota.h
@@ -140,12 +140,13 @@ quota_use(struct quota *quota, size_t size)
 		uint32_t total_in_units = value >> 32;
 		uint32_t used_in_units = value & UINT32_MAX;
 
+		/* The sum may not fit into 32 bits, compare with the rest. */
+		if (size_in_units > total_in_units - used_in_units)
+			return -1;
+
 		uint32_t new_used_in_units = used_in_units + size_in_units;
 		assert(new_used_in_units > used_in_units);
 
-		if (new_used_in_units > total_in_units)
-			return -1;
-
 		uint64_t new_value =
 			((uint64_t) total_in_units << 32) | new_used_in_units;
 
-- 
2.43.0


From 7583d4ae4220eae0e1d8c997dbf9a012911bf3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:27 +0000
Subject: [PATCH 02/29] fix: quota_release: accept QUOTA_MAX

quota_use() and quota_set() can grant QUOTA_MAX bytes, so all of them can be
released at once.
---
 include/small/quota.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small/quota.h b/include/small/quota.h
index b993e71..a5d46aa 100644
--- a/include/small/quota.h
+++ b/include/small/quota.h
@@ -160,7 +160,7 @@ quota_use(struct quota *quota, size_t size)
 static inline ssize_t
 quota_release(struct quota *quota, size_t size)
 {
-	assert(size < QUOTA_MAX);
+	assert(size <= QUOTA_MAX);
 	uint32_t size_in_units = (size + (QUOTA_UNIT_SIZE - 1))
 				  / QUOTA_UNIT_SIZE;
 	assert(size_in_units);
-- 
2.43.0


From ecb43a1d4833e09725b41194c3e965eac979ae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:27 +0000
Subject: [PATCH 03/29] fix: lf_lifo_is_empty: ignore the ABA counter

Once something was pushed, the low 16 bits of the head hold a non-zero counter
and an empty list was reported as not empty.
---
 include/small/lf_lifo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small/lf_lifo.h b/include/small/lf_lifo.h
index 8181fef..bb876a7 100644
--- a/include/small/lf_lifo.h
+++ b/include/small/lf_lifo.h
@@ -114,7 +114,7 @@ lf_lifo_pop(struct lf_lifo *head)
 static inline bool
 lf_lifo_is_empty(struct lf_lifo *head)
 {
-	return head->next == NULL;
+	return lf_lifo(head->next) == NULL;
 }
 
 #if defined(__cplusplus)
-- 
2.43.0


From fa42067dee30f4513900a306474538dfadbe0a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:51 +0000
Subject: [PATCH 04/29] fix: quota_lease: try the exact required size before
 giving up

The attempts were 1Mb, 512Kb, 256Kb and so on while not less than required, so
a lease of, say, 600Kb was refused with 700Kb left in the source quota.
---
 include/small/quota_lessor.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/small/quota_lessor.h b/include/small/quota_lessor.h
index cdd15f7..0984b29 100644
--- a/include/small/quota_lessor.h
+++ b/include/small/quota_lessor.h
@@ -127,16 +127,18 @@ quota_lease(struct quota_lessor *lessor, ssize_t size)
 	size_t required = size + lessor->leased - lessor->used;
 	size_t use = required > QUOTA_USE_MIN ? required : QUOTA_USE_MIN;
 
-	for (; use >= required; use = use/2) {
-
+	while (1) {
 		ssize_t used = quota_use(lessor->source, use);
 		if (used >= 0) {
 			lessor->used += used;
 			lessor->leased += size;
 			return size;
 		}
+		if (use == required)
+			return -1;
+		/* The last attempt is exactly what is required. */
+		use = use / 2 > required ? use / 2 : required;
 	}
-	return -1;
 }
 
 /*
-- 
2.43.0


From c3dd0861e27ccfe7d44bb300e74e950d22dbb7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:04 +0000
Subject: [PATCH 05/29] fix: slab_get, slab_get_large: reject sizes that
 overflow with the header

---
 small/slab_cache.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/small/slab_cache.c b/small/slab_cache.c
index 5ac33ad..0e61fb3 100644
--- a/small/slab_cache.c
+++ b/small/slab_cache.c
@@ -270,6 +270,9 @@ slab_get_with_order(struct slab_cache *cache, uint8_t order)
 struct slab *
 slab_get_large(struct slab_cache *cache, size_t size)
 {
+	/* The size together with the header must be representable. */
+	if (size > SIZE_MAX - slab_sizeof())
+		return NULL;
 	size += slab_sizeof();
 	if (quota_use(cache->arena->quota, size) < 0)
 		return NULL;
@@ -317,6 +320,9 @@ struct slab *
 slab_get(struct slab_cache *cache, size_t size)
 {
 	struct slab *slab;
+	/* The size together with the header must be representable. */
+	if (size > SIZE_MAX - slab_sizeof())
+		return NULL;
 	uint8_t order = slab_order(cache, size + slab_sizeof());
 	if (order == cache->order_max + 1)
 		slab = slab_get_large(cache, size);
-- 
2.43.0


From 1c2b76b38f2002ab1ead9c0b8e3ecf32cbb36567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:04 +0000
Subject: [PATCH 06/29] fix: slab_cache_create: initialize the usage in the
 ASAN version

---
 small/slab_cache_asan.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/small/slab_cache_asan.c b/small/slab_cache_asan.c
index af89995..72ea5f6 100644
--- a/small/slab_cache_asan.c
+++ b/small/slab_cache_asan.c
@@ -35,6 +35,7 @@ void
 slab_cache_create(struct slab_cache *cache, struct slab_arena *arena)
 {
 	quota_lessor_create(&cache->quota, arena->quota);
+	cache->used = 0;
 	cache->id = small_asan_reserve_id();
 	slab_cache_set_thread(cache);
 }
-- 
2.43.0


From c77ca74da4e31b424adbe3092bec8e1f3e7af42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:46 +0000
Subject: [PATCH 07/29] fix: mempool: release empty slabs that hold a single
 object

---
 small/mempool.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/small/mempool.c b/small/mempool.c
index 72a9719..e578c45 100644
--- a/small/mempool.c
+++ b/small/mempool.c
@@ -131,7 +131,9 @@ mslab_free(struct mempool *pool, struct mslab *slab, void *ptr)
 		}
 	} else if (slab->nfree == 1) {
 		rlist_add_entry(&pool->cold_slabs, slab, next_in_cold);
-	} else if (slab->nfree == pool->objcount) {
+	}
+	/* Not an alternative to the above: a slab may hold a single object. */
+	if (slab->nfree == pool->objcount) {
 		/** Free the slab. */
 		if (slab == pool->first_hot_slab) {
 			pool->first_hot_slab =
-- 
2.43.0


From 40926dfb7873233e98ccfcf665ddffde17f19b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:02 +0000
Subject: [PATCH 08/29] fix: region: reject sizes that overflow with the header
 or padding

---
 include/small/region.h | 2 ++
 small/region.c         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/small/region.h b/include/small/region.h
index 27d142f..0a01b36 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -261,6 +261,8 @@ region_alloc(struct region *region, size_t size)
 static inline void *
 region_aligned_reserve(struct region *region, size_t size, size_t alignment)
 {
+	if (small_unlikely(size > SIZE_MAX - (alignment - 1)))
+		return NULL;
 	/* reserve extra to allow for alignment */
 	void *ptr = region_reserve(region, size + alignment - 1);
 	/* assuming NULL==0, aligned NULL still a NULL */
diff --git a/small/region.c b/small/region.c
index 32ab981..a57ef1e 100644
--- a/small/region.c
+++ b/small/region.c
@@ -36,6 +36,8 @@
 void *
 region_reserve_slow(struct region *region, size_t size)
 {
+	if (small_unlikely(size > SIZE_MAX - rslab_sizeof()))
+		return NULL;
 	/* The new slab must have at least this many bytes available. */
 	size_t slab_min_size = size + rslab_sizeof() - slab_sizeof();
 
-- 
2.43.0


From d7ea1d4fe6adbabdc540780c232b00d11e3d916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:03 +0000
Subject: [PATCH 09/29] fix: region: do not truncate the size of blocks above 4
 GiB

---
 include/small/region.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/small/region.h b/include/small/region.h
index 0a01b36..ba4fecf 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -180,7 +180,7 @@ struct rslab
 	 * extra members.
 	 */
 	struct slab slab;
-	uint32_t used;
+	size_t used;
 };
 
 static inline uint32_t
@@ -202,7 +202,7 @@ rslab_data_end(struct rslab *slab)
 }
 
 /** How much memory is available in a given block? */
-static inline uint32_t
+static inline size_t
 rslab_unused(struct rslab *slab)
 {
 	return slab->slab.size - rslab_sizeof() - slab->used;
@@ -286,8 +286,8 @@ region_aligned_alloc(struct region *region, size_t size, size_t alignment)
 		 * account for optional padding before the allocated
 		 * block (alignment)
 		 */
-		uint32_t effective_size = (uint32_t)(
-			(char *)ptr - (char *)rslab_data_end(slab) + size);
+		size_t effective_size =
+			(char *)ptr - (char *)rslab_data_end(slab) + size;
 
 		assert(effective_size <= rslab_unused(slab));
 
-- 
2.43.0


From a9dd4a56d35346cd8d88b17ae7cccda1cf6b58d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:03 +0000
Subject: [PATCH 10/29] fix: region_reserve_cb: do not look at the slab on a
 failure

---
 include/small/region.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/small/region.h b/include/small/region.h
index ba4fecf..e359a47 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -361,6 +361,8 @@ region_reserve_cb(void *ctx, size_t *size)
 {
 	struct region *region = (struct region *) ctx;
 	void *ptr = region_reserve(region, *size);
+	if (small_unlikely(ptr == NULL))
+		return NULL;
 	struct rslab *slab = rlist_first_entry(&region->slabs.slabs,
 					       struct rslab,
 					       slab.next_in_list);
-- 
2.43.0


From 0f10403b7f355813e84e46a533f40cdc37132b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:03 +0000
Subject: [PATCH 11/29] fix: region_reset: reset all blocks, not only the
 newest one

---
 include/small/region.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/small/region.h b/include/small/region.h
index e359a47..59cd914 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -309,13 +309,10 @@ region_aligned_alloc(struct region *region, size_t size, size_t alignment)
 static inline void
 region_reset(struct region *region)
 {
-	if (! rlist_empty(&region->slabs.slabs)) {
-		struct rslab *slab = rlist_first_entry(&region->slabs.slabs,
-						       struct rslab,
-						       slab.next_in_list);
-		region->slabs.stats.used -= slab->used;
+	struct rslab *slab;
+	rlist_foreach_entry(slab, &region->slabs.slabs, slab.next_in_list)
 		slab->used = 0;
-	}
+	region->slabs.stats.used = 0;
 #ifndef NDEBUG
 	region->reserved = false;
 #endif
-- 
2.43.0


From 12a74dd88210393f5a21e4471d09da0f4ea37040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:49 +0000
Subject: [PATCH 12/29] fix: region_alloc_array: do not truncate the size of a
 large array

---
 include/small/region.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/small/region.h b/include/small/region.h
index 59cd914..52a22b3 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -399,7 +399,9 @@ struct RegionGuard {
 })
 
 #define region_alloc_array(region, T, count, size) ({				\
-	int _tmp_ = sizeof(T) * (count);					\
+	size_t _tmp_ = (count);							\
+	if (__builtin_mul_overflow(_tmp_, sizeof(T), &_tmp_))			\
+		_tmp_ = SIZE_MAX;						\
 	*(size) = _tmp_;							\
 	(T *)region_aligned_alloc((region), _tmp_, alignof(T));			\
 })
-- 
2.43.0


From 8b1f34ea2411ec99a235c6a2fc0c2f5b7fed5119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:30 +0000
Subject: [PATCH 13/29] fix: region_join: take the end of a partially joined
 allocation in the ASAN version

---
 small/region_asan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/small/region_asan.c b/small/region_asan.c
index ea61e8c..7f37028 100644
--- a/small/region_asan.c
+++ b/small/region_asan.c
@@ -145,7 +145,8 @@ region_join(struct region *region, size_t size)
 		if (offset < copy_size)
 			copy_size = offset;
 		memcpy(ret + offset - copy_size,
-		       small_asan_payload_from_header(alloc), copy_size);
+		       (char *)small_asan_payload_from_header(alloc) +
+		       alloc->used - copy_size, copy_size);
 
 		offset -= copy_size;
 		alloc = rlist_next_entry(alloc, link);
-- 
2.43.0


From 3014a07f6c7d6884df8d93ac1e09ba62f262ce7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:37 +0000
Subject: [PATCH 14/29] fix: lsregion_to_iovec: do not lose data in a reused
 slab

The identifier of a cached slab was older than that of a large slab
created before the cached one is reused, so that after a flush up to the
large slab the data in the reused one was taken for already flushed.
---
 small/lsregion.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/small/lsregion.c b/small/lsregion.c
index 4b3446c..522dfbf 100644
--- a/small/lsregion.c
+++ b/small/lsregion.c
@@ -75,6 +75,11 @@ lsregion_aligned_reserve_slow(struct lsregion *lsregion, size_t size,
 		/* If there is the cached slab then use it. */
 		slab = lsregion->cached;
 		lsregion->cached = NULL;
+		/*
+		 * Large slabs might have been created since the slab was
+		 * cached. Identifiers of slabs must grow along the list.
+		 */
+		slab->slab_id = ++lsregion->slab_id;
 		rlist_add_tail_entry(&lsregion->slabs.slabs, slab,
 				     next_in_list);
 	} else {
-- 
2.43.0


From 337a4dcb709391986e85d1544d972f2a45889c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:37 +0000
Subject: [PATCH 15/29] fix: lsregion_to_iovec: do not stop at an unused slab

---
 small/lsregion.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/small/lsregion.c b/small/lsregion.c
index 522dfbf..5e88a5e 100644
--- a/small/lsregion.c
+++ b/small/lsregion.c
@@ -108,9 +108,12 @@ lsregion_to_iovec(const struct lsregion *lsregion, struct iovec *iov,
 	int max_iovcnt = *iovcnt;
 	int cnt = 0;
 	rlist_foreach_entry(lslab, &lsregion->slabs.slabs, next_in_list) {
-		/* There might be an unused slab at the end of the list. */
+		/*
+		 * There might be unused slabs: at the end of the list or,
+		 * if what was reserved did not suffice, in the middle.
+		 */
 		if (lslab->max_id == LSLAB_NOT_USED_ID)
-			break;
+			continue;
 		/* An already seen slab with no new allocations. */
 		if (lslab->slab_id < prev_id ||
 		    (lslab->slab_id == prev_id &&
-- 
2.43.0


From eeeb45e50854dd6cd7ec1656fc09c69a9b586950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:37 +0000
Subject: [PATCH 16/29] fix: lsregion: reject sizes that overflow

---
 include/small/lsregion.h | 10 +++++++++-
 small/lsregion.c         |  4 +++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/small/lsregion.h b/include/small/lsregion.h
index bec534e..f5ec726 100644
--- a/include/small/lsregion.h
+++ b/include/small/lsregion.h
@@ -198,6 +198,14 @@ lslab_end(struct lslab *slab)
 	return (char *)slab + slab->slab_size;
 }
 
+/** Check if there are at least size bytes of the slab memory from pos on. */
+static inline bool
+lslab_has(struct lslab *slab, void *pos, size_t size)
+{
+	return pos <= lslab_end(slab) &&
+	       size <= (size_t)((char *)lslab_end(slab) - (char *)pos);
+}
+
 /**
  * Initialize log structured allocator.
  * @param lsregion Allocator object.
@@ -247,7 +255,7 @@ lsregion_aligned_reserve(struct lsregion *lsregion, size_t size,
 		assert(slab != NULL);
 		*unaligned = lslab_pos(slab);
 		void *pos = (void *)small_align((size_t)*unaligned, alignment);
-		if ((char *)pos + size <= (char *)lslab_end(slab))
+		if (lslab_has(slab, pos, size))
 			return pos;
 	}
 	return lsregion_aligned_reserve_slow(lsregion, size, alignment,
diff --git a/small/lsregion.c b/small/lsregion.c
index 5e88a5e..5bf93e3 100644
--- a/small/lsregion.c
+++ b/small/lsregion.c
@@ -47,7 +47,7 @@ lsregion_aligned_reserve_slow(struct lsregion *lsregion, size_t size,
 		assert(slab != NULL);
 		*unaligned = lslab_pos(slab);
 		pos = (void *)small_align((size_t)*unaligned, alignment);
-		if ((char *)pos + size <= (char *)lslab_end(slab))
+		if (lslab_has(slab, pos, size))
 			return pos;
 	}
 	/*
@@ -55,6 +55,8 @@ lsregion_aligned_reserve_slow(struct lsregion *lsregion, size_t size,
 	 * new slab won't be aligned by the needed alignment, and
 	 * after alignment its size won't be enough.
 	 */
+	if (size > SIZE_MAX - lslab_sizeof() - (alignment - 1))
+		return NULL;
 	size_t aligned_size = size + alignment - 1;
 	if (aligned_size + lslab_sizeof() > slab_size) {
 		/* Large allocation, use malloc() */
-- 
2.43.0


From a6ef4ea3d510d170b64b010c8c4c09f6e7f2b2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:37 +0000
Subject: [PATCH 17/29] fix: lsregion_to_iovec: do not lose data with equal ids
 in the ASAN version

---
 include/small/lsregion_asan.h |  5 +++++
 small/lsregion_asan.c         | 10 ++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/small/lsregion_asan.h b/include/small/lsregion_asan.h
index 5876dca..c760764 100644
--- a/include/small/lsregion_asan.h
+++ b/include/small/lsregion_asan.h
@@ -55,6 +55,8 @@ struct lsregion {
 	struct rlist allocations;
 	/** Total size of allocated memory. */
 	size_t used;
+	/** Number of the last allocation, see struct lsregion_svp. */
+	int64_t slab_id;
 };
 
 /** Extra data associated with each lsregion allocation. */
@@ -70,6 +72,8 @@ struct lsregion_allocation {
 	size_t used;
 	/** Allocation id. */
 	int64_t id;
+	/** Allocation number. Unlike ids, numbers are unique. */
+	int64_t slab_id;
 	/** Allocation alignment. */
 	size_t alignment;
 };
@@ -79,6 +83,7 @@ lsregion_create(struct lsregion *lsregion, struct slab_arena *arena)
 {
 	(void)arena;
 	lsregion->used = 0;
+	lsregion->slab_id = 0;
 	rlist_create(&lsregion->allocations);
 }
 
diff --git a/small/lsregion_asan.c b/small/lsregion_asan.c
index c153407..5ef9fbb 100644
--- a/small/lsregion_asan.c
+++ b/small/lsregion_asan.c
@@ -51,6 +51,7 @@ lsregion_prepare_buf(struct lsregion *lsregion, size_t size, size_t alignment)
 	alloc->size = size;
 	alloc->used = 0;
 	alloc->id = LSLAB_NOT_USED_ID;
+	alloc->slab_id = ++lsregion->slab_id;
 	alloc->alignment = alignment;
 	rlist_add_tail_entry(&lsregion->allocations, alloc, link);
 	return alloc;
@@ -109,20 +110,21 @@ lsregion_to_iovec(const struct lsregion *lsregion, struct iovec *iov,
 	int64_t max_alloc_id = LSLAB_NOT_USED_ID;
 	int cnt = 0;
 	rlist_foreach_entry(alloc, &lsregion->allocations, link) {
-		/* An already seen allocation. */
-		if (alloc->id <= prev_id)
+		/* An already seen or a reserved allocation. */
+		if (alloc->slab_id <= prev_id ||
+		    alloc->id == LSLAB_NOT_USED_ID)
 			continue;
 		if (cnt >= max_iovcnt)
 			break;
 		iov->iov_base = small_asan_payload_from_header(alloc);
 		iov->iov_len = alloc->used;
-		svp->slab_id = alloc->id;
+		svp->slab_id = alloc->slab_id;
 		/*
 		 * This isn't correct but will do for tests which span one slab
 		 * in a normal lsregion implementation. pos isn't used to
 		 * determine flush position here anyway, so it's ok.
 		 */
-		svp->pos += alloc->size;
+		svp->pos += alloc->used;
 		max_alloc_id = alloc->id;
 
 		iov++;
-- 
2.43.0


From 59fb2b864b6d672c17a3d5f52001b961d88f9bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:11 +0000
Subject: [PATCH 18/29] fix: ibuf: reject sizes that overflow

The check for room wrapped around, and the loop that doubles the capacity
never ended for a size above the half of the address space.
---
 include/small/ibuf.h | 4 ++--
 small/ibuf.c         | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/small/ibuf.h b/include/small/ibuf.h
index b67dc9a..aff8016 100644
--- a/include/small/ibuf.h
+++ b/include/small/ibuf.h
@@ -151,7 +151,7 @@ ibuf_reserve_slow(struct ibuf *ibuf, size_t size);
 static inline void *
 ibuf_reserve(struct ibuf *ibuf, size_t size)
 {
-	if (ibuf->wpos + size <= ibuf->end) {
+	if (size <= ibuf_unused(ibuf)) {
 		ibuf_unpoison_unallocated(ibuf);
 		return ibuf->wpos;
 	}
@@ -162,7 +162,7 @@ static inline void *
 ibuf_alloc(struct ibuf *ibuf, size_t size)
 {
 	void *ptr;
-	if (ibuf->wpos + size <= ibuf->end) {
+	if (size <= ibuf_unused(ibuf)) {
 		/*
 		 * In case of using same buffer we need to unpoison newly
 		 * allocated memory after previous ibuf_alloc or poison after
diff --git a/small/ibuf.c b/small/ibuf.c
index 03370da..01ba5a2 100644
--- a/small/ibuf.c
+++ b/small/ibuf.c
@@ -69,7 +69,7 @@ ibuf_reinit(struct ibuf *ibuf)
 void *
 ibuf_reserve_slow(struct ibuf *ibuf, size_t size)
 {
-	assert(ibuf->wpos + size > ibuf->end);
+	assert(size > ibuf_unused(ibuf));
 	size_t used = ibuf_used(ibuf);
 	size_t capacity = ibuf_capacity(ibuf);
 	/*
@@ -78,11 +78,14 @@ ibuf_reserve_slow(struct ibuf *ibuf, size_t size)
 	 * by moving existing data to the beginning.
 	 * Otherwise, get a bigger buffer.
 	 */
-	if (size + used <= capacity) {
+	if (size <= capacity - used) {
 		ibuf_unpoison_consumed(ibuf);
 		ibuf_unpoison_unallocated(ibuf);
 		memmove(ibuf->buf, ibuf->rpos, used);
 	} else {
+		/* The capacity must be representable when doubled. */
+		if (size > SIZE_MAX / 2 - used)
+			return NULL;
 		/* Use start_capacity as allocation factor. */
 		size_t new_capacity = capacity * 2;
 		if (new_capacity < ibuf->start_capacity)
-- 
2.43.0


From 608602b87deced8a710fd843e6b3b94bfbd993aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:28 +0000
Subject: [PATCH 19/29] fix: obuf: reject sizes that overflow

A size close to SIZE_MAX wraps when added to the used size of the vector,
so a reservation succeeds without having room, or makes the search for a
capacity run forever.
---
 include/small/obuf.h | 4 ++--
 small/obuf.c         | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/small/obuf.h b/include/small/obuf.h
index 898bc27..192fe76 100644
--- a/include/small/obuf.h
+++ b/include/small/obuf.h
@@ -175,7 +175,7 @@ obuf_reserve(struct obuf *buf, size_t size)
 {
 	void *ptr = NULL;
 	assert(!buf->reserved);
-	if (buf->iov[buf->pos].iov_len + size > buf->capacity[buf->pos]) {
+	if (size > buf->capacity[buf->pos] - buf->iov[buf->pos].iov_len) {
 		ptr = obuf_reserve_slow(buf, size);
 	} else {
 		struct iovec *iov = &buf->iov[buf->pos];
@@ -199,7 +199,7 @@ obuf_alloc(struct obuf *buf, size_t size)
 {
 	struct iovec *iov = &buf->iov[buf->pos];
 	void *ptr;
-	if (iov->iov_len + size <= buf->capacity[buf->pos]) {
+	if (size <= buf->capacity[buf->pos] - iov->iov_len) {
 		ptr = (char *) iov->iov_base + iov->iov_len;
 	} else {
 		ptr = obuf_reserve_slow(buf, size);
diff --git a/small/obuf.c b/small/obuf.c
index dd0b030..0b5a09f 100644
--- a/small/obuf.c
+++ b/small/obuf.c
@@ -184,6 +184,9 @@ obuf_reserve_slow(struct obuf *buf, size_t size)
 		capacity = buf->capacity[buf->pos];
 	}
 	assert(iov->iov_len == 0);
+	/* The capacity must be representable when doubled. */
+	if (size > SIZE_MAX / 2)
+		return NULL;
 	/* Make sure the next buffer can store size. */
 	if (size > capacity) {
 		if (capacity > 0) {
-- 
2.43.0


From a74d928648c28af7a3655c2e05980fae03298306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:59 +0000
Subject: [PATCH 20/29] fix: obuf_rollback_to_svp: poison the rolled back
 memory in the ASAN version

Memory of the vector that stays, from the savepoint on, could be accessed
after a rollback without a report.
---
 small/obuf_asan.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/small/obuf_asan.c b/small/obuf_asan.c
index f885a35..f1b77ce 100644
--- a/small/obuf_asan.c
+++ b/small/obuf_asan.c
@@ -156,6 +156,9 @@ obuf_rollback_to_svp(struct obuf *buf, struct obuf_svp *svp)
 	buf->used = svp->used;
 	buf->iov[buf->pos].iov_len = svp->iov_len;
 	buf->reserved = false;
+	if (buf->iov[buf->pos].iov_base != NULL)
+		ASAN_POISON_MEMORY_REGION(obuf_unallocated_ptr(buf),
+					  obuf_unallocated_size(buf));
 }
 
 void
-- 
2.43.0


From 378bf3a59a067df568de1c035f011668262bac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:36 +0000
Subject: [PATCH 21/29] fix: matras_destroy_read_view: free extents the
 previous view does not have

A view that shares the root or a second level extent with the previous
view may have more blocks in it than the previous view has. The extents
of these blocks leaked when the view was destroyed.
---
 small/matras.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/small/matras.c b/small/matras.c
index 991eeac..6c9dc37 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -406,7 +406,13 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 		return;
 	if (v->root == next_view->root && next_view->block_count)
 		return;
-	if (prev_view && v->root == prev_view->root && prev_view->block_count)
+	/*
+	 * The previous view may have fewer blocks in the extents it shares
+	 * with this one, the rest of them is not referred to by that view.
+	 */
+	bool is_root_shared = prev_view && prev_view->block_count &&
+			      v->root == prev_view->root;
+	if (is_root_shared && v->block_count <= prev_view->block_count)
 		return;
 	void **extent1 = (void **)v->root;
 	void **extent1n = (void **) next_view->root;
@@ -426,8 +432,11 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 				continue;
 			extent2n = (void **) extent1n[i1];
 		}
+		bool is_extent2_shared = false;
 		if (prev_view && prev_view->block_count > j1) {
-			if (extent1[i1] == extent1p[i1])
+			is_extent2_shared = extent1[i1] == extent1p[i1];
+			if (is_extent2_shared &&
+			    v->block_count <= prev_view->block_count)
 				continue;
 			extent2p = (void **) extent1p[i1];
 		}
@@ -445,9 +454,11 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 			}
 			matras_free_read_view_extent(m, extent3);
 		}
-		matras_free_read_view_extent(m, extent2);
+		if (!is_extent2_shared)
+			matras_free_read_view_extent(m, extent2);
 	}
-	matras_free_read_view_extent(m, extent1);
+	if (!is_root_shared)
+		matras_free_read_view_extent(m, extent1);
 }
 
 /*
-- 
2.43.0


From 439d7f1ccd240a82c4e67307a5740a3bca490542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:36 +0000
Subject: [PATCH 22/29] fix: matras: do not overflow the block counter on
 destruction

With more than 2^32 - 2^shift1 blocks the 32-bit counter of blocks wraps
and the extents are freed again.
---
 small/matras.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/small/matras.c b/small/matras.c
index 6c9dc37..32b11be 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -148,7 +148,9 @@ matras_destroy(struct matras *m)
 
 	matras_id_t step1 = m->mask1 + 1;
 	matras_id_t step2 = m->mask2 + 1;
-	matras_id_t i1 = 0, j1 = 0, i2, j2;
+	matras_id_t i1 = 0, i2;
+	/* The block count may be greater than the maximum identifier. */
+	size_t j1 = 0, j2;
 	matras_id_t ptrs_in_ext = m->extent_size / (matras_id_t)sizeof(void *);
 	struct matras_view *v = &m->head;
 	void **extent1 = (void **)v->root;
@@ -421,7 +423,9 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 		extent1p = (void **) prev_view->root;
 	matras_id_t step1 = m->mask1 + 1;
 	matras_id_t step2 = m->mask2 + 1;
-	matras_id_t i1 = 0, j1 = 0, i2, j2;
+	matras_id_t i1 = 0, i2;
+	/* The block count may be greater than the maximum identifier. */
+	size_t j1 = 0, j2;
 	matras_id_t ptrs_in_ext = m->extent_size / (matras_id_t)sizeof(void *);
 	for (; j1 < v->block_count; i1++, j1 += step1) {
 		void **extent2 = (void **)extent1[i1];
-- 
2.43.0


From 969e1283aaf95ffaf37f51349f4048b4d0d366bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:04 +0000
Subject: [PATCH 23/29] fix: matras: support extents with room for more than
 2^31 blocks

With a large extent and a small block the first shift is 32 or more, which
is undefined and makes identifiers be translated to wrong addresses.
---
 small/matras.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/small/matras.c b/small/matras.c
index 32b11be..fe979f5 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -78,6 +78,12 @@ matras_create(struct matras *m, matras_id_t block_size,
 		log2_capacity = 32;
 	m->capacity = (size_t)1 << log2_capacity;
 	m->shift1 = log1 * 2 - log2 - log3;
+	/*
+	 * A second level extent may have room for all identifiers or more,
+	 * use a part of it then, since shifts must be less than 32.
+	 */
+	if (m->shift1 > 31)
+		m->shift1 = 31;
 	m->shift2 = log1 - log2;
 	m->mask1 = (((matras_id_t)1) << m->shift1) - ((matras_id_t)1);
 	m->mask2 = (((matras_id_t)1) << m->shift2) - ((matras_id_t)1);
@@ -151,13 +157,12 @@ matras_destroy(struct matras *m)
 	matras_id_t i1 = 0, i2;
 	/* The block count may be greater than the maximum identifier. */
 	size_t j1 = 0, j2;
-	matras_id_t ptrs_in_ext = m->extent_size / (matras_id_t)sizeof(void *);
 	struct matras_view *v = &m->head;
 	void **extent1 = (void **)v->root;
 	for (; j1 < v->block_count; i1++, j1 += step1) {
 		void **extent2 = (void **)extent1[i1];
 		for (i2 = j2 = 0;
-		     i2 < ptrs_in_ext && j1 + j2 < v->block_count;
+		     j2 < step1 && j1 + j2 < v->block_count;
 		     i2++, j2 += step2) {
 			void **extent3 = (void **)extent2[i2];
 			matras_free_extent(m, extent3);
@@ -426,7 +431,6 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 	matras_id_t i1 = 0, i2;
 	/* The block count may be greater than the maximum identifier. */
 	size_t j1 = 0, j2;
-	matras_id_t ptrs_in_ext = m->extent_size / (matras_id_t)sizeof(void *);
 	for (; j1 < v->block_count; i1++, j1 += step1) {
 		void **extent2 = (void **)extent1[i1];
 		void **extent2n = 0;
@@ -445,7 +449,7 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 			extent2p = (void **) extent1p[i1];
 		}
 		for (i2 = j2 = 0;
-		     i2 < ptrs_in_ext && j1 + j2 < v->block_count;
+		     j2 < step1 && j1 + j2 < v->block_count;
 		     i2++, j2 += step2) {
 			void **extent3 = (void **)extent2[i2];
 			if (next_view->block_count > j1 + j2) {
-- 
2.43.0


From bca455d21ef4b1cf41294b30fa9e48cd005fecbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:56 +0000
Subject: [PATCH 24/29] fix: static: reject sizes that overflow

---
 include/small/static.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/small/static.h b/include/small/static.h
index ab28cb4..e1ff8c6 100644
--- a/include/small/static.h
+++ b/include/small/static.h
@@ -73,7 +73,7 @@ static_reset(void)
 static inline void *
 static_reserve(size_t size)
 {
-	if (static_storage_pos + size > SMALL_STATIC_SIZE) {
+	if (size > SMALL_STATIC_SIZE - static_storage_pos) {
 		if (size > SMALL_STATIC_SIZE)
 			return NULL;
 		static_storage_pos = 0;
@@ -105,6 +105,8 @@ static_alloc(size_t size)
 static inline void *
 static_aligned_reserve(size_t size, size_t alignment)
 {
+	if (size > SMALL_STATIC_SIZE)
+		return NULL;
 	void *unaligned = static_reserve(size + alignment - 1);
 	if (unaligned == NULL)
 		return NULL;
-- 
2.43.0


From 4f6738f064b3abd49b2733170bd7223b7984661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:56 +0000
Subject: [PATCH 25/29] fix: rlist_cut_before: do not look at the discarded
 content of the destination

---
 include/small/rlist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small/rlist.h b/include/small/rlist.h
index ae27127..5cd1400 100644
--- a/include/small/rlist.h
+++ b/include/small/rlist.h
@@ -244,7 +244,7 @@ rlist_splice_tail(struct rlist *head1, struct rlist *head2)
 static SMALL_ALWAYS_INLINE void
 rlist_cut_before(struct rlist *head1, struct rlist *head2, struct rlist *item)
 {
-	if (head1->next == item) {
+	if (head2->next == item) {
 		rlist_create(head1);
 		return;
 	}
-- 
2.43.0


From 21ee5594aba767de555d9929322e8679b6f76961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:45 +0000
Subject: [PATCH 26/29] fix: small: allocate from an active pool after giving
 up sparse ones

---
 small/small.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/small/small.c b/small/small.c
index 666cb58..b9f8a89 100644
--- a/small/small.c
+++ b/small/small.c
@@ -346,6 +346,8 @@ smalloc(struct small_alloc *alloc, size_t size)
 		 * pools and release their sparse slabs. It might not help tho.
 		 */
 		small_mempool_group_sweep_sparse(alloc);
+		/* The pool itself may have been deactivated. */
+		pool = &small_mempool->used_pool->pool;
 		ptr = mempool_alloc(pool);
 	}
 
-- 
2.43.0


From 41c6b4ffe66f757a6c863db9a645bdc17a4647e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:34 +0000
Subject: [PATCH 27/29] fix: small_test_feature: do not shift by the number of
 an unknown feature

A feature number of 64 or more is checked against the known ones only after
a shift by it, which is undefined.
---
 small/small_features.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/small/small_features.c b/small/small_features.c
index 06654eb..ea7edd8 100644
--- a/small/small_features.c
+++ b/small/small_features.c
@@ -113,13 +113,11 @@ static rt_helper_t rt_helpers[FEATURE_MAX] = {
 bool
 small_test_feature(unsigned int feature)
 {
-	uint64_t mask = SMALL_FEATURE_MASK(feature);
-
 	if (feature >= FEATURE_MAX)
 		return false;
 
 	/* Make sure it is compiled in. */
-	if (!(builtin_mask & mask))
+	if (!(builtin_mask & SMALL_FEATURE_MASK(feature)))
 		return false;
 
 	/*
-- 
2.43.0


From a5398a39d1a47ab86553deedc359f6b1fd6be31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:47 +0000
Subject: [PATCH 28/29] fix: print the error of a failed call, not an
 uninitialized buffer

With _GNU_SOURCE strerror_r is the GNU variant: it returns the message and
leaves the buffer as it is.
---
 small/slab_arena.c     | 14 ++------------
 small/small_features.c | 11 +++--------
 2 files changed, 5 insertions(+), 20 deletions(-)

diff --git a/small/slab_arena.c b/small/slab_arena.c
index 45ad9a1..49cf07b 100644
--- a/small/slab_arena.c
+++ b/small/slab_arena.c
@@ -54,14 +54,8 @@ madvise_checked(void *ptr, size_t size, int flags)
 		return;
 
 	if (madvise(ptr, size, MADV_DONTDUMP)) {
-		intptr_t ignore_it;
-		char buf[64];
-
-		ignore_it = (intptr_t)strerror_r(errno, buf, sizeof(buf));
-		(void)ignore_it;
-
 		fprintf(stderr, "Error in madvise(%p, %zu, 0x%x): %s\n",
-			ptr, size, MADV_DONTDUMP, buf);
+			ptr, size, MADV_DONTDUMP, strerror(errno));
 	}
 #else
 	(void)ptr;
@@ -74,12 +68,8 @@ static void
 munmap_checked(void *addr, size_t size)
 {
 	if (munmap(addr, size)) {
-		char buf[64];
-		intptr_t ignore_it = (intptr_t)strerror_r(errno, buf,
-							  sizeof(buf));
-		(void)ignore_it;
 		fprintf(stderr, "Error in munmap(%p, %zu): %s\n",
-			addr, size, buf);
+			addr, size, strerror(errno));
 		assert(false);
 	}
 }
diff --git a/small/small_features.c b/small/small_features.c
index ea7edd8..6b5024c 100644
--- a/small/small_features.c
+++ b/small/small_features.c
@@ -57,13 +57,9 @@ static bool
 test_dontdump(void)
 {
 	size_t size = small_getpagesize();
-	intptr_t ignore_it;
 	bool ret = false;
-	char buf[64];
 	void *ptr;
 
-	(void)ignore_it;
-
 	/*
 	 * We need to try madvise a real data,
 	 * plain madvise() with -ENOSYS is not
@@ -77,8 +73,8 @@ test_dontdump(void)
 		/*
 		 * We're out of memory, and cant guarantee anything.
 		 */
-		ignore_it = (intptr_t)strerror_r(errno, buf, sizeof(buf));
-		fprintf(stderr, "Error in mmap(NULL, %zu, ...): %s\n", size, buf);
+		fprintf(stderr, "Error in mmap(NULL, %zu, ...): %s\n", size,
+			strerror(errno));
 		goto out;
 	}
 
@@ -86,9 +82,8 @@ test_dontdump(void)
 		ret = true;
 
 	if (munmap(ptr, size)) {
-		ignore_it = (intptr_t)strerror_r(errno, buf, sizeof(buf));
 		fprintf(stderr, "Error in munmap(%p, %zu): %s\n",
-			ptr, size, buf);
+			ptr, size, strerror(errno));
 	}
 out:
 	return ret;
-- 
2.43.0


From e19fea730f78108d7808a54b25f799c49264f501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:49 +0000
Subject: [PATCH 29/29] fix: let the ASan build align to more than 16 KB

small_asan_alloc keeps the offset of the payload from the header in two
bytes, so an aligned allocation of a region or of an lsregion with an
alignment of 32 KB or more, which the regular build serves, aborts on
payload - header <= UINT16_MAX. Keep the offset in four bytes.
---
 include/small/util.h |  4 ++--
 small/util.c         | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/small/util.h b/include/small/util.h
index c53fb16..25a8aaf 100644
--- a/include/small/util.h
+++ b/include/small/util.h
@@ -236,7 +236,7 @@ static inline SMALL_NO_SANITIZE_ADDRESS void *
 small_asan_payload_from_header(void *header)
 {
 	char *alloc = (char *)header - SMALL_ASAN_HEADER_ALIGNMENT;
-	return (char *)header + *(uint16_t *)alloc;
+	return (char *)header + *(uint32_t *)alloc;
 }
 
 /**
@@ -247,7 +247,7 @@ small_asan_payload_from_header(void *header)
 static inline SMALL_NO_SANITIZE_ADDRESS void *
 small_asan_header_from_payload(void *payload)
 {
-	uint16_t offset;
+	uint32_t offset;
 	char *magic_begin = (char *)
 		small_align_down((uintptr_t)payload, SMALL_POISON_ALIGNMENT);
 	memcpy(&offset, (char *)magic_begin - sizeof(offset), sizeof(offset));
diff --git a/small/util.c b/small/util.c
index a1abf0c..704b73f 100644
--- a/small/util.c
+++ b/small/util.c
@@ -69,7 +69,7 @@ small_on_assert_failure_f small_on_assert_failure =
 void *
 small_asan_alloc(size_t payload_size, size_t alignment, size_t header_size)
 {
-	static_assert(sizeof(uint16_t) <= SMALL_ASAN_HEADER_ALIGNMENT,
+	static_assert(sizeof(uint32_t) <= SMALL_ASAN_HEADER_ALIGNMENT,
 		      "offset is not fit before header");
 	/**
 	 * Allocated memory has next structure:
@@ -81,14 +81,14 @@ small_asan_alloc(size_t payload_size, size_t alignment, size_t header_size)
 	 * 5. payload
 	 * 5. unused space due to payload padding
 	 *
-	 * Note that although offset is limited to 2 bytes field (1)
+	 * Note that although offset is limited to 4 bytes field (1)
 	 * has SMALL_ASAN_HEADER_ALIGNMENT size so that header is aligned
 	 * to this value.
 	 */
 	size_t alloc_size = SMALL_ASAN_HEADER_ALIGNMENT +
 			    header_size +
 			    SMALL_POISON_ALIGNMENT - 1 +
-			    sizeof(uint16_t) +
+			    sizeof(uint32_t) +
 			    2 * alignment - 1 +
 			    payload_size;
 	char *alloc = (char *)small_xmalloc(alloc_size);
@@ -99,12 +99,12 @@ small_asan_alloc(size_t payload_size, size_t alignment, size_t header_size)
 		payload -= alignment;
 
 	char *header = alloc + SMALL_ASAN_HEADER_ALIGNMENT;
-	small_asan_assert(payload - header <= UINT16_MAX);
-	uint16_t offset = payload - header;
+	small_asan_assert(payload - header <= UINT32_MAX);
+	uint32_t offset = payload - header;
 	char *magic_begin = (char *)
 		small_align_down((uintptr_t)payload, SMALL_POISON_ALIGNMENT);
 	memcpy(magic_begin - sizeof(offset), &offset, sizeof(offset));
-	*(uint16_t *)alloc = offset;
+	*(uint32_t *)alloc = offset;
 
 	/* Poison area after the payload. */
 	char *payload_end = payload + payload_size;
-- 
2.43.0

