#include <small/quota.h>
#include <small/quota_lessor.h>
#include <small/lf_lifo.h>
#include <small/slab_arena.h>
#include <sys/mman.h>
#include "conc_sut.h"
size_t sut_quota_sizeof(void) { return sizeof(struct quota); }
void sut_quota_init(void *q, size_t total) { quota_init(q, total); }
size_t sut_quota_total(void *q) { return quota_total(q); }
size_t sut_quota_used(void *q) { return quota_used(q); }
void sut_quota_both(void *q, size_t *t, size_t *u)
{ quota_get_total_and_used(q, t, u); }
ssize_t sut_quota_set(void *q, size_t n) { return quota_set(q, n); }
ssize_t sut_quota_use(void *q, size_t n) { return quota_use(q, n); }
ssize_t sut_quota_release(void *q, size_t n) { return quota_release(q, n); }
size_t sut_quota_max(void) { return QUOTA_MAX; }
size_t sut_quota_unit(void) { return QUOTA_UNIT_SIZE; }

size_t sut_lifo_sizeof(void) { return sizeof(struct lf_lifo); }
void sut_lifo_init(void *l) { lf_lifo_init(l); }
void sut_lifo_push(void *l, void *e) { lf_lifo_push(l, e); }
void *sut_lifo_pop(void *l) { return lf_lifo_pop(l); }
bool sut_lifo_is_empty(void *l) { return lf_lifo_is_empty(l); }

size_t sut_arena_sizeof(void) { return sizeof(struct slab_arena); }
int sut_arena_create(void *a, void *q, size_t prealloc, uint32_t slab_size,
		     bool shared, bool old_flags, bool dontdump)
{
	int flags;
	if (old_flags)
		flags = shared ? MAP_SHARED : MAP_PRIVATE;
	else
		flags = (shared ? SLAB_ARENA_SHARED : SLAB_ARENA_PRIVATE) |
			(dontdump ? SLAB_ARENA_DONTDUMP : 0);
	return slab_arena_create(a, q, prealloc, slab_size, flags);
}
void sut_arena_destroy(void *a) { slab_arena_destroy(a); }
void *sut_slab_map(void *a) { return slab_map(a); }
void sut_slab_unmap(void *a, void *p) { slab_unmap(a, p); }
size_t sut_arena_used(void *a) { return ((struct slab_arena *)a)->used; }
size_t sut_arena_slab_size(void *a)
{ return ((struct slab_arena *)a)->slab_size; }
size_t sut_arena_prealloc(void *a)
{ return ((struct slab_arena *)a)->prealloc; }

size_t sut_lessor_sizeof(void) { return sizeof(struct quota_lessor); }
void sut_lessor_create(void *l, void *q) { quota_lessor_create(l, q); }
void sut_lessor_destroy(void *l) { quota_lessor_destroy(l); }
ssize_t sut_lease(void *l, ssize_t n) { return quota_lease(l, n); }
ssize_t sut_end_lease(void *l, size_t n) { return quota_end_lease(l, n); }
size_t sut_leased(void *l) { return quota_leased(l); }
size_t sut_available(void *l) { return quota_available(l); }
size_t sut_lessor_min(void) { return QUOTA_USE_MIN; }
