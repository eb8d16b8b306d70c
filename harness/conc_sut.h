#ifndef CONC_SUT_H
#define CONC_SUT_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <sys/types.h>
/* Thin calls into the code under test, compiled with instrumentation. */
size_t sut_quota_sizeof(void);
void sut_quota_init(void *q, size_t total);
size_t sut_quota_total(void *q);
size_t sut_quota_used(void *q);
void sut_quota_both(void *q, size_t *total, size_t *used);
ssize_t sut_quota_set(void *q, size_t n);
ssize_t sut_quota_use(void *q, size_t n);
ssize_t sut_quota_release(void *q, size_t n);
size_t sut_quota_max(void);
size_t sut_quota_unit(void);

size_t sut_lifo_sizeof(void);
void sut_lifo_init(void *l);
void sut_lifo_push(void *l, void *e);
void *sut_lifo_pop(void *l);
bool sut_lifo_is_empty(void *l);

size_t sut_arena_sizeof(void);
int sut_arena_create(void *a, void *q, size_t prealloc, uint32_t slab_size,
		     bool shared, bool old_flags, bool dontdump);
void sut_arena_destroy(void *a);
void *sut_slab_map(void *a);
void sut_slab_unmap(void *a, void *p);
size_t sut_arena_used(void *a);
size_t sut_arena_slab_size(void *a);
size_t sut_arena_prealloc(void *a);

size_t sut_lessor_sizeof(void);
void sut_lessor_create(void *l, void *q);
void sut_lessor_destroy(void *l);
ssize_t sut_lease(void *l, ssize_t n);
ssize_t sut_end_lease(void *l, size_t n);
size_t sut_leased(void *l);
size_t sut_available(void *l);
size_t sut_lessor_min(void);
#endif
