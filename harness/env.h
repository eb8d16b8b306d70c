/*
 * What every allocator harness stands on: a quota, an arena and one or two
 * slab caches, with faults injected into the memory functions underneath.
 */
#ifndef ENV_H
#define ENV_H
#include "hk.h"
#include <small/quota.h>
#include <small/slab_arena.h>
#include <small/slab_cache.h>
#include <small/util.h>
#include <sys/mman.h>

#ifdef ENABLE_ASAN
enum { IS_ASAN = 1 };
#else
enum { IS_ASAN = 0 };
#endif
#ifdef NDEBUG
enum { IS_NDEBUG = 1 };
#else
enum { IS_NDEBUG = 0 };
#endif

struct env {
	struct quota quota;
	struct slab_arena arena;
	struct slab_cache cache[2];
	int ncache;
	/** Size of arena slabs, and the quota. */
	size_t slab_size, total, prealloc;
	struct hk_mem m0;
};

enum { ENV_NOLIMIT = 1 };

static inline size_t
env_units(size_t n)
{
	return n / QUOTA_UNIT_SIZE + (n % QUOTA_UNIT_SIZE != 0);
}

/** Bytes the quota charges for a block of n bytes. */
static inline size_t
env_charge(size_t n)
{
	return env_units(n) * QUOTA_UNIT_SIZE;
}

static inline void
env_create_sized(struct env *e, size_t slab_size, size_t total, size_t prealloc,
		 int ncache)
{
	/* Nothing may depend on what was in the structures. */
	memset(e, 0x5a, sizeof(*e));
	e->m0 = hk_mem_get();
	e->ncache = ncache;
	/* The caches of the sanitizer build lease from the quota. */
	if (IS_ASAN && total < ((size_t)4 << 20))
		total = (size_t)4 << 20;
	quota_init(&e->quota, total);
	hk_mmap_any();
	int flags = one_in(2) ? MAP_PRIVATE : SLAB_ARENA_PRIVATE;
	/* Any size is rounded up to a power of two, not below the least. */
	size_t want = slab_size;
	if (one_in(3))
		want = slab_size <= SLAB_MIN_SIZE ? rndn(slab_size + 1) :
		       slab_size / 2 + 1 + rndn(slab_size / 2);
	if (slab_arena_create(&e->arena, &e->quota, prealloc, want,
			      flags) != 0)
		hk_violation("env.arena_create", "cannot create an arena of %zu "
			     "byte slabs, %zu preallocated, quota %zu",
			     slab_size, prealloc, total);
	HK_CHECK(e->arena.slab_size == slab_size, "env.slab_size", "slabs of "
		 "%zu bytes for a request of %zu", (size_t)e->arena.slab_size,
		 want);
	for (int i = 0; i < ncache; i++)
		slab_cache_create(&e->cache[i], &e->arena);
	e->slab_size = e->arena.slab_size;
	e->total = quota_total(&e->quota);
	e->prealloc = prealloc;
}

/** A random environment with room for a few slabs. */
static inline void
env_create(struct env *e, int flags)
{
	size_t s = (size_t)65536 << rndn(3);
	if (one_in(10))
		s = (size_t)65536 << rndn(7);
	size_t total;
	if (flags & ENV_NOLIMIT || one_in(4))
		total = QUOTA_MAX;
	else
		total = s * rndr(1, 12) + (one_in(2) ? rndn(s) : 0);
	size_t prealloc = one_in(3) ? s * rndn(4) : 0;
	env_create_sized(e, s, total, prealloc, 1 + one_in(3));
	hk_op("env(slab=%zu quota=%zu prealloc=%zu caches=%d)", e->slab_size,
	      e->total, prealloc, e->ncache);
}

/** Number of slabs that the arena has mapped so far. */
static inline size_t
env_mapped(struct env *e)
{
	return e->arena.used / e->slab_size;
}

/** How many slabs the arena can give, as it says by giving them. */
static inline size_t
env_drain_count(struct env *e, size_t max)
{
#ifdef ENABLE_ASAN
	(void)e;
	(void)max;
	return 0;
#else
	void **p = hk_malloc((max + 1) * sizeof(*p));
	size_t n = 0;
	while (n <= max && (p[n] = slab_map(&e->arena)) != NULL)
		n++;
	/* In the same order as they were. */
	for (size_t i = n; i > 0; i--)
		slab_unmap(&e->arena, p[i - 1]);
	hk_free(p);
	return n;
#endif
}

/**
 * All allocators have been destroyed: destroy the rest, check that nothing is
 * left and that the quota was charged for what existed.
 */
static inline void
env_destroy(struct env *e, const char *key)
{
	hk_faults_off();
	for (int i = 0; i < e->ncache; i++) {
		HK_CHECK(slab_cache_used(&e->cache[i]) == 0, key,
			 "%zu bytes of slab cache %d in use after everything "
			 "was destroyed", slab_cache_used(&e->cache[i]), i);
		slab_cache_destroy(&e->cache[i]);
	}
	if (!IS_ASAN) {
		HK_CHECK(quota_used(&e->quota) == e->arena.used, key,
			 "%zu bytes charged, but %zu bytes of slabs exist",
			 quota_used(&e->quota), e->arena.used);
		size_t have = env_mapped(e);
		size_t room = (e->total - quota_used(&e->quota)) / e->slab_size;
		size_t max = have + room;
		if (max < 200 && max * e->slab_size <= (64 << 20)) {
			size_t n = env_drain_count(e, max);
			HK_CHECK(n == max, key, "the arena gives %zu slabs, "
				 "%zu exist and there is room for %zu", n,
				 have, room);
		} else {
			/* Only those that exist. */
			size_t n = have == 0 ? 0 : env_drain_count(e, have - 1);
			HK_CHECK(n == have && env_mapped(e) == have, key,
				 "only %zu of %zu slabs are back in the arena",
				 n, have);
		}
	} else {
		HK_CHECK(quota_used(&e->quota) == 0, key,
			 "%zu bytes charged after everything was destroyed",
			 quota_used(&e->quota));
	}
	slab_arena_destroy(&e->arena);
	struct hk_mem m = hk_mem_get();
	HK_CHECK(m.mapped == e->m0.mapped && m.blocks == e->m0.blocks, key,
		 "%zd bytes mapped and %zd heap blocks left",
		 m.mapped - e->m0.mapped, m.blocks - e->m0.blocks);
	hk_mmap_mode = HK_MMAP_PLAIN;
	HK_EV("env_clean");
}

/** Arm a fault now and then. */
static inline void
env_faults(unsigned inv)
{
	if (!one_in(inv))
		return;
	hk_mmap_budget = rndn(3);
	hk_malloc_budget = one_in(2) ? rndn(3) : -1;
	hk_fail_len = one_in(3) ? -1 : (long)rndr(1, 4);
}

/* ---- probes of the sanitizer build ------------------------------------ */
/** Look at the shadow memory (set by the harness). */
static bool opt_poison __attribute__((unused));
#ifdef ENABLE_ASAN
#include <sanitizer/asan_interface.h>
#include <errno.h>
#include <sys/syscall.h>
#include <unistd.h>

/**
 * An access to the byte is reported: it is poisoned, or it is not mapped (the
 * allocator of the sanitizer maps its space in steps, and the block before
 * the next step ends with it).
 */
static inline bool
is_outside(const void *p)
{
	if (__asan_address_is_poisoned(p))
		return true;
	if ((uintptr_t)p % 4096 != 0)
		return false;
	int fd[2];
	if (pipe(fd) != 0)
		return false;
	bool res = syscall(SYS_write, fd[1], p, (size_t)1) < 0 &&
		   errno == EFAULT;
	close(fd[0]);
	close(fd[1]);
	return res;
}

/** A user may access [p, p+n) and nothing next to it. */
static inline void
probe_live(const char *what, const void *ptr, size_t n)
{
	if (!opt_poison)
		return;
	char *p = (char *)ptr;
	char *bad = __asan_region_is_poisoned(p, n);
	HK_CHECK(bad == NULL, "asan.live", "%s: byte %zd of %zu is poisoned",
		 what, bad - p, n);
	HK_CHECK(is_outside(p + n), "asan.after", "%s: the "
		 "byte after the %zu at %p is not poisoned", what, n, ptr);
	char *b = (char *)((uintptr_t)p & ~(uintptr_t)7) - 1;
	HK_CHECK(__asan_address_is_poisoned(b), "asan.before", "%s: the byte "
		 "%zd before the %zu at %p is not poisoned", what, p - b, n,
		 ptr);
	HK_EV("probe_live");
}

/** Nobody may access [p, p+n). */
static inline void
probe_dead(const char *what, const void *ptr, size_t n)
{
	if (!opt_poison || n == 0)
		return;
	char *p = (char *)ptr;
	size_t off[4] = { 0, n - 1, rndn(n), n / 2 };
	for (int i = 0; i < 4; i++)
		HK_CHECK(__asan_address_is_poisoned(p + off[i]), "asan.dead",
			 "%s: byte %zu of %zu at %p is not poisoned", what,
			 off[i], n, ptr);
	HK_EV("probe_dead");
}
#else
#define probe_live(what, p, n) ((void)(p), (void)(n))
#define probe_dead(what, p, n) ((void)(p), (void)(n))
#endif
#endif
