/*
 * Monitor of the slab cache: an exact model of which memory is live, and so,
 * as free buddies always coalesce, of which requests fit into what is held.
 */
#include "env.h"
#include <pthread.h>

static struct env E;
static bool opt_faults, opt_huge;
/** Hundreds of arena slabs. */
static bool opt_long;

/** An arena slab that a cache holds. */
struct aslab {
	uintptr_t addr;
	int cache;
	int nlive;
	unsigned char *live;	/* one byte per smallest block */
};
struct block {
	struct slab *s;
	size_t size, want;
	uint64_t tag;
	int cache;
	bool large;
};
static struct aslab *as;
static size_t nas, cas;
static struct block *bl;
static size_t nbl, cbl;
static size_t used[2], large_charge;
/** Candidates for the one free slab that a cache may keep. */
static struct { uintptr_t *a; size_t n, cap; bool have; } spare[2];
static struct hk_imap live;
static size_t unit, nunit;
static void **direct;
static size_t ndirect, cdirect;
static uint64_t tagseq;

static struct aslab *
aslab_find(uintptr_t a)
{
	for (size_t i = 0; i < nas; i++)
		if (as[i].addr == a)
			return &as[i];
	return NULL;
}

/** Is there a free aligned run of 2^order smallest blocks in this slab? */
static bool
aslab_fits(struct aslab *s, int order)
{
	size_t run = (size_t)1 << order;
	for (size_t i = 0; i < nunit; i += run)
		if (memchr(s->live + i, 1, run) == NULL)
			return true;
	return false;
}

static size_t
held(int c)
{
	size_t n = 0;
	for (size_t i = 0; i < nas; i++)
		n += as[i].cache == c;
	return n + spare[c].have;
}

/** Slabs the arena could give right now. */
static size_t
arena_can(void)
{
	size_t n = env_mapped(&E) - held(0) - ndirect -
		   (E.ncache > 1 ? held(1) : 0);
	return n + (E.total - quota_used(&E.quota)) / E.slab_size;
}

static void
check_quota(void)
{
	if (IS_ASAN)
		return;
	size_t q = quota_used(&E.quota);
	HK_CHECK(q == E.arena.used + large_charge, "slab.quota",
		 "quota used is %zu, slabs %zu + large blocks %zu", q,
		 E.arena.used, large_charge);
	for (int c = 0; c < E.ncache; c++)
		HK_CHECK(slab_cache_used(&E.cache[c]) == used[c], "slab.used",
			 "used is %zu, live blocks make %zu",
			 slab_cache_used(&E.cache[c]), used[c]);
}

static void
probe(void)
{
	if (IS_ASAN)
		return;
	for (int c = 0; c < E.ncache; c++)
		slab_cache_check(&E.cache[c]);
	size_t can = arena_can();
	if (E.total == QUOTA_MAX) {
		/* Only those that exist already. */
		can -= (E.total - quota_used(&E.quota)) / E.slab_size;
		size_t m0 = env_mapped(&E);
		size_t n = can == 0 ? 0 : env_drain_count(&E, can - 1);
		HK_CHECK(n == can && env_mapped(&E) == m0, "slab.hoard",
			 "not all of the %zu slabs that no block needs are in "
			 "the arena", can);
	} else {
		size_t n = env_drain_count(&E, can);
		HK_CHECK(n == can, "slab.hoard", "the arena gives %zu slabs, "
			 "expected %zu: the caches hold a wrong number", n, can);
	}
	HK_EV("slab_probe");
}

static int
want_order(size_t need)
{
	int o = 0;
	while (unit << o < need)
		o++;
	return o;
}

static void
block_add(int c, struct slab *s, size_t want, bool large)
{
	size_t cap = slab_capacity(s);
	HK_CHECK(cap >= want, "slab.capacity", "a block of capacity %zu for a "
		 "request of %zu", cap, want);
	HK_CHECK(hk_owned(s, s->size), "slab.not_owned", "block %p of %zu bytes "
		 "is not memory that was obtained", (void *)s, s->size);
	struct hk_iv *iv = hk_imap_overlap(&live, (uintptr_t)s, s->size);
	HK_CHECK(iv == NULL, "slab.overlap", "block %p of %zu overlaps block %p "
		 "of %zu", (void *)s, s->size, (void *)iv->start, iv->size);
	struct block b = { s, s->size, want, tagseq++, c, large };
	hk_imap_insert(&live, (uintptr_t)s, s->size, b.tag, NULL);
	probe_live("slab", s, s->size);
	hk_fill_sparse(slab_data(s), cap, b.tag);
	HK_ARRAY_PUSH(bl, nbl, cbl, b);
	used[c] += s->size;
}

static void
block_ok(struct block *b)
{
	ssize_t d = hk_verify_sparse(slab_data(b->s), b->size - slab_sizeof(),
				     b->tag);
	HK_CHECK(d < 0, "slab.content", "byte %zd of block %p of %zu changed",
		 d, (void *)b->s, b->size);
#ifndef ENABLE_ASAN
	HK_CHECK(slab_from_data(slab_data(b->s)) == b->s, "slab.from",
		 "the slab of data %p is not %p", slab_data(b->s),
		 (void *)b->s);
	if (!b->large) {
		char *p = (char *)b->s + rndn(b->size);
		HK_CHECK(slab_from_ptr(p, ~(b->size - 1)) == b->s, "slab.from",
			 "the slab of %p is not %p", (void *)p, (void *)b->s);
	}
#endif
	HK_CHECK(b->s->size == b->size, "slab.content",
		 "the size of a live block changed");
	probe_live("slab", b->s, b->size);
}

/** The model of an ordered get that returned s (or not). */
static void
ordered_result(int c, struct slab *s, int order, bool faulted)
{
	bool fit = spare[c].have;
	for (size_t i = 0; i < nas && !fit; i++)
		fit = as[i].cache == c && aslab_fits(&as[i], order);
	if (s == NULL) {
		HK_CHECK(!fit, "slab.fragmented", "no block of order %d although "
			 "a free block can hold it", order);
		HK_CHECK(faulted || arena_can() == 0, "slab.spurious_null",
			 "no block of order %d although the arena has %zu "
			 "slabs", order, arena_can());
		HK_EV("slab_get_null");
		return;
	}
	uintptr_t a = (uintptr_t)s, base = a & ~(E.slab_size - 1);
	HK_CHECK(s->size == unit << order, "slab.order", "a block of %zu bytes "
		 "for order %d", s->size, order);
	HK_CHECK(a % s->size == 0, "slab.alignment", "block %p of %zu is not "
		 "aligned", (void *)s, s->size);
	struct aslab *p = aslab_find(base);
	bool from_spare = false;
	for (size_t i = 0; i < spare[c].n; i++)
		from_spare |= spare[c].have && spare[c].a[i] == base;
	if (p == NULL) {
		HK_CHECK(!fit || from_spare, "slab.fragmented", "a new arena "
			 "slab was taken for order %d although a free block "
			 "can hold it", order);
		if (from_spare) {
			spare[c].have = false;
			spare[c].n = 0;
			HK_EV("slab_from_spare");
		} else {
			HK_EV("slab_from_arena");
		}
		struct aslab n = { base, c, 0, hk_malloc(nunit) };
		memset(n.live, 0, nunit);
		HK_ARRAY_PUSH(as, nas, cas, n);
		p = &as[nas - 1];
	} else {
		HK_CHECK(p->cache == c, "slab.overlap", "the block is in a slab "
			 "of another cache");
		HK_EV("slab_from_free");
	}
	size_t u = (a - base) / unit;
	memset(p->live + u, 1, (size_t)1 << order);
	p->nlive++;
}

static void
do_get(int c)
{
	struct slab_cache *cache = &E.cache[c];
	size_t size, hdr = slab_sizeof();
	switch (opt_long && !one_in(4) ? 99 : rndn(opt_huge ? 10 : 8)) {
	case 99:
		size = rndr(E.slab_size / 4, E.slab_size - hdr);
		break;
	case 0:
		size = rndedge(0, E.slab_size * 2);
		break;
	case 1:
		size = E.slab_size - hdr + rndn(5) - 2;
		break;
	case 2: case 3:
		size = (unit << rndn(4)) - hdr + rndn(3) - 1;
		break;
	case 4: case 5:
		size = rndlog(0, E.slab_size);
		break;
	case 6:
		size = one_in(4) ? rndlog(1, E.slab_size * 4) : rndlog(1, 32768);
		break;
	case 7:
		size = unit * rndr(0, 6);
		break;
	case 8:
		size = SIZE_MAX - (one_in(2) ? rndn(hdr * 3) :
				   rndlog(0, SIZE_MAX / 2));
		break;
	default:
		size = one_in(2) ? E.total - quota_used(&E.quota) + rndn(3) - 1 -
				   hdr * rndn(2) : rndedge(1, SIZE_MAX);
		break;
	}
	/* Blocks beyond that size cannot be had here. */
	if (!opt_huge && size > (32 << 20))
		size = 32 << 20;
	if (opt_huge && size > (64 << 20) && size < ((size_t)1 << 40) &&
	    E.total == QUOTA_MAX)
		size = (size_t)1 << 40;
	size_t q0 = quota_used(&E.quota);
	uint64_t inj = hk_injected;
	hk_opn("slab_get", c, size, 0, 0);
	struct slab *s = slab_get(cache, size);
	bool faulted = hk_injected > inj;
	if (IS_ASAN) {
		if (s == NULL)
			return;
		HK_CHECK(s->size == slab_real_size(cache, size),
			 "slab.real_size", "size %zu, slab_real_size says %zu",
			 s->size, slab_real_size(cache, size));
		block_add(c, s, size, true);
		HK_EV("slab_get");
		return;
	}
	if (size > SIZE_MAX - hdr) {
		HK_CHECK(s == NULL, "slab.wrap", "a request of %zu bytes was "
			 "satisfied", size);
		HK_EV("slab_get_too_large");
		check_quota();
		return;
	}
	size_t need = size + hdr;
	if (need > E.slab_size) {
		if (s == NULL) {
			size_t room = E.total - q0;
			HK_CHECK(faulted || need > QUOTA_MAX ||
				 env_charge(need) > room ||
				 need > ((size_t)1 << 34), "slab.spurious_null",
				 "no block of %zu although the quota has %zu",
				 size, room);
			HK_EV("slab_large_null");
		} else {
			HK_CHECK(s->size == slab_real_size(cache, size),
				 "slab.real_size", "size %zu, slab_real_size "
				 "says %zu", s->size,
				 slab_real_size(cache, size));
			large_charge += env_charge(s->size);
			HK_EV("slab_get_large");
			block_add(c, s, size, true);
		}
		check_quota();
		return;
	}
	int order = want_order(need);
	ordered_result(c, s, order, faulted);
	if (s != NULL) {
		HK_CHECK(s->size == slab_real_size(cache, size),
			 "slab.real_size", "size %zu, slab_real_size says %zu",
			 s->size, slab_real_size(cache, size));
		block_add(c, s, size, false);
		HK_EV("slab_get");
	}
	if (faulted && s == NULL) {
		HK_EV("slab_get_fault");
		hk_faults_off();
		check_quota();
		if (arena_can() > 0) {
			s = slab_get(cache, size);
			HK_CHECK(s != NULL, "slab.no_recovery", "the request "
				 "fails again with memory available");
			ordered_result(c, s, order, false);
			block_add(c, s, size, false);
			HK_EV("slab_recovered");
		}
	}
	check_quota();
}

#ifndef ENABLE_ASAN
static void
do_get_order(int c)
{
	struct slab_cache *cache = &E.cache[c];
	int max = want_order(E.slab_size);
	int order = one_in(3) ? (int)rndn(max + 1) : (int)rndn(max < 3 ? max + 1 : 3);
	uint64_t inj = hk_injected;
	hk_opn("slab_get_with_order", c, order, 0, 0);
	struct slab *s = slab_get_with_order(cache, order);
	ordered_result(c, s, order, hk_injected > inj);
	if (s != NULL) {
		block_add(c, s, 0, false);
		HK_EV("slab_get_with_order");
	}
	check_quota();
}
#endif

static void
do_put(size_t i)
{
	struct block b = bl[i];
	bl[i] = bl[--nbl];
	block_ok(&b);
	hk_imap_remove(&live, (uintptr_t)b.s);
	used[b.cache] -= b.size;
	hk_opn("slab_put", b.cache, b.size, (uintptr_t)b.s, 0);
	if (b.large) {
		slab_put(&E.cache[b.cache], b.s);
		/* Larger ones are unmapped at once. */
		probe_dead("slab", b.s, b.size < 1 << 20 ? b.size : 0);
		if (!IS_ASAN)
			large_charge -= env_charge(b.size);
		HK_EV("slab_put_large");
	} else {
#ifndef ENABLE_ASAN
		if (one_in(2))
			slab_put_with_order(&E.cache[b.cache], b.s);
		else
#endif
			slab_put(&E.cache[b.cache], b.s);
		uintptr_t base = (uintptr_t)b.s & ~(E.slab_size - 1);
		struct aslab *p = aslab_find(base);
		memset(p->live + ((uintptr_t)b.s - base) / unit, 0,
		       b.size / unit);
		if (--p->nlive == 0) {
			int c = b.cache;
			if (spare[c].have)
				HK_EV("slab_returned_to_arena");
			spare[c].have = true;
			HK_ARRAY_PUSH(spare[c].a, spare[c].n, spare[c].cap,
				      base);
			hk_free(p->live);
			*p = as[--nas];
		}
		HK_EV("slab_put");
	}
	check_quota();
}

void
hk_init(void)
{
	opt_faults = hk_optl("faults", 0);
	opt_poison = hk_optl("poison", 0);
	opt_huge = hk_optl("huge", 0);
	opt_long = hk_optl("long", 0);
	hk_imap_init(&live);
}

static int bias;

static void
steps(int nops)
{
	for (int i = 0; i < nops; i++) {
		if (opt_long) {
			if (one_in(500))
				bias = one_in(2) ? 90 : 10;
		} else if (one_in(25)) {
			bias = rndr(10, 90);
		}
		if (nas > 150)
			HK_EV("slab_step_with_many_slabs");
		int c = rndn(E.ncache);
		if (opt_faults)
			env_faults(3);
		int k = rndn(100);
		if (k < bias) {
			size_t n = nbl;
#ifndef ENABLE_ASAN
			if (one_in(4))
				do_get_order(c);
			else
#endif
				do_get(c);
			hk_shape(n != nbl);
		} else if (nbl > 0) {
			size_t i = one_in(3) ? nbl - 1 : rndn(nbl);
			hk_shape(bl[i].size);
			do_put(i);
		}
		hk_faults_off();
		/* Nothing to give back. */
		if (one_in(100))
			slab_unmap(&E.arena, NULL);
#ifndef ENABLE_ASAN
		if (one_in(12) && E.slab_size <= (4 << 20)) {
			/* Somebody else uses the arena. */
			if (ndirect > 0 && one_in(2)) {
				slab_unmap(&E.arena, direct[--ndirect]);
			} else {
				size_t can = arena_can();
				void *p = slab_map(&E.arena);
				HK_CHECK((p != NULL) == (can > 0), "slab.hoard",
					 "the arena %s a slab, %zu expected",
					 p ? "gives" : "refuses", can);
				if (p != NULL) {
					HK_CHECK(hk_imap_overlap(&live,
						(uintptr_t)p, E.slab_size) ==
						NULL, "slab.overlap",
						"the arena gives a slab in use");
					memset(p, 0xee, 128);
					HK_ARRAY_PUSH(direct, ndirect, cdirect,
						      p);
				}
			}
			check_quota();
		}
#endif
		if (one_in(20) && nbl > 0)
			block_ok(&bl[rndn(nbl)]);
		if (one_in(opt_long ? 500 : 30) && E.slab_size <= (4 << 20))
			probe();
	}
}

static void *
other_thread(void *arg)
{
	/* The owner of the caches changes. */
	for (int c = 0; c < E.ncache; c++)
		slab_cache_set_thread(&E.cache[c]);
	steps(*(int *)arg);
	HK_EV("slab_other_thread");
	return NULL;
}

void
hk_case(uint64_t idx)
{
	(void)idx;
	if (opt_long) {
		env_create_sized(&E, 65536, one_in(4) ? QUOTA_MAX :
				 (size_t)65536 * rndr(150, 800), one_in(2) ?
				 (size_t)65536 * rndn(600) : 0, 1 + one_in(4));
		hk_op("env(slab=%zu quota=%zu prealloc=%zu caches=%d)",
		      E.slab_size, E.total, E.prealloc, E.ncache);
	} else if (IS_NDEBUG && one_in(300)) {
		/* More orders than a cache supports. */
		env_create_sized(&E, (size_t)1 << rndr(27, 29),
				 (size_t)3 << 30, 0, 1);
	} else {
		env_create(&E, 0);
	}
	nas = nbl = 0;
	large_charge = 0;
	tagseq = rnd();
	ndirect = 0;
	memset(used, 0, sizeof(used));
	for (int c = 0; c < 2; c++) {
		spare[c].n = 0;
		spare[c].have = false;
	}
#ifndef ENABLE_ASAN
	size_t norder = sizeof(E.cache[0].orders) / sizeof(*E.cache[0].orders);
	HK_CHECK(E.cache[0].order_max < norder, "slab.orders", "orders up to "
		 "%d in an array of %zu lists", (int)E.cache[0].order_max,
		 norder);
	unit = E.cache[0].order0_size;
	nunit = E.slab_size / unit;
#endif
	int nops = opt_huge ? 60 : 50 + rndn(200);
	bias = rndr(30, 60);
	if (opt_long) {
		nops = 3000;
		bias = 85;
	}
	if (opt_faults && E.slab_size > (1 << 20))
		nops = 50;
	if (one_in(20)) {
		pthread_t th;
		steps(nops / 3);
		int n = nops / 3;
		if (pthread_create(&th, NULL, other_thread, &n) != 0)
			hk_violation("harness", "no thread");
		pthread_join(th, NULL);
		for (int c = 0; c < E.ncache; c++)
			slab_cache_set_thread(&E.cache[c]);
		nops /= 3;
	}
	steps(nops);
	for (size_t i = 0; i < nbl; i++)
		block_ok(&bl[i]);
	if (nbl > 10)
		hk_nontrivial();
	bool all = IS_ASAN || one_in(2);
	if (all)
		while (nbl > 0)
			do_put(rndn(nbl));
	if (E.slab_size <= (4 << 20))
		probe();
#ifndef ENABLE_ASAN
	while (ndirect > 0)
		slab_unmap(&E.arena, direct[--ndirect]);
#endif
	/* Otherwise destruction must return blocks still in use as well. */
	if (!all) {
		for (int c = 0; c < E.ncache; c++)
			slab_cache_destroy(&E.cache[c]);
		E.ncache = 0;
		HK_EV("slab_destroy_live");
	}
	for (size_t i = 0; i < nas; i++)
		hk_free(as[i].live);
	nas = nbl = 0;
	hk_imap_clear(&live);
	env_destroy(&E, "slab.leak");
}
