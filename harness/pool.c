/* Monitor of the mempool: several pools on shared slab caches. */
#include "env.h"
#include <small/mempool.h>

static struct env E;
static bool opt_faults;
/** Hundreds of slabs. */
static bool opt_long;
enum { MAXPOOL = 5 };

struct pslab { uintptr_t base; uint32_t nlive; };
struct obj { char *p; uint64_t tag; };
static struct P {
	struct mempool mp;
	bool on;
	int cache;
	size_t objsize, slabsize, hdr, percap, align;
	struct pslab *s;
	size_t ns, cs;
	struct obj *o;
	size_t no, co;
	/** Candidates for the empty slab kept, see slab.c. */
	bool spare;
	uintptr_t *sp;
	size_t nsp, csp;
} pools[MAXPOOL];
static struct hk_imap live;
static uint64_t tagseq;

static struct pslab *
pslab_find(struct P *p, uintptr_t base)
{
	for (size_t i = 0; i < p->ns; i++)
		if (p->s[i].base == base)
			return &p->s[i];
	return NULL;
}

static void
pool_check(struct P *p)
{
	HK_CHECK(mempool_count(&p->mp) == p->no, "pool.count", "count is %zu, "
		 "%zu objects are live", mempool_count(&p->mp), p->no);
	HK_CHECK(mempool_used(&p->mp) == p->no * p->objsize, "pool.used",
		 "used is %zu, live objects make %zu", mempool_used(&p->mp),
		 p->no * p->objsize);
	struct mempool_stats st;
	memset(&st, p->no % 2 == 0 ? 0 : 0xff, sizeof(st));
	mempool_stats(&p->mp, &st);
	HK_CHECK(IS_ASAN ? st.totals.total == st.totals.used :
		 st.totals.total >= st.totals.used, "pool.stats", "statistics: "
		 "total is %zu, used %zu", st.totals.total, st.totals.used);
	HK_CHECK(st.objsize == p->objsize && st.objcount == p->no &&
		 st.totals.used == p->no * p->objsize, "pool.stats",
		 "statistics: %u objects of %u, %zu used; %zu of %zu are live",
		 st.objcount, st.objsize, st.totals.used, p->no, p->objsize);
#ifndef ENABLE_ASAN
	size_t slabs = p->ns + p->spare;
	HK_CHECK(mempool_total(&p->mp) == slabs * p->slabsize, "pool.total",
		 "total is %zu, but %zu slabs of %zu have objects and %d are "
		 "spare", mempool_total(&p->mp), p->ns, p->slabsize, p->spare);
	HK_CHECK(st.slabcount == slabs && st.slabsize == p->slabsize,
		 "pool.stats", "statistics: %u slabs of %u, expected %zu of "
		 "%zu", st.slabcount, st.slabsize, slabs, p->slabsize);
	HK_CHECK(st.totals.total == slabs * (p->slabsize - p->hdr),
		 "pool.stats", "statistics: total %zu for %zu slabs",
		 st.totals.total, slabs);
#endif
}

static void
cache_check(void)
{
#ifndef ENABLE_ASAN
	size_t used[2] = { 0, 0 };
	for (int i = 0; i < MAXPOOL; i++)
		if (pools[i].on)
			used[pools[i].cache] += mempool_total(&pools[i].mp);
	for (int c = 0; c < E.ncache; c++)
		HK_CHECK(slab_cache_used(&E.cache[c]) == used[c],
			 "pool.cache_used", "%zu bytes of the cache in use, "
			 "the pools hold %zu", slab_cache_used(&E.cache[c]),
			 used[c]);
	HK_CHECK(quota_used(&E.quota) == E.arena.used, "pool.quota",
		 "quota used %zu, arena %zu", quota_used(&E.quota),
		 E.arena.used);
#endif
}

static void
obj_ok(struct P *p, struct obj *o)
{
	ssize_t d = hk_verify_sparse(o->p, p->objsize, o->tag);
	HK_CHECK(d < 0, "pool.content", "byte %zd of object %p of %zu changed",
		 d, (void *)o->p, p->objsize);
	probe_live("mempool", o->p, p->objsize);
}

static void
pool_open(struct P *p)
{
	int c = rndn(E.ncache);
	size_t max = 0;
	p->cache = c;
	p->hdr = 0;
	p->slabsize = 0;
#ifdef ENABLE_ASAN
	p->objsize = one_in(6) ? rndedge(1, 65536) : rndedge(1, 4096);
	mempool_create(&p->mp, &E.cache[c], p->objsize);
	p->percap = 0;
#else
	struct slab_cache *cache = &E.cache[c];
	if (one_in(3)) {
		uint8_t order = rndn(4);
		while (order > 0 && (E.cache[c].order0_size << order) >
		       E.slab_size)
			order--;
		size_t sz = slab_order_size(cache, order);
		max = (sz - mslab_sizeof()) / (one_in(3) ? 2 : 10);
		if (one_in(12))
			max = sz - mslab_sizeof();
		p->objsize = rndedge(sizeof(void *), max);
		mempool_create_with_order(&p->mp, cache, p->objsize, order);
	} else {
		max = mempool_objsize_max(E.slab_size);
		p->objsize = opt_long && !one_in(4) ? max / rndr(1, 4) :
			     one_in(3) ? rndedge(sizeof(void *), max) :
			     one_in(2) ? max - rndn(max / 2) :
			     rndr(sizeof(void *), 3000);
		if (p->objsize > max)
			p->objsize = max;
		mempool_create(&p->mp, cache, p->objsize);
	}
	struct mempool_stats st;
	mempool_stats(&p->mp, &st);
	p->slabsize = st.slabsize;
	p->hdr = mslab_sizeof();
	p->percap = (p->slabsize - p->hdr) / p->objsize;
#endif
	hk_op("create(pool=%d cache=%d objsize=%zu slab=%zu)",
	      (int)(p - pools), c, p->objsize, p->slabsize);
	p->align = p->objsize & -p->objsize;
	if (p->align > (IS_ASAN ? 4096 : p->slabsize))
		p->align = IS_ASAN ? 4096 : p->slabsize;
	HK_CHECK(mempool_is_initialized(&p->mp), "pool.initialized",
		 "not initialized after creation");
	p->on = true;
	p->ns = p->no = p->nsp = 0;
	p->spare = false;
	pool_check(p);
}

static void
obj_gone(struct P *p, size_t i)
{
	hk_imap_remove(&live, (uintptr_t)p->o[i].p);
	p->o[i] = p->o[--p->no];
}

static void
pool_close(struct P *p)
{
	hk_opn("destroy", p - pools, p->no, 0, 0);
	for (size_t i = 0; i < p->no; i++)
		obj_ok(p, &p->o[i]);
	/* The sanitizer build destroys no objects. */
	while (IS_ASAN && p->no > 0) {
		void *q = p->o[0].p;
		obj_gone(p, 0);
		mempool_free(&p->mp, q);
	}
	while (p->no > 0)
		obj_gone(p, p->no - 1);
	mempool_destroy(&p->mp);
	HK_CHECK(!mempool_is_initialized(&p->mp), "pool.initialized",
		 "initialized after destruction");
	p->on = false;
	HK_EV("pool_destroy");
}

/** Can the cache give a slab of the size this pool needs? */
static bool
cache_can(struct P *p)
{
#ifdef ENABLE_ASAN
	(void)p;
	return true;
#else
	struct slab_cache *cache = &E.cache[p->cache];
	struct slab *s = slab_get_with_order(cache,
					     slab_order(cache, p->slabsize));
	if (s == NULL)
		return false;
	slab_put_with_order(cache, s);
	return true;
#endif
}

static void
pool_alloc_result(struct P *p, char *q, bool faulted)
{
	if (q == NULL) {
		bool any = p->spare;
		for (size_t i = 0; i < p->ns; i++)
			any |= p->s[i].nlive < p->percap;
		HK_CHECK(!any, "pool.spurious_null", "no object although a "
			 "slab of the pool has free ones");
		if (!faulted)
			HK_CHECK(!cache_can(p), "pool.spurious_null", "no "
				 "object although the cache has a slab");
		HK_EV("pool_alloc_null");
		return;
	}
	HK_CHECK((uintptr_t)q % p->align == 0, "pool.alignment", "object %p of "
		 "%zu bytes is not aligned to %zu", (void *)q, p->objsize,
		 p->align);
	HK_CHECK(hk_owned(q, p->objsize), "pool.not_owned", "object %p of %zu "
		 "bytes is not memory that was obtained", (void *)q,
		 p->objsize);
	struct hk_iv *iv = hk_imap_overlap(&live, (uintptr_t)q, p->objsize);
	HK_CHECK(iv == NULL, "pool.overlap", "object %p of %zu overlaps live "
		 "object %p of %zu", (void *)q, p->objsize, (void *)iv->start,
		 iv->size);
	if (!IS_ASAN) {
		uintptr_t base = (uintptr_t)q & ~(p->slabsize - 1);
		HK_CHECK((uintptr_t)q - base >= p->hdr &&
			 (uintptr_t)q - base + p->objsize <= p->slabsize,
			 "pool.border", "object %p of %zu crosses the border of "
			 "its slab", (void *)q, p->objsize);
		struct pslab *s = pslab_find(p, base);
		if (s == NULL) {
			/* A spare one, or a new one. */
			bool sp = false;
			for (size_t i = 0; i < p->nsp; i++)
				sp |= p->spare && p->sp[i] == base;
			if (!sp) {
				size_t thr = p->percap / 8;
				HK_CHECK(!p->spare, "pool.bloat", "a new slab "
					 "was taken although there is a spare "
					 "one");
				for (size_t i = 0; i < p->ns; i++) {
					size_t nf = p->percap - p->s[i].nlive;
					HK_CHECK(nf == 0 || nf < thr,
						 "pool.bloat", "a new slab was "
						 "taken although another one "
						 "has %zu of %zu free", nf,
						 p->percap);
				}
				HK_EV("pool_new_slab");
			} else {
				HK_EV("pool_from_spare");
			}
			p->spare = p->spare && !sp;
			if (sp)
				p->nsp = 0;
			struct pslab n = { base, 0 };
			HK_ARRAY_PUSH(p->s, p->ns, p->cs, n);
			s = &p->s[p->ns - 1];
		}
		s->nlive++;
		HK_CHECK(s->nlive <= p->percap, "pool.capacity", "%u objects "
			 "in a slab for %zu", s->nlive, p->percap);
	}
	struct obj o = { q, tagseq++ };
	hk_imap_insert(&live, (uintptr_t)q, p->objsize, o.tag, NULL);
	probe_live("mempool", q, p->objsize);
	hk_fill_sparse(q, p->objsize, o.tag);
	HK_ARRAY_PUSH(p->o, p->no, p->co, o);
	HK_EV("pool_alloc");
}

static void
pool_alloc(struct P *p)
{
	uint64_t inj = hk_injected;
	hk_opn("alloc", p - pools, p->no, 0, 0);
	char *q = mempool_alloc(&p->mp);
	bool faulted = hk_injected > inj;
	pool_alloc_result(p, q, faulted);
	if (q == NULL && faulted) {
		HK_EV("pool_fault");
		hk_faults_off();
		pool_check(p);
		cache_check();
		if (cache_can(p)) {
			q = mempool_alloc(&p->mp);
			HK_CHECK(q != NULL, "pool.no_recovery", "the "
				 "allocation fails again with memory "
				 "available");
			pool_alloc_result(p, q, false);
			HK_EV("pool_recovered");
		}
	}
}

static void
pool_free(struct P *p, size_t i)
{
	obj_ok(p, &p->o[i]);
	char *q = p->o[i].p;
	hk_opn("free", p - pools, (uintptr_t)q, 0, 0);
	obj_gone(p, i);
	mempool_free(&p->mp, q);
	probe_dead("mempool", q, p->objsize);
	HK_EV("pool_free");
	if (IS_ASAN)
		return;
	uintptr_t base = (uintptr_t)q & ~(p->slabsize - 1);
	struct pslab *s = pslab_find(p, base);
	if (--s->nlive == 0) {
		if (p->spare)
			HK_EV("pool_slab_returned");
		p->spare = true;
		HK_ARRAY_PUSH(p->sp, p->nsp, p->csp, base);
		*s = p->s[--p->ns];
		HK_EV("pool_slab_empty");
	}
}

void
hk_init(void)
{
	opt_faults = hk_optl("faults", 0);
	opt_long = hk_optl("long", 0);
	opt_poison = hk_optl("poison", 0);
	hk_imap_init(&live);
}

#ifndef ENABLE_ASAN
/** More objects in a slab than fit into 16 bits. */
static void
many_case(void)
{
	size_t s = (size_t)1 << rndr(20, 22);
	env_create_sized(&E, s, QUOTA_MAX, 0, 1);
	static struct mempool mp;
	uint32_t size = rndr(8, 14);
	memset(&mp, 0x5a, sizeof(mp));
	mempool_create_with_order(&mp, &E.cache[0], size,
				  E.cache[0].order_max);
	size_t n = s / size * rndr(1, 3) + rndn(1000);
	uint64_t **p = hk_malloc(n * sizeof(*p));
	hk_op("many(slab=%zu size=%u objects=%zu)", s, size, n);
	uint64_t tag = rnd();
	for (int round = 0; round < 2; round++) {
		for (size_t i = 0; i < n; i++) {
			p[i] = mempool_alloc(&mp);
			HK_CHECK(p[i] != NULL, "pool.spurious_null",
				 "object %zu of %u bytes", i, size);
			uint64_t v = hk_mix(tag + i);
			memcpy(p[i], &v, 8);
		}
		struct mempool_stats st;
		mempool_stats(&mp, &st);
		size_t per = s / size;
		HK_CHECK(mempool_count(&mp) == n && st.objcount == n &&
			 st.totals.used == n * size, "pool.stats", "%zu "
			 "objects, %zu and %u expected", n, mempool_count(&mp),
			 st.objcount);
		HK_CHECK(st.slabcount >= (n + per - 1) / per &&
			 st.slabcount <= n / (per - per / 100) + 1,
			 "pool.new_slab", "%u slabs hold %zu objects of %u "
			 "bytes", st.slabcount, n, size);
		for (size_t i = 0; i < n; i++) {
			uint64_t v = hk_mix(tag + i);
			HK_CHECK(hk_owned(p[i], size) &&
				 memcmp(p[i], &v, 8) == 0, "pool.content",
				 "object %zu of %zu has changed", i, n);
		}
		/* In any order. */
		for (size_t i = n - 1; i > 0; i--) {
			size_t k = rndn(i + 1);
			uint64_t *t = p[i];
			p[i] = p[k];
			p[k] = t;
		}
		for (size_t i = 0; i < n; i++)
			mempool_free(&mp, p[i]);
		mempool_stats(&mp, &st);
		HK_CHECK(mempool_count(&mp) == 0 && st.totals.used == 0 &&
			 st.slabcount == 1, "pool.stats", "%zu objects in %u "
			 "slabs left", mempool_count(&mp), st.slabcount);
		HK_EV("pool_many");
	}
	hk_nontrivial();
	hk_shape(n);
	hk_free(p);
	mempool_destroy(&mp);
	HK_CHECK(slab_cache_used(&E.cache[0]) == 0, "pool.leak", "%zu bytes "
		 "left in use", slab_cache_used(&E.cache[0]));
	env_destroy(&E, "pool.leak");
}
#endif

void
hk_case(uint64_t idx)
{
	(void)idx;
#ifndef ENABLE_ASAN
	if (!opt_faults && !opt_long && one_in(1000)) {
		many_case();
		return;
	}
#endif
	size_t s = (size_t)65536 << rndn(3);
	if (one_in(10))
		s = (size_t)65536 << rndn(6);
	size_t total = one_in(3) ? QUOTA_MAX : s * rndr(1, 6);
	if (opt_long) {
		s = 65536;
		total = one_in(3) ? QUOTA_MAX : s * rndr(70, 400);
	}
	env_create_sized(&E, s, total, one_in(3) ? s * rndn(3) : 0,
			 1 + one_in(3));
	hk_op("env(slab=%zu quota=%zu caches=%d)", E.slab_size, E.total,
	      E.ncache);
	tagseq = rnd();
	int np = 1 + rndn(opt_long ? 2 : MAXPOOL);
	memset(&pools[0].mp, 0x5a, sizeof(pools[0].mp));
	for (int i = 0; i < np; i++)
		pool_open(&pools[i]);
	size_t bytes_max = 8 << 20;
	int nops = 100 + rndn(1500);
	if (one_in(4))
		nops = 4000;
	int bias = rndr(45, 75), style = rndn(4);
	if (opt_long) {
		bytes_max = 32 << 20;
		nops = 12000;
		bias = 95;
	}
	for (int i = 0; i < nops; i++) {
		if (one_in(opt_long ? 1000 : 60)) {
			static const int b[] = { 5, 30, 50, 70, 95, 100 };
			bias = b[rndn(6)];
			style = rndn(4);
		}
		struct P *p = &pools[rndn(np)];
		if (!p->on) {
			pool_open(p);
			continue;
		}
		if (opt_faults)
			env_faults(6);
		if ((int)rndn(100) < bias && live.bytes < bytes_max) {
			pool_alloc(p);
		} else if (p->no > 0) {
			size_t k = style == 0 ? p->no - 1 : style == 1 ? 0 :
				   rndn(p->no);
			if (style == 3) {
				/* Empty one slab. */
				uintptr_t base = (uintptr_t)p->o[rndn(p->no)].p
						 & ~(p->slabsize - 1);
				int lim = rndr(1, 200);
				for (k = 0; k < p->no && lim > 0;)
					if (((uintptr_t)p->o[k].p &
					     ~(p->slabsize - 1)) == base ||
					    IS_ASAN) {
						pool_free(p, k);
						lim--;
					} else {
						k++;
					}
			} else {
				pool_free(p, k);
			}
		}
		hk_faults_off();
		pool_check(p);
		if (p->ns > 100)
			HK_EV("pool_step_with_many_slabs");
		if (one_in(8))
			cache_check();
		if (one_in(10) && p->no > 0)
			obj_ok(p, &p->o[rndn(p->no)]);
		if (one_in(opt_long ? 20000 : 500))
			pool_close(p);
	}
	size_t n = 0;
	for (int i = 0; i < np; i++) {
		struct P *p = &pools[i];
		hk_shape(p->objsize);
		hk_shape(p->no);
		n += p->no;
		if (!p->on)
			continue;
		if (one_in(2)) {
			while (p->no > 0) {
				pool_free(p, rndn(p->no));
				if (one_in(4))
					pool_check(p);
			}
			pool_check(p);
		}
		pool_close(p);
		cache_check();
	}
	if (n > 20)
		hk_nontrivial();
	HK_CHECK(live.count == 0, "harness", "live objects left");
	env_destroy(&E, "pool.leak");
}
