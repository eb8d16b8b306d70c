/* Monitor of the small object allocator. */
#include "env.h"
#include <small/small.h>

static struct env E;
static bool opt_faults, opt_huge;
enum { NALLOC = 2, MAXPOOLS = 1100 };
struct obj { char *p; size_t size, real; uint64_t tag; int best; bool large; };
/** One pool as the statistics show it. */
struct pinfo {
	size_t objsize, slabsize, count, slabs;
	size_t waste;
	/** The class has once lost enough for a pool of its own. */
	bool earned;
	/** The last one of the pools that stand in for each other. */
	bool last;
	/** The object size of that one. */
	size_t lastsize;
};
static struct A {
	struct small_alloc sa;
	bool on;
	int cache;
	unsigned gran;
	struct obj *o;
	size_t no, co;
	size_t nsmall, small_bytes, large_bytes;
	struct pinfo pool[MAXPOOLS];
	int npool;
	size_t req_bytes;
} al[NALLOC];
static struct hk_imap live;
static uint64_t tagseq;
static size_t large_charge;
/** If not zero, the size to allocate. */
static size_t fixed_size;

/* ---- statistics ------------------------------------------------------- */
static struct { struct A *a; int i; size_t used, count, held; int stop; } sc;

static int
stat_cb(const void *arg, void *ctx)
{
	const struct mempool_stats *st = arg;
	HK_CHECK(ctx == &sc, "small.stats", "wrong callback context");
	struct A *a = sc.a;
	sc.used += st->totals.used;
	sc.count += st->objcount;
	sc.held += (size_t)st->slabcount * st->slabsize;
	if (IS_ASAN)
		return 0;
	int i = sc.i++;
	HK_CHECK(i < MAXPOOLS, "small.stats", "too many pools");
	if (a->npool <= i) {
		/* The first time: learn the pools. */
		HK_CHECK(i == 0 || st->objsize > a->pool[i - 1].objsize,
			 "small.stats", "object sizes do not increase");
		a->pool[i].objsize = st->objsize;
		a->pool[i].slabsize = st->slabsize;
		a->pool[i].count = 0;
		a->pool[i].waste = 0;
		a->pool[i].earned = false;
		a->npool = i + 1;
	}
	HK_CHECK(st->objsize == a->pool[i].objsize, "small.stats",
		 "the object size of pool %d changed", i);
	HK_CHECK(st->objcount == a->pool[i].count, "small.stats", "%u objects "
		 "in the pool of %u byte objects, %zu are live", st->objcount,
		 st->objsize, a->pool[i].count);
	HK_CHECK(st->totals.used == a->pool[i].count * st->objsize,
		 "small.stats", "%zu bytes used in the pool of %u byte objects, "
		 "%zu objects are live", st->totals.used, st->objsize,
		 a->pool[i].count);
	a->pool[i].slabs = st->slabcount;
	HK_CHECK(a->pool[i].count > 0 || st->slabcount <= 1, "small.hoard",
		 "%u slabs in an empty pool", st->slabcount);
	if (sc.stop > 0 && --sc.stop == 0)
		return 1;
	return 0;
}

/** Total bytes of slabs the pools of this allocator hold. */
static size_t
stats_check(struct A *a)
{
	struct small_stats t;
	memset(&sc, 0, sizeof(sc));
	sc.a = a;
	small_stats(&a->sa, &t, stat_cb, &sc);
	HK_CHECK(IS_ASAN || t.used == sc.used, "small.stats", "totals say %zu used, pools "
		 "%zu", t.used, sc.used);
	HK_CHECK(IS_ASAN || sc.i == a->npool, "small.stats", "%d pools, were "
		 "%d", sc.i, a->npool);
	size_t held = sc.held;
	if (IS_ASAN) {
		HK_CHECK(t.used == a->req_bytes && sc.count == a->no,
			 "small.stats", "%zu bytes in %zu objects, expected "
			 "%zu in %zu", t.used, sc.count, a->req_bytes, a->no);
		HK_CHECK(t.total == t.used, "small.stats", "total is %zu, used "
			 "%zu", t.total, t.used);
		return t.used;
	}
	HK_CHECK(t.used == a->small_bytes, "small.stats", "totals say %zu "
		 "used, live objects make %zu", t.used, a->small_bytes);
	HK_CHECK(t.total >= t.used && t.total <= held, "small.stats",
		 "total is %zu, used %zu, slabs %zu", t.total, t.used, held);
	if (a->npool > 1 && one_in(8)) {
		/* The callback may stop the iteration. */
		memset(&sc, 0, sizeof(sc));
		sc.a = a;
		sc.stop = rndr(1, a->npool);
		int stop = sc.stop;
		small_stats(&a->sa, &t, stat_cb, &sc);
		HK_CHECK(sc.i == stop, "small.stats", "%d pools were shown "
			 "after a request to stop at %d", sc.i, stop);
		HK_CHECK(t.used == sc.used, "small.stats", "partial totals say "
			 "%zu used, pools %zu", t.used, sc.used);
	}
	return held;
}

static void
all_check(void)
{
	size_t used[2] = { 0, 0 };
	for (int i = 0; i < NALLOC; i++) {
		if (!al[i].on)
			continue;
		used[al[i].cache] += stats_check(&al[i]);
		used[al[i].cache] += al[i].large_bytes;
	}
#ifdef ENABLE_ASAN
	for (int c = 0; c < E.ncache; c++)
		HK_CHECK(quota_leased(&E.cache[c].quota) == used[c],
			 "small.quota", "%zu bytes are leased from the quota, "
			 "live objects make %zu",
			 quota_leased(&E.cache[c].quota), used[c]);
	return;
#endif
	for (int c = 0; c < E.ncache; c++)
		HK_CHECK(slab_cache_used(&E.cache[c]) == used[c],
			 "small.cache_used", "%zu bytes of the cache in use, "
			 "the allocators hold %zu",
			 slab_cache_used(&E.cache[c]), used[c]);
	HK_CHECK(quota_used(&E.quota) == E.arena.used + large_charge,
		 "small.quota", "quota used %zu, slabs %zu and large blocks "
		 "%zu", quota_used(&E.quota), E.arena.used, large_charge);
}

/** The pool that fits best. */
static int
best_pool(struct A *a, size_t size)
{
	int lo = 0, hi = a->npool;
	while (lo < hi) {
		int m = (lo + hi) / 2;
		if (a->pool[m].objsize < size)
			lo = m + 1;
		else
			hi = m;
	}
	return lo;
}

static void
al_open(struct A *a)
{
	a->cache = rndn(E.ncache);
	a->gran = 1 << rndn(9);
	if (one_in(2))
		a->gran = 8;
	unsigned min = one_in(2) ? rndr(1, 64) : rndlog(1, 512);
	/* A free object holds a pointer. */
	if (min < sizeof(void *))
		min = sizeof(void *);
	float f;
	switch (rndn(5)) {
	case 0: f = 1.05; break;
	case 1: f = 1.1; break;
	case 2: f = 2.0; break;
	case 3: f = 1.0 + (rndr(1, 1000)) / 1000.0; break;
	default: f = 1.0 + (rndr(1, 1000)) / 20000.0; break;
	}
	float actual = 0;
	hk_op("create(alloc=%d cache=%d min=%u gran=%u factor=%f)",
	      (int)(a - al), a->cache, min, a->gran, f);
	memset(&a->sa, 0x5a, sizeof(a->sa));
	small_alloc_create(&a->sa, &E.cache[a->cache], min, a->gran, f,
			   &actual);
	HK_CHECK(actual > 1 && actual <= 2, "small.factor", "actual factor %f",
		 actual);
	a->no = a->nsmall = a->small_bytes = a->large_bytes = a->req_bytes = 0;
	a->npool = 0;
	a->on = true;
	stats_check(a);
	for (int i = 0, first = 0; i < a->npool; i++) {
		struct pinfo *p = &a->pool[i];
		p->last = i + 1 == a->npool || p[1].slabsize != p->slabsize ||
			  i - first == 31;
		if (p->last) {
			for (int k = first; k <= i; k++)
				a->pool[k].lastsize = p->objsize;
			first = i + 1;
		}
	}
}

static void
obj_ok(struct obj *o)
{
	ssize_t d = hk_verify_sparse(o->p, o->size, o->tag);
	HK_CHECK(d < 0, "small.content", "byte %zd of object %p of %zu changed",
		 d, (void *)o->p, o->size);
	probe_live("small", o->p, o->size);
}

static void
obj_new(struct A *a, char *p, size_t size, size_t real, bool large)
{
	size_t align = a->gran;
	if (IS_ASAN)
		align = 1;
	else if (large && align > sizeof(void *))
		align = sizeof(void *);
	HK_CHECK((uintptr_t)p % align == 0, "small.alignment", "object %p of "
		 "%zu bytes is not aligned to %zu", (void *)p, size, align);
	HK_CHECK(hk_owned(p, size), "small.not_owned", "object %p of %zu is "
		 "not memory that was obtained", (void *)p, size);
	size_t len = large || IS_ASAN ? size : real;
	if (len == 0)
		len = 1;
	struct hk_iv *iv = hk_imap_overlap(&live, (uintptr_t)p, len);
	HK_CHECK(iv == NULL, "small.overlap", "object %p of %zu overlaps live "
		 "object %p of %zu", (void *)p, len, (void *)iv->start,
		 iv->size);
	struct obj o = { p, size, real, tagseq++, 0, large };
	hk_imap_insert(&live, (uintptr_t)p, len, o.tag, NULL);
	probe_live("small", p, size);
	hk_fill_sparse(p, size, o.tag);
	a->req_bytes += size;
	if (large) {
		a->large_bytes += size + slab_sizeof();
		large_charge += env_charge(size + slab_sizeof());
		HK_EV("small_alloc_large");
	} else if (!IS_ASAN) {
		o.best = best_pool(a, size);
		HK_CHECK(o.best < a->npool, "small.class", "no pool for %zu",
			 size);
		int rp = best_pool(a, real);
		HK_CHECK(rp < a->npool && a->pool[rp].objsize == real,
			 "small.class", "no pool of %zu byte objects", real);
		a->pool[rp].count++;
		size_t w = real - a->pool[o.best].objsize;
		/* A class that has lost enough gets a pool of its own. */
		HK_CHECK(w == 0 || a->pool[o.best].waste <
			 a->pool[rp].slabsize / 4, "small.waste", "an object "
			 "of %zu comes from a larger pool again, although "
			 "%zu bytes are lost this way already, slabs have %zu",
			 size, a->pool[o.best].waste, a->pool[rp].slabsize);
		a->pool[o.best].waste += w;
		if (a->pool[o.best].waste >= a->pool[rp].slabsize / 4)
			a->pool[o.best].earned = true;
		HK_CHECK(a->pool[rp].last || a->pool[rp].earned, "small.waste",
			 "an object of %zu comes from the pool of %zu, although "
			 "this class has never lost a quarter of a slab", size,
			 real);
		if (w > 0)
			HK_EV("small_from_larger_pool");
		else
			HK_EV("small_from_best_pool");
		a->nsmall++;
		a->small_bytes += real;
	}
	HK_ARRAY_PUSH(a->o, a->no, a->co, o);
	HK_EV("small_alloc");
}

static void
obj_free(struct A *a, size_t i)
{
	struct obj o = a->o[i];
	a->o[i] = a->o[--a->no];
	obj_ok(&o);
	hk_imap_remove(&live, (uintptr_t)o.p);
	a->req_bytes -= o.size;
	if (o.large) {
		a->large_bytes -= o.size + slab_sizeof();
		large_charge -= env_charge(o.size + slab_sizeof());
	} else if (!IS_ASAN) {
		int rp = best_pool(a, o.real);
		a->pool[rp].count--;
		a->pool[o.best].waste -= o.real - a->pool[o.best].objsize;
		a->nsmall--;
		a->small_bytes -= o.real;
	}
	hk_opn("smfree", a - al, o.size, (uintptr_t)o.p, 0);
	smfree(&a->sa, o.p, o.size);
	probe_dead("small", o.p, o.size);
	HK_EV("small_free");
}

static size_t
pick_size(struct A *a, size_t focus)
{
	switch (rndn(opt_huge ? 12 : 10)) {
	case 0: case 1: case 2: case 3:
		return focus;
	case 4: case 5:
		return rndlog(1, 4096);
	case 6:
		return rndedge(1, 100000);
	case 7:
		/* Around the border of a class. */
		if (a->npool > 0)
			return a->pool[rndn(a->npool)].objsize + rndn(2);
		return rndlog(1, 4096);
	case 8:
		if (a->npool > 0 && one_in(4))
			return a->pool[a->npool - 1].objsize + rndn(4) - 1;
		return rndr(1, 600);
	case 9:
		if (one_in(10))
			return rndlog(1, E.slab_size * 2);
		return focus + rndn(8);
	case 10:
		return SIZE_MAX - (one_in(2) ? rndn(200) :
				   rndlog(0, SIZE_MAX / 2));
	default:
		if (one_in(2))
			return rndedge(1, SIZE_MAX);
		return E.total - quota_used(&E.quota) - rndn(3) * 48 + rndn(3);
	}
}

/**
 * If the allocator cannot get memory, nobody can: an independent pool of
 * objects of the same size on the same cache fails as well.
 */
static void
null_is_right(struct A *a, size_t size, size_t real)
{
#ifndef ENABLE_ASAN
	/*
	 * Pools that are empty and that sizes do without at little cost
	 * have given back their memory.
	 */
	stats_check(a);
	for (int i = 0; i < a->npool; i++) {
		struct pinfo *pi = &a->pool[i];
		if (pi->count > 0 || pi->last ||
		    pi->waste >= pi->slabsize / 16)
			continue;
		HK_EV("small_idle_pool_when_full");
		HK_CHECK(pi->slabs == 0, "small.hoard", "no object of %zu, "
			 "although the empty pool of %zu byte objects keeps "
			 "a slab", size, pi->objsize);
	}
	struct mempool mp;
	mempool_create(&mp, &E.cache[a->cache], real);
	void *p = mempool_alloc(&mp);
	HK_CHECK(p == NULL, "small.spurious_null", "no object of %zu although "
		 "there is memory for it", size);
	mempool_destroy(&mp);
#else
	(void)a;
	(void)real;
	/* A lease is taken as a whole or in part from the quota. */
	HK_CHECK(size > quota_available(&E.cache[a->cache].quota) +
		 (E.total - quota_used(&E.quota)), "small.spurious_null",
		 "no object of %zu although the quota has room", size);
#endif
}

static int
grown_cb(const void *arg, void *ctx)
{
	const struct mempool_stats *st = arg;
	size_t *found = ctx;
	struct A *a = sc.a;
	if (st->objcount == a->pool[sc.i++].count + 1)
		*found = st->objsize;
	return 0;
}

/**
 * Which pool an object was taken from: @a real was the one to use before. It
 * may be another one if memory was scarce and pools were given up.
 */
static size_t
real_pool(struct A *a, size_t size, size_t real)
{
	if (IS_ASAN)
		return real;
	struct small_alloc_info info;
	small_alloc_info(&a->sa, NULL, size, &info);
	struct pinfo *pi = &a->pool[best_pool(a, real)];
	if (info.real_size == real &&
	    (pi->lastsize - real) * 8 < pi->slabsize)
		return real;
	struct small_stats t;
	memset(&sc, 0, sizeof(sc));
	sc.a = a;
	size_t found = 0;
	small_stats(&a->sa, &t, grown_cb, &found);
	HK_CHECK(found != 0, "small.stats", "no pool got an object");
	if (found > real)
		HK_EV("small_pool_given_up");
	return found;
}

static bool
do_alloc(struct A *a, size_t focus)
{
	size_t size = fixed_size > 0 ? fixed_size : pick_size(a, focus);
	if (!opt_huge && size > (8 << 20))
		size = 8 << 20;
	/* Blocks that could be had but are of no use here. */
	if (opt_huge && size > (64 << 20) && size < ((size_t)1 << 40))
		size += (size_t)1 << 40;
	if (IS_ASAN && size > (1 << 20))
		size = 1 << 20;
	struct small_alloc_info info;
	memset(&info, 0x5a, sizeof(info));
	small_alloc_info(&a->sa, NULL, size, &info);
	HK_CHECK(!(IS_ASAN || info.is_large) || info.real_size == size,
		 "small.info", "real size %zu for %zu bytes in a block of "
		 "their own", info.real_size, size);
	bool large = info.is_large && !IS_ASAN;
	if (!IS_ASAN) {
		size_t max = a->pool[a->npool - 1].objsize;
		HK_CHECK(info.is_large == (size > max), "small.info",
			 "%zu is %slarge, the largest pool has %zu", size,
			 info.is_large ? "" : "not ", max);
		HK_CHECK(info.real_size >= size, "small.info",
			 "real size %zu for %zu", info.real_size, size);
	}
	size_t real = info.real_size, q0 = quota_used(&E.quota);
	uint64_t inj = hk_injected;
	hk_opn("smalloc", a - al, size, real, large);
	char *p = smalloc(&a->sa, size);
	bool faulted = hk_injected > inj;
	if (p != NULL && !large)
		real = real_pool(a, size, real);
	if (p != NULL) {
		if (size > SIZE_MAX / 2)
			hk_violation("small.wrap", "a request of %zu bytes was "
				     "satisfied", size);
		obj_new(a, p, size, real, large);
		return true;
	}
	HK_EV("small_alloc_null");
	if (large) {
		HK_CHECK(faulted || size > QUOTA_MAX - slab_sizeof() ||
			 env_charge(size + slab_sizeof()) > E.total - q0,
			 "small.spurious_null", "no object of %zu although the "
			 "quota has %zu", size, E.total - q0);
		HK_CHECK(quota_used(&E.quota) == q0, "small.quota",
			 "the quota changed in a failed allocation");
		if (size > SIZE_MAX / 2)
			HK_EV("small_too_large");
		return false;
	}
	if (faulted) {
		HK_EV("small_fault");
		all_check();
		hk_faults_off();
		small_alloc_info(&a->sa, NULL, size, &info);
		p = smalloc(&a->sa, size);
		if (p != NULL) {
			obj_new(a, p, size, real_pool(a, size, info.real_size),
				large);
			HK_EV("small_recovered");
			return true;
		}
		real = info.real_size;
	}
	null_is_right(a, size, real);
	/* What has just been freed can be had again. */
	for (int t = 0; t < 3 && a->no > 0; t++) {
		size_t i = rndn(a->no);
		struct obj o = a->o[i];
		small_alloc_info(&a->sa, NULL, o.size, &info);
		if (o.large || info.real_size < o.real || IS_ASAN)
			continue;
		obj_free(a, i);
		p = smalloc(&a->sa, o.size);
		HK_CHECK(p != NULL, "small.spurious_null", "an object of %zu "
			 "cannot be had again right after it was freed",
			 o.size);
		obj_new(a, p, o.size, real_pool(a, o.size, info.real_size),
			false);
		HK_EV("small_reused_when_full");
	}
	return false;
}

static bool
alloc_size(struct A *a, size_t size)
{
	fixed_size = size;
	bool ok = do_alloc(a, size);
	fixed_size = 0;
	return ok;
}

/**
 * Classes get pools of their own, then lose all their objects; others take
 * the memory, then the classes need it again.
 */
static void
lean_times(struct A *a)
{
	size_t sizes[6];
	int n = 1 + rndn(6), rounds = 1 + rndn(3);
	hk_op("lean times");
	for (int i = 0; i < n; i++) {
		size_t max = a->pool[a->npool - 1].objsize;
		sizes[i] = a->pool[rndlog(0, a->npool - 1)].objsize;
		if (sizes[i] > 20000 || sizes[i] > max)
			sizes[i] = rndlog(1, max < 20000 ? max : 20000);
		size_t first = a->no;
		struct small_alloc_info info;
		small_alloc_info(&a->sa, NULL, sizes[i], &info);
		size_t real = info.real_size;
		for (int k = 0; k < 3000; k++) {
			if (!alloc_size(a, sizes[i]))
				break;
			small_alloc_info(&a->sa, NULL, sizes[i], &info);
			if (info.real_size < real && !one_in(5))
				break;
			if (info.is_large)
				break;
		}
		if (info.real_size < real)
			HK_EV("small_pool_activated");
		while (a->no > first)
			obj_free(a, a->no - 1);
	}
	if (IS_ASAN)
		return;
	for (int r = 0; r < rounds; r++) {
		size_t x = rndlog(64, 5000), first = a->no;
		while (alloc_size(a, x))
			;
		int back = rndn(4);
		while (back-- > 0 && a->no > first)
			obj_free(a, one_in(2) ? a->no - 1 :
				 first + rndn(a->no - first));
		for (int k = 0; k < 40; k++) {
			alloc_size(a, sizes[rndn(n)]);
			if (one_in(3) && a->no > 0)
				obj_free(a, a->no - 1 - rndn(a->no < 40 ?
							     a->no : 40));
		}
		all_check();
		if (one_in(2))
			while (a->no > first)
				obj_free(a, a->no - 1);
	}
}

void
hk_init(void)
{
	opt_faults = hk_optl("faults", 0);
	opt_poison = hk_optl("poison", 0);
	opt_huge = hk_optl("huge", 0);
	hk_imap_init(&live);
}

void
hk_case(uint64_t idx)
{
	(void)idx;
	size_t s = (size_t)65536 << rndn(4);
	if (one_in(10))
		s = (size_t)65536 << rndn(7);
	size_t total = one_in(3) ? (size_t)1 << 40 : s * rndr(1, 12);
	env_create_sized(&E, s, total, one_in(3) ? s * rndn(3) : 0,
			 1 + one_in(4));
	hk_op("env(slab=%zu quota=%zu caches=%d)", E.slab_size, E.total,
	      E.ncache);
	tagseq = rnd();
	large_charge = 0;
	int na = 1 + one_in(4);
	al[0].on = al[1].on = false;
	for (int i = 0; i < na; i++)
		al_open(&al[i]);
	size_t bytes_max = 8 << 20;
	int nops = opt_huge ? 150 : 200 + rndn(2500);
	int bias = rndr(50, 80), style = rndn(3);
	size_t focus = rndlog(1, 3000);
	bool lean = !opt_huge && E.total <= (1 << 20) && one_in(2);
	for (int i = 0; i < nops; i++) {
		if (one_in(150)) {
			static const int b[] = { 5, 30, 50, 70, 95, 100 };
			bias = b[rndn(6)];
			style = rndn(3);
			focus = one_in(3) ? focus + rndn(9) - 4 :
				rndlog(1, one_in(4) ? 60000 : 3000);
			if (focus == 0 || focus > 70000)
				focus = 1;
		}
		struct A *a = &al[rndn(na)];
		if (lean && one_in(600))
			lean_times(a);
		if (opt_faults)
			env_faults(6);
		if ((int)rndn(100) < bias && live.bytes < bytes_max)
			do_alloc(a, focus);
		else if (a->no > 0)
			obj_free(a, style == 0 ? a->no - 1 :
				 style == 1 ? 0 : rndn(a->no));
		hk_faults_off();
		if (one_in(opt_huge ? 4 : 40))
			all_check();
		if (one_in(10) && a->no > 0)
			obj_ok(&a->o[rndn(a->no)]);
	}
	all_check();
	for (int i = 0; i < na; i++) {
		struct A *a = &al[i];
		hk_shape(a->no);
		hk_shape(a->small_bytes);
		if (a->no > 20)
			hk_nontrivial();
		bool all = IS_ASAN || one_in(2);
		for (size_t k = 0; k < a->no;)
			if (all || a->o[k].large)
				obj_free(a, k);
			else
				k++;
		if (all) {
			all_check();
			HK_EV("small_emptied");
		}
		for (size_t k = 0; k < a->no; k++) {
			obj_ok(&a->o[k]);
			hk_imap_remove(&live, (uintptr_t)a->o[k].p);
		}
		small_alloc_destroy(&a->sa);
		a->on = false;
		all_check();
	}
	HK_CHECK(live.count == 0, "harness", "live objects left");
	env_destroy(&E, "small.leak");
}
