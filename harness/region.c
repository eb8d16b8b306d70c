/* Monitor of the region: several regions on shared slab caches. */
#include "env.h"
#include <stdalign.h>
#include <small/region.h>

static struct env E;
static bool opt_faults, opt_huge;
enum { MAXREG = 3 };

/** A piece of the region's contents, with the padding before it. */
struct ch {
	char *p;
	size_t pad, size, used_before, total_before, total_after;
	uint64_t tag;
};
static struct R {
	struct region r;
	bool on, cb, rsv;
	int cache;
	struct ch *c;
	size_t nc, cc;
	size_t used;
	/* What the callbacks saw. */
	size_t n_alloc, n_trunc, last_size, last_used;
} regs[MAXREG];
static struct hk_imap live;
static uint64_t tagseq;

static void
on_alloc(struct region *r, size_t size, void *arg)
{
	struct R *g = arg;
	HK_CHECK(r == &g->r, "region.callback", "wrong region");
	HK_CHECK(region_used(r) == g->used, "region.callback", "the usage is "
		 "%zu in the allocation callback, was %zu", region_used(r),
		 g->used);
	g->n_alloc++;
	g->last_size = size;
}

static void
on_truncate(struct region *r, size_t used, void *arg)
{
	struct R *g = arg;
	HK_CHECK(r == &g->r, "region.callback", "wrong region");
	HK_CHECK(region_used(r) == used, "region.callback", "the usage is "
		 "%zu in the truncation callback, argument %zu", region_used(r),
		 used);
	g->n_trunc++;
	g->last_used = used;
}

static void
cb_expect(struct R *g, size_t alloc, size_t trunc_min, size_t trunc_max,
	  size_t size, const char *what)
{
	if (g->cb) {
		HK_CHECK(g->n_alloc == alloc, "region.callback", "%s called "
			 "the allocation callback %zu times", what, g->n_alloc);
		HK_CHECK(g->n_trunc >= trunc_min && g->n_trunc <= trunc_max,
			 "region.callback", "%s called the truncation callback "
			 "%zu times", what, g->n_trunc);
		if (alloc > 0)
			HK_CHECK(g->last_size == size, "region.callback",
				 "the callback was told %zu bytes, the usage "
				 "grew by %zu", g->last_size, size);
		if (g->n_trunc > 0)
			HK_CHECK(g->last_used == size, "region.callback",
				 "the callback was told %zu, the usage is now "
				 "%zu", g->last_used, size);
		if (alloc > 0)
			HK_EV("region_alloc_callback");
		if (g->n_trunc > 0)
			HK_EV("region_truncate_callback");
	} else {
		HK_CHECK(g->n_alloc == 0 && g->n_trunc == 0, "region.callback",
			 "a callback that is not set was called");
	}
	g->n_alloc = g->n_trunc = 0;
}

static void
reg_check(struct R *g)
{
	HK_CHECK(region_used(&g->r) == g->used, "region.used", "usage is %zu, "
		 "allocated %zu", region_used(&g->r), g->used);
	if (IS_ASAN)
		HK_CHECK(region_total(&g->r) == g->used, "region.total",
			 "total is %zu, usage %zu", region_total(&g->r),
			 g->used);
	else
		HK_CHECK(region_total(&g->r) >= g->used, "region.total",
			 "total is %zu, usage %zu", region_total(&g->r),
			 g->used);
}

static void
all_check(void)
{
	size_t used[2] = { 0, 0 };
	for (int i = 0; i < MAXREG; i++) {
		if (!regs[i].on)
			continue;
		reg_check(&regs[i]);
		used[regs[i].cache] += region_total(&regs[i].r);
	}
	if (IS_ASAN)
		return;
	for (int c = 0; c < E.ncache; c++)
		HK_CHECK(slab_cache_used(&E.cache[c]) == used[c],
			 "region.total", "the regions say they hold %zu, the "
			 "cache has %zu in use", used[c],
			 slab_cache_used(&E.cache[c]));
}

static void
ch_ok(struct ch *c)
{
	ssize_t d = hk_verify_sparse(c->p, c->size, c->tag);
	HK_CHECK(d < 0, "region.content", "byte %zd of allocation %p of %zu "
		 "changed", d, (void *)c->p, c->size);
}

/** The region has allocated size bytes at p. */
static void
ch_new(struct R *g, char *p, size_t size, size_t align, size_t total0)
{
	HK_CHECK((uintptr_t)p % align == 0, "region.alignment", "allocation %p "
		 "is not aligned to %zu", (void *)p, align);
	HK_CHECK(hk_owned(p, size), "region.not_owned", "allocation %p of %zu "
		 "is not memory that was obtained", (void *)p, size);
	struct hk_iv *iv = hk_imap_overlap(&live, (uintptr_t)p, size);
	HK_CHECK(iv == NULL, "region.overlap", "allocation %p of %zu overlaps "
		 "allocation %p of %zu", (void *)p, size, (void *)iv->start,
		 iv->size);
	size_t used = region_used(&g->r);
	HK_CHECK(used >= g->used + size && used - g->used - size < align,
		 "region.used", "the usage grew from %zu to %zu, allocated %zu "
		 "aligned to %zu", g->used, used, size, align);
	struct ch c = { p, used - g->used - size, size, g->used, total0,
			region_total(&g->r), tagseq++ };
	HK_CHECK(!IS_ASAN || c.pad == 0, "region.used", "padding is counted");
	cb_expect(g, 1, 0, 0, used - g->used, "an allocation");
	g->used = used;
	hk_fill_sparse(p, size, c.tag);
	hk_imap_insert(&live, (uintptr_t)p, size, c.tag, NULL);
	HK_ARRAY_PUSH(g->c, g->nc, g->cc, c);
	probe_live("region", p, size);
	HK_EV("region_alloc");
}

/** Chunks from number n on are gone. */
static void
ch_drop(struct R *g, size_t n, bool verify)
{
	while (g->nc > n) {
		struct ch *c = &g->c[--g->nc];
		if (verify)
			ch_ok(c);
		hk_imap_remove(&live, (uintptr_t)c->p);
	}
}

static void
dead_probe(struct R *g, size_t n)
{
	for (size_t i = n; opt_poison && i < g->nc; i++)
		probe_dead("truncated region", g->c[i].p, g->c[i].size);
}

/** If a region cannot have memory, the cache does not have it. */
static void
null_is_right(struct R *g, size_t size)
{
#ifndef ENABLE_ASAN
	if (size > SIZE_MAX - 256)
		return;
	struct slab *s = slab_get(&E.cache[g->cache], size + 128);
	HK_CHECK(s == NULL, "region.spurious_null", "no %zu bytes although the "
		 "cache has them", size);
#else
	(void)g;
	hk_violation("region.spurious_null", "no %zu bytes in the sanitizer "
		     "build", size);
#endif
}

static size_t
pick_size(struct R *g)
{
	(void)g;
	switch (rndn(opt_huge ? 11 : 9)) {
	case 0: case 1: case 2:
		return rndlog(1, 200);
	case 3: case 4:
		return rndlog(1, 8000);
	case 5:
		return rndedge(1, 100000);
	case 6:
		/* Around the capacity of slabs. */
		return ((size_t)4096 << rndn(6)) - rndn(100) - 1;
	case 7:
		return one_in(10) ? rndlog(1, E.slab_size * 2) : rndr(1, 64);
	case 8:
		return one_in(10) ? E.slab_size - rndn(150) : rndr(1, 1000);
	case 9:
		return SIZE_MAX - (one_in(2) ? rndn(200) :
				   rndlog(0, SIZE_MAX / 2));
	default:
		if (one_in(2))
			return rndedge(1, SIZE_MAX);
		if (one_in(8))
			return ((size_t)1 << 32) + rndlog(1, 1 << 29);
		return E.total - quota_used(&E.quota) - rndn(3) * 64 + rndn(3);
	}
}

/** What objects and arrays are made of. */
struct t24 { char c[24]; };
struct t48 { long c[6]; } __attribute__((aligned(16)));
struct t128 { char c[65]; } __attribute__((aligned(64)));
#define TYPES(X) X(0, char) X(1, short) X(2, int) X(3, double) \
	X(4, struct t24) X(5, struct t48) X(6, struct t128)
static int type;
static size_t type_count;

static void
pick_type(size_t *size, size_t *align, bool array)
{
	type = rndn(7);
	size_t sz = 0;
	switch (type) {
#define X(n, T) case n: sz = sizeof(T); *align = __alignof__(T); break;
	TYPES(X)
#undef X
	}
	type_count = array ? *size / sz : 1;
	if (array && opt_huge && *size > ((size_t)1 << 40))
		type_count = one_in(2) ? *size : SIZE_MAX / sz + rndn(3);
	if (type_count == 0)
		type_count = 1;
	*size = type_count > SIZE_MAX / sz ? SIZE_MAX : type_count * sz;
}

static void *
alloc_object(struct region *rg, size_t *size)
{
	switch (type) {
#define X(n, T) case n: return region_alloc_object(rg, T, size);
	TYPES(X)
#undef X
	}
	return NULL;
}

static void *
alloc_array(struct region *rg, size_t *size)
{
	switch (type) {
#define X(n, T) case n: return region_alloc_array(rg, T, type_count, size);
	TYPES(X)
#undef X
	}
	return NULL;
}

enum { A_PLAIN, A_ALIGNED, A_CB, A_OBJECT, A_ARRAY, A_RESERVE, A_RESERVE_ALIGNED, A_RESERVE_CB,
       A_MAX };
static const char *const aname[] = { "alloc", "aligned_alloc", "alloc_cb",
	"alloc_object", "alloc_array", "reserve", "aligned_reserve", "reserve_cb" };

static void *
call(struct R *g, int how, size_t *size, size_t align)
{
	switch (how) {
	case A_PLAIN: return region_alloc(&g->r, *size);
	case A_ALIGNED: return region_aligned_alloc(&g->r, *size, align);
	case A_CB: return region_alloc_cb(&g->r, *size);
	case A_OBJECT: return alloc_object(&g->r, size);
	case A_ARRAY: return alloc_array(&g->r, size);
	case A_RESERVE: return region_reserve(&g->r, *size);
	case A_RESERVE_ALIGNED:
		return region_aligned_reserve(&g->r, *size, align);
	default: return region_reserve_cb(&g->r, size);
	}
}

static void do_truncate(struct R *g, size_t n);

static void
do_alloc(struct R *g)
{
	size_t size = pick_size(g), align = 1;
	int how = rndn(A_MAX);
	if (!opt_huge && size > (4 << 20))
		size = 4 << 20;
	if (opt_huge && size > (64 << 20) && size < ((size_t)1 << 40) &&
	    !(size > ((size_t)1 << 32) && size < ((size_t)1 << 33)))
		size += (size_t)1 << 40;
	if (IS_ASAN && size > (1 << 20))
		size = 1 << 20;
	if (how == A_ALIGNED || how == A_RESERVE_ALIGNED)
		align = (size_t)1 << rndn(one_in(20) ? 18 :
					 IS_ASAN ? 11 : 13);
	if (size == 0)
		size = 1;
	if (how == A_OBJECT || how == A_ARRAY)
		pick_type(&size, &align, how == A_ARRAY);
	size_t total0 = region_total(&g->r), asked = size;
	uint64_t inj = hk_injected;
	hk_op("%s(region=%d size=%zu align=%zu)", aname[how], (int)(g - regs),
	      size, align);
	/* Truncation fills memory in builds with assertions. */
	if (opt_huge && IS_NDEBUG)
		hk_malloc_max = (size_t)1 << 33;
	char *p = call(g, how, &size, align);
	if (p == NULL) {
		HK_EV("region_null");
		if (asked > SIZE_MAX / 2)
			HK_EV("region_too_large");
		cb_expect(g, 0, 0, 0, 0, "a failed allocation");
		reg_check(g);
		HK_CHECK(region_total(&g->r) == total0, "region.null_changed",
			 "the total changed from %zu to %zu in a failed call",
			 total0, region_total(&g->r));
		if (g->nc > 0)
			ch_ok(&g->c[g->nc - 1]);
		if (hk_injected > inj) {
			HK_EV("region_fault");
			hk_faults_off();
			size = asked;
			p = call(g, how, &size, align);
			if (p != NULL)
				HK_EV("region_recovered");
		}
		if (p == NULL) {
			null_is_right(g, asked > SIZE_MAX - align ? SIZE_MAX :
				      asked + align);
			return;
		}
	}
	hk_faults_off();
	if (asked > SIZE_MAX / 2)
		hk_violation("region.wrap", "a request of %zu bytes was "
			     "satisfied", asked);
	if (size > (size_t)1 << 32)
		HK_EV("region_above_4g");
	if (how == A_OBJECT || how == A_ARRAY) {
		HK_CHECK(size == asked, "region.object", "%zu bytes of "
			 "%zu objects are reported as %zu", asked, type_count,
			 size);
		HK_EV("region_objects");
	}
	if (how < A_RESERVE) {
		ch_new(g, p, asked, align, total0);
		return;
	}
	/* Reserved: nothing is allocated yet. */
	HK_CHECK(size >= asked, "region.reserve", "%zu bytes reserved of %zu",
		 size, asked);
	HK_CHECK((uintptr_t)p % align == 0, "region.alignment", "reservation "
		 "%p is not aligned to %zu", (void *)p, align);
	cb_expect(g, 0, 0, 0, 0, "a reservation");
	reg_check(g);
	HK_CHECK(hk_owned(p, size), "region.not_owned", "reservation %p of %zu "
		 "is not memory that was obtained", (void *)p, size);
	struct hk_iv *iv = hk_imap_overlap(&live, (uintptr_t)p, size);
	HK_CHECK(iv == NULL, "region.overlap", "reservation %p of %zu overlaps "
		 "allocation %p of %zu", (void *)p, size, (void *)iv->start,
		 iv->size);
	HK_EV("region_reserve");
	uint64_t tag = tagseq++;
	size_t rsv = size;
#ifdef ENABLE_ASAN
	if (opt_poison) {
		if (how != A_RESERVE_CB && rsv < SMALL_REGION_MIN_RESERVE)
			rsv = SMALL_REGION_MIN_RESERVE;
		probe_live("region reservation", p, rsv);
	}
#endif
	hk_fill_sparse(p, size, tag);
	if (g->nc > 0 && one_in(4))
		ch_ok(&g->c[rndn(g->nc)]);
	if (one_in(6)) {
		/* Give it up. */
		do_truncate(g, g->nc);
		if (opt_poison)
			probe_dead("given up region reservation", p, rsv);
		return;
	}
	if (one_in(6)) {
		/* Leave it to the next call, see hk_case. */
		g->rsv = true;
		return;
	}
	size_t n = one_in(3) ? size : one_in(2) && size > 1 ? rndlog(1, size) :
		   rndr(1, size);
	size_t t1 = region_total(&g->r);
	hk_op("alloc reserved(region=%d size=%zu align=%zu)", (int)(g - regs),
	      n, align);
	char *q = how == A_RESERVE_ALIGNED ?
		  region_aligned_alloc(&g->r, n, align) :
		  region_alloc(&g->r, n);
	HK_CHECK(q == p, "region.reserve", "reserved %p, allocated %p",
		 (void *)p, (void *)q);
	if (!IS_ASAN)
		HK_CHECK(region_total(&g->r) == t1, "region.reserve",
			 "allocating what was reserved changed the total from "
			 "%zu to %zu", t1, region_total(&g->r));
	if (n == size) {
		ssize_t d = hk_verify_sparse(q, n, tag);
		HK_CHECK(d < 0, "region.content", "byte %zd of %zu reserved "
			 "changed when it was allocated", d, n);
	}
	ch_new(g, q, n, align, total0);
#ifdef ENABLE_ASAN
	if (opt_poison && rsv > n)
		probe_dead("consumed region reservation", q + n, rsv - n);
#endif
	HK_EV("region_alloc_reserved");
}

/** Truncate to before the n-th chunk, or check what a guard has truncated. */
static void
truncate_to(struct R *g, size_t n, bool truncated)
{
	size_t used = n < g->nc ? g->c[n].used_before : g->used;
	size_t total = n < g->nc ? g->c[n].total_before : region_total(&g->r);
	hk_op("%s(region=%d used=%zu of %zu)", truncated ? "guard_end" :
	      "truncate", (int)(g - regs), used, g->used);
	for (size_t i = n; i < g->nc && !truncated; i++)
		ch_ok(&g->c[i]);
	int how = used == 0 && !truncated ? rndn(4) : 0;
	if (how == 3 && (IS_ASAN || g->used == 0))
		how = 0;
#ifndef ENABLE_ASAN
	/* Nothing to free if no more than this is in use. */
	if (!truncated && one_in(8)) {
		region_free_after(&g->r, g->used + rndn(2) * rndn(1000));
		reg_check(g);
		HK_EV("region_free_after_none");
	}
#endif
	size_t total0 = region_total(&g->r);
	g->rsv = false;
	switch (how) {
	case 0: case 1:
		if (truncated) {
			HK_EV("region_guard");
			break;
		}
		region_truncate(&g->r, used);
		HK_EV("region_truncate");
		break;
	case 2:
		region_free(&g->r);
		HK_EV("region_free");
		break;
	default:
#ifndef ENABLE_ASAN
		region_free_after(&g->r, g->used - rndr(1, g->used));
#endif
		HK_EV("region_free");
		break;
	}
	dead_probe(g, n);
	ch_drop(g, n, false);
	g->used = used;
	cb_expect(g, 0, 1, 1, used, "a truncation");
	reg_check(g);
	if (used == 0 && how != 0 && how != 1)
		HK_CHECK(region_total(&g->r) == 0, "region.total", "%zu bytes "
			 "are held after free", region_total(&g->r));
	HK_CHECK(region_total(&g->r) <= total0 && (IS_ASAN ||
		 region_total(&g->r) <= total), "region.truncate", "%zu bytes "
		 "are held after truncating to where %zu were",
		 region_total(&g->r), total);
	/* Nor is what was only reserved after what is left. */
	size_t after = n > 0 ? g->c[n - 1].total_after : 0;
	HK_CHECK(IS_ASAN || region_total(&g->r) <= after, "region.truncate",
		 "%zu bytes are held after truncating to where %zu were",
		 region_total(&g->r), after);
	if (n > 0)
		ch_ok(&g->c[n - 1]);
	if (n > 1)
		ch_ok(&g->c[rndn(n)]);
}

static void
do_truncate(struct R *g, size_t n)
{
	truncate_to(g, n, false);
}

extern void guard_scope(struct region *r, void (*body)(void *), void *arg);

/** What happens in the scope of the guard, nothing older is truncated. */
static void
guard_body(void *arg)
{
	struct R *g = arg;
	size_t n = g->nc;
	for (int i = rndn(8); i > 0; i--) {
		bool r = g->rsv && (IS_ASAN || !IS_NDEBUG);
		if (one_in(6))
			do_truncate(g, n + rndn(g->nc - n + 1));
		else if (!r)
			do_alloc(g);
		all_check();
	}
	for (size_t i = n; i < g->nc; i++)
		ch_ok(&g->c[i]);
	hk_faults_off();
}

static void
do_guard(struct R *g)
{
	size_t n = g->nc;
	hk_op("guard(region=%d used=%zu)", (int)(g - regs), g->used);
	guard_scope(&g->r, guard_body, g);
	truncate_to(g, n, true);
}

static void
do_reset(struct R *g)
{
	hk_op("reset(region=%d used=%zu)", (int)(g - regs), g->used);
	size_t total = region_total(&g->r);
	for (size_t i = 0; i < g->nc; i++)
		ch_ok(&g->c[i]);
	region_reset(&g->r);
	g->rsv = false;
	dead_probe(g, 0);
	ch_drop(g, 0, false);
	g->used = 0;
	/* Whether a reset is announced is up to the build. */
	cb_expect(g, 0, 0, 1, 0, "a reset");
	HK_CHECK(region_used(&g->r) == 0, "region.reset", "usage is %zu after "
		 "a reset", region_used(&g->r));
	if (!IS_ASAN)
		HK_CHECK(region_total(&g->r) == total, "region.reset",
			 "total is %zu after a reset, was %zu",
			 region_total(&g->r), total);
	HK_EV("region_reset");
}

/** Verify that buf has the last size bytes of the region. */
static void
join_ok(struct R *g, const char *buf, size_t size)
{
	size_t left = size;
	for (size_t i = g->nc; left > 0;) {
		HK_CHECK(i > 0, "harness", "joined too much");
		struct ch *c = &g->c[--i];
		size_t n = left < c->size ? left : c->size;
		ssize_t d;
		const char *at = buf + left - n;
		if (c->size > 8192) {
			/* Written sparsely: compare with the original. */
			d = memcmp(at, c->p + c->size - n, n) == 0 ? -1 : 0;
		} else {
			d = hk_verify(at, n, c->tag, c->size - n);
		}
		HK_CHECK(d < 0, "region.join", "%zu bytes joined: byte %zd of "
			 "the %zu coming from allocation %zu of %zu differs",
			 size, d, n, i, g->nc);
		left -= n;
		left -= left < c->pad ? left : c->pad;
	}
}

static void
do_join(struct R *g)
{
	size_t size;
	switch (rndn(4)) {
	case 0:
		size = rndr(1, g->used);
		break;
	case 1:
		size = rndlog(1, g->used);
		break;
	case 2:
		size = g->used;
		break;
	default:
		/* A border of allocations. */
		size = g->used - g->c[rndn(g->nc)].used_before;
	}
	if (size > (4 << 20))
		size = rndr(1, 4 << 20);
	size_t total0 = region_total(&g->r);
	uint64_t inj = hk_injected;
	hk_op("join(region=%d size=%zu of %zu)", (int)(g - regs), size,
	      g->used);
	char *p = region_join(&g->r, size);
	if (p == NULL) {
		HK_EV("region_join_null");
		cb_expect(g, 0, 0, 0, 0, "a failed join");
		reg_check(g);
		HK_CHECK(region_total(&g->r) == total0, "region.null_changed",
			 "the total changed from %zu to %zu in a failed join",
			 total0, region_total(&g->r));
		if (hk_injected > inj) {
			hk_faults_off();
			p = region_join(&g->r, size);
			if (p != NULL)
				HK_EV("region_recovered");
		}
		if (p == NULL) {
			null_is_right(g, size);
			return;
		}
	}
	hk_faults_off();
	HK_CHECK(hk_owned(p, size), "region.not_owned", "joined %p of %zu is "
		 "not memory that was obtained", (void *)p, size);
	join_ok(g, p, size);
	if (region_used(&g->r) == g->used) {
		/* In place: must be where the bytes are. */
		struct ch *last = &g->c[g->nc - 1];
		HK_CHECK(p + size == last->p + last->size, "region.join",
			 "joined %p of %zu without allocating, the last bytes "
			 "end at %p", (void *)p, size,
			 (void *)(last->p + last->size));
		cb_expect(g, 0, 0, 0, 0, "a join in place");
		HK_EV("region_join_in_place");
		return;
	}
	ch_new(g, p, size, 1, total0);
	HK_EV("region_join_copy");
}

static void
reg_open(struct R *g)
{
	memset(&g->r, 0x5a, sizeof(g->r));
	g->cache = rndn(E.ncache);
	region_create(&g->r, &E.cache[g->cache]);
	g->cb = one_in(2);
	if (g->cb)
		region_set_callbacks(&g->r, on_alloc, on_truncate, g);
	g->n_alloc = g->n_trunc = g->nc = g->used = 0;
	g->on = true;
	g->rsv = false;
	reg_check(g);
}

void
hk_init(void)
{
	opt_faults = hk_optl("faults", 0);
	opt_huge = hk_optl("huge", 0);
	opt_poison = hk_optl("poison", 0);
	hk_imap_init(&live);
}

void
hk_case(uint64_t idx)
{
	(void)idx;
	size_t s = (size_t)65536 << rndn(4);
	if (one_in(10))
		s = (size_t)65536 << rndn(7);
	size_t total = one_in(3) || opt_huge ? (size_t)1 << 40 :
		       s * rndr(1, 12);
	if (opt_huge && one_in(2))
		total = s * rndr(1, 12);
	env_create_sized(&E, s, total, one_in(3) ? s * rndn(3) : 0,
			 1 + one_in(4));
	hk_op("env(slab=%zu quota=%zu caches=%d)", E.slab_size, E.total,
	      E.ncache);
	tagseq = rnd();
	int nr = 1 + rndn(MAXREG);
	for (int i = 0; i < MAXREG; i++)
		regs[i].on = false;
	for (int i = 0; i < nr; i++)
		reg_open(&regs[i]);
	size_t bytes_max = IS_ASAN ? 4 << 20 : 16 << 20;
	int nops = opt_huge ? 100 : 50 + rndn(600);
	int bias = rndr(60, 95);
	for (int i = 0; i < nops; i++) {
		if (one_in(100))
			bias = rndr(30, 97);
		struct R *g = &regs[rndn(nr)];
		if (opt_faults)
			env_faults(6);
		if ((int)rndn(100) < bias && live.bytes < bytes_max) {
			/* One reservation at a time, see the header. */
			bool r = g->rsv && (IS_ASAN || !IS_NDEBUG);
			if (r) {
				if (one_in(2))
					do_reset(g);
				else
					do_truncate(g, g->nc);
			} else if (one_in(40)) {
				do_guard(g);
			} else if (g->used > 0 && one_in(8)) {
				do_join(g);
			} else {
				do_alloc(g);
			}
		} else {
			hk_faults_off();
			size_t n = rndn(4);
			n = n == 0 ? rndn(g->nc + 1) : n == 1 ? 0 :
			    n == 2 ? g->nc - (g->nc > 0) : g->nc - rndn(
				    g->nc < 8 ? g->nc + 1 : 8);
			if (one_in(12))
				do_reset(g);
			else
				do_truncate(g, n);
		}
		hk_faults_off();
		all_check();
		if (one_in(6) && g->nc > 0)
			ch_ok(&g->c[rndn(g->nc)]);
	}
	for (int i = 0; i < nr; i++) {
		struct R *g = &regs[i];
		hk_shape(g->nc);
		hk_shape(g->used);
		if (g->nc > 4)
			hk_nontrivial();
		for (size_t k = 0; k < g->nc; k++)
			ch_ok(&g->c[k]);
		ch_drop(g, 0, false);
		region_destroy(&g->r);
		g->used = 0;
		cb_expect(g, 0, 1, 1, 0, "destruction");
		g->on = false;
		all_check();
	}
	HK_CHECK(live.count == 0, "harness", "live allocations left");
	env_destroy(&E, "region.leak");
}
