/* Monitor of the log-structured region. */
#include "env.h"
#include <stdalign.h>
#include <small/lsregion.h>

static struct env E;
static bool opt_faults, opt_huge;
/** Many slabs at once, or one after another. */
static bool opt_long;
enum { MAXREG = 2, NSVP = 2, MAXIOV = 64, LONGIOV = 1024 };

struct ch { char *p; size_t pad, size; int64_t id; uint64_t tag; bool live; };
/** A slab, as far as it can be told from outside. */
struct sl { char *end; size_t total; int64_t max_id; };
static struct R {
	struct lsregion r;
	bool on;
	struct ch *c;
	/** Chunks before number first have been collected. */
	size_t nc, cc, first;
	size_t used, total;
	int64_t id;
	/** An id up to which everything has been collected. */
	int64_t gc_id;
	struct sl *s;
	size_t ns, cs;
	bool cached;
	/** A reservation waits for its allocation. */
	char *rsv;
	size_t rsv_size, rsv_align;
	uint64_t rsv_tag;
	/** Positions of dumps, and where they are in the model. */
	struct lsregion_svp svp[NSVP];
	size_t pos[NSVP];
	bool dumping;
} regs[MAXREG];
static struct hk_imap live;
static uint64_t tagseq;
static size_t large_charge;

static void *
reserve(struct R *g, size_t size, size_t align, char **unaligned)
{
#ifdef ENABLE_ASAN
	char *p = lsregion_aligned_reserve(&g->r, size, align);
	*unaligned = p;
#else
	void *u = NULL;
	char *p = align == 1 && one_in(2) ? lsregion_reserve(&g->r, size) :
		  lsregion_aligned_reserve(&g->r, size, align, &u);
	*unaligned = u != NULL ? u : p;
#endif
	return p;
}

static void
reg_check(struct R *g)
{
	HK_CHECK(lsregion_used(&g->r) == g->used, "lsregion.used", "usage is "
		 "%zu, expected %zu", lsregion_used(&g->r), g->used);
	if (IS_ASAN)
		HK_CHECK(lsregion_total(&g->r) == g->used, "lsregion.total",
			 "total is %zu, usage %zu", lsregion_total(&g->r),
			 g->used);
	else
		HK_CHECK(lsregion_total(&g->r) == g->total, "lsregion.total",
			 "total is %zu, expected %zu",
			 lsregion_total(&g->r), g->total);
}

static void
all_check(void)
{
	for (int i = 0; i < MAXREG; i++)
		if (regs[i].on)
			reg_check(&regs[i]);
	if (!IS_ASAN)
		HK_CHECK(quota_used(&E.quota) == E.arena.used + large_charge,
			 "lsregion.quota", "quota used %zu, slabs %zu and "
			 "large blocks %zu", quota_used(&E.quota), E.arena.used,
			 large_charge);
}

static void
ch_ok(struct ch *c)
{
	ssize_t d = hk_verify_sparse(c->p, c->size, c->tag);
	HK_CHECK(d < 0, "lsregion.content", "byte %zd of allocation %p of %zu "
		 "changed", d, (void *)c->p, c->size);
}

/**
 * Account for the slab that the position u is in.
 * @param p what u becomes when aligned.
 */
static void
slab_see(struct R *g, char *u, char *p, size_t size)
{
	if (IS_ASAN)
		return;
	size_t total = lsregion_total(&g->r);
	HK_CHECK(total >= g->total, "lsregion.total", "total went from %zu to "
		 "%zu in an allocation", g->total, total);
	size_t d = total - g->total;
	struct sl *last = g->ns > 0 ? &g->s[g->ns - 1] : NULL;
	if (d == 0 && last != NULL && last->end == u) {
		HK_EV("lsregion_same_slab");
		return;
	}
	struct sl s = { u, d, -1 };
	if (d == 0) {
		HK_CHECK(g->cached, "lsregion.total", "a new slab appeared "
			 "from nowhere");
		s.total = E.slab_size;
		g->cached = false;
		HK_EV("lsregion_cached_slab");
	} else if (d > E.slab_size) {
		size_t need = size + (p - u);
		HK_CHECK(d >= need, "lsregion.total", "a block of %zu for %zu",
			 d, need);
		large_charge += env_charge(d);
		HK_EV("lsregion_large_slab");
	} else {
		HK_CHECK(d == E.slab_size, "lsregion.total", "total grew by "
			 "%zu, slabs have %zu", d, E.slab_size);
		HK_CHECK(!g->cached, "lsregion.hoard", "a new slab was taken "
			 "although there is an empty one");
		HK_EV("lsregion_new_slab");
	}
	g->total = total;
	HK_ARRAY_PUSH(g->s, g->ns, g->cs, s);
}

static void
range_ok(const char *what, char *p, size_t size, size_t align)
{
	HK_CHECK((uintptr_t)p % align == 0, "lsregion.alignment", "%s %p is "
		 "not aligned to %zu", what, (void *)p, align);
	if (size == 0)
		size = 1;
	HK_CHECK(hk_owned(p, size), "lsregion.not_owned", "%s %p of %zu is "
		 "not memory that was obtained", what, (void *)p, size);
	struct hk_iv *iv = hk_imap_overlap(&live, (uintptr_t)p, size);
	HK_CHECK(iv == NULL, "lsregion.overlap", "%s %p of %zu overlaps "
		 "allocation %p of %zu", what, (void *)p, size,
		 (void *)iv->start, iv->size);
}

static void
ch_new(struct R *g, char *p, size_t size, size_t align, int64_t id)
{
	range_ok("allocation", p, size, align);
	size_t used = lsregion_used(&g->r);
	HK_CHECK(used >= g->used + size && used - g->used - size < align,
		 "lsregion.used", "the usage grew from %zu to %zu, allocated "
		 "%zu aligned to %zu", g->used, used, size, align);
	struct ch c = { p, used - g->used - size, size, id, tagseq++, true };
	HK_CHECK(!IS_ASAN || c.pad == 0, "lsregion.used", "padding is counted");
	slab_see(g, p - c.pad, p, size);
	if (!IS_ASAN) {
		struct sl *s = &g->s[g->ns - 1];
		s->end = p + size;
		s->max_id = id;
	}
	g->used = used;
	g->id = id;
	hk_fill_sparse(p, size, c.tag);
	hk_imap_insert(&live, (uintptr_t)p, size, c.tag, NULL);
	HK_ARRAY_PUSH(g->c, g->nc, g->cc, c);
	probe_live("lsregion", p, size);
	HK_EV("lsregion_alloc");
}

static void
null_is_right(struct R *g, size_t size, size_t align)
{
	if (IS_ASAN)
		hk_violation("lsregion.spurious_null", "no %zu bytes in the "
			     "sanitizer build", size);
	if (size > SIZE_MAX - align - 4096)
		return;
	size_t room = E.total - quota_used(&E.quota);
	if (size + align + 128 <= E.slab_size) {
		HK_CHECK(!g->cached, "lsregion.spurious_null", "no %zu bytes "
			 "although there is a cached slab", size);
		void *p = slab_map(&E.arena);
		HK_CHECK(p == NULL, "lsregion.spurious_null", "no %zu bytes "
			 "although the arena has a slab", size);
	} else {
		HK_CHECK(env_charge(size + align + 128) > room,
			 "lsregion.spurious_null", "no %zu bytes although the "
			 "quota has %zu", size, room);
	}
}

static size_t
pick_size(struct R *g)
{
	struct sl *last = g->ns > 0 ? &g->s[g->ns - 1] : NULL;
	if (opt_long && !one_in(4))
		return E.slab_size - 100 - rndn(20000);
	switch (rndn(opt_huge ? 11 : 9)) {
	case 0: case 1: case 2:
		return rndlog(1, 300);
	case 3:
		return rndlog(1, 20000);
	case 4:
		return rndedge(1, 2 * E.slab_size);
	case 5:
		/* Fill the last slab to its end, or nearly. */
		if (last != NULL && last->total == E.slab_size && one_in(2))
			return E.slab_size - ((uintptr_t)last->end &
					      (E.slab_size - 1)) + rndn(3) - 1;
		return rndlog(1, E.slab_size);
	case 6:
		return E.slab_size - 40 - rndn(100);
	case 7:
		return one_in(4) ? rndlog(1, 3 * E.slab_size) : rndr(1, 64);
	case 8:
		return rndr(1, 4000);
	case 9:
		return SIZE_MAX - (one_in(2) ? rndn(200) :
				   rndlog(0, SIZE_MAX / 2));
	default:
		if (one_in(2))
			return rndedge(1, SIZE_MAX);
		return E.total - quota_used(&E.quota) - rndn(3) * 64 + rndn(3);
	}
}

struct obj8 { double d[3]; };
struct obj64 { char c[65]; } __attribute__((aligned(64)));

static void *
alloc(struct R *g, size_t size, size_t align, int64_t id)
{
	if (size == sizeof(struct obj8) && align == __alignof__(struct obj8))
		return lsregion_alloc_object(&g->r, id, struct obj8);
	if (size == sizeof(struct obj64) && align == __alignof__(struct obj64))
		return lsregion_alloc_object(&g->r, id, struct obj64);
	if (align == 1 && one_in(2))
		return lsregion_alloc(&g->r, size, id);
	return lsregion_aligned_alloc(&g->r, size, align, id);
}

static int64_t
next_id(struct R *g)
{
	int64_t id = one_in(2) ? g->id + rndn(3) : g->id + 1;
	if (one_in(200))
		id += rndlog(1, (int64_t)1 << 40);
	return id < 0 ? 0 : id;
}

/** The reservation becomes an allocation. */
static void
do_alloc_reserved(struct R *g)
{
	size_t n = one_in(3) ? g->rsv_size : rndr(1, g->rsv_size);
	int64_t id = next_id(g);
	hk_op("alloc reserved(region=%d size=%zu align=%zu id=%lld)",
	      (int)(g - regs), n, g->rsv_align, (long long)id);
	size_t total = lsregion_total(&g->r);
	char *p = alloc(g, n, g->rsv_align, id);
	HK_CHECK(p == g->rsv, "lsregion.reserve", "reserved %p, allocated %p",
		 (void *)g->rsv, (void *)p);
	if (!IS_ASAN)
		HK_CHECK(lsregion_total(&g->r) == total, "lsregion.reserve",
			 "allocating what was reserved changed the total");
	if (n == g->rsv_size) {
		ssize_t d = hk_verify_sparse(p, n, g->rsv_tag);
		HK_CHECK(d < 0, "lsregion.content", "byte %zd of %zu reserved "
			 "changed when it was allocated", d, n);
	}
	ch_new(g, p, n, g->rsv_align, id);
#ifdef ENABLE_ASAN
	if (g->rsv_size > n)
		probe_dead("consumed lsregion reservation", p + n,
			   g->rsv_size - n);
#endif
	g->rsv = NULL;
	HK_EV("lsregion_alloc_reserved");
}

static void
do_alloc(struct R *g)
{
	size_t size = pick_size(g), align = 1;
	if (!opt_huge && size > (4 << 20))
		size = 4 << 20;
	if (size == 0)
		size = 1;
	if (opt_huge && size > (64 << 20) && size < ((size_t)1 << 40))
		size += (size_t)1 << 40;
	if (IS_ASAN && size > (1 << 20))
		size = 1 << 20;
	if (one_in(2))
		align = (size_t)1 << rndn(one_in(20) ? 18 :
					 IS_ASAN ? 11 : 13);
	if (one_in(20)) {
		bool big = one_in(2);
		size = big ? sizeof(struct obj64) : sizeof(struct obj8);
		align = big ? __alignof__(struct obj64) :
			__alignof__(struct obj8);
		HK_EV("lsregion_object");
	}
	bool rsv = one_in(3);
	int64_t id = next_id(g);
	hk_op("%s(region=%d size=%zu align=%zu id=%lld)", rsv ? "reserve" :
	      "alloc", (int)(g - regs), size, align, (long long)id);
	/* What was reserved before is given up. */
	g->rsv = NULL;
	uint64_t inj = hk_injected;
	char *u = NULL;
	char *p = rsv ? reserve(g, size, align, &u) : alloc(g, size, align, id);
	if (p == NULL) {
		HK_EV("lsregion_null");
		if (size > SIZE_MAX / 2)
			HK_EV("lsregion_too_large");
		reg_check(g);
		all_check();
		if (hk_injected > inj) {
			HK_EV("lsregion_fault");
			hk_faults_off();
			p = rsv ? reserve(g, size, align, &u) :
			    alloc(g, size, align, id);
			if (p != NULL)
				HK_EV("lsregion_recovered");
		}
		if (p == NULL) {
			if (size < HK_MALLOC_MAX)
				null_is_right(g, size, align);
			return;
		}
	}
	hk_faults_off();
	if (size > SIZE_MAX / 2)
		hk_violation("lsregion.wrap", "a request of %zu bytes was "
			     "satisfied", size);
	if (!rsv) {
		ch_new(g, p, size, align, id);
		return;
	}
	range_ok("reservation", p, size, align);
	HK_CHECK(p >= u && (size_t)(p - u) < align, "lsregion.reserve",
		 "unaligned %p, aligned to %zu %p", (void *)u, align,
		 (void *)p);
	slab_see(g, u, p, size);
	reg_check(g);
	probe_live("lsregion reservation", p, size);
	HK_EV("lsregion_reserve");
	g->rsv_tag = tagseq++;
	g->rsv = p;
	g->rsv_size = size;
	g->rsv_align = align;
	hk_fill_sparse(p, size, g->rsv_tag);
	if (!one_in(4))
		do_alloc_reserved(g);
}

static void
do_gc(struct R *g, int64_t id)
{
	hk_op("gc(region=%d id=%lld)", (int)(g - regs), (long long)id);
	size_t used = 0;
	if (IS_ASAN && g->rsv != NULL) {
		/* A reservation is an allocation of its own. */
		bool dropped = g->c == NULL || g->first == g->nc ||
			       g->c[g->nc - 1].id <= id;
		if (dropped)
			g->rsv = NULL;
	}
	/* What must survive. */
	for (size_t i = g->first; i < g->nc; i++)
		if (g->c[i].id > id && (i + 1 == g->nc || one_in(4) ||
					g->c[i - (i > 0)].id <= id))
			ch_ok(&g->c[i]);
	lsregion_gc(&g->r, id);
	if (id > g->gc_id)
		g->gc_id = id;
	size_t total = lsregion_total(&g->r);
	/* Which slabs had only collected identifiers. */
	size_t k = 0, held = 0, freed = 0;
	if (!IS_ASAN) {
		while (k < g->ns && g->s[k].max_id <= id) {
			if (g->s[k].total > E.slab_size)
				large_charge -= env_charge(g->s[k].total);
			freed += g->s[k].total == E.slab_size;
			k++;
		}
		if (k > 0)
			memmove(g->s, g->s + k, (g->ns - k) * sizeof(*g->s));
		g->ns -= k;
		if (k > 0 && g->rsv != NULL && g->ns == 0)
			g->rsv = NULL;
		for (size_t i = 0; i < g->ns; i++)
			held += g->s[i].total;
		bool could = g->cached || freed > 0;
		HK_CHECK(total == held || (could && total == held +
					   E.slab_size), "lsregion.hoard",
			 "%zu bytes are held after collection, the slabs with "
			 "younger allocations have %zu", total, held);
		g->cached = total > held;
		g->total = total;
		if (k > 0)
			HK_EV("lsregion_gc_freed");
	}
	/* Chunks of freed slabs: exactly those before the first retained. */
	size_t n = g->first;
	if (IS_ASAN) {
		while (n < g->nc && g->c[n].id <= id)
			n++;
		for (size_t i = n; i < g->nc; i++)
			used += g->c[i].size;
	} else {
		/*
		 * The retained slabs' chunks make the usage: count from the
		 * end.
		 */
		size_t left = lsregion_used(&g->r);
		n = g->nc;
		while (left > 0 && n > g->first) {
			struct ch *c = &g->c[--n];
			HK_CHECK(c->pad + c->size <= left, "lsregion.used",
				 "usage after collection ends inside of "
				 "an allocation");
			left -= c->pad + c->size;
			used += c->pad + c->size;
		}
		HK_CHECK(n == g->nc || k == 0 || g->c[n].id <= id ||
			 n == g->first || g->c[n - 1].id <= id,
			 "lsregion.used", "too little is in use after "
			 "collection");
		HK_CHECK(n == g->first || g->c[n - 1].id <= id,
			 "lsregion.used", "allocation with id %lld was "
			 "discounted by collection up to %lld",
			 (long long)g->c[n - (n > 0)].id, (long long)id);
		HK_CHECK(g->ns > 0 || used == 0, "lsregion.used", "usage %zu "
			 "after everything was collected", used);
		HK_CHECK((k == 0) == (n == g->first) || freed + k == 0 ||
			 n == g->first, "lsregion.used", "usage changed "
			 "without freeing a slab");
	}
	g->used = used;
	while (g->first < n) {
		struct ch *c = &g->c[g->first++];
		hk_imap_remove(&live, (uintptr_t)c->p);
		if (IS_ASAN)
			probe_dead("collected lsregion", c->p, c->size);
		c->live = false;
		HK_EV("lsregion_collected");
	}
	reg_check(g);
	/* Allocations that share a slab with younger ones are still there. */
	for (size_t i = n; i < g->nc; i++)
		if (i == n || i + 1 == g->nc || one_in(4))
			ch_ok(&g->c[i]);
	for (int i = 0; i < NSVP; i++)
		if (g->pos[i] < g->first)
			g->pos[i] = g->first;
	HK_EV("lsregion_gc");
}

/** Dump the next portion and compare it with what was allocated. */
static void
do_dump(struct R *g, int which)
{
	struct iovec iov[LONGIOV + 1];
	int max = one_in(3) ? 1 : one_in(2) ? rndr(1, 4) : rndr(1, MAXIOV);
	if (opt_long && one_in(2))
		max = rndr(1, LONGIOV);
	int cnt = max;
	memset(iov, 0x5a, (max + 1) * sizeof(*iov));
	hk_op("to_iovec(region=%d svp=%d max=%d from=%zu of %zu)",
	      (int)(g - regs), which, max, g->pos[which], g->nc);
	int64_t id = lsregion_to_iovec(&g->r, iov, &cnt, &g->svp[which]);
	HK_CHECK(cnt >= 0 && cnt <= max, "lsregion.dump_count", "%d vectors "
		 "of %d", cnt, max);
	size_t k = g->pos[which];
	struct iovec *past = &iov[max];
	HK_CHECK(past->iov_len == 0x5a5a5a5a5a5a5a5aULL, "lsregion.dump_count",
		 "more than %d vectors were written", max);
	for (int i = 0; i < cnt; i++) {
		char *b = iov[i].iov_base;
		size_t len = iov[i].iov_len;
		while (len > 0) {
			HK_CHECK(k < g->nc, "lsregion.dump", "%zu bytes too "
				 "many", len);
			struct ch *c = &g->c[k];
			HK_CHECK(c->pad + c->size <= len && b + c->pad == c->p,
				 "lsregion.dump", "%zu bytes at %p, expected "
				 "allocation %zu: %zu bytes at %p after %zu of "
				 "padding", len, (void *)b, k, c->size,
				 (void *)c->p, c->pad);
			ch_ok(c);
			b += c->pad + c->size;
			len -= c->pad + c->size;
			k++;
		}
	}
	if (cnt > 256)
		HK_EV("lsregion_dump_of_many_slabs");
	if (cnt < max)
		HK_CHECK(k == g->nc, "lsregion.dump", "%zu allocations of %zu "
			 "dumped, although only %d of %d vectors were used", k,
			 g->nc, cnt, max);
	else
		HK_CHECK(k > g->pos[which], "lsregion.dump", "%d vectors "
			 "without data", cnt);
	int64_t want = k > g->pos[which] ? g->c[k - 1].id : LSLAB_NOT_USED_ID;
	HK_CHECK(id == want, "lsregion.dump_id", "the identifier is %lld, the "
		 "last dumped has %lld", (long long)id, (long long)want);
	if (k > g->pos[which])
		HK_EV("lsregion_dump");
	else
		HK_EV("lsregion_dump_empty");
	if (k < g->nc)
		HK_EV("lsregion_dump_partial");
	g->pos[which] = k;
}

static void
reg_open(struct R *g)
{
	memset(&g->r, 0x5a, sizeof(g->r));
	lsregion_create(&g->r, &E.arena);
	g->nc = g->first = g->used = g->total = g->ns = 0;
	g->id = one_in(4) ? (int64_t)rndlog(1, (int64_t)1 << 60) : rndn(2);
	g->gc_id = -1;
	g->cached = false;
	g->rsv = NULL;
	g->dumping = one_in(2);
	for (int i = 0; i < NSVP; i++) {
		lsregion_svp_create(&g->svp[i]);
		g->pos[i] = 0;
	}
	g->on = true;
	reg_check(g);
}

void
hk_init(void)
{
	opt_faults = hk_optl("faults", 0);
	opt_huge = hk_optl("huge", 0);
	opt_poison = hk_optl("poison", 0);
	opt_long = hk_optl("long", 0);
	hk_imap_init(&live);
}

void
hk_case(uint64_t idx)
{
	(void)idx;
	size_t s = (size_t)65536 << rndn(3);
	if (one_in(10))
		s = (size_t)65536 << rndn(7);
	size_t total = one_in(3) ? (size_t)1 << 40 : s * rndr(1, 16);
	bool hold = one_in(2);
	if (opt_long) {
		s = 65536;
		total = (size_t)1 << 40;
	}
	env_create_sized(&E, s, total, one_in(3) ? s * rndn(3) : 0, 1);
	hk_op("env(slab=%zu quota=%zu)", E.slab_size, E.total);
	tagseq = rnd();
	large_charge = 0;
	int nr = 1 + one_in(3);
	for (int i = 0; i < MAXREG; i++)
		regs[i].on = false;
	for (int i = 0; i < nr; i++)
		reg_open(&regs[i]);
	size_t bytes_max = IS_ASAN ? 4 << 20 : 16 << 20;
	int nops = opt_huge ? 100 : 50 + rndn(700);
	if (opt_long) {
		/* Many slabs are held, or many come and go. */
		bytes_max = hold ? 64 << 20 : rndr(1, 8) << 16;
		nops = hold ? 3000 : one_in(3) ? 100000 : 2000;
	}
	int bias = rndr(60, 95);
	for (int i = 0; i < nops; i++) {
		if (one_in(100))
			bias = rndr(opt_long && hold ? 90 : 30, 97);
		struct R *g = &regs[rndn(nr)];
		if (opt_faults)
			env_faults(6);
		if ((int)rndn(100) < bias && live.bytes < bytes_max) {
			if (g->rsv != NULL && (IS_ASAN || !one_in(3)))
				do_alloc_reserved(g);
			else
				do_alloc(g);
		} else if (g->dumping && one_in(2)) {
			hk_faults_off();
			do_dump(g, rndn(NSVP));
		} else {
			hk_faults_off();
			int64_t id;
			if (g->first < g->nc && !one_in(8)) {
				size_t n = g->nc - g->first;
				size_t k = one_in(2) ? rndn(n) :
					   one_in(2) ? n - 1 : 0;
				id = g->c[g->first + k].id - one_in(3);
			} else {
				id = one_in(2) ? g->gc_id : g->id;
			}
			if (id < 0)
				id = 0;
			if (g->dumping) {
				/* Only what has been dumped to all. */
				size_t p = g->pos[0] < g->pos[1] ? g->pos[0] :
					   g->pos[1];
				if (p < g->nc && id >= g->c[p].id)
					id = g->c[p].id - 1;
				if (id < 0)
					continue;
			}
			do_gc(g, id);
		}
		hk_faults_off();
		all_check();
		if (one_in(6) && g->nc > g->first)
			ch_ok(&g->c[g->first + rndn(g->nc - g->first)]);
	}
	for (int i = 0; i < nr; i++) {
		struct R *g = &regs[i];
		hk_shape(g->nc);
		hk_shape(g->used);
		if (g->nc > 4)
			hk_nontrivial();
		for (int k = 0; g->dumping && k < NSVP; k++)
			while (g->pos[k] < g->nc)
				do_dump(g, k);
		for (size_t k = g->first; k < g->nc; k++) {
			ch_ok(&g->c[k]);
			hk_imap_remove(&live, (uintptr_t)g->c[k].p);
		}
		for (size_t k = 0; k < g->ns; k++)
			if (g->s[k].total > E.slab_size)
				large_charge -= env_charge(g->s[k].total);
		lsregion_destroy(&g->r);
		g->on = false;
		all_check();
	}
	HK_CHECK(live.count == 0, "harness", "live allocations left");
	env_destroy(&E, "lsregion.leak");
}
