/* Monitor of the input buffer. */
#include "env.h"
#include <small/ibuf.h>

static struct env E;
static bool opt_faults, opt_huge;
/** Megabytes in a buffer. */
static bool opt_long;
enum { MAXBUF = 3 };

static struct B {
	struct ibuf b;
	bool on;
	int cache;
	size_t start;
	/** The bytes written and not consumed. */
	char *m;
	size_t n, cap;
	/** Room handed out by the last call, if any. */
	bool reserved;
} bufs[MAXBUF];
static uint64_t tagseq;

static void
content_ok(struct B *g, bool full)
{
	size_t n = ibuf_used(&g->b);
	HK_CHECK(n == g->n, "ibuf.used", "%zu bytes used, expected %zu", n,
		 g->n);
	HK_CHECK(g->b.rpos + n == g->b.wpos && g->b.wpos <= g->b.end &&
		 g->b.buf <= g->b.rpos, "ibuf.used", "positions are not in "
		 "order: %p %p %p %p", (void *)g->b.buf, (void *)g->b.rpos,
		 (void *)g->b.wpos, (void *)g->b.end);
	HK_CHECK(ibuf_capacity(&g->b) >= n && ibuf_unused(&g->b) ==
		 (size_t)(g->b.end - g->b.wpos) && ibuf_pos(&g->b) ==
		 (size_t)(g->b.rpos - g->b.buf), "ibuf.used", "capacity %zu, "
		 "unused %zu, position %zu", ibuf_capacity(&g->b),
		 ibuf_unused(&g->b), ibuf_pos(&g->b));
	if (n == 0)
		return;
	if (full || n < 4096) {
		if (memcmp(g->b.rpos, g->m, n) == 0)
			return;
		size_t i = 0;
		while (g->b.rpos[i] == g->m[i])
			i++;
		hk_violation("ibuf.content", "byte %zu of %zu differs from "
			     "what was written", i, n);
	}
	for (int i = 0; i < 4; i++) {
		size_t k = rndn(n - 64);
		HK_CHECK(memcmp(g->b.rpos + k, g->m + k, 64) == 0,
			 "ibuf.content", "bytes %zu.. of %zu differ from what "
			 "was written", k, n);
	}
}

static void
all_check(void)
{
	size_t used[2] = { 0, 0 };
	for (int i = 0; i < MAXBUF; i++) {
		if (!bufs[i].on)
			continue;
		content_ok(&bufs[i], false);
		if (bufs[i].b.buf != NULL)
			used[bufs[i].cache] += ibuf_capacity(&bufs[i].b) +
					       slab_sizeof();
	}
	for (int c = 0; !IS_ASAN && c < E.ncache; c++)
		HK_CHECK(slab_cache_used(&E.cache[c]) == used[c],
			 "ibuf.memory", "the buffers have %zu bytes, the cache "
			 "has %zu in use", used[c],
			 slab_cache_used(&E.cache[c]));
}

static void
probe(struct B *g)
{
#ifdef ENABLE_ASAN
	if (!opt_poison || g->b.buf == NULL)
		return;
	char *bad = __asan_region_is_poisoned(g->b.rpos, g->n);
	HK_CHECK(g->n == 0 || bad == NULL, "asan.live", "ibuf: byte %zd of "
		 "%zu is poisoned", bad - g->b.rpos, g->n);
	if (g->reserved) {
		size_t u = ibuf_unused(&g->b);
		HK_CHECK(u == 0 || __asan_region_is_poisoned(g->b.wpos, u) ==
			 NULL, "asan.live", "ibuf: reserved memory is "
			 "poisoned");
	} else {
		probe_dead("ibuf unused", g->b.wpos, ibuf_unused(&g->b));
	}
	/* Poisoning ends at a granule before accessible bytes. */
	size_t n = (uintptr_t)g->b.rpos % 8;
	if (ibuf_pos(&g->b) > n)
		probe_dead("ibuf consumed", g->b.buf, ibuf_pos(&g->b) - n);
	HK_EV("probe_live");
#else
	(void)g;
#endif
}

static size_t
pick_size(struct B *g)
{
	if (opt_long && !one_in(3))
		return rndlog(1000, 8 << 20);
	switch (rndn(opt_huge ? 11 : 9)) {
	case 0: case 1: case 2:
		return rndlog(1, 300);
	case 3:
		return rndlog(1, 30000);
	case 4:
		return rndedge(1, 40000);
	case 5:
		/* The rest of the buffer, or nearly. */
		return ibuf_unused(&g->b) + rndn(3) - 1;
	case 6:
		return ibuf_capacity(&g->b) - g->n + rndn(3) - 1;
	case 7:
		return g->start + rndn(3) - 1;
	case 8:
		return one_in(8) ? rndlog(1, 2 * E.slab_size) : rndr(1, 2000);
	case 9:
		return SIZE_MAX - (one_in(2) ? rndn(200) :
				   rndlog(0, SIZE_MAX / 2));
	default:
		return one_in(2) ? rndedge(1, SIZE_MAX) : SIZE_MAX / 2 - g->n +
		       rndn(5) - 2;
	}
}

/** n bytes have been written at the write position. */
static void
wrote(struct B *g, char *p, size_t n)
{
	if (g->n + n > g->cap) {
		g->cap = 2 * (g->n + n);
		g->m = hk_realloc(g->m, g->cap);
	}
	hk_fill(g->m + g->n, n, tagseq++, 0);
	memcpy(p, g->m + g->n, n);
	g->n += n;
}

static void
null_is_right(struct B *g, size_t size)
{
	if (size > SIZE_MAX / 8)
		return;
	HK_CHECK(size > ibuf_capacity(&g->b) - g->n, "ibuf.spurious_null",
		 "no room for %zu bytes more than %zu in a buffer of %zu",
		 size, g->n, ibuf_capacity(&g->b));
	/* The capacity at least doubles. */
	size_t need = g->n + size;
	if (need < 2 * ibuf_capacity(&g->b))
		need = 2 * ibuf_capacity(&g->b);
	if (need < g->start)
		need = g->start;
	struct slab *s = slab_get(&E.cache[g->cache], 2 * need);
	HK_CHECK(s == NULL, "ibuf.spurious_null", "no room for %zu bytes more "
		 "than %zu although the cache gives %zu", size, g->n,
		 2 * need);
}

enum { A_RESERVE, A_ALLOC, A_RESERVE_CB, A_ALLOC_CB, A_MAX };
static const char *const aname[] = { "reserve", "alloc", "reserve_cb",
	"alloc_cb" };

static void *
call(struct B *g, int how, size_t *size)
{
	switch (how) {
	case A_RESERVE: return ibuf_reserve(&g->b, *size);
	case A_ALLOC: return ibuf_alloc(&g->b, *size);
	case A_RESERVE_CB: return ibuf_reserve_cb(&g->b, size);
	default: return ibuf_alloc_cb(&g->b, *size);
	}
}

static void
do_alloc(struct B *g)
{
	int how = rndn(A_MAX);
	size_t size = pick_size(g);
	if (size == 0 || (!opt_huge && size > SIZE_MAX / 2))
		size = 1;
	size_t max = opt_long ? 8 << 20 : 2 << 20;
	if (!opt_huge && size > max)
		size = max;
	if (opt_huge && size > (64 << 20) && size < ((size_t)1 << 40))
		size += (size_t)1 << 40;
	if (IS_ASAN && size > (1 << 20))
		size = 1 << 20;
	size_t asked = size, least = size;
	if (how == A_RESERVE_CB && one_in(4)) {
		asked = size = 0;
		least = g->start;
	}
	struct ibuf was = g->b;
	hk_op("%s(buf=%d size=%zu used=%zu unused=%zu capacity=%zu)",
	      aname[how], (int)(g - bufs), size, g->n, ibuf_unused(&g->b),
	      ibuf_capacity(&g->b));
	uint64_t inj = hk_injected;
	char *p = call(g, how, &size);
	if (p == NULL) {
		HK_EV("ibuf_null");
		if (asked > SIZE_MAX / 2)
			HK_EV("ibuf_too_large");
		HK_CHECK(memcmp(&was, &g->b, sizeof(was)) == 0,
			 "ibuf.null_changed", "the buffer changed in a failed "
			 "call");
		content_ok(g, true);
		if (hk_injected > inj) {
			HK_EV("ibuf_fault");
			hk_faults_off();
			size = asked;
			p = call(g, how, &size);
			if (p != NULL)
				HK_EV("ibuf_recovered");
		}
		if (p == NULL) {
			null_is_right(g, least);
			return;
		}
	}
	hk_faults_off();
	if (asked > SIZE_MAX / 2)
		hk_violation("ibuf.wrap", "a request of %zu bytes was "
			     "satisfied", asked);
	HK_CHECK(hk_owned(p, least), "ibuf.not_owned", "%p of %zu is not "
		 "memory that was obtained", (void *)p, least);
	size_t cap = was.end - was.buf;
	HK_CHECK(g->b.buf == was.buf || least > cap - (was.wpos - was.rpos),
		 "ibuf.grown_for_nothing", "another block was taken for %zu "
		 "bytes after %zu, although there is room for %zu", least,
		 (size_t)(was.wpos - was.rpos), cap);
	/* Otherwise many small writes copy the contents again and again. */
	HK_CHECK(g->b.buf == was.buf || ibuf_capacity(&g->b) >= cap + cap / 2,
		 "ibuf.growth", "the capacity went from %zu to %zu only", cap,
		 ibuf_capacity(&g->b));
	if (cap > E.arena.slab_size && g->b.buf != was.buf)
		HK_EV("ibuf_grown_large");
	if (g->b.buf != was.buf)
		HK_EV("ibuf_grown");
	else if (g->b.rpos != was.rpos)
		HK_EV("ibuf_moved");
	else
		HK_EV("ibuf_in_place");
	if (g->b.buf != was.buf && g->n > (4 << 20))
		HK_EV("ibuf_grown_megabytes");
	if (g->b.buf == was.buf && g->b.rpos != was.rpos && g->n > (1 << 20))
		HK_EV("ibuf_moved_megabytes");
	if (how == A_ALLOC || how == A_ALLOC_CB) {
		HK_CHECK(p + asked == g->b.wpos, "ibuf.position", "allocated "
			 "%p of %zu, but the write position is %p", (void *)p,
			 asked, (void *)g->b.wpos);
		g->reserved = false;
		wrote(g, p, asked);
		content_ok(g, g->n < 65536 || one_in(8));
		HK_EV("ibuf_alloc");
		return;
	}
	HK_CHECK(p == g->b.wpos, "ibuf.position", "reserved %p, the write "
		 "position is %p", (void *)p, (void *)g->b.wpos);
	HK_CHECK(ibuf_unused(&g->b) >= least, "ibuf.reserve", "%zu bytes of "
		 "room after a reservation of %zu", ibuf_unused(&g->b), least);
	HK_CHECK(how == A_RESERVE || size == ibuf_unused(&g->b), "ibuf.reserve",
		 "reserve_cb says %zu, there is room for %zu", size,
		 ibuf_unused(&g->b));
	g->reserved = true;
	probe(g);
	/* All of it may be written. */
	size_t room = ibuf_unused(&g->b);
	hk_fill_sparse(p, room, 1);
	content_ok(g, g->n < 65536 || one_in(8));
	HK_EV("ibuf_reserve");
	if (one_in(5))
		return;
	size_t n = one_in(3) ? least : rndr(1, least);
	if (one_in(2)) {
		/* As a reader of a socket does. */
		g->b.wpos += n;
		wrote(g, p, n);
	} else {
		char *q = ibuf_alloc(&g->b, n);
		HK_CHECK(q == p, "ibuf.reserve", "reserved %p, allocated %p",
			 (void *)p, (void *)q);
		g->reserved = false;
		wrote(g, p, n);
	}
}

static void
do_take(struct B *g)
{
	size_t k = one_in(3) ? g->n : one_in(2) && g->n > 0 ?
		   rndlog(1, g->n) : rndn(g->n + 1);
	int how = rndn(16);
	size_t cap = ibuf_capacity(&g->b);
	char *buf = g->b.buf;
	switch (how) {
	case 0: case 1: case 2: case 3:
	case 4: case 5: case 6: case 7:
		hk_op("consume(buf=%d %zu of %zu)", (int)(g - bufs), k, g->n);
		if (how % 2 && buf != NULL)
			ibuf_consume_before(&g->b, g->b.rpos + k);
		else
			ibuf_consume(&g->b, k);
		if (k > 0)
			memmove(g->m, g->m + k, g->n - k);
		g->n -= k;
		HK_EV("ibuf_consume");
		break;
	case 8: case 9: case 10: case 11:
		hk_op("discard(buf=%d %zu of %zu)", (int)(g - bufs), k, g->n);
		if (how % 2)
			ibuf_truncate(&g->b, g->n - k);
		else
			ibuf_discard(&g->b, k);
		g->n -= k;
		g->reserved = false;
		HK_EV("ibuf_discard");
		break;
	case 12: case 13: {
		hk_op("shrink(buf=%d used=%zu capacity=%zu start=%zu)",
		      (int)(g - bufs), g->n, ibuf_capacity(&g->b), g->start);
		uint64_t inj = hk_injected;
		ibuf_shrink(&g->b);
		size_t least = g->n > g->start ? g->n : g->start;
		HK_CHECK(ibuf_capacity(&g->b) <= cap, "ibuf.shrink",
			 "capacity went from %zu to %zu", cap,
			 ibuf_capacity(&g->b));
		if (g->n == 0) {
			HK_CHECK(ibuf_capacity(&g->b) == 0, "ibuf.shrink",
				 "an empty buffer has %zu bytes after shrink",
				 ibuf_capacity(&g->b));
			g->reserved = false;
			HK_EV("ibuf_shrunk_to_none");
		} else if (g->b.buf != buf) {
			g->reserved = false;
			HK_EV("ibuf_shrunk");
		} else {
			HK_EV("ibuf_shrunk_not");
		}
		if (!IS_ASAN && g->n > 0 && hk_injected == inj &&
		    ibuf_capacity(&g->b) + slab_sizeof() >
		    slab_real_size(&E.cache[g->cache], least)) {
			struct slab *s = slab_get(&E.cache[g->cache], least);
			HK_CHECK(s == NULL, "ibuf.shrink", "capacity is %zu "
				 "for %zu bytes, start capacity %zu",
				 ibuf_capacity(&g->b), g->n, g->start);
		}
		break;
	}
	case 14:
		hk_op("reset(buf=%d)", (int)(g - bufs));
		ibuf_reset(&g->b);
		HK_CHECK(g->b.buf == buf && ibuf_unused(&g->b) == cap,
			 "ibuf.reset", "room for %zu of %zu after a reset",
			 ibuf_unused(&g->b), cap);
		g->n = 0;
		g->reserved = false;
		HK_EV("ibuf_reset");
		break;
	default:
		hk_op("reinit(buf=%d)", (int)(g - bufs));
		ibuf_reinit(&g->b);
		HK_CHECK(ibuf_capacity(&g->b) == 0, "ibuf.reinit", "capacity "
			 "is %zu after reinit", ibuf_capacity(&g->b));
		g->n = 0;
		g->reserved = false;
		HK_EV("ibuf_reinit");
		break;
	}
}

void
hk_init(void)
{
	opt_faults = hk_optl("faults", 0);
	opt_huge = hk_optl("huge", 0);
	opt_long = hk_optl("long", 0);
	opt_poison = hk_optl("poison", 0);
}

void
hk_case(uint64_t idx)
{
	(void)idx;
	size_t s = (size_t)65536 << rndn(4);
	size_t total = opt_long || one_in(3) ? (size_t)1 << 40 :
		       s * rndr(1, 12);
	env_create_sized(&E, s, total, one_in(3) ? s * rndn(3) : 0,
			 1 + one_in(4));
	hk_op("env(slab=%zu quota=%zu caches=%d)", E.slab_size, E.total,
	      E.ncache);
	tagseq = rnd();
	int nb = 1 + rndn(MAXBUF);
	for (int i = 0; i < MAXBUF; i++)
		bufs[i].on = false;
	for (int i = 0; i < nb; i++) {
		struct B *g = &bufs[i];
		memset(&g->b, 0x5a, sizeof(g->b));
		g->cache = rndn(E.ncache);
		g->start = one_in(3) ? rndr(1, 100) : one_in(2) ? 16320 :
			   rndlog(1, 200000);
		ibuf_create(&g->b, &E.cache[g->cache], g->start);
		g->n = 0;
		g->on = true;
		g->reserved = false;
		hk_op("create(buf=%d start=%zu)", i, g->start);
	}
	int nops = opt_huge ? 100 : opt_long ? 60 : 50 + rndn(500);
	int bias = rndr(40, 75);
	for (int i = 0; i < nops; i++) {
		if (one_in(60))
			bias = rndr(30, 90);
		struct B *g = &bufs[rndn(nb)];
		if (opt_faults)
			env_faults(4);
		if ((int)rndn(100) < bias && g->n < (size_t)(opt_long ? 16 : 1) << 20)
			do_alloc(g);
		else
			do_take(g);
		hk_faults_off();
		all_check();
		probe(g);
		if (one_in(4))
			content_ok(g, one_in(2) || g->n < 65536);
	}
	for (int i = 0; i < nb; i++) {
		struct B *g = &bufs[i];
		hk_shape(g->n);
		hk_shape(ibuf_capacity(&g->b));
		if (ibuf_capacity(&g->b) > 0)
			hk_nontrivial();
		content_ok(g, true);
		ibuf_destroy(&g->b);
		g->on = false;
		all_check();
	}
	env_destroy(&E, "ibuf.leak");
}
