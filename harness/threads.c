/*
 * Monitor of threads: each has its own allocators, all of them on one arena
 * and one quota, and a lock-free list to pass messages through.
 *
 * Nothing here orders the threads but the library (ThreadSanitizer looks at
 * that): events are counted by each thread and summed up at the end.
 */
#include "env.h"
#include <pthread.h>
#include <sched.h>
#include <stddef.h>
#include <small/quota_lessor.h>
#include <small/lf_lifo.h>
#include <small/mempool.h>
#include <small/small.h>
#include <small/region.h>
#include <small/lsregion.h>
#include <small/ibuf.h>
#include <small/obuf.h>
#include <small/matras.h>
#include <small/static.h>

enum { MAXT = 4, MAXLIVE = 24, MAXMSG = 6, MSGSIZE = 65536, EXT = 1024 };
enum kind { K_SMALL, K_POOL, K_REGION, K_LS, K_IBUF, K_OBUF, K_SLAB, K_ARENA,
	    K_QUOTA, K_MATRAS, K_STATIC, K_MSG, K_LIMIT, K_CACHE, KINDS };

static struct shared {
	struct quota quota;
	struct slab_arena arena;
	struct lf_lifo msgs;
	size_t max_total;
	bool limited, faults;
	int kinds[64], nkinds;
	pthread_barrier_t bar;
} S;

/** A block, filled at both ends and in places. */
struct blk { char *p; size_t n; uint64_t tag; };

static struct T {
	int id;
	pthread_t t;
	hk_rng r;
	int nops;
	bool keep_cache;
	struct slab_cache cache;
	struct quota_lessor lessor;
	size_t leased, charged;
	struct small_alloc small;
	struct mempool pool;
	uint32_t objsize;
	struct region region;
	struct lsregion ls;
	int64_t ls_id;
	struct ibuf ibuf;
	uint64_t in_off, in_end;
	struct obuf obuf;
	size_t out;
	struct matras_allocator ma;
	struct matras m;
	uint64_t mval[256];
	struct mempool mpool;
	struct blk b[KINDS][MAXLIVE];
	int nb[KINDS];
	uint64_t tag, ev[KINDS], got_null, passed, sig;
} th[MAXT];
static __thread struct T *me;

#define R(n) ((n) == 0 ? 0 : hk_next(&t->r) % (n))
#define FAIL(...) hk_violation(__VA_ARGS__)

static size_t
rlog(struct T *t, size_t max)
{
	size_t n = (size_t)1 << R(64 - __builtin_clzl(max));
	n += R(n);
	return n > max ? max : n;
}

static void
fill(struct T *t, struct blk *b)
{
	b->tag = hk_mix(t->tag++ * MAXT + t->id);
	for (size_t i = 0; i < b->n; i += i < 24 || i + 24 >= b->n ? 1 :
	     b->n - i - 24 < 509 ? b->n - i - 24 : 509)
		b->p[i] = (char)(b->tag + i);
}

static void
verify(struct T *t, struct blk *b, const char *what)
{
	(void)t;
	for (size_t i = 0; i < b->n; i += i < 24 || i + 24 >= b->n ? 1 :
	     b->n - i - 24 < 509 ? b->n - i - 24 : 509)
		if (b->p[i] != (char)(b->tag + i))
			FAIL("threads.content", "byte %zu of %zu of a block "
			     "of thread %d (%s) has changed", i, b->n, t->id,
			     what);
}

static struct blk *
add(struct T *t, int k, void *p, size_t n)
{
	struct blk *b = &t->b[k][t->nb[k]++];
	b->p = p;
	b->n = n;
	fill(t, b);
	t->ev[k]++;
	return b;
}

/** No memory: fine if there is little of it. */
static void
none(struct T *t, const char *what, size_t n)
{
	if (!S.limited && !S.faults)
		FAIL("threads.refused", "thread %d: %s of %zu bytes refused, "
		     "memory is not limited", t->id, what, n);
	t->got_null++;
}

static struct blk *
any(struct T *t, int k, const char *what)
{
	struct blk *b = &t->b[k][R(t->nb[k])];
	verify(t, b, what);
	return b;
}

static void
del(struct T *t, int k, struct blk *b)
{
	*b = t->b[k][--t->nb[k]];
}

static bool
grow(struct T *t, int k)
{
	return t->nb[k] == 0 || (t->nb[k] < MAXLIVE && R(5) < 3);
}

static struct T *
of_ma(struct matras_allocator *a)
{
	return (struct T *)((char *)a - offsetof(struct T, ma));
}

static void *
ext_alloc(struct matras_allocator *a)
{
	struct T *t = of_ma(a);
	void *p = mempool_alloc(&t->mpool);
	if (p == NULL)
		none(t, "extent", EXT);
	return p;
}

static void
ext_free(struct matras_allocator *a, void *p)
{
	mempool_free(&of_ma(a)->mpool, p);
}

static void
do_matras(struct T *t)
{
	matras_id_t id, n = t->m.head.block_count;
	struct matras_view v;
	switch (R(4)) {
	case 0: case 1:
		if (n == 256)
			break;
		uint64_t *p = matras_alloc(&t->m, &id);
		if (p == NULL)
			break;
		if (id != n)
			FAIL("threads.matras", "block %u, not %u", id, n);
		*p = t->mval[id] = hk_next(&t->r);
		break;
	case 2:
		if (n > 0)
			matras_dealloc(&t->m);
		break;
	default:
		if (n == 0)
			break;
		/* The allocation of a copy may fail. */
		matras_create_read_view(&t->m, &v);
		id = R(n);
		uint64_t old = t->mval[id], *q = matras_touch(&t->m, id);
		if (q != NULL)
			*q = t->mval[id] = hk_next(&t->r);
		if (*(uint64_t *)matras_view_get(&t->m, &v, id) != old)
			FAIL("threads.matras", "block %u of a view changed",
			     id);
		matras_destroy_read_view(&t->m, &v);
	}
	n = t->m.head.block_count;
	if (n == 0)
		return;
	id = R(n);
	if (*(uint64_t *)matras_get(&t->m, id) != t->mval[id])
		FAIL("threads.matras", "block %u of thread %d has changed", id,
		     t->id);
	t->ev[K_MATRAS]++;
}

/** Message: the link, then the length, tag and contents. */
struct msg { struct lf_lifo link; size_t n; uint64_t tag; int from; char d[]; };

static void
do_msg(struct T *t)
{
	struct msg *m = (struct msg *)lf_lifo_pop(&S.msgs);
	if (m == NULL)
		return;
	struct blk b = { m->d, m->n, m->tag };
	verify(t, &b, "message");
	if (m->from != t->id)
		t->passed++;
	b.n = 1 + R(2000);
	fill(t, &b);
	m->n = b.n;
	m->tag = b.tag;
	m->from = t->id;
	lf_lifo_push(&S.msgs, m);
	t->ev[K_MSG]++;
}

static void
do_ibuf(struct T *t)
{
	size_t n = rlog(t, 40000), used = ibuf_used(&t->ibuf);
	if (used != t->in_end - t->in_off)
		FAIL("threads.ibuf", "%zu bytes used, not %zu", used,
		     (size_t)(t->in_end - t->in_off));
	if (R(2)) {
		char *p = ibuf_alloc(&t->ibuf, n);
		if (p == NULL) {
			none(t, "ibuf_alloc", n);
			return;
		}
		for (size_t i = 0; i < n; i += 61)
			p[i] = (char)(t->in_end + i);
		p[n - 1] = (char)(t->in_end + n - 1);
		/* Only what was written is looked at. */
		for (size_t i = 0; i < n; i++)
			p[i] = (char)(t->in_end + i);
		t->in_end += n;
	} else if (used > 0) {
		n = 1 + R(used);
		for (size_t i = 0; i < n; i += 1 + R(97))
			if (t->ibuf.rpos[i] != (char)(t->in_off + i))
				FAIL("threads.ibuf", "byte %zu of %zu read by "
				     "thread %d is wrong", i, used, t->id);
		ibuf_consume(&t->ibuf, n);
		t->in_off += n;
		if (t->in_off == t->in_end && R(2))
			ibuf_reset(&t->ibuf);
	} else {
		ibuf_shrink(&t->ibuf);
	}
	t->ev[K_IBUF]++;
}

static void
out_check(struct T *t)
{
	size_t off = 0;
	for (int i = 0; i < obuf_iovcnt(&t->obuf); i++) {
		char *p = t->obuf.iov[i].iov_base;
		size_t n = t->obuf.iov[i].iov_len;
		for (size_t k = 0; k < n; k += 1 + R(301))
			if (p[k] != (char)((off + k) * 7))
				FAIL("threads.obuf", "byte %zu of thread %d is "
				     "wrong", off + k, t->id);
		off += n;
	}
	if (off != t->out)
		FAIL("threads.obuf", "%zu bytes, not %zu", off, t->out);
}

static void
do_obuf(struct T *t)
{
	t->ev[K_OBUF]++;
	if (t->out > 200000 || R(6) == 0) {
		out_check(t);
		obuf_reset(&t->obuf);
		t->out = 0;
		return;
	}
	struct obuf_svp svp = obuf_create_svp(&t->obuf);
	size_t n = rlog(t, 20000);
	char *p = obuf_alloc(&t->obuf, n);
	if (p == NULL) {
		none(t, "obuf_alloc", n);
		return;
	}
	for (size_t i = 0; i < n; i++)
		p[i] = (char)((t->out + i) * 7);
	if (R(3) == 0)
		obuf_rollback_to_svp(&t->obuf, &svp);
	else
		t->out += n;
	if (R(4) == 0)
		out_check(t);
}

static void
do_quota(struct T *t)
{
	size_t total, used;
	switch (R(4)) {
	case 0:
		quota_get_total_and_used(&S.quota, &total, &used);
		if (used > total || total > S.max_total)
			FAIL("threads.quota", "%zu of %zu used", used, total);
		break;
	case 1:
		used = rlog(t, 3 << 20);
		if (quota_lease(&t->lessor, used) < 0)
			none(t, "lease", used);
		else
			t->leased += used;
		break;
	case 2:
		if (t->leased == 0)
			break;
		used = 1 + R(t->leased);
		quota_end_lease(&t->lessor, used);
		t->leased -= used;
		break;
	default:
		if (t->charged > 0 && R(2)) {
			quota_release(&S.quota, t->charged);
			t->charged = 0;
		} else {
			used = rlog(t, 200000);
			ssize_t n = quota_use(&S.quota, used);
			if (n < 0)
				none(t, "quota_use", used);
			else
				t->charged += n;
		}
	}
	t->ev[K_QUOTA]++;
}

static void
caches_new(struct T *t)
{
	slab_cache_set_thread(&t->cache);
	float f;
	small_alloc_create(&t->small, &t->cache, 16, 8, 1.2, &f);
	t->objsize = rlog(t, 4000) + 8;
	mempool_create(&t->pool, &t->cache, t->objsize);
	mempool_create(&t->mpool, &t->cache, EXT);
	region_create(&t->region, &t->cache);
	lsregion_create(&t->ls, &S.arena);
	ibuf_create(&t->ibuf, &t->cache, 1 + R(20000));
	obuf_create(&t->obuf, &t->cache, 16 + R(20000));
	t->in_off = t->in_end = t->out = 0;
	matras_allocator_create(&t->ma, EXT, ext_alloc, ext_free);
	matras_create(&t->m, sizeof(uint64_t), &t->ma, NULL);
	quota_lessor_create(&t->lessor, &S.quota);
	memset(t->nb, 0, sizeof(t->nb));
}

static void
free_one(struct T *t, int k)
{
	struct blk *b;
	switch (k) {
	case K_SMALL:
		b = any(t, k, "small");
		smfree(&t->small, b->p, b->n);
		break;
	case K_POOL:
		b = any(t, k, "mempool");
		mempool_free(&t->pool, b->p);
		break;
	case K_SLAB:
		b = any(t, k, "slab");
		slab_put(&t->cache, slab_from_data(b->p));
		break;
	default:
		b = any(t, k, "arena");
		slab_unmap(&S.arena, b->p);
	}
	del(t, k, b);
}

static void
all_free(struct T *t)
{
	while (t->nb[K_SMALL] > 0)
		free_one(t, K_SMALL);
	while (t->nb[K_POOL] > 0)
		free_one(t, K_POOL);
	while (t->nb[K_SLAB] > 0)
		free_one(t, K_SLAB);
	while (t->nb[K_ARENA] > 0)
		free_one(t, K_ARENA);
	for (int i = 0; i < t->nb[K_REGION]; i++)
		verify(t, &t->b[K_REGION][i], "region");
	for (int i = 0; i < t->nb[K_LS]; i++)
		verify(t, &t->b[K_LS][i], "lsregion");
	out_check(t);
	matras_destroy(&t->m);
	matras_allocator_destroy(&t->ma);
	small_alloc_destroy(&t->small);
	mempool_destroy(&t->pool);
	mempool_destroy(&t->mpool);
	region_destroy(&t->region);
	lsregion_destroy(&t->ls);
	ibuf_destroy(&t->ibuf);
	obuf_destroy(&t->obuf);
	if (t->charged > 0)
		quota_release(&S.quota, t->charged);
	t->charged = 0;
	if (t->leased > 0)
		quota_end_lease(&t->lessor, t->leased);
	t->leased = 0;
	quota_lessor_destroy(&t->lessor);
	size_t n = slab_cache_used(&t->cache);
	if (n != 0)
		FAIL("threads.leak", "%zu bytes of the cache of thread %d are "
		     "in use after everything was destroyed", n, t->id);
}

static void
step(struct T *t, int k)
{
	size_t n;
	char *p;
	switch (k) {
	case K_SMALL:
		if (!grow(t, k)) {
			free_one(t, k);
			break;
		}
		n = rlog(t, R(20) ? 1000 : 200000);
		if ((p = smalloc(&t->small, n)) == NULL)
			none(t, "smalloc", n);
		else
			add(t, k, p, n);
		break;
	case K_POOL:
		if (!grow(t, k)) {
			free_one(t, k);
			break;
		}
		if ((p = mempool_alloc(&t->pool)) == NULL)
			none(t, "mempool_alloc", t->objsize);
		else
			add(t, k, p, t->objsize);
		break;
	case K_REGION:
		if (!grow(t, k)) {
			struct blk *b = any(t, k, "region");
			int i = b - t->b[k];
			size_t used = 0;
			/* The padding is known to the region only. */
			for (int j = 0; j < i; j++)
				used += t->b[k][j].n;
			region_truncate(&t->region, used);
			t->nb[k] = i;
			break;
		}
		n = rlog(t, R(20) ? 4000 : 100000);
		if ((p = region_alloc(&t->region, n)) == NULL) {
			none(t, "region_alloc", n);
			break;
		}
		add(t, k, p, n);
		if (R(8) == 0) {
			char *q = region_join(&t->region, n);
			if (q != NULL && *q != *p)
				FAIL("threads.content", "wrong after a join");
			region_truncate(&t->region, 0);
			t->nb[k] = 0;
		}
		break;
	case K_LS:
		if (!grow(t, k)) {
			struct blk *b = any(t, k, "lsregion");
			int i = b - t->b[k] + 1;
			/* Identifiers are one by one. */
			lsregion_gc(&t->ls, t->ls_id - t->nb[k] + i - 1);
			memmove(t->b[k], t->b[k] + i,
				(t->nb[k] - i) * sizeof(*b));
			t->nb[k] -= i;
			break;
		}
		n = rlog(t, 40000);
		if ((p = lsregion_alloc(&t->ls, n, t->ls_id)) == NULL) {
			none(t, "lsregion_alloc", n);
			break;
		}
		t->ls_id++;
		add(t, k, p, n);
		break;
	case K_IBUF:
		do_ibuf(t);
		break;
	case K_OBUF:
		do_obuf(t);
		break;
	case K_SLAB:
		if (!grow(t, k)) {
			free_one(t, k);
			break;
		}
		n = rlog(t, R(10) ? 20000 : 400000);
		struct slab *s = slab_get(&t->cache, n);
		if (s == NULL)
			none(t, "slab_get", n);
		else
			add(t, k, slab_data(s), n);
		break;
	case K_ARENA:
		if (t->nb[k] == 0 || (t->nb[k] < 4 && R(2))) {
			if ((p = slab_map(&S.arena)) == NULL)
				none(t, "slab_map", S.arena.slab_size);
			else
				add(t, k, p, S.arena.slab_size);
		} else {
			free_one(t, k);
		}
		break;
	case K_QUOTA:
		do_quota(t);
		break;
	case K_MATRAS:
		do_matras(t);
		break;
	case K_STATIC:
		n = 1 + R(3000);
		struct blk b = { static_alloc(n), n };
		fill(t, &b);
		/* Others write to theirs. */
		sched_yield();
		verify(t, &b, "static");
		t->ev[k]++;
		break;
	case K_MSG:
		do_msg(t);
		break;
	case K_LIMIT:
		/* Not above what was set at the beginning. */
		if (S.limited && t->id == 0) {
			quota_set(&S.quota, S.max_total - R(S.max_total / 8));
			t->ev[k]++;
		}
		break;
	case K_CACHE:
		/* All of it given back, a new start. */
		if (R(20))
			break;
		all_free(t);
		slab_cache_destroy(&t->cache);
		slab_cache_create(&t->cache, &S.arena);
		caches_new(t);
		t->ev[k]++;
	}
}

static void *
thread(void *arg)
{
	struct T *t = me = arg;
	caches_new(t);
	/* Not before all are there; what precedes is of no interest. */
	pthread_barrier_wait(&S.bar);
	for (int i = 0; i < t->nops; i++)
		step(t, S.kinds[R(S.nkinds)]);
	all_free(t);
	if (!t->keep_cache)
		slab_cache_destroy(&t->cache);
	return NULL;
}

/** Which kinds: all, or those of one subject. */
static int only[8], nonly;

void
hk_init(void)
{
	const char *m = hk_opt("mode", "all");
	if (strcmp(m, "lifo") == 0) {
		only[nonly++] = K_MSG;
		only[nonly++] = K_MSG;
		only[nonly++] = K_MSG;
		only[nonly++] = K_SLAB;
		only[nonly++] = K_ARENA;
	} else if (strcmp(m, "arena") == 0) {
		only[nonly++] = K_SLAB;
		only[nonly++] = K_ARENA;
		only[nonly++] = K_LS;
		only[nonly++] = K_CACHE;
		only[nonly++] = K_LIMIT;
	} else if (strcmp(m, "quota") == 0) {
		only[nonly++] = K_QUOTA;
		only[nonly++] = K_QUOTA;
		only[nonly++] = K_LIMIT;
		only[nonly++] = K_ARENA;
	} else if (strcmp(m, "all") != 0) {
		hk_error("no such mode");
	}
}

void
hk_case(uint64_t idx)
{
	(void)idx;
	int n = rndr(2, MAXT);
	memset(&S, 0x5a, sizeof(S));
	hk_loose_blocks = hk_loose_mapped = 0;
	hk_loose_calls = hk_loose_failed = 0;
	S.limited = !IS_ASAN && one_in(2);
	S.faults = !IS_ASAN && one_in(4);
	hk_loose_every = 0;
	hk_loose = true;
	size_t slab_size = (size_t)65536 << rndn(4);
	S.max_total = QUOTA_MAX;
	if (S.limited) {
		S.max_total = slab_size * rndr(1, 16) + rndn(slab_size);
		if (S.max_total < (size_t)2 << 20)
			S.max_total = (size_t)2 << 20;
	}
	quota_init(&S.quota, S.max_total);
	S.max_total = quota_total(&S.quota);
	size_t prealloc = one_in(3) ? slab_size * rndn(4) : 0;
	if (prealloc > S.max_total)
		prealloc = 0;
	if (slab_arena_create(&S.arena, &S.quota, prealloc, slab_size,
			      SLAB_ARENA_PRIVATE) != 0)
		hk_error("no arena");
	/* A few kinds of allocators in most cases. */
	S.nkinds = 0;
	int some = one_in(3) ? KINDS : (int)rndr(1, 4);
	if (nonly > 0)
		some = 0;
	for (int i = 0; i < nonly; i++)
		S.kinds[S.nkinds++] = only[i];
	for (int i = 0; i < some; i++) {
		int k = some == KINDS ? i : (int)rndn(KINDS);
		for (int w = k == K_CACHE ? 1 : (int)rndr(1, 4); w > 0; w--)
			S.kinds[S.nkinds++] = k;
	}
	hk_op("threads(n=%d slab=%zu quota=%zu prealloc=%zu kinds=%d of %d)", n,
	      slab_size, S.max_total, prealloc, some, KINDS);
	lf_lifo_init(&S.msgs);
	char *area = aligned_alloc(MSGSIZE, MAXMSG * MSGSIZE);
	if (area == NULL)
		hk_error("no memory");
	int nmsg = rndr(1, MAXMSG);
	for (int i = 0; i < nmsg; i++) {
		struct msg *m = (struct msg *)(area + i * MSGSIZE);
		m->n = 0;
		m->from = -1;
		lf_lifo_push(&S.msgs, m);
	}
	pthread_barrier_init(&S.bar, NULL, n);
	for (int i = 0; i < n; i++) {
		struct T *t = &th[i];
		memset(t, 0, sizeof(*t));
		t->id = i;
		t->r.s = rnd();
		t->nops = rndr(20, 600);
		t->ls_id = 1;
		t->keep_cache = one_in(2);
		slab_cache_create(&t->cache, &S.arena);
	}
	if (S.faults)
		hk_loose_every = rndr(2, 20);
	for (int i = 0; i < n; i++)
		if (pthread_create(&th[i].t, NULL, thread, &th[i]) != 0)
			hk_error("no thread");
	for (int i = 0; i < n; i++)
		pthread_join(th[i].t, NULL);
	hk_loose_every = 0;
	pthread_barrier_destroy(&S.bar);
	for (int i = 0; i < n; i++) {
		if (!th[i].keep_cache)
			continue;
		/* Another thread's now. */
		slab_cache_set_thread(&th[i].cache);
		slab_cache_destroy(&th[i].cache);
		HK_EV("threads_cache_taken_over");
	}
	/* Every message is there. */
	int have = 0;
	bool seen[MAXMSG] = { false };
	for (struct msg *m; (m = (struct msg *)lf_lifo_pop(&S.msgs)) != NULL;
	     have++) {
		int i = ((char *)m - area) / MSGSIZE;
		HK_CHECK(i >= 0 && i < nmsg && !seen[i], "threads.message",
			 "message %d twice", i);
		seen[i] = true;
		struct blk b = { m->d, m->n, m->tag };
		verify(&th[0], &b, "message");
	}
	HK_CHECK(have == nmsg, "threads.message", "%d messages of %d", have,
		 nmsg);
	free(area);
#ifndef ENABLE_ASAN
	size_t used = quota_used(&S.quota), total = quota_total(&S.quota);
	HK_CHECK(used <= total, "threads.quota", "%zu of %zu used", used, total);
	HK_CHECK(used == S.arena.used, "threads.quota", "%zu bytes charged, "
		 "but slabs of %zu bytes exist", used, (size_t)S.arena.used);
	size_t pre = S.arena.used < S.arena.prealloc ? S.arena.used :
		     S.arena.prealloc;
	HK_CHECK((size_t)hk_loose_mapped == S.arena.prealloc + used - pre,
		 "threads.leak", "%ld bytes mapped, slabs of %zu bytes exist, "
		 "%zu preallocated", hk_loose_mapped, used,
		 (size_t)S.arena.prealloc);
	/* All of them can be had, and as many as there is room for. */
	size_t count = used / slab_size + (total - used) / slab_size;
	if (count > used / slab_size + 3)
		count = used / slab_size + 3;
	void **p = hk_malloc((count + 1) * sizeof(*p));
	size_t got = 0;
	while (got < count && (p[got] = slab_map(&S.arena)) != NULL)
		got++;
	HK_CHECK(got == count, "threads.lost", "%zu slabs to be had of %zu",
		 got, count);
	for (size_t i = 0; i < got; i++)
		for (size_t k = 0; k < i; k++)
			HK_CHECK(p[i] != p[k], "threads.twice", "slab %p "
				 "twice", p[i]);
	for (size_t i = 0; i < got; i++)
		slab_unmap(&S.arena, p[i]);
	hk_free(p);
#else
	HK_CHECK(quota_used(&S.quota) == 0, "threads.quota", "%zu bytes are "
		 "charged", quota_used(&S.quota));
#endif
	slab_arena_destroy(&S.arena);
	HK_CHECK(hk_loose_mapped == 0 && hk_loose_blocks == 0, "threads.leak",
		 "%ld bytes mapped and %ld heap blocks are left",
		 hk_loose_mapped, hk_loose_blocks);
	hk_loose = false;
	static const char *const names[KINDS] = {
		"threads_small", "threads_pool", "threads_region",
		"threads_lsregion", "threads_ibuf", "threads_obuf",
		"threads_slab", "threads_arena", "threads_quota",
		"threads_matras", "threads_static", "threads_message",
		"threads_limit", "threads_cache",
	};
	uint64_t passed = 0;
	for (int i = 0; i < n; i++) {
		for (int k = 0; k < KINDS; k++) {
			*hk_counter(names[k]) += th[i].ev[k];
			hk_shape(th[i].ev[k]);
		}
		HK_EVN("threads_refused", th[i].got_null);
		passed += th[i].passed;
	}
	HK_EVN("threads_passed", passed);
	HK_EVN("threads_injected", hk_loose_failed);
	hk_shape(passed);
	hk_nontrivial();
}
