/* Monitor of the output buffer. */
#include "env.h"
#include <small/obuf.h>

static struct env E;
static bool opt_faults, opt_huge;
enum { MAXBUF = 3, MAXSVP = 24, MAXPIECE = 512 };

/** A contiguous piece handed out and written. */
struct piece {
	char *p;
	size_t off, n;
};

static struct B {
	struct obuf b;
	bool on;
	int cache;
	size_t start;
	/** Everything that must be in the buffer. */
	char *m;
	size_t n, cap;
	struct piece piece[MAXPIECE];
	int npiece;
	/** Savepoints in the order of the data. */
	struct { struct obuf_svp s; size_t n; } svp[MAXSVP];
	int nsvp;
	/** A reservation of this many bytes is pending. */
	bool reserved;
	size_t room;
	char *rptr;
} bufs[MAXBUF];
static uint64_t tagseq;

static void
compare(const char *got, const char *want, size_t n, size_t off)
{
	if (n == 0 || memcmp(got, want, n) == 0)
		return;
	size_t i = 0;
	while (got[i] == want[i])
		i++;
	hk_violation("obuf.content", "byte %zu of the output differs from "
		     "what was written", off + i);
}

static void
content_ok(struct B *g, bool full)
{
	HK_CHECK(obuf_size(&g->b) == g->n, "obuf.size", "the size is %zu, "
		 "expected %zu", obuf_size(&g->b), g->n);
	int cnt = obuf_iovcnt(&g->b);
	HK_CHECK(cnt >= 0 && cnt <= SMALL_OBUF_IOV_MAX, "obuf.iovcnt",
		 "%d vectors", cnt);
	size_t off = 0;
	for (int i = 0; i < cnt; i++) {
		struct iovec *v = &g->b.iov[i];
		HK_CHECK(off + v->iov_len >= off && off + v->iov_len <= g->n,
			 "obuf.iov", "vectors 0..%d hold more than %zu bytes",
			 i, g->n);
		if (full || v->iov_len < 4096) {
			compare(v->iov_base, g->m + off, v->iov_len, off);
		} else {
			size_t k = rndn(v->iov_len - 256);
			compare((char *)v->iov_base + k, g->m + off + k, 256,
				off + k);
			k = v->iov_len - 256;
			compare((char *)v->iov_base + k, g->m + off + k, 256,
				off + k);
		}
		off += v->iov_len;
	}
	HK_CHECK(off == g->n, "obuf.iov", "%d vectors hold %zu bytes, "
		 "expected %zu", cnt, off, g->n);
	/* What was given to the user stays where it is. */
	for (int k = 0; k < 4 && g->npiece > 0; k++) {
		struct piece *q = &g->piece[k < 2 ? (size_t)g->npiece - 1 :
					    rndn(g->npiece)];
		compare(q->p, g->m + q->off, q->n < 512 ? q->n : 512, q->off);
	}
}

static void
all_check(void)
{
	size_t used[2] = { 0, 0 };
	for (int i = 0; i < MAXBUF; i++) {
		struct B *g = &bufs[i];
		if (!g->on)
			continue;
		content_ok(g, false);
		for (int k = 0; g->b.iov[k].iov_base != NULL; k++) {
			HK_CHECK(g->b.capacity[k] >= g->b.iov[k].iov_len,
				 "obuf.capacity", "vector %d: %zu bytes of "
				 "%zu", k, g->b.iov[k].iov_len,
				 g->b.capacity[k]);
			if (!IS_ASAN)
				HK_CHECK(g->b.capacity[k] >= g->start << k,
					 "obuf.growth", "vector %d is of %zu "
					 "bytes, start capacity %zu", k,
					 g->b.capacity[k], g->start);
			used[g->cache] += g->b.capacity[k] + slab_sizeof();
		}
	}
	for (int c = 0; !IS_ASAN && c < E.ncache; c++)
		HK_CHECK(slab_cache_used(&E.cache[c]) == used[c],
			 "obuf.memory", "the buffers have %zu bytes, the cache "
			 "has %zu in use", used[c],
			 slab_cache_used(&E.cache[c]));
}

static void
probe(struct B *g)
{
#ifdef ENABLE_ASAN
	if (!opt_poison)
		return;
	int cnt = obuf_iovcnt(&g->b);
	for (int i = 0; i < cnt; i++) {
		struct iovec *v = &g->b.iov[i];
		char *bad = v->iov_len == 0 ? NULL :
			__asan_region_is_poisoned(v->iov_base, v->iov_len);
		HK_CHECK(bad == NULL, "asan.live", "obuf: byte %zd of vector "
			 "%d is poisoned", bad - (char *)v->iov_base, i);
		if (g->reserved && i == cnt - 1) {
			HK_CHECK(g->room == 0 || __asan_region_is_poisoned(
				 g->rptr, g->room) == NULL, "asan.live",
				 "obuf: reserved memory is poisoned");
		} else {
			probe_dead("obuf unused", (char *)v->iov_base +
				   v->iov_len, g->b.capacity[i] - v->iov_len);
		}
		/* Out of the block on either side. */
		HK_CHECK(is_outside((char *)v->iov_base + g->b.capacity[i]),
			 "asan.after", "obuf: the end of vector %d is not "
			 "poisoned", i);
	}
	HK_EV("probe_live");
#else
	(void)g;
#endif
}

static size_t
tail(struct B *g)
{
	return g->b.capacity[g->b.pos] - g->b.iov[g->b.pos].iov_len;
}

static size_t
pick_size(struct B *g)
{
	switch (rndn(opt_huge ? 10 : 8)) {
	case 0: case 1: case 2:
		return rndlog(1, 300);
	case 3:
		return rndlog(1, 30000);
	case 4:
		return rndedge(1, 40000);
	case 5:
		/* The rest of the vector, or nearly. */
		return tail(g) + rndn(3) - 1;
	case 6:
		if (!IS_ASAN && one_in(2) && g->b.iov[g->b.pos].iov_len > 0 &&
		    g->b.iov[g->b.pos + 1].iov_base != NULL)
			return g->b.capacity[g->b.pos + 1] + rndn(3) - 1;
		return g->start + rndn(3) - 1;
	case 7:
		return one_in(8) ? rndlog(1, 2 * E.slab_size) : rndr(1, 2000);
	case 8:
		return SIZE_MAX - (one_in(2) ? rndn(200) :
				   rndlog(0, SIZE_MAX / 2));
	default:
		return rndedge(1, SIZE_MAX);
	}
}

static size_t
size_for(struct B *g, bool may_huge)
{
	size_t size = pick_size(g);
	if (size == 0 || ((!opt_huge || !may_huge) && size > SIZE_MAX / 2))
		size = 1;
	if ((!opt_huge || !may_huge) && size > (2 << 20))
		size = 2 << 20;
	if (size > (64 << 20) && size < ((size_t)1 << 40))
		size += (size_t)1 << 40;
	if (IS_ASAN && size > (1 << 20))
		size = 1 << 20;
	return size;
}

static char *
new_data(struct B *g, size_t n)
{
	if (g->n + n > g->cap || g->m == NULL) {
		g->cap = 2 * (g->n + n) + 64;
		g->m = hk_realloc(g->m, g->cap);
	}
	hk_fill(g->m + g->n, n, tagseq++, 0);
	return g->m + g->n;
}

static void
add_piece(struct B *g, char *p, size_t n)
{
	if (g->npiece < MAXPIECE && n > 0) {
		g->piece[g->npiece].p = p;
		g->piece[g->npiece].off = g->n;
		g->piece[g->npiece].n = n;
		g->npiece++;
	}
}

static void
null_is_right(struct B *g, size_t size)
{
	if (size > SIZE_MAX / 8)
		return;
	if (g->b.iov[g->b.pos].iov_len > 0 &&
	    g->b.pos + 1 >= SMALL_OBUF_IOV_MAX)
		return;
	/* The next vector is at least so large. */
	int pos = g->b.pos + (g->b.iov[g->b.pos].iov_len > 0);
	size_t need = 2 * size;
	if (need < g->start << pos)
		need = g->start << pos;
	struct slab *s = slab_get(&E.cache[g->cache], need);
	HK_CHECK(s == NULL, "obuf.spurious_null", "no room for %zu bytes "
		 "although the cache gives %zu", size, need);
}

/** A call has failed: nothing that a user sees has changed. */
static void
unchanged(struct B *g, int cnt, size_t asked)
{
	HK_EV("obuf_null");
	if (asked > SIZE_MAX / 2)
		HK_EV("obuf_too_large");
	HK_CHECK(obuf_iovcnt(&g->b) == cnt, "obuf.null_changed", "%d vectors "
		 "became %d in a failed call", cnt, obuf_iovcnt(&g->b));
	content_ok(g, true);
}

enum { A_RESERVE, A_ALLOC, A_RESERVE_CB, A_ALLOC_CB, A_MAX };
static const char *const aname[] = { "reserve", "alloc", "reserve_cb",
	"alloc_cb" };

static void *
call(struct B *g, int how, size_t *size)
{
	switch (how) {
	case A_RESERVE: return obuf_reserve(&g->b, *size);
	case A_ALLOC: return obuf_alloc(&g->b, *size);
	case A_RESERVE_CB: return obuf_reserve_cb(&g->b, size);
	default: return obuf_alloc_cb(&g->b, *size);
	}
}

/** Take the reservation, or a part of it. */
static void
do_take(struct B *g)
{
	size_t n = one_in(3) ? g->room : one_in(8) || g->room == 0 ? 0 :
		   rndr(1, g->room);
	hk_op("alloc(buf=%d %zu of %zu reserved)", (int)(g - bufs), n, g->room);
	uint64_t inj = hk_injected;
	char *p = one_in(2) ? obuf_alloc(&g->b, n) : obuf_alloc_cb(&g->b, n);
	HK_CHECK(p == g->rptr && hk_injected == inj, "obuf.reserve",
		 "reserved %zu bytes at %p, allocated %zu at %p", g->room,
		 (void *)g->rptr, n, (void *)p);
	char *d = new_data(g, n);
	memcpy(p, d, n);
	add_piece(g, p, n);
	g->n += n;
	g->reserved = false;
	HK_EV("obuf_alloc_reserved");
}

static void
do_alloc(struct B *g)
{
	if (g->reserved) {
		do_take(g);
		return;
	}
	int how = rndn(A_MAX);
	bool is_alloc = how == A_ALLOC || how == A_ALLOC_CB;
	size_t size = size_for(g, true), asked = size;
	if (how == A_RESERVE_CB && one_in(6) && g->b.capacity[g->b.pos] > 0)
		asked = size = 0;
	int cnt = obuf_iovcnt(&g->b);
	hk_op("%s(buf=%d size=%zu used=%zu pos=%d vector=%zu of %zu)",
	      aname[how], (int)(g - bufs), size, g->n, g->b.pos,
	      g->b.iov[g->b.pos].iov_len, g->b.capacity[g->b.pos]);
	uint64_t inj = hk_injected;
	size_t t = tail(g);
	char *first = g->b.iov[0].iov_base;
	char *p = call(g, how, &size);
	if (p == NULL) {
		unchanged(g, cnt, asked);
		if (hk_injected > inj) {
			HK_EV("obuf_fault");
			hk_faults_off();
			size = asked;
			p = call(g, how, &size);
			if (p != NULL)
				HK_EV("obuf_recovered");
		}
		if (p == NULL) {
			null_is_right(g, asked);
			return;
		}
	}
	hk_faults_off();
	if (asked > SIZE_MAX / 2)
		hk_violation("obuf.wrap", "a request of %zu bytes was "
			     "satisfied", asked);
	HK_CHECK(hk_owned(p, asked), "obuf.not_owned", "%p of %zu is not "
		 "memory that was obtained", (void *)p, asked);
	if (asked <= t && first != NULL)
		HK_EV("obuf_in_place");
	else
		HK_EV("obuf_next_vector");
	if (is_alloc) {
		char *d = new_data(g, asked);
		memcpy(p, d, asked);
		add_piece(g, p, asked);
		g->n += asked;
		content_ok(g, g->n < 65536 || one_in(8));
		HK_EV("obuf_alloc");
		return;
	}
	HK_CHECK(how == A_RESERVE || size >= asked, "obuf.reserve",
		 "reserve_cb says %zu, asked for %zu", size, asked);
	g->reserved = true;
	g->room = size;
	g->rptr = p;
	/* The reserved memory is the end of the last vector. */
	HK_CHECK(tail(g) >= size && p == (char *)g->b.iov[g->b.pos].iov_base +
		 g->b.iov[g->b.pos].iov_len, "obuf.reserve", "%p is not the "
		 "end of vector %d, or less than %zu are there", (void *)p,
		 g->b.pos, size);
	probe(g);
	hk_fill_sparse(p, size, 1);
	content_ok(g, g->n < 65536 || one_in(8));
	HK_EV("obuf_reserve");
}

static void
do_dup(struct B *g)
{
	if (g->reserved) {
		do_take(g);
		return;
	}
	size_t size = size_for(g, false);
	if (one_in(30))
		size = 0;
	if (IS_ASAN && size == 0)
		size = 1;
	char *d = new_data(g, size);
	char *src = hk_malloc(size + 1);
	memcpy(src, d, size);
	int cnt = obuf_iovcnt(&g->b);
	hk_op("dup(buf=%d size=%zu used=%zu pos=%d vector=%zu of %zu)",
	      (int)(g - bufs), size, g->n, g->b.pos,
	      g->b.iov[g->b.pos].iov_len, g->b.capacity[g->b.pos]);
	uint64_t inj = hk_injected;
	size_t n = obuf_dup(&g->b, src, size);
	memset(src, 0x33, size);
	hk_free(src);
	HK_CHECK(n <= size, "obuf.dup", "%zu of %zu bytes appended", n, size);
	HK_CHECK(n == size || !IS_ASAN, "obuf.dup", "%zu of %zu appended", n,
		 size);
	g->n += n;
	if (n < size) {
		HK_EV("obuf_dup_partial");
		content_ok(g, true);
		HK_CHECK(n > 0 || obuf_iovcnt(&g->b) == cnt,
			 "obuf.null_changed", "%d vectors became %d in a "
			 "failed call", cnt, obuf_iovcnt(&g->b));
		if (hk_injected > inj) {
			HK_EV("obuf_fault");
			hk_faults_off();
			/* The rest may be added now. */
			char *e = new_data(g, size - n);
			size_t k = obuf_dup(&g->b, e, size - n);
			g->n += k;
			if (k == size - n) {
				HK_EV("obuf_recovered");
				content_ok(g, true);
			} else {
				null_is_right(g, size - n - k);
			}
			return;
		}
		null_is_right(g, size - n);
		return;
	}
	hk_faults_off();
	if (obuf_iovcnt(&g->b) > cnt + 1)
		HK_EV("obuf_dup_many_vectors");
	content_ok(g, g->n < 65536 || one_in(8));
	HK_EV("obuf_dup");
}

static void
drop_after(struct B *g)
{
	while (g->npiece > 0 && g->piece[g->npiece - 1].off +
	       g->piece[g->npiece - 1].n > g->n)
		g->npiece--;
	g->reserved = false;
}

static void
do_other(struct B *g)
{
	int how = rndn(32);
	if (how < 15) {
		if (g->nsvp == MAXSVP) {
			int k = rndn(MAXSVP);
			memmove(&g->svp[k], &g->svp[k + 1],
				(MAXSVP - k - 1) * sizeof(g->svp[0]));
			g->nsvp--;
		}
		g->svp[g->nsvp].s = obuf_create_svp(&g->b);
		g->svp[g->nsvp].n = g->n;
		hk_op("svp(buf=%d used=%zu reserved=%d)", (int)(g - bufs),
		      g->n, g->reserved);
		if (g->reserved) {
			char *p = obuf_svp_to_ptr(&g->b, &g->svp[g->nsvp].s);
			HK_CHECK(p == g->rptr, "obuf.svp_ptr", "reserved %p, "
				 "the savepoint is at %p", (void *)g->rptr,
				 (void *)p);
			HK_EV("obuf_svp_to_ptr");
		}
		if (one_in(6)) {
			/* The beginning. */
			g->nsvp = 0;
			obuf_svp_reset(&g->svp[0].s);
			g->svp[0].n = 0;
		}
		g->nsvp++;
		HK_EV("obuf_svp");
	} else if (how < 30) {
		if (g->nsvp == 0)
			return;
		int k = one_in(3) ? rndn(g->nsvp) : (size_t)g->nsvp - 1;
		hk_op("rollback(buf=%d from=%zu to=%zu)", (int)(g - bufs), g->n,
		      g->svp[k].n);
		size_t cap0 = g->b.capacity[0];
		obuf_rollback_to_svp(&g->b, &g->svp[k].s);
		HK_CHECK(IS_ASAN || g->b.capacity[0] == cap0, "obuf.rollback",
			 "memory was freed in a rollback");
		if (g->svp[k].n < g->n)
			HK_EV("obuf_rollback");
		g->n = g->svp[k].n;
		g->nsvp = one_in(2) ? k : k + 1;
		drop_after(g);
		content_ok(g, true);
	} else {
		if (!one_in(3))
			return;
		hk_op("reset(buf=%d used=%zu)", (int)(g - bufs), g->n);
		obuf_reset(&g->b);
		g->n = 0;
		g->nsvp = 0;
		drop_after(g);
		g->npiece = 0;
		HK_CHECK(obuf_iovcnt(&g->b) == 0 && obuf_size(&g->b) == 0,
			 "obuf.reset", "%d vectors, %zu bytes after a reset",
			 obuf_iovcnt(&g->b), obuf_size(&g->b));
		for (int i = 0; g->b.iov[i].iov_base != NULL; i++)
			HK_CHECK(g->b.iov[i].iov_len == 0, "obuf.reset",
				 "vector %d has %zu bytes after a reset", i,
				 g->b.iov[i].iov_len);
		HK_EV("obuf_reset");
	}
}

#ifdef ENABLE_ASAN
/**
 * This version takes a new vector for each allocation at first; then it has to
 * let the vectors grow, otherwise it would run out of them.
 */
static void
deep_case(void)
{
	static struct obuf b;
	size_t start = rndr(64, 1024);
	size_t goal = rndlog(1 << 14, 1 << 21);
	obuf_create(&b, &E.cache[0], start);
	static unsigned char m[(1 << 21) + 64];
	size_t n = 0;
	hk_op("deep(start=%zu goal=%zu)", start, goal);
	while (n < goal) {
		size_t size = rndr(1, 64);
		unsigned char tag = rnd();
		char *p = obuf_alloc(&b, size);
		HK_CHECK(p != NULL, "obuf.spurious_null", "no memory");
		memset(p, tag, size);
		memset(m + n, tag, size);
		n += size;
	}
	HK_CHECK(obuf_size(&b) == n, "obuf.size", "%zu bytes, expected %zu",
		 obuf_size(&b), n);
	/* At least a half of each vector that grows is in use. */
	int most = 96 + 4;
	for (size_t c = start; c < 2 * n; c *= 2)
		most++;
	int cnt = obuf_iovcnt(&b);
	HK_CHECK(cnt <= most, "obuf.growth", "%zu bytes take %d vectors, start "
		 "capacity %zu", n, cnt, start);
	size_t off = 0;
	for (int i = 0; i < cnt; i++) {
		struct iovec *v = &b.iov[i];
		HK_CHECK(off + v->iov_len <= n && memcmp(v->iov_base, m + off,
							 v->iov_len) == 0,
			 "obuf.content", "vector %d has changed", i);
		off += v->iov_len;
	}
	HK_CHECK(off == n, "obuf.iov", "%d vectors hold %zu bytes, expected "
		 "%zu", cnt, off, n);
	if (cnt > 98)
		HK_EV("obuf_vectors_grow");
	hk_nontrivial();
	hk_shape(cnt);
	obuf_destroy(&b);
}
#else
/** As many vectors as possible. */
static void
deep_case(void)
{
	static struct obuf b;
	size_t start = 1 + rndn(3);
	memset(&b, 0x5a, sizeof(b));
	obuf_create(&b, &E.cache[0], start);
	char *seen[SMALL_OBUF_IOV_MAX + 1];
	struct obuf_svp svp[SMALL_OBUF_IOV_MAX + 1];
	int n = 0, rounds = rndn(4);
	size_t total = 0;
again:
	for (;;) {
		size_t size = b.capacity[b.pos] - b.iov[b.pos].iov_len + 1;
		if (b.pos == 0 && b.iov[0].iov_len == 0)
			size = 1;
		int cnt = obuf_iovcnt(&b);
		svp[n] = obuf_create_svp(&b);
		hk_op("deep(vectors=%d size=%zu)", cnt, size);
		char *p = obuf_reserve(&b, size);
		if (p == NULL) {
			HK_CHECK(obuf_iovcnt(&b) == cnt && obuf_size(&b) ==
				 total, "obuf.null_changed", "%d vectors, %zu "
				 "bytes became %d, %zu", cnt, total,
				 obuf_iovcnt(&b), obuf_size(&b));
			HK_CHECK(cnt == n, "obuf.iovcnt", "%d vectors, "
				 "expected %d", cnt, n);
			if (n < SMALL_OBUF_IOV_MAX) {
				struct slab *s = slab_get(&E.cache[0],
					2 * (size > start << n ? size :
					     start << n));
				HK_CHECK(s == NULL, "obuf.spurious_null",
					 "%d vectors at most", n);
			} else {
				HK_EV("obuf_all_vectors");
				/* There is still a byte in the last one. */
				char x = 'x';
				HK_CHECK(obuf_dup(&b, &x, 1) == 1, "obuf.deep",
					 "no room for one more byte");
				total++;
			}
			break;
		}
		HK_CHECK(n < SMALL_OBUF_IOV_MAX, "obuf.iovcnt",
			 "more than %d vectors", n);
		HK_CHECK(hk_owned(p, size), "obuf.not_owned", "vector %d", n);
		size_t k = one_in(4) || size < 16 ? 1 : rndr(1, size / 2);
		HK_CHECK(obuf_alloc(&b, k) == p, "obuf.reserve", "reserved and "
			 "allocated memory are not the same");
		*p = n;
		p[k - 1] = n;
		seen[n++] = p;
		total += k;
		HK_CHECK(obuf_iovcnt(&b) == n && obuf_size(&b) == total,
			 "obuf.iovcnt", "%d vectors, %zu bytes, expected %d, "
			 "%zu", obuf_iovcnt(&b), obuf_size(&b), n, total);
	}
	for (int i = 0; i < n; i++)
		HK_CHECK(b.iov[i].iov_base == seen[i] && *seen[i] == i &&
			 seen[i][b.iov[i].iov_len - 1] ==
			 (i == n - 1 && n == SMALL_OBUF_IOV_MAX ? 'x' : i),
			 "obuf.content", "vector %d of %d has changed", i, n);
	if (rounds-- > 0 && n > 0) {
		/* Nothing is left of the vectors after the savepoint. */
		int k = rndn(n);
		hk_op("deep rollback(from=%d to=%d)", n, k);
		bool all = one_in(4);
		if (all) {
			k = 0;
			obuf_reset(&b);
		} else {
			obuf_rollback_to_svp(&b, &svp[k]);
		}
		size_t sum = 0;
		for (int i = 0; i < SMALL_OBUF_IOV_MAX; i++)
			sum += b.iov[i].iov_len;
		size_t used = all ? 0 : svp[k].used;
		HK_CHECK(obuf_size(&b) == used && sum == used &&
			 obuf_iovcnt(&b) <= k + 1, "obuf.rollback", "%zu bytes "
			 "and %d vectors of %zu bytes after a rollback to %zu",
			 obuf_size(&b), obuf_iovcnt(&b), sum, used);
		for (int i = 0; i < k; i++)
			HK_CHECK(*seen[i] == i, "obuf.content", "vector %d of "
				 "%d has changed", i, n);
		HK_EV("obuf_deep_rollback");
		n = k;
		total = used;
		goto again;
	}
	hk_nontrivial();
	hk_shape(n);
	obuf_destroy(&b);
}
#endif

void
hk_init(void)
{
	opt_faults = hk_optl("faults", 0);
	opt_huge = hk_optl("huge", 0);
	opt_poison = hk_optl("poison", 0);
}

void
hk_case(uint64_t idx)
{
	(void)idx;
	size_t s = (size_t)65536 << rndn(4);
	bool deep = one_in(100);
	size_t total = deep || one_in(3) ? (size_t)1 << 40 : s * rndr(1, 12);
	env_create_sized(&E, s, total, one_in(3) ? s * rndn(3) : 0,
			 1 + one_in(4));
	hk_op("env(slab=%zu quota=%zu caches=%d)", E.slab_size, E.total,
	      E.ncache);
	tagseq = rnd();
	if (deep) {
		deep_case();
		env_destroy(&E, "obuf.leak");
		return;
	}
	int nb = 1 + rndn(MAXBUF);
	for (int i = 0; i < MAXBUF; i++)
		bufs[i].on = false;
	for (int i = 0; i < nb; i++) {
		struct B *g = &bufs[i];
		memset(&g->b, 0x5a, sizeof(g->b));
		g->cache = rndn(E.ncache);
		g->start = one_in(3) ? rndr(1, 100) : one_in(2) ? 16320 :
			   rndlog(1, 60000);
		obuf_create(&g->b, &E.cache[g->cache], g->start);
		HK_CHECK(obuf_is_initialized(&g->b), "obuf.initialized",
			 "not initialized after create");
		g->n = 0;
		g->npiece = g->nsvp = 0;
		g->on = true;
		g->reserved = false;
		hk_op("create(buf=%d start=%zu)", i, g->start);
	}
	int nops = opt_huge ? 100 : 50 + rndn(500);
	int bias = rndr(40, 75);
	for (int i = 0; i < nops; i++) {
		if (one_in(60))
			bias = rndr(30, 90);
		struct B *g = &bufs[rndn(nb)];
		if (opt_faults)
			env_faults(4);
		if ((int)rndn(100) < bias && g->n < (1 << 20)) {
			if (one_in(2))
				do_alloc(g);
			else
				do_dup(g);
		} else {
			do_other(g);
		}
		hk_faults_off();
		all_check();
		probe(g);
		if (one_in(4))
			content_ok(g, one_in(2) || g->n < 65536);
	}
	for (int i = 0; i < nb; i++) {
		struct B *g = &bufs[i];
		hk_shape(g->n);
		hk_shape(obuf_iovcnt(&g->b));
		hk_shape(g->b.capacity[0]);
		if (g->b.iov[0].iov_base != NULL)
			hk_nontrivial();
		content_ok(g, true);
		obuf_destroy(&g->b);
		HK_CHECK(!obuf_is_initialized(&g->b), "obuf.initialized",
			 "initialized after destroy");
		g->on = false;
		all_check();
	}
	env_destroy(&E, "obuf.leak");
}
