/* Monitor of the block arrays (matras) and their read views. */
#include "hk.h"
#include <small/matras.h>
#include <pthread.h>
#include <time.h>
#include <sys/mman.h>

static bool opt_faults, opt_threads, opt_dealloc_fault, opt_noget;
enum { MAXM = 3, MAXV = 8, MAXR = 3 };

/** A version of an array as it must be. */
struct model {
	/** Tag of the contents of every block. */
	uint64_t *tag;
	size_t n, cap;
};

struct V {
	struct matras_view v;
	bool on;
	struct model m;
} ;

static struct M {
	struct matras a;
	struct matras_stats stats;
	bool own_stats, gone;
	size_t block, extent;
	struct model m;
	struct V view[MAXV];
	int nview;
} arr[MAXM];
static int narr;
static uint64_t tagseq;

/* ---- the extent allocator --------------------------------------------- */
static struct matras_allocator A;
/** Extents that are out, by address. */
static struct hk_imap ext;
/** Calls left until failures, or -1. */
static long budget;
static uint64_t nfail, ncall;
static size_t extent_size;
/** Freed extents, to be reused in any order. */
static void **pool;
static size_t npool, pcap;

static void *
ext_alloc(struct matras_allocator *a)
{
	(void)a;
	ncall++;
	if (budget == 0) {
		nfail++;
		return NULL;
	}
	if (budget > 0)
		budget--;
	void *p;
	if (npool > 0 && one_in(2)) {
		size_t i = rndn(npool);
		p = pool[i];
		pool[i] = pool[--npool];
	} else {
		p = malloc(extent_size);
		if (p == NULL)
			hk_error("no memory for an extent");
	}
	memset(p, 0xa7, extent_size);
	hk_imap_insert(&ext, (uintptr_t)p, extent_size, 0, NULL);
	return p;
}

static void
ext_free(struct matras_allocator *a, void *p)
{
	(void)a;
	HK_CHECK(hk_imap_remove(&ext, (uintptr_t)p), "matras.free",
		 "%p is released, but it is not an extent that is held", p);
	memset(p, 0xdd, extent_size);
	if (one_in(2) && !opt_threads)
		HK_ARRAY_PUSH(pool, npool, pcap, p);
	else
		free(p);
}

/* ---- models ------------------------------------------------------------ */
static void
model_push(struct model *m, uint64_t tag)
{
	HK_ARRAY_PUSH(m->tag, m->n, m->cap, tag);
}

static void
model_copy(struct model *d, const struct model *s)
{
	if (d->cap < s->n) {
		d->cap = s->n;
		d->tag = hk_realloc(d->tag, d->cap * sizeof(*d->tag));
	}
	d->n = s->n;
	if (s->n > 0)
		memcpy(d->tag, s->tag, s->n * sizeof(*s->tag));
}

static size_t
ceil_div(size_t a, size_t b)
{
	return (a + b - 1) / b;
}

/** Extents that an array of n blocks consists of. */
static size_t
needed(struct M *g, size_t n)
{
	if (n == 0)
		return 0;
	size_t per3 = g->extent / g->block;
	size_t per2 = per3 * (g->extent / sizeof(void *));
	return 1 + ceil_div(n, per2) + ceil_div(n, per3);
}

static void
in_extent(struct M *g, const void *p, size_t id)
{
	struct hk_iv *v = hk_imap_overlap(&ext, (uintptr_t)p, 1);
	HK_CHECK(v != NULL && (uintptr_t)p + g->block <= v->start + v->size &&
		 ((uintptr_t)p - v->start) % g->block == 0, "matras.address",
		 "block %zu at %p is not a block of an extent", id, p);
}

static void
check_block(struct M *g, const struct matras_view *v, const struct model *m,
	    size_t id, const char *what)
{
	unsigned char *p = v == NULL ? matras_get(&g->a, id) :
			   matras_view_get(&g->a, v, id);
	in_extent(g, p, id);
	ssize_t bad = hk_verify(p, g->block, m->tag[id], 0);
	HK_CHECK(bad < 0, what, "byte %zd of block %zu of %zu is not what was "
		 "written", bad, id, m->n);
}

static void
check_some(struct M *g, const struct matras_view *v, const struct model *m,
	   const char *what, size_t max)
{
	if (m->n <= max) {
		for (size_t i = 0; i < m->n; i++)
			check_block(g, v, m, i, what);
		return;
	}
	for (size_t i = 0; i < max / 2; i++) {
		check_block(g, v, m, rndn(m->n), what);
		check_block(g, v, m, m->n - 1 - i, what);
	}
}

static size_t
held(void)
{
	return ext.count - A.num_reserved_extents;
}

static void
counts_ok(void)
{
	size_t total = 0;
	for (int i = 0; i < narr; i++) {
		struct M *g = &arr[i];
		if (g->gone)
			continue;
		size_t n = matras_extent_count(&g->a);
		size_t need = needed(g, g->m.n);
		total += n;
		HK_CHECK(g->a.head.block_count == g->m.n, "matras.count",
			 "%zu blocks, expected %zu", g->a.head.block_count,
			 g->m.n);
		HK_CHECK(n >= need, "matras.extents", "%zu extents held for "
			 "%zu blocks, which take %zu", n, g->m.n, need);
		/* What is beyond the current version, is of views. */
		if (g->nview == 0)
			HK_CHECK(n == need, "matras.leak", "%zu extents held "
				 "for %zu blocks, which take %zu, and no views",
				 n, g->m.n, need);
		if (g->own_stats) {
			HK_CHECK(g->stats.extent_count == n, "matras.stats",
				 "%u extents in the statistics, %zu held",
				 g->stats.extent_count, n);
			HK_CHECK(g->stats.read_view_extent_count == n - need,
				 "matras.stats", "%u extents of read views in "
				 "the statistics, %zu held, %zu needed",
				 g->stats.read_view_extent_count, n, need);
		}
	}
	HK_CHECK(total == held(), "matras.conservation", "the arrays say they "
		 "hold %zu extents, they were given %zu", total, held());
	HK_CHECK(A.num_reserved_extents >= 0, "matras.conservation",
		 "%d reserved extents", A.num_reserved_extents);
}

static void
all_check(size_t max)
{
	counts_ok();
	for (int i = 0; i < narr; i++) {
		struct M *g = &arr[i];
		if (g->gone)
			continue;
		check_some(g, NULL, &g->m, "matras.content", max);
		for (int k = 0; k < MAXV; k++) {
			struct V *v = &g->view[k];
			if (!v->on)
				continue;
			HK_CHECK(v->v.block_count == v->m.n, "matras.view",
				 "a view of %zu blocks has %zu", v->m.n,
				 v->v.block_count);
			check_some(g, &v->v, &v->m, "matras.view", max);
		}
	}
}

/* ---- readers in other threads ------------------------------------------ */
static struct R {
	pthread_t t;
	bool started;
	pthread_mutex_t mu;
	pthread_cond_t cv;
	struct M *g;
	struct V *v;
	bool stop, quit, busy;
	uint64_t reads;
	char err[160];
} readers[MAXR];

static void *
reader(void *arg)
{
	struct R *r = arg;
	pthread_mutex_lock(&r->mu);
	while (!r->quit) {
		if (r->v == NULL || r->stop) {
			r->busy = false;
			pthread_cond_broadcast(&r->cv);
			pthread_cond_wait(&r->cv, &r->mu);
			continue;
		}
		r->busy = true;
		struct M *g = r->g;
		struct V *v = r->v;
		uint64_t seed = r->reads;
		pthread_mutex_unlock(&r->mu);
		/* Large blocks are read fewer at a time. */
		size_t len = g->block < 4096 ? 40 : 1 + 160000 / g->block;
		for (size_t i = 0; i < len && v->m.n > 0; i++) {
			size_t id = hk_mix(seed * 64 + i) % v->m.n;
			/*
			 * Whether this is a view of its own is what the owner
			 * may be writing down again.
			 */
			unsigned char *p = opt_noget ?
				matras_view_get_no_check(&g->a, &v->v, id) :
				matras_view_get(&g->a, &v->v, id);
			ssize_t bad = hk_verify(p, g->block, v->m.tag[id], 0);
			if (bad >= 0 && r->err[0] == 0)
				snprintf(r->err, sizeof(r->err), "byte %zd of "
					 "block %zu of %zu of a view", bad, id,
					 v->m.n);
		}
		/* Let the owner run: there may be more readers than cores. */
		if (hk_mix(seed) & 1)
			nanosleep(&(struct timespec){ .tv_nsec = 20000 }, NULL);
		pthread_mutex_lock(&r->mu);
		r->reads++;
	}
	pthread_mutex_unlock(&r->mu);
	return NULL;
}

static void
reader_stop(struct V *v)
{
	for (int i = 0; i < MAXR; i++) {
		struct R *r = &readers[i];
		if (!r->started || r->v != v)
			continue;
		pthread_mutex_lock(&r->mu);
		uint64_t n = r->reads;
		/* It has been read at least once. */
		while (r->reads < n + 1)  {
			pthread_mutex_unlock(&r->mu);
			sched_yield();
			pthread_mutex_lock(&r->mu);
		}
		r->stop = true;
		while (r->busy)
			pthread_cond_wait(&r->cv, &r->mu);
		r->v = NULL;
		r->stop = false;
		HK_CHECK(r->err[0] == 0, "matras.view_thread", "read in "
			 "another thread: %s", r->err);
		HK_EVN("matras_thread_reads", r->reads);
		r->reads = 0;
		pthread_mutex_unlock(&r->mu);
	}
}

static void
reader_give(struct M *g, struct V *v)
{
	for (int i = 0; i < MAXR; i++) {
		struct R *r = &readers[i];
		if (!r->started || r->v != NULL)
			continue;
		pthread_mutex_lock(&r->mu);
		r->g = g;
		r->v = v;
		r->reads = 0;
		pthread_cond_broadcast(&r->cv);
		pthread_mutex_unlock(&r->mu);
		HK_EV("matras_view_to_thread");
		return;
	}
}

/* ---- operations --------------------------------------------------------- */
static void
write_block(struct M *g, unsigned char *p, size_t id)
{
	g->m.tag[id] = tagseq++;
	hk_fill(p, g->block, g->m.tag[id], 0);
}

static bool
arm(void)
{
	if (!opt_faults || !one_in(3))
		return false;
	budget = rndn(4);
	return true;
}

static void
do_alloc(struct M *g, size_t range)
{
	arm();
	size_t n0 = held();
	matras_id_t id = 0xabcdef;
	uint64_t f = nfail;
	bool ranged = range > 1 || one_in(4);
	hk_opn(ranged ? "alloc_range" : "alloc", g - arr, g->m.n, range,
	       budget);
	void *p = ranged ? matras_alloc_range(&g->a, &id, range) :
			   matras_alloc(&g->a, &id);
	if (p == NULL) {
		HK_EV("matras_alloc_null");
		bool full = g->m.n + range > g->a.capacity;
		HK_CHECK(full || nfail > f, "matras.spurious_null",
			 "no block after %zu of %zu although no extent was "
			 "refused", g->m.n, g->a.capacity);
		HK_CHECK(held() == n0, "matras.alloc_fault", "a failed "
			 "allocation left %zd extents", held() - n0);
		budget = -1;
		if (full)
			HK_EV("matras_full");
		else
			HK_EV("matras_alloc_fault");
		all_check(10);
		if (full)
			return;
		p = ranged ? matras_alloc_range(&g->a, &id, range) :
			     matras_alloc(&g->a, &id);
		HK_CHECK(p != NULL, "matras.spurious_null", "no block after a "
			 "failure was repeated");
		HK_EV("matras_recovered");
	}
	budget = -1;
	HK_CHECK(g->m.n + range <= g->a.capacity, "matras.capacity",
		 "%zu blocks of at most %zu", g->m.n + range, g->a.capacity);
	HK_CHECK(id == g->m.n, "matras.id", "identifier %u, expected %zu", id,
		 g->m.n);
	for (size_t i = 0; i < range; i++)
		model_push(&g->m, 0);
	HK_CHECK(g->a.head.block_count == g->m.n, "matras.count",
		 "%zu blocks, expected %zu", g->a.head.block_count, g->m.n);
	for (size_t i = 0; i < range; i++) {
		unsigned char *q = matras_get(&g->a, id + i);
		HK_CHECK(q == (unsigned char *)p + i * g->block,
			 "matras.address", "block %zu of a range is at %p, "
			 "the range at %p", i, (void *)q, p);
		in_extent(g, q, id + i);
		/* A new block is written without notice. */
		write_block(g, q, id + i);
	}
	HK_EV("matras_alloc");
	if (range > 1)
		HK_EV("matras_alloc_range");
	if (g->nview > 0)
		HK_EV("matras_alloc_with_view");
}

static void
do_dealloc(struct M *g, size_t range)
{
	bool ranged = range > 1 || one_in(4);
	/* It cannot fail: what it may need is reserved before. */
	bool reserved = opt_faults && one_in(2) &&
			matras_touch_reserve(&g->a, 1) == 0;
	if (reserved)
		budget = 0;
	hk_opn(ranged ? "dealloc_range" : "dealloc", g - arr, g->m.n, range,
	       reserved);
	uint64_t f = nfail;
	if (ranged)
		matras_dealloc_range(&g->a, range);
	else
		matras_dealloc(&g->a);
	HK_CHECK(nfail == f, "matras.reserve", "an extent was needed in spite "
		 "of the reservation");
	budget = -1;
	g->m.n -= range;
	HK_EV("matras_dealloc");
	if (reserved && g->nview > 0)
		HK_EV("matras_dealloc_reserved");
	if (g->nview > 0)
		HK_EV("matras_dealloc_with_view");
}

static size_t
pick_id(struct M *g)
{
	size_t n = g->m.n;
	switch (rndn(4)) {
	case 0: return n - 1 - rndn(n < 4 ? n : 4);
	case 1: {
		/* Around the end of a view. */
		struct V *v = &g->view[rndn(MAXV)];
		if (v->on) {
			size_t id = v->m.n + rndn(5) - 2;
			if (id < n)
				return id;
		}
		return rndn(n);
	}
	default: return rndn(n);
	}
}

static void
do_touch(struct M *g)
{
	size_t id = pick_id(g);
	unsigned char *was = matras_get(&g->a, id);
	uint64_t f = nfail;
	arm();
	bool need = matras_needs_touch(&g->a, id);
	hk_opn("touch", g - arr, id, need, budget);
	unsigned char *p;
	if (need && one_in(2))
		p = matras_touch_no_check(&g->a, id);
	else
		p = matras_touch(&g->a, id);
	if (p == NULL) {
		HK_CHECK(nfail > f, "matras.spurious_null", "block %zu of %zu "
			 "is not touched although no extent was refused", id,
			 g->m.n);
		HK_CHECK(matras_get(&g->a, id) == was, "matras.touch_fault",
			 "block %zu has moved in a failed call", id);
		budget = -1;
		HK_EV("matras_touch_fault");
		all_check(10);
		if (one_in(3))
			return;
		p = matras_touch(&g->a, id);
		HK_CHECK(p != NULL, "matras.spurious_null", "block %zu is not "
			 "touched after a failure was repeated", id);
		HK_EV("matras_recovered");
	}
	budget = -1;
	HK_CHECK(p == matras_get(&g->a, id), "matras.touch", "touched block "
		 "%zu at %p, it is at %p", id, (void *)p,
		 matras_get(&g->a, id));
	in_extent(g, p, id);
	HK_CHECK(g->nview > 0 || p == was, "matras.touch", "block %zu has "
		 "moved although there are no views", id);
	HK_CHECK(hk_verify(p, g->block, g->m.tag[id], 0) < 0, "matras.touch",
		 "block %zu of %zu has other contents after it was touched",
		 id, g->m.n);
	if (p != was)
		HK_EV("matras_copied");
	else
		HK_EV("matras_not_copied");
	if (!need)
		HK_CHECK(p == was, "matras.touch", "block %zu has moved "
			 "although it needs no touch", id);
	if (one_in(3))
		return;
	/* It may be written any number of times now. */
	HK_CHECK(matras_touch(&g->a, id) == p, "matras.touch", "block %zu has "
		 "moved again when touched again", id);
	write_block(g, p, id);
}

/** After a reservation that many blocks can be touched. */
static void
do_touch_reserve(struct M *g)
{
	int n = one_in(10) ? rndlog(13, 400) : rndlog(1, 12);
	if (arm()) {
		uint64_t f = nfail;
		int rc = matras_touch_reserve(&g->a, n);
		budget = -1;
		if (rc != 0) {
			HK_CHECK(nfail > f, "matras.reserve", "%d touches "
				 "not reserved although no extent was refused",
				 n);
			HK_EV("matras_reserve_fault");
			all_check(10);
		}
	}
	HK_CHECK(matras_touch_reserve(&g->a, n) == 0, "matras.reserve",
		 "cannot reserve");
	hk_opn("touch_reserve", g - arr, n, A.num_reserved_extents, 0);
	budget = 0;
	int copied = 0;
	for (int i = 0; i < n && g->m.n > 0; i++) {
		size_t id = pick_id(g);
		void *was = matras_get(&g->a, id);
		unsigned char *p = matras_touch(&g->a, id);
		HK_CHECK(p != NULL, "matras.reserve", "touch %d of %d of block "
			 "%zu fails after a reservation", i, n, id);
		copied += p != was;
		write_block(g, p, id);
	}
	budget = -1;
	if (copied > 0)
		HK_EV("matras_reserved_touches");
}

static void
do_view(struct M *g)
{
	struct V *v = &g->view[rndn(MAXV)];
	if (v->on) {
		hk_opn("view_destroy", g - arr, v - g->view, v->m.n, 0);
		reader_stop(v);
		check_some(g, &v->v, &v->m, "matras.view", 400);
		HK_CHECK(matras_is_read_view_created(&v->v), "matras.view",
			 "a view is not created");
		matras_destroy_read_view(&g->a, &v->v);
		HK_CHECK(!matras_is_read_view_created(&v->v), "matras.view",
			 "a view is still created");
		if (one_in(4))
			/* Harmless. */
			matras_destroy_read_view(&g->a, &v->v);
		v->on = false;
		g->nview--;
		HK_EV("matras_view_closed");
		return;
	}
	memset(&v->v, 0x5a, sizeof(v->v));
	if (one_in(8)) {
		matras_head_read_view(&v->v);
		HK_CHECK(!matras_is_read_view_created(&v->v), "matras.view",
			 "the view of the head is created");
		for (int i = 0; i < 4 && g->m.n > 0; i++) {
			size_t id = rndn(g->m.n);
			HK_CHECK(matras_view_get(&g->a, &v->v, id) ==
				 matras_get(&g->a, id), "matras.view",
				 "the view of the head is not the head");
		}
		return;
	}
	hk_opn("view_create", g - arr, v - g->view, g->m.n, 0);
	size_t n0 = held();
	matras_create_read_view(&g->a, &v->v);
	HK_CHECK(held() == n0, "matras.view", "creating a view took extents");
	model_copy(&v->m, &g->m);
	v->on = true;
	g->nview++;
	HK_EV("matras_view");
	if (g->m.n == 0)
		HK_EV("matras_view_empty");
	if (opt_threads && one_in(2))
		reader_give(g, v);
}

static void
do_write(struct M *g)
{
	/* Blocks that need no notice. */
	size_t id = pick_id(g);
	if (matras_needs_touch(&g->a, id))
		return;
	write_block(g, matras_get(&g->a, id), id);
	hk_opn("write", g - arr, id, 0, 0);
	HK_EV("matras_write_untouched");
}

static void
views_gone(struct M *g)
{
	for (int k = 0; k < MAXV; k++)
		if (g->view[k].on)
			reader_stop(&g->view[k]);
	for (int k = 0; k < MAXV; k++)
		g->view[k].on = false;
	g->nview = 0;
}

static size_t
pick_range(struct M *g)
{
	size_t per = g->extent / g->block;
	if (one_in(2) || per == 1)
		return 1;
	size_t r = (size_t)1 << rndn(__builtin_ctzl(per) + 1);
	while (r > 1 && g->m.n % r != 0)
		r /= 2;
	return r;
}

/** Identifiers up to the last one. */
static char *big_next, *big_end;
static void *
big_alloc(struct matras_allocator *a)
{
	if (big_next == big_end)
		return NULL;
	void *p = big_next;
	big_next += a->extent_size;
	return p;
}
static size_t big_freed;
static void
big_free(struct matras_allocator *a, void *p)
{
	(void)p;
	(void)a;
	big_freed++;
}

static void
big_case(void)
{
	/* log2 of the extent and of the block. */
	static const int geo[][2] = { { 16, 0 }, { 15, 0 }, { 14, 0 },
		{ 20, 4 }, { 21, 5 }, { 18, 1 }, { 17, 1 }, { 20, 0 } };
	int k = rndn(sizeof(geo) / sizeof(geo[0]));
	size_t e = (size_t)1 << geo[k][0], b = (size_t)1 << geo[k][1];
	int log = geo[k][0] * 3 - geo[k][1] - 6;
	size_t capacity = (size_t)1 << (log > 32 ? 32 : log);
	size_t per = e / b;
	size_t max = capacity / per + capacity / (per * (e / 8)) + 64;
	size_t vsz = max * e;
	hk_op("big(extent=%zu block=%zu capacity=%zu)", e, b, capacity);
	char *mem = mmap(NULL, vsz, PROT_READ | PROT_WRITE,
			 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (mem == MAP_FAILED)
		hk_error("no address space");
	big_next = mem;
	big_end = mem + vsz;
	big_freed = 0;
	struct matras_allocator al;
	matras_allocator_create(&al, e, big_alloc, big_free);
	struct matras m;
	memset(&m, 0x5a, sizeof(m));
	matras_create(&m, b, &al, NULL);
	HK_CHECK(m.capacity == capacity, "matras.capacity", "%zu blocks at "
		 "most, expected %zu", m.capacity, capacity);
	/* Where each extent of blocks was put. */
	size_t n3 = capacity / per;
	if (one_in(3))
		n3 -= rndn(n3 < 5 ? n3 : 5);
	char **at = hk_malloc(n3 * sizeof(*at));
	for (size_t i = 0; i < n3; i++) {
		matras_id_t id;
		at[i] = matras_alloc_range(&m, &id, per);
		HK_CHECK(at[i] != NULL && id == (matras_id_t)(i * per),
			 "matras.id", "extent %zu: %p, identifier %u", i,
			 (void *)at[i], id);
	}
	if (n3 * per == capacity) {
		matras_id_t id;
		HK_CHECK(matras_alloc(&m, &id) == NULL &&
			 matras_alloc_range(&m, &id, per) == NULL,
			 "matras.capacity", "a block more than %zu", capacity);
		HK_EV("matras_full");
	}
	for (int i = 0; i < 20000; i++) {
		size_t x = i < 10 ? n3 - 1 : rndn(n3);
		size_t o = rndn(per);
		char *p = matras_get(&m, x * per + o);
		HK_CHECK(p == at[x] + o * b, "matras.address", "block %zu is "
			 "at %p, expected %p", x * per + o, (void *)p,
			 (void *)(at[x] + o * b));
	}
	/* A view, a few changes, and away with it. */
	struct matras_view v;
	matras_create_read_view(&m, &v);
	size_t c0 = matras_extent_count(&m);
	for (int i = 0; i < 5; i++) {
		size_t x = one_in(2) ? n3 - 1 - rndn(n3 < 3 ? n3 : 3) :
			   rndn(n3);
		size_t id = x * per + rndn(per);
		char *old = matras_view_get(&m, &v, id);
		char *p = matras_touch(&m, id);
		HK_CHECK(p != NULL && p == matras_get(&m, id) &&
			 matras_view_get(&m, &v, id) == old &&
			 old == at[x] + (id % per) * b, "matras.view",
			 "block %zu: %p in the view, was at %p, touched %p", id,
			 matras_view_get(&m, &v, id), (void *)old, (void *)p);
	}
	size_t copied = matras_extent_count(&m) - c0;
	if (one_in(2)) {
		matras_destroy_read_view(&m, &v);
		HK_CHECK(big_freed == copied, "matras.leak", "%zu extents "
			 "released with a view, %zu were copied", big_freed,
			 copied);
	}
	for (int i = 0; i < 3; i++) {
		size_t f = big_freed;
		matras_dealloc_range(&m, per);
		(void)f;
	}
	matras_destroy(&m);
	HK_CHECK(big_freed == (size_t)(big_next - mem) / e, "matras.leak",
		 "%zu extents released of %zu", big_freed,
		 (size_t)(big_next - mem) / e);
	munmap(mem, vsz);
	hk_free(at);
	hk_nontrivial();
	hk_shape(k);
	hk_shape(n3);
	HK_EV("matras_big");
	if (capacity > UINT32_MAX)
		HK_EV("matras_all_identifiers");
}

/** The touch that a deallocation does fails. */
static void
dealloc_fault_case(void)
{
	struct M *g = &arr[0];
	narr = 1;
	size_t n = rndr(1, 3 * (g->extent / g->block));
	if (n > g->a.capacity)
		n = g->a.capacity;
	while (g->m.n < n)
		do_alloc(g, 1);
	do {
		memset(g->view, 0, sizeof(g->view));
		do_view(g);
	} while (g->nview == 0);
	struct V *v = &g->view[0];
	while (!v->on)
		v++;
	/* The extents that make up the view. */
	static void *own[4096];
	size_t nown = 0;
	char ***root = v->v.root;
	size_t per3 = g->extent / g->block;
	size_t per2 = per3 * (g->extent / sizeof(void *));
	for (size_t i = 0; i < v->m.n && nown < 4000; i += per3) {
		if (i == 0)
			own[nown++] = root;
		if (i % per2 == 0)
			own[nown++] = root[i / per2];
		own[nown++] = root[i / per2][i % per2 / per3];
	}
	budget = rndn(3);
	hk_opn("dealloc", g->m.n, budget, 0, 0);
	matras_dealloc(&g->a);
	g->m.n--;
	budget = -1;
	HK_EV("matras_dealloc_fault");
	for (size_t i = 0; i < nown; i++)
		HK_CHECK(hk_imap_find(&ext, (uintptr_t)own[i]) != NULL,
			 "matras.dealloc_fault", "an extent of a view of %zu "
			 "blocks is released when the last block is "
			 "deallocated without memory", v->m.n);
	matras_id_t id;
	unsigned char *p = matras_alloc(&g->a, &id);
	if (p != NULL)
		hk_fill(p, g->block, tagseq++, 0);
	for (size_t i = 0; i < v->m.n; i++) {
		p = matras_view_get(&g->a, &v->v, i);
		HK_CHECK(hk_verify(p, g->block, v->m.tag[i], 0) < 0,
			 "matras.dealloc_fault", "block %zu of %zu of a view "
			 "has changed after the last block was deallocated "
			 "without memory", i, v->m.n);
	}
	/* Nothing else is checked: leave it. */
}

void
hk_init(void)
{
	opt_faults = hk_optl("faults", 0);
	opt_threads = hk_optl("threads", 0);
	opt_noget = hk_optl("noget", 0);
	opt_dealloc_fault = hk_optl("dealloc_fault", 0);
	hk_imap_init(&ext);
	if (opt_threads) {
		for (int i = 0; i < MAXR; i++) {
			struct R *r = &readers[i];
			pthread_mutex_init(&r->mu, NULL);
			pthread_cond_init(&r->cv, NULL);
			r->started = pthread_create(&r->t, NULL, reader,
						    r) == 0;
		}
	}
}

void
hk_case(uint64_t idx)
{
	(void)idx;
	if (hk_optl("big", 0)) {
		big_case();
		return;
	}
	budget = -1;
	nfail = ncall = 0;
	hk_imap_clear(&ext);
	tagseq = rnd();
	int le = one_in(3) ? 4 + rndn(3) : 4 + rndn(9);
	if (one_in(20))
		le = 10 + rndn(11);
	extent_size = (size_t)1 << le;
	while (npool > 0)
		free(pool[--npool]);
	matras_allocator_create(&A, extent_size, ext_alloc, ext_free);
	narr = 1 + (one_in(3) ? rndn(MAXM) : 0);
	for (int i = 0; i < narr; i++) {
		struct M *g = &arr[i];
		memset(&g->a, 0x5a, sizeof(g->a));
		g->extent = extent_size;
		g->block = (size_t)1 << (one_in(2) ? rndn(le + 1) :
					 le - rndn(le < 4 ? le : 4));
		matras_stats_create(&g->stats);
		g->own_stats = !one_in(3);
		matras_create(&g->a, g->block, &A, g->own_stats ? &g->stats :
			      NULL);
		int log = le * 3 - __builtin_ctzl(g->block) - 6;
		size_t cap = (size_t)1 << (log > 32 ? 32 : log);
		HK_CHECK(g->a.capacity == cap, "matras.capacity",
			 "%zu blocks at most, expected %zu", g->a.capacity,
			 cap);
		g->m.n = 0;
		g->gone = false;
		g->nview = 0;
		for (int k = 0; k < MAXV; k++)
			g->view[k].on = false;
		hk_op("create(array=%d extent=%zu block=%zu)", i, g->extent,
		      g->block);
	}
	if (opt_dealloc_fault) {
		dealloc_fault_case();
		hk_nontrivial();
		return;
	}
	int nops = opt_threads ? 400 : 50 + rndn(1500);
	/* Enough for a few extents of pointers when they are small. */
	size_t limit = one_in(4) ? 6000 : one_in(2) ? 600 : 60;
	size_t bytes = 1 << 20;
	int bias = rndr(30, 90), vbias = rndn(2) ? 4 : 12;
	bool views = opt_threads || !one_in(5);
	for (int i = 0; i < nops; i++) {
		if (one_in(60)) {
			bias = rndr(10, 95);
			vbias = rndr(2, 20);
		}
		struct M *g = &arr[rndn(narr)];
		int how = rndn(30);
		if (how == 0 && one_in(20)) {
			hk_opn("reset", g - arr, g->m.n, g->nview, 0);
			views_gone(g);
			matras_reset(&g->a);
			g->m.n = 0;
			HK_CHECK(matras_extent_count(&g->a) == 0,
				 "matras.leak", "%u extents after a reset",
				 matras_extent_count(&g->a));
			HK_EV("matras_reset");
		} else if (views && how < vbias / 2 + 1) {
			do_view(g);
		} else if (how < 16 && g->m.n > 0) {
			if (how == 15)
				do_touch_reserve(g);
			else if (how == 14)
				do_write(g);
			else
				do_touch(g);
		} else if ((int)rndn(100) < bias) {
			size_t r = pick_range(g);
			int burst = one_in(10) ? rndn(200) : 1;
			while (burst-- > 0 && g->m.n + r <= limit &&
			       (g->m.n + r) * g->block <= bytes) {
				do_alloc(g, r);
				if (g->m.n >= g->a.capacity && one_in(2))
					break;
			}
		} else {
			int burst = one_in(10) ? rndn(200) : 1;
			while (burst-- > 0 && g->m.n > 0) {
				size_t r = pick_range(g);
				do_dealloc(g, r);
			}
		}
		counts_ok();
		if (one_in(6))
			all_check(one_in(8) ? 300 : 12);
	}
	all_check(1000);
	for (int i = 0; i < narr; i++) {
		struct M *g = &arr[i];
		hk_shape(g->m.n);
		hk_shape(matras_extent_count(&g->a));
		if (g->m.n > 2 || g->nview > 0)
			hk_nontrivial();
		if (one_in(2)) {
			for (int k = 0; k < MAXV * 3; k++) {
				struct V *v = &g->view[rndn(MAXV)];
				if (!v->on)
					continue;
				reader_stop(v);
				check_some(g, &v->v, &v->m, "matras.view",
					   400);
				matras_destroy_read_view(&g->a, &v->v);
				v->on = false;
				g->nview--;
				counts_ok();
				check_some(g, NULL, &g->m, "matras.content",
					   200);
			}
		}
		views_gone(g);
		hk_op("destroy(array=%d blocks=%zu)", i, g->m.n);
		matras_destroy(&g->a);
		HK_CHECK(matras_extent_count(&g->a) == 0, "matras.leak",
			 "%u extents after destruction",
			 matras_extent_count(&g->a));
		HK_CHECK(!g->own_stats || (g->stats.extent_count == 0 &&
			 g->stats.read_view_extent_count == 0), "matras.stats",
			 "%u and %u extents in the statistics after "
			 "destruction", g->stats.extent_count,
			 g->stats.read_view_extent_count);
		g->m.n = 0;
		g->gone = true;
	}
	narr = 0;
	matras_allocator_destroy(&A);
	HK_CHECK(ext.count == 0, "matras.leak", "%zu extents are held after "
		 "everything was destroyed", ext.count);
	HK_EV("matras_clean");
}
