/* Monitor of the static buffer, in several threads. */
#include "hk.h"
#include <small/static.h>
#include <pthread.h>

static bool opt_huge;
enum { MAXT = 4, MAXA = 2048, SIZE = SMALL_STATIC_SIZE };

struct alloc {
	char *p;
	size_t n;
	uint64_t tag;
};

struct T {
	pthread_t t;
	hk_rng r;
	int id, nops;
	char *base;
	/** End of what is taken in this round. */
	size_t end;
	/** The allocations of this round. */
	struct alloc a[MAXA];
	int na;
	uint64_t nalloc, naligned, nwrap, nnull, nreset, ntoolarge, nreserve;
	uint64_t sig;
	pthread_barrier_t *bar;
};
static struct T th[MAXT];

static uint64_t
trn(struct T *t, uint64_t n)
{
	return n == 0 ? 0 : hk_next(&t->r) % n;
}

static void
check_all(struct T *t, bool full)
{
	for (int i = full ? 0 : t->na > 6 ? t->na - 6 : 0; i < t->na; i++) {
		ssize_t bad = hk_verify(t->a[i].p, t->a[i].n, t->a[i].tag, 0);
		HK_CHECK(bad < 0, "static.content", "byte %zd of an allocation "
			 "of %zu bytes of this round has changed", bad,
			 t->a[i].n);
	}
}

static size_t
pick_size(struct T *t)
{
	switch (trn(t, opt_huge ? 9 : 7)) {
	case 0: return trn(t, 10);
	case 1: return trn(t, 200);
	case 2: return trn(t, 3000);
	case 3: return trn(t, SIZE + 100);
	case 4: return SIZE - t->end + trn(t, 5) - 2;
	case 5: return SIZE + trn(t, 5) - 2;
	case 6: return (size_t)1 << trn(t, 14);
	case 7: return SIZE_MAX - trn(t, trn(t, 2) ? 20 : SIZE * 2);
	default: return (size_t)1 << (63 - trn(t, 50));
	}
}

/** Does the range belong to this thread's buffer and not to the round? */
static void
place(struct T *t, char *p, size_t n, size_t align, size_t need)
{
	HK_CHECK(p >= t->base && p + n <= t->base + SIZE, "static.bounds",
		 "%zu bytes at offset %zd of the buffer", n, p - t->base);
	HK_CHECK((uintptr_t)p % align == 0, "static.align", "%p is not aligned "
		 "to %zu", (void *)p, align);
	size_t off = p - t->base;
	if (off < t->end) {
		/* The next round: only if there was no room in this one. */
		HK_CHECK(t->end + need > SIZE, "static.recycled", "%zu bytes "
			 "at offset %zu of the buffer, %zu bytes were taken and "
			 "there is room for %zu", n, off, t->end, need);
		check_all(t, true);
		t->end = 0;
		t->na = 0;
		t->nwrap++;
	}
	HK_CHECK(off - t->end < align, "static.contiguous", "%zu bytes at "
		 "offset %zu, the previous allocation ended at %zu, alignment "
		 "is %zu", n, off, t->end, align);
}

static void
one_op(struct T *t)
{
	int how = trn(t, 20);
	if (how == 0) {
		check_all(t, true);
		static_reset();
		t->end = 0;
		t->na = 0;
		t->nreset++;
		return;
	}
	size_t n = pick_size(t);
	if (!opt_huge && n > (1 << 20))
		n = 1;
	size_t align = 1;
	bool aligned = how >= 10;
	if (aligned)
		align = (size_t)1 << trn(t, trn(t, 4) == 0 ? 13 : 7);
	size_t need = n + align - 1;
	bool reserve = how % 10 < 4;
	char *p;
	if (t->id == 0)
		hk_opn(reserve ? aligned ? "aligned_reserve" : "reserve" :
		       aligned ? "aligned_alloc" : "alloc", n, align, t->end,
		       0);
	if (aligned)
		p = reserve ? static_aligned_reserve(n, align) :
			      static_aligned_alloc(n, align);
	else
		p = reserve ? static_reserve(n) : static_alloc(n);
	if (p == NULL) {
		/* The gap may have to fit as well. */
		HK_CHECK(need > SIZE || need < n, "static.spurious_null",
			 "no %zu bytes aligned to %zu", n, align);
		t->nnull++;
		if (n > SIZE_MAX / 2)
			t->ntoolarge++;
		return;
	}
	HK_CHECK(n <= SIZE, "static.too_large", "%zu bytes of %d", n, SIZE);
	place(t, p, n, align, need);
	uint64_t tag = hk_next(&t->r);
	hk_fill(p, n, tag, 0);
	if (reserve) {
		/* The next allocation gets it, if it wants so much. */
		t->nreserve++;
		check_all(t, false);
		size_t k = n == 0 ? 0 : trn(t, n) + 1;
		char *q = aligned ? static_aligned_alloc(k, align) :
				    static_alloc(k);
		HK_CHECK(q == p, "static.reserve", "reserved %p, allocated %p",
			 (void *)p, (void *)q);
		n = k;
	}
	t->end = p - t->base + n;
	t->nalloc++;
	t->naligned += aligned;
	if (t->na < MAXA && n > 0) {
		t->a[t->na].p = p;
		t->a[t->na].n = n;
		t->a[t->na].tag = tag;
		t->na++;
	}
	check_all(t, trn(t, 8) == 0);
	t->sig = hk_mix(t->sig + t->end);
}

static void
run(struct T *t)
{
	static_reset();
	t->base = static_reserve(0);
	t->end = 0;
	t->na = 0;
	t->sig = 0;
	if (t->bar != NULL) {
		pthread_barrier_wait(t->bar);
		for (int i = 0; i < MAXT; i++) {
			struct T *o = &th[i];
			if (o == t || o->bar == NULL)
				continue;
			HK_CHECK(o->base + SIZE <= t->base ||
				 t->base + SIZE <= o->base, "static.threads",
				 "the buffers of two threads overlap");
		}
	}
	for (int i = 0; i < t->nops; i++)
		one_op(t);
	check_all(t, true);
	/* Nobody's memory goes before all have looked. */
	if (t->bar != NULL)
		pthread_barrier_wait(t->bar);
}

static void *
thread(void *arg)
{
	run(arg);
	return NULL;
}

void
hk_init(void)
{
	opt_huge = hk_optl("huge", 0);
}

void
hk_case(uint64_t idx)
{
	(void)idx;
	int n = one_in(3) || hk_optl("threads", 0) ? (int)rndr(2, MAXT) : 1;
	pthread_barrier_t bar;
	pthread_barrier_init(&bar, NULL, n);
	for (int i = 0; i < MAXT; i++) {
		th[i].id = i;
		th[i].r.s = rnd();
		th[i].nops = 20 + rndn(300);
		th[i].bar = n > 1 && i < n ? &bar : NULL;
		th[i].nalloc = th[i].naligned = th[i].nwrap = th[i].nnull = 0;
		th[i].nreset = th[i].ntoolarge = th[i].nreserve = 0;
	}
	if (n == 1) {
		run(&th[0]);
	} else {
		for (int i = 0; i < n; i++)
			if (pthread_create(&th[i].t, NULL, thread, &th[i]) != 0)
				hk_error("no thread");
		for (int i = 0; i < n; i++)
			pthread_join(th[i].t, NULL);
		HK_EV("static_threads");
	}
	pthread_barrier_destroy(&bar);
	for (int i = 0; i < n; i++) {
		HK_EVN("static_alloc", th[i].nalloc);
		HK_EVN("static_aligned", th[i].naligned);
		HK_EVN("static_recycled", th[i].nwrap);
		HK_EVN("static_null", th[i].nnull);
		HK_EVN("static_reset", th[i].nreset);
		HK_EVN("static_reserve", th[i].nreserve);
		HK_EVN("static_too_large", th[i].ntoolarge);
		hk_shape(th[i].sig);
	}
	hk_nontrivial();
}
