/*
 * Blocks of gigabytes, as they are mapped but hardly touched. Only for builds
 * without assertions, as with them whole blocks are filled when given back.
 */
#include "hk.h"
#include "env.h"
#include <sys/uio.h>
#include <small/mempool.h>
#include <small/small.h>
#include <small/region.h>
#include <small/lsregion.h>
#include <small/ibuf.h>
#include <small/obuf.h>

enum { G_SLAB, G_POOL, G_SMALL, G_REGION, G_LSREGION, G_IBUF, G_OBUF, G_MAX };

static struct env E;
static int opt_only;

struct blk { char *p; size_t n; uint64_t tag; bool on; size_t before; };
enum { MAXB = 12 };
static struct blk b[MAXB];
static int nb;

static size_t
giant(void)
{
	return one_in(4) ? ((size_t)1 << 32) + rndn(4097) - 2048 :
	       rndr((size_t)1 << 29, (size_t)5 << 30);
}

static size_t
any_size(void)
{
	return one_in(2) ? giant() : rndlog(8, 100000);
}

/** Offsets that must not be mixed up with each other. */
static size_t
spot(const struct blk *x, int i)
{
	size_t last = x->n - 8;
	switch (i) {
	case 0:
		return 0;
	case 1:
		return last;
	case 2:
		return last / 2;
	case 3:
		return x->n >> 32 ? (size_t)1 << 32 > last ? last :
		       (size_t)1 << 32 : last / 3;
	default:
		return (uint32_t)x->n > last ? last : (uint32_t)x->n & ~7ul;
	}
}

static void
add(char *p, size_t n)
{
	HK_CHECK(hk_owned(p, n), "giant.not_owned", "%p of %zu is not memory "
		 "that was obtained", (void *)p, n);
	for (int i = 0; i < nb; i++)
		HK_CHECK(!b[i].on || p + n <= b[i].p || b[i].p + b[i].n <= p,
			 "giant.overlap", "%p of %zu overlaps %p of %zu",
			 (void *)p, n, (void *)b[i].p, b[i].n);
	b[nb].p = p;
	b[nb].n = n;
	b[nb].on = true;
	b[nb].tag = rnd();
	for (int i = 0; i < 5; i++) {
		uint64_t v = hk_mix(b[nb].tag + spot(&b[nb], i));
		memcpy(p + spot(&b[nb], i), &v, 8);
	}
	nb++;
	if (n >> 32)
		HK_EV("giant_above_4g");
	HK_EV("giant_block");
}

static void
all_ok(void)
{
	for (int k = 0; k < nb; k++) {
		if (!b[k].on)
			continue;
		/* The last ones may have been written over by the others. */
		for (int i = 0; i < 5; i++) {
			size_t s = spot(&b[k], i);
			bool clash = false;
			for (int j = i + 1; j < 5; j++) {
				size_t t = spot(&b[k], j);
				clash |= s < t + 8 && t < s + 8;
			}
			uint64_t v = hk_mix(b[k].tag + s);
			HK_CHECK(clash || memcmp(b[k].p + s, &v, 8) == 0,
				 "giant.content", "%p of %zu changed at %zu",
				 (void *)b[k].p, b[k].n, s);
		}
	}
}

static size_t
room(void)
{
	return E.total - quota_used(&E.quota);
}

static void
slab_case(struct slab_cache *c)
{
	struct slab *s[MAXB];
	size_t used = 0, charge = quota_used(&E.quota);
	int n = rndr(2, 5);
	for (int i = 0; i < n; i++) {
		size_t size = giant();
		hk_op("slab_get(%zu)", size);
		s[i] = slab_get(c, size);
		HK_CHECK(s[i] != NULL, "slab.spurious_null", "%zu bytes of "
			 "quota left", room());
		HK_CHECK(slab_capacity(s[i]) >= size, "slab.capacity", "%zu of "
			 "%zu bytes", slab_capacity(s[i]), size);
		add(slab_data(s[i]), size);
		used += size + slab_sizeof();
		charge += env_charge(size + slab_sizeof());
		HK_CHECK(slab_cache_used(c) == used, "slab.used", "%zu bytes, "
			 "expected %zu", slab_cache_used(c), used);
		HK_CHECK(c->allocated.stats.total == used, "slab.used",
			 "total %zu, expected %zu", c->allocated.stats.total,
			 used);
		HK_CHECK(quota_used(&E.quota) == charge, "slab.quota", "%zu, "
			 "expected %zu", quota_used(&E.quota), charge);
		all_ok();
	}
	for (int i = 0; i < n; i++) {
		all_ok();
		b[i].on = false;
		used -= b[i].n + slab_sizeof();
		slab_put(c, s[i]);
		HK_CHECK(slab_cache_used(c) == used, "slab.used", "%zu bytes, "
			 "expected %zu", slab_cache_used(c), used);
	}
}

static void
pool_case(void)
{
	/* Here it is the slabs that are large. */
	size_t slab = (size_t)1 << rndr(28, 31);
	env_create_sized(&E, slab, QUOTA_MAX, 0, 1);
	struct mempool mp;
	memset(&mp, 0x5a, sizeof(mp));
	uint32_t size = rndlog(1 << 16, slab / 2) & ~7u;
	mempool_create_with_order(&mp, &E.cache[0], size,
				  E.cache[0].order_max);
	size_t per = slab / size - (slab % size < 256);
	int n = rndr(2, MAXB);
	hk_op("pool(slab=%zu size=%u objects=%d)", slab, size, n);
	if (slab / per * (n / per + 1) > ((size_t)16 << 30))
		n = 4;
	for (int i = 0; i < n; i++) {
		char *p = mempool_alloc(&mp);
		HK_CHECK(p != NULL, "pool.spurious_null", "object %d", i);
		add(p, size);
		HK_CHECK((uintptr_t)p % 8 == 0, "pool.alignment", "%p",
			 (void *)p);
		all_ok();
	}
	struct mempool_stats st;
	mempool_stats(&mp, &st);
	HK_CHECK(st.objcount == (uint32_t)n && st.totals.used == (size_t)n *
		 size && st.slabcount == (n + per - 1) / per &&
		 st.slabsize == slab, "pool.stats", "%u objects in %u slabs, "
		 "%zu bytes of objects", st.objcount, st.slabcount,
		 st.totals.used);
	HK_CHECK(st.totals.total <= st.slabcount * slab &&
		 st.totals.total + 1024 * st.slabcount >= st.slabcount * slab,
		 "pool.stats", "%zu bytes in %u slabs", st.totals.total,
		 st.slabcount);
	for (int i = 0; i < n; i++) {
		all_ok();
		b[i].on = false;
		mempool_free(&mp, b[i].p);
	}
	HK_CHECK(mempool_count(&mp) == 0, "pool.stats", "%zu objects left",
		 mempool_count(&mp));
	mempool_destroy(&mp);
}

static int
stats_cb(const struct mempool_stats *st, void *ctx)
{
	*(size_t *)ctx += st->totals.used;
	return 0;
}

static void
small_case(struct slab_cache *c)
{
	struct small_alloc sa;
	float actual;
	memset(&sa, 0x5a, sizeof(sa));
	small_alloc_create(&sa, c, rndr(8, 64), 8, 1.3f, &actual);
	size_t large = 0;
	for (int i = rndr(2, 8); i > 0; i--) {
		size_t size = any_size();
		hk_op("smalloc(%zu)", size);
		char *p = smalloc(&sa, size);
		HK_CHECK(p != NULL, "small.spurious_null", "%zu bytes of quota "
			 "left", room());
		add(p, size);
		if (size > 1 << 25)
			large += size + slab_sizeof();
		all_ok();
		size_t in = 0;
		struct small_stats st;
		small_stats(&sa, &st, stats_cb, &in);
		HK_CHECK(slab_cache_used(c) >= large, "small.used", "%zu bytes, "
			 "at least %zu expected", slab_cache_used(c), large);
		HK_CHECK(st.used == in, "small.stats", "%zu bytes in use, the "
			 "pools have %zu", st.used, in);
	}
	for (int i = 0; i < nb; i++) {
		all_ok();
		b[i].on = false;
		smfree(&sa, b[i].p, b[i].n);
	}
	small_alloc_destroy(&sa);
}

static void
region_case(struct slab_cache *c)
{
	struct region r;
	memset(&r, 0x5a, sizeof(r));
	region_create(&r, c);
	size_t used = 0;
	for (int i = rndr(2, 6); i > 0; i--) {
		size_t size = any_size();
		size_t before = region_used(&r);
		hk_op("region_alloc(%zu)", size);
		if (one_in(3)) {
			size_t more = any_size();
			HK_CHECK(region_reserve(&r, more) != NULL,
				 "region.spurious_null", "%zu", more);
		}
		char *p = region_alloc(&r, size);
		HK_CHECK(p != NULL, "region.spurious_null", "%zu bytes of quota "
			 "left", room());
		add(p, size);
		b[nb - 1].before = before;
		used += size;
		HK_CHECK(region_used(&r) == used, "region.used", "%zu bytes, "
			 "expected %zu", region_used(&r), used);
		HK_CHECK(region_total(&r) == slab_cache_used(c) &&
			 region_total(&r) >= used, "region.total", "%zu bytes, "
			 "the cache has %zu in use, the region %zu",
			 region_total(&r), slab_cache_used(c), used);
		all_ok();
		if (one_in(4)) {
			char *j = region_join(&r, rndr(1, size));
			HK_CHECK(j >= p && j < p + size, "region.join",
				 "%p is not within %p of %zu", (void *)j,
				 (void *)p, size);
		}
	}
	while (nb > 0) {
		int to = rndn(nb);
		hk_op("region_truncate(%zu)", b[to].before);
		region_truncate(&r, b[to].before);
		nb = to;
		HK_CHECK(region_used(&r) == b[to].before, "region.used",
			 "%zu bytes, expected %zu", region_used(&r),
			 b[to].before);
		HK_CHECK(region_total(&r) == slab_cache_used(c), "region.total",
			 "%zu bytes, the cache has %zu in use",
			 region_total(&r), slab_cache_used(c));
		all_ok();
	}
	region_destroy(&r);
}

static void
lsregion_case(void)
{
	struct lsregion l;
	memset(&l, 0x5a, sizeof(l));
	lsregion_create(&l, &E.arena);
	size_t used = 0, dumped = 0;
	int64_t id = rndn(1000), done = 0;
	struct lsregion_svp svp;
	lsregion_svp_create(&svp);
	for (int i = rndr(2, 8); i > 0; i--) {
		size_t size = any_size();
		id += rndlog(1, (size_t)1 << 40);
		hk_op("lsregion_alloc(%zu, %lld)", size, (long long)id);
		char *p = lsregion_alloc(&l, size, id);
		HK_CHECK(p != NULL, "lsregion.spurious_null", "%zu bytes of "
			 "quota left", room());
		add(p, size);
		used += size;
		HK_CHECK(lsregion_used(&l) == used, "lsregion.used", "%zu "
			 "bytes, expected %zu", lsregion_used(&l), used);
		HK_CHECK(lsregion_total(&l) >= used, "lsregion.total",
			 "%zu bytes, %zu in use", lsregion_total(&l), used);
		all_ok();
		if (one_in(2) || i == 1) {
			struct iovec v[2 * MAXB];
			int cnt = 2 * MAXB;
			int64_t max = lsregion_to_iovec(&l, v, &cnt, &svp);
			HK_CHECK(max == id, "lsregion.dump_id", "%lld, "
				 "expected %lld", (long long)max,
				 (long long)id);
			int k = 0;
			while (done < nb) {
				size_t have = 0;
				HK_CHECK(k < cnt, "lsregion.dump", "%d vectors "
					 "are not all", cnt);
				while (have < v[k].iov_len) {
					HK_CHECK(done < nb &&
						 (char *)v[k].iov_base + have ==
						 b[done].p, "lsregion.dump",
						 "vector %d of %zu bytes is not "
						 "what was allocated", k,
						 v[k].iov_len);
					have += b[done].n;
					done++;
				}
				HK_CHECK(have == v[k].iov_len, "lsregion.dump",
					 "a vector of %zu bytes, expected %zu",
					 v[k].iov_len, have);
				dumped += have;
				k++;
			}
			HK_CHECK(k == cnt && dumped == used, "lsregion.dump",
				 "%zu of %zu bytes", dumped, used);
			HK_EV("giant_dump");
		}
	}
	lsregion_gc(&l, id);
	HK_CHECK(lsregion_used(&l) == 0 && lsregion_total(&l) <= E.slab_size,
		 "lsregion.used", "%zu bytes of %zu after a collection",
		 lsregion_used(&l), lsregion_total(&l));
	lsregion_destroy(&l);
}

static void
ibuf_case(struct slab_cache *c)
{
	struct ibuf ib;
	memset(&ib, 0x5a, sizeof(ib));
	ibuf_create(&ib, c, rndlog(1, 1 << 20));
	char m[1000];
	size_t n = rndn(sizeof(m));
	hk_fill(m, sizeof(m), rnd(), 0);
	if (n > 0)
		memcpy(ibuf_alloc(&ib, n), m, n);
	size_t size = giant(), part;
	hk_op("ibuf_reserve(%zu) with %zu", size, n);
	char *p = ibuf_reserve(&ib, size);
	HK_CHECK(p != NULL, "ibuf.spurious_null", "%zu bytes of quota left",
		 room());
	HK_CHECK(p == ib.wpos && ibuf_unused(&ib) >= size &&
		 ibuf_used(&ib) == n && memcmp(ib.rpos, m, n) == 0,
		 "ibuf.reserve", "%zu bytes of room", ibuf_unused(&ib));
	HK_CHECK(ibuf_capacity(&ib) >= size + n && slab_cache_used(c) >=
		 ibuf_capacity(&ib), "ibuf.capacity", "%zu",
		 ibuf_capacity(&ib));
	part = rndr(size / 2, size);
	HK_CHECK(ibuf_alloc(&ib, part) == p, "ibuf.alloc", "reserved memory "
		 "was not used");
	add(p, part);
	HK_CHECK(ibuf_used(&ib) == n + part, "ibuf.used", "%zu, expected %zu",
		 ibuf_used(&ib), n + part);
	HK_CHECK(memcmp(ib.rpos, m, n) == 0, "ibuf.content", "changed");
	all_ok();
	/* Consume most of it; what is left is moved by the next one. */
	size_t cut = rndn(500), left = rndr(8, 100000);
	ibuf_discard(&ib, cut);
	size_t eat = ibuf_used(&ib) - left;
	memcpy(m, p + part - cut - 8, 8);
	ibuf_consume(&ib, eat);
	HK_CHECK(ibuf_used(&ib) == left && memcmp(ib.wpos - 8, m, 8) == 0,
		 "ibuf.content", "%zu bytes, expected %zu", ibuf_used(&ib),
		 left);
	size_t cap = ibuf_capacity(&ib);
	nb = 0;
	size = one_in(2) ? cap - left : giant();
	hk_op("ibuf_reserve(%zu) with %zu in %zu", size, left, cap);
	p = ibuf_reserve(&ib, size);
	HK_CHECK(p != NULL && ibuf_unused(&ib) >= size, "ibuf.reserve",
		 "%zu bytes of room", ibuf_unused(&ib));
	HK_CHECK(ibuf_used(&ib) == left && memcmp(ib.wpos - 8, m, 8) == 0,
		 "ibuf.content", "%zu bytes, expected %zu", ibuf_used(&ib),
		 left);
	if (size <= cap - left)
		HK_CHECK(ibuf_capacity(&ib) == cap, "ibuf.growth", "%zu bytes "
			 "became %zu", cap, ibuf_capacity(&ib));
	add(p, size);
	all_ok();
	ibuf_shrink(&ib);
	HK_CHECK(ibuf_capacity(&ib) <= cap + size && memcmp(ib.wpos - 8, m, 8)
		 == 0 && ibuf_used(&ib) == left, "ibuf.shrink",
		 "%zu bytes, expected %zu", ibuf_used(&ib), left);
	nb = 0;
	ibuf_destroy(&ib);
}

static void
obuf_case(struct slab_cache *c)
{
	static struct obuf o;
	memset(&o, 0x5a, sizeof(o));
	obuf_create(&o, c, rndlog(8, 1 << 16));
	size_t used = 0;
	struct obuf_svp svp[MAXB];
	for (int i = rndr(2, 6); i > 0; i--) {
		size_t size = any_size();
		size_t before = obuf_size(&o);
		hk_op("obuf_alloc(%zu)", size);
		svp[nb] = obuf_create_svp(&o);
		char *p = obuf_alloc(&o, size);
		HK_CHECK(p != NULL, "obuf.spurious_null", "%zu bytes of quota "
			 "left", room());
		add(p, size);
		b[nb - 1].before = before;
		used += size;
		size_t sum = 0;
		for (int k = 0; k < obuf_iovcnt(&o); k++)
			sum += o.iov[k].iov_len;
		HK_CHECK(obuf_size(&o) == used && sum == used, "obuf.size",
			 "%zu bytes in vectors of %zu, expected %zu",
			 obuf_size(&o), sum, used);
		all_ok();
	}
	while (nb > 0) {
		int to = rndn(nb);
		size_t at = svp[to].used;
		hk_op("obuf_rollback_to_svp(%zu)", at);
		HK_CHECK(at == b[to].before, "obuf.savepoint", "%zu, expected "
			 "%zu", at, b[to].before);
		obuf_rollback_to_svp(&o, &svp[to]);
		nb = to;
		size_t sum = 0;
		for (int k = 0; k < obuf_iovcnt(&o); k++)
			sum += o.iov[k].iov_len;
		HK_CHECK(obuf_size(&o) == at && sum == at, "obuf.size", "%zu "
			 "bytes in vectors of %zu, expected %zu",
			 obuf_size(&o), sum, at);
		all_ok();
	}
	obuf_destroy(&o);
}

void
hk_init(void)
{
	opt_only = hk_optl("only", -1);
}

void
hk_case(uint64_t idx)
{
	(void)idx;
	int what = opt_only >= 0 ? opt_only : (int)rndn(G_MAX);
	nb = 0;
	hk_malloc_max = (size_t)1 << 36;
	if (what == G_POOL) {
		pool_case();
	} else {
		env_create_sized(&E, (size_t)65536 << rndn(7), QUOTA_MAX,
				 one_in(2) ? 1 << 20 : 0, 1);
		struct slab_cache *c = &E.cache[0];
		switch (what) {
		case G_SLAB: slab_case(c); break;
		case G_SMALL: small_case(c); break;
		case G_REGION: region_case(c); break;
		case G_LSREGION: lsregion_case(); break;
		case G_IBUF: ibuf_case(c); break;
		default: obuf_case(c); break;
		}
		HK_CHECK(slab_cache_used(c) == 0, "giant.leak", "%zu bytes "
			 "are in use", slab_cache_used(c));
	}
	env_destroy(&E, "giant.leak");
	hk_faults_off();
	hk_nontrivial();
	hk_shape(what);
	hk_shape(rnd());
}
