/*
 * Monitor of the whole library: allocators of every kind on shared slab
 * caches and one arena under a tight quota.
 */
#include "env.h"
#include <small/mempool.h>
#include <small/small.h>
#include <small/region.h>
#include <small/lsregion.h>
#include <small/ibuf.h>
#include <small/obuf.h>
#include <small/matras.h>

static struct env E;
static bool opt_faults;

enum kind { SLAB, POOL, SMALL, REGION, LSREGION, IBUF, OBUF, MATRAS, NKIND };
static const char *const kname[] = { "slab", "mempool", "small", "region",
	"lsregion", "ibuf", "obuf", "matras" };
enum { MAXH = 10 };

struct blk { char *p; size_t n; uint64_t tag; int64_t id; };
static struct H {
	enum kind k;
	bool on;
	int cache;
	union {
		struct mempool mp;
		struct small_alloc sa;
		struct region rg;
		struct lsregion ls;
		struct ibuf ib;
		struct obuf ob;
		struct { struct matras m; struct mempool ext; } mt;
	};
	size_t objsize, len, pos;
	uint64_t tag;
	int64_t id;
	struct blk *b;
	size_t nb, cb;
	/** Blocks of memory that buffers occupy. */
	uintptr_t iv[SMALL_OBUF_IOV_MAX + 1];
	int niv;
	struct matras_allocator ma;
} hs[MAXH];
static struct hk_imap live;
static uint64_t tagseq;

static void
claim(struct H *h, const void *p, size_t n)
{
	HK_CHECK(hk_owned(p, n), "mix.not_owned", "%s: %p of %zu bytes is not "
		 "memory that was obtained", kname[h->k], p, n);
	struct hk_iv *iv = hk_imap_overlap(&live, (uintptr_t)p, n);
	HK_CHECK(iv == NULL, "mix.overlap", "%s: block %p of %zu overlaps block "
		 "%p of %zu of a %s", kname[h->k], p, n, (void *)iv->start,
		 iv->size, kname[((struct H *)iv->data)->k]);
	hk_imap_insert(&live, (uintptr_t)p, n, 0, h);
}

static void
blk_add(struct H *h, char *p, size_t n, int64_t id)
{
	if (n == 0)
		return;
	claim(h, p, n);
	struct blk b = { p, n, tagseq++, id };
	hk_fill_sparse(p, n, b.tag);
	HK_ARRAY_PUSH(h->b, h->nb, h->cb, b);
	HK_EV("mix_alloc");
}

static void
blk_ok(struct H *h, struct blk *b)
{
	ssize_t d = hk_verify_sparse(b->p, b->n, b->tag);
	HK_CHECK(d < 0, "mix.content", "%s: byte %zd of block %p of %zu "
		 "changed", kname[h->k], d, (void *)b->p, b->n);
}

static struct blk
blk_del(struct H *h, size_t i)
{
	struct blk b = h->b[i];
	blk_ok(h, &b);
	hk_imap_remove(&live, (uintptr_t)b.p);
	/* In order. */
	memmove(h->b + i, h->b + i + 1, (h->nb - i - 1) * sizeof(*h->b));
	h->nb--;
	return b;
}

/** What buffers occupy now. */
static void
claim_buffers(struct H *h)
{
	for (int i = 0; i < h->niv; i++)
		hk_imap_remove(&live, h->iv[i]);
	h->niv = 0;
	if (h->k == IBUF && h->ib.buf != NULL && ibuf_capacity(&h->ib) > 0) {
		claim(h, h->ib.buf, ibuf_capacity(&h->ib));
		h->iv[h->niv++] = (uintptr_t)h->ib.buf;
	}
	for (int i = 0; h->k == OBUF && i < SMALL_OBUF_IOV_MAX &&
	     h->ob.iov[i].iov_base != NULL; i++) {
		claim(h, h->ob.iov[i].iov_base, h->ob.capacity[i]);
		h->iv[h->niv++] = (uintptr_t)h->ob.iov[i].iov_base;
	}
}

static void
buf_ok(struct H *h)
{
	if (h->k == IBUF) {
		HK_CHECK(ibuf_used(&h->ib) == h->len, "mix.content",
			 "ibuf: %zu bytes, expected %zu", ibuf_used(&h->ib),
			 h->len);
		ssize_t d = hk_verify(h->ib.rpos, h->len, h->tag, h->pos);
		HK_CHECK(d < 0, "mix.content", "ibuf: byte %zd of %zu changed",
			 d, h->len);
	} else if (h->k == OBUF) {
		size_t off = 0;
		for (int i = 0; i < obuf_iovcnt(&h->ob); i++) {
			struct iovec *v = &h->ob.iov[i];
			ssize_t d = hk_verify(v->iov_base, v->iov_len, h->tag,
					      off);
			HK_CHECK(d < 0, "mix.content", "obuf: byte %zd of "
				 "vector %d changed", d, i);
			off += v->iov_len;
		}
		HK_CHECK(off == h->len && obuf_size(&h->ob) == off,
			 "mix.content", "obuf: %zu bytes, expected %zu", off,
			 h->len);
	}
}

static void *
ext_alloc(struct matras_allocator *a)
{
	struct H *h = (struct H *)((char *)a - offsetof(struct H, ma));
	void *p = mempool_alloc(&h->mt.ext);
	if (p != NULL)
		claim(h, p, h->objsize);
	return p;
}

static void
ext_free(struct matras_allocator *a, void *p)
{
	struct H *h = (struct H *)((char *)a - offsetof(struct H, ma));
	HK_CHECK(hk_imap_find(&live, (uintptr_t)p) != NULL, "mix.free",
		 "matras: an extent that is not held is freed");
	hk_imap_remove(&live, (uintptr_t)p);
	mempool_free(&h->mt.ext, p);
}

static void
h_open(struct H *h)
{
	h->k = rndn(NKIND);
	h->cache = rndn(E.ncache);
	struct slab_cache *c = &E.cache[h->cache];
	h->nb = h->len = h->pos = 0;
	h->niv = 0;
	h->id = rndn(100);
	h->tag = rnd();
	h->on = true;
	hk_opn(kname[h->k], h - hs, h->cache, 0, 0);
	switch (h->k) {
	case POOL:
		h->objsize = rndlog(8, 3000);
		mempool_create(&h->mp, c, h->objsize);
		break;
	case SMALL: {
		float f;
		small_alloc_create(&h->sa, c, 8 + rndn(32), 8,
				   1.02 + rndn(90) / 100.0, &f);
		break;
	}
	case REGION:
		region_create(&h->rg, c);
		break;
	case LSREGION:
		lsregion_create(&h->ls, &E.arena);
		break;
	case IBUF:
		ibuf_create(&h->ib, c, rndlog(16, 65536));
		break;
	case OBUF:
		obuf_create(&h->ob, c, rndlog(16, 65536));
		break;
	case MATRAS:
		h->objsize = 256 << rndn(4);
		mempool_create(&h->mt.ext, c, h->objsize);
		matras_allocator_create(&h->ma, h->objsize, ext_alloc,
					ext_free);
		matras_create(&h->mt.m, 16 << rndn(3), &h->ma, NULL);
		h->len = h->mt.m.block_size;
		break;
	default:
		break;
	}
	HK_EV("mix_create");
}

static size_t
some_size(void)
{
	size_t n = one_in(20) ? rndlog(1, E.slab_size * 2) :
		   one_in(4) ? rndlog(1, 20000) : rndr(1, 400);
	return n < (2 << 20) ? n : 2 << 20;
}

static void
h_alloc(struct H *h)
{
	struct slab_cache *c = &E.cache[h->cache];
	size_t n = some_size();
	hk_opn("alloc", h - hs, h->k, n, 0);
	char *p = NULL;
	switch (h->k) {
	case SLAB: {
		struct slab *s = slab_get(c, n);
		if (s != NULL) {
			p = (char *)s + slab_sizeof();
			blk_add(h, p, slab_capacity(s), s->size);
		}
		break;
	}
	case POOL:
		p = mempool_alloc(&h->mp);
		if (p != NULL)
			blk_add(h, p, h->objsize, 0);
		break;
	case SMALL: {
		struct small_alloc_info info;
		small_alloc_info(&h->sa, NULL, n, &info);
		p = smalloc(&h->sa, n);
		if (p != NULL)
			blk_add(h, p, n, info.is_large);
		break;
	}
	case REGION: {
		size_t used = region_used(&h->rg);
		p = one_in(2) ? region_alloc(&h->rg, n) :
		    region_aligned_alloc(&h->rg, n, 1 << rndn(7));
		if (p != NULL)
			blk_add(h, p, n, used);
		else
			HK_CHECK(region_used(&h->rg) == used, "mix.accounting",
				 "region: a failed allocation counts");
		break;
	}
	case LSREGION:
		h->id += rndn(3);
		p = one_in(2) ? lsregion_alloc(&h->ls, n, h->id) :
		    lsregion_aligned_alloc(&h->ls, n, 1 << rndn(7), h->id);
		if (p != NULL)
			blk_add(h, p, n, h->id);
		break;
	case IBUF:
		if (h->len > (1 << 20)) {
			p = (void *)1;
			break;
		}
		p = ibuf_alloc(&h->ib, n);
		if (p != NULL) {
			hk_fill(p, n, h->tag, h->pos + h->len);
			h->len += n;
		}
		claim_buffers(h);
		break;
	case OBUF:
		if (h->len > (1 << 20)) {
			p = (void *)1;
			break;
		}
		if (IS_ASAN && obuf_iovcnt(&h->ob) > 100) {
			p = (void *)1;
			break;
		}
		p = obuf_alloc(&h->ob, n);
		if (p != NULL) {
			hk_fill(p, n, h->tag, h->len);
			h->len += n;
		}
		claim_buffers(h);
		break;
	case MATRAS: {
		matras_id_t id;
		p = matras_alloc(&h->mt.m, &id);
		if (p != NULL) {
			HK_CHECK(id == h->nb, "mix.matras", "identifier %u, "
				 "expected %zu", id, h->nb);
			struct blk b = { p, h->len, tagseq++, id };
			hk_fill(p, b.n, b.tag, 0);
			HK_ARRAY_PUSH(h->b, h->nb, h->cb, b);
		}
		break;
	}
	default:
		break;
	}
	if (p == NULL) {
		HK_EV("mix_null");
		if (hk_injected > 0)
			HK_EV("mix_fault");
	}
}

static void
h_free(struct H *h)
{
	struct slab_cache *c = &E.cache[h->cache];
	hk_opn("free", h - hs, h->k, h->nb, h->len);
	struct blk b;
	switch (h->k) {
	case SLAB:
		if (h->nb == 0)
			return;
		b = blk_del(h, rndn(h->nb));
		slab_put(c, (struct slab *)(b.p - slab_sizeof()));
		break;
	case POOL:
		if (h->nb > 0)
			mempool_free(&h->mp, blk_del(h, rndn(h->nb)).p);
		break;
	case SMALL:
		if (h->nb == 0)
			return;
		b = blk_del(h, rndn(h->nb));
		smfree(&h->sa, b.p, b.n);
		break;
	case REGION: {
		if (h->nb == 0)
			return;
		size_t k = one_in(5) ? rndn(h->nb) : h->nb - 1;
		int64_t used = h->b[k].id;
		while (h->nb > k)
			blk_del(h, h->nb - 1);
		region_truncate(&h->rg, used);
		HK_CHECK(region_used(&h->rg) == (size_t)used, "mix.accounting",
			 "region: %zu used, expected %zu",
			 region_used(&h->rg), (size_t)used);
		if (k == 0 && one_in(2))
			region_free(&h->rg);
		break;
	}
	case LSREGION: {
		int64_t lim = one_in(4) ? h->id : h->nb > 0 ?
			      h->b[rndn(h->nb < 30 ? h->nb : 30)].id : h->id;
		while (h->nb > 0 && h->b[0].id <= lim)
			blk_del(h, 0);
		lsregion_gc(&h->ls, lim);
		break;
	}
	case IBUF: {
		buf_ok(h);
		size_t n = one_in(3) ? h->len : rndn(h->len + 1);
		ibuf_consume(&h->ib, n);
		h->len -= n;
		h->pos += n;
		if (h->len == 0)
			h->pos = 0, ibuf_reset(&h->ib);
		if (one_in(4))
			ibuf_shrink(&h->ib);
		if (h->len == 0 && one_in(3))
			ibuf_reinit(&h->ib);
		claim_buffers(h);
		break;
	}
	case OBUF:
		buf_ok(h);
		if (h->len > 50000 || one_in(4)) {
			obuf_reset(&h->ob);
			h->len = 0;
		}
		break;
	case MATRAS:
		if (h->nb == 0)
			return;
		h->nb--;
		matras_dealloc(&h->mt.m);
		break;
	default:
		break;
	}
	HK_EV("mix_free");
}

static void
h_verify(struct H *h)
{
	if (h->k == MATRAS) {
		for (int t = 0; t < 3 && h->nb > 0; t++) {
			size_t i = rndn(h->nb);
			char *p = matras_get(&h->mt.m, i);
			ssize_t d = hk_verify(p, h->b[i].n, h->b[i].tag, 0);
			HK_CHECK(p == h->b[i].p && d < 0, "mix.content",
				 "matras: block %zu changed", i);
		}
		return;
	}
	if (h->k == IBUF || h->k == OBUF)
		buf_ok(h);
	for (int t = 0; t < 3 && h->nb > 0; t++)
		blk_ok(h, &h->b[rndn(h->nb)]);
}

static void
h_close(struct H *h)
{
	hk_opn("destroy", h - hs, h->k, h->nb, h->len);
	h_verify(h);
	switch (h->k) {
	case SLAB:
		while (h->nb > 0)
			h_free(h);
		break;
	case POOL:
		while (h->nb > 0 && (IS_ASAN || one_in(2)))
			h_free(h);
		while (h->nb > 0)
			blk_del(h, h->nb - 1);
		mempool_destroy(&h->mp);
		break;
	case SMALL:
		for (size_t i = 0; i < h->nb;) {
			if (!IS_ASAN && !h->b[i].id) {
				i++;
				continue;
			}
			struct blk b = blk_del(h, i);
			smfree(&h->sa, b.p, b.n);
		}
		while (h->nb > 0)
			blk_del(h, h->nb - 1);
		small_alloc_destroy(&h->sa);
		break;
	case REGION:
		while (h->nb > 0)
			blk_del(h, h->nb - 1);
		region_destroy(&h->rg);
		break;
	case LSREGION:
		while (h->nb > 0)
			blk_del(h, h->nb - 1);
		lsregion_destroy(&h->ls);
		break;
	case IBUF:
		buf_ok(h);
		ibuf_destroy(&h->ib);
		break;
	case OBUF:
		buf_ok(h);
		obuf_destroy(&h->ob);
		break;
	case MATRAS:
		matras_destroy(&h->mt.m);
		matras_allocator_destroy(&h->ma);
		mempool_destroy(&h->mt.ext);
		h->nb = 0;
		break;
	default:
		break;
	}
	for (int i = 0; i < h->niv; i++)
		hk_imap_remove(&live, h->iv[i]);
	h->niv = 0;
	h->on = false;
}

/** Memory obtained from the system is within the quota at every moment. */
static void
limit_check(void)
{
	if (IS_ASAN)
		return;
	struct hk_mem m = hk_mem_get();
	size_t mapped = m.mapped - E.m0.mapped, heap = m.bytes - E.m0.bytes;
	size_t used = quota_used(&E.quota);
	HK_CHECK(used <= E.total, "mix.quota", "%zu of %zu charged", used,
		 E.total);
	size_t pre = E.prealloc > E.total ? E.total : E.prealloc;
	pre = (pre + E.slab_size - 1) / E.slab_size * E.slab_size;
	HK_CHECK(mapped + heap <= E.total + pre, "mix.quota", "%zu bytes "
		 "mapped and %zu in large blocks, the quota is %zu, %zu "
		 "preallocated", mapped, heap, E.total, pre);
	HK_CHECK(heap <= used, "mix.quota", "%zu bytes in large blocks, only "
		 "%zu charged", heap, used);
	HK_CHECK(mapped <= pre + (used - heap), "mix.quota", "%zu bytes mapped "
		 "and %zu in large blocks, only %zu charged", mapped, heap,
		 used);
	HK_EV("mix_limit_check");
}

/** The cache accounts for what its users hold. */
static void
cache_check(void)
{
#ifndef ENABLE_ASAN
	size_t lo[2] = { 0, 0 };
	for (int i = 0; i < MAXH; i++) {
		struct H *h = &hs[i];
		if (!h->on)
			continue;
		size_t *l = &lo[h->cache];
		switch (h->k) {
		case SLAB:
			for (size_t k = 0; k < h->nb; k++)
				*l += h->b[k].id;
			break;
		case POOL:
			*l += mempool_total(&h->mp);
			break;
		case REGION:
			*l += region_total(&h->rg);
			break;
		case MATRAS:
			*l += mempool_total(&h->mt.ext);
			break;
		case SMALL:
			for (size_t k = 0; k < h->nb; k++)
				*l += h->b[k].n;
			break;
		default:
			for (int k = 0; k < h->niv; k++)
				*l += hk_imap_find(&live, h->iv[k])->size;
			break;
		}
	}
	for (int c = 0; c < E.ncache; c++) {
		HK_CHECK(slab_cache_used(&E.cache[c]) >= lo[c], "mix.accounting",
			 "the cache has %zu bytes in use, its users hold %zu",
			 slab_cache_used(&E.cache[c]), lo[c]);
		slab_cache_check(&E.cache[c]);
	}
	/* All the heap blocks are large ones, each charged in units. */
	struct hk_mem m = hk_mem_get();
	size_t heap = m.bytes - E.m0.bytes, n = m.blocks - E.m0.blocks;
	size_t charged = quota_used(&E.quota) - E.arena.used;
	HK_CHECK(charged >= heap && charged <= heap + n * QUOTA_UNIT_SIZE,
		 "mix.accounting", "%zu bytes charged for %zu large blocks of "
		 "%zu bytes", charged, n, heap);
	if (n > 0)
		HK_EV("mix_large");
#endif
}

void
hk_init(void)
{
	opt_faults = hk_optl("faults", 0);
	hk_imap_init(&live);
}

void
hk_case(uint64_t idx)
{
	(void)idx;
	size_t s = (size_t)65536 << rndn(4);
	size_t total = s * rndr(2, 40) + (one_in(2) ? rndn(s) : 0);
	env_create_sized(&E, s, total, one_in(3) ? s * rndn(4) : 0,
			 1 + one_in(2));
	hk_op("env(slab=%zu quota=%zu prealloc=%zu caches=%d)", E.slab_size,
	      E.total, E.prealloc, E.ncache);
	tagseq = rnd();
	size_t max = 0, bytes_max = 16 << 20;
	for (int i = 0; i < MAXH; i++)
		hs[i].on = false;
	int nh = rndr(2, MAXH);
	int nops = rndr(300, 4000);
	int bias = rndr(50, 80);
	for (int i = 0; i < nops; i++) {
		if (one_in(200)) {
			static const int b[] = { 5, 30, 50, 70, 95, 100 };
			bias = b[rndn(6)];
		}
		struct H *h = &hs[rndn(nh)];
		if (opt_faults)
			env_faults(6);
		if (!h->on)
			h_open(h);
		else if ((int)rndn(100) < bias && live.bytes < bytes_max)
			h_alloc(h);
		else
			h_free(h);
		hk_faults_off();
		limit_check();
		if (one_in(10)) {
			struct H *g = &hs[rndn(nh)];
			if (g->on)
				h_verify(g);
			cache_check();
		}
		if (one_in(400) && h->on)
			h_close(h);
		if (live.bytes > max)
			max = live.bytes;
	}
	if (max > 10000)
		hk_nontrivial();
	hk_shape(max);
	hk_shape(tagseq);
	for (int i = 0; i < nh; i++) {
		if (!hs[i].on)
			continue;
		hk_shape(hs[i].k);
		h_close(&hs[i]);
		cache_check();
	}
	HK_CHECK(live.count == 0, "mix.leak", "%zu blocks of memory left",
		 live.count);
	env_destroy(&E, "mix.leak");
}
