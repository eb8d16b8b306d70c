/*
 * Monitor of the build for Valgrind, run under memcheck: what memcheck thinks
 * of the bytes of live and of given back memory, after every operation; that
 * it reports nothing as long as memory is used as it should be; that it reports
 * an object given back twice; which blocks it knows of.
 *
 * Not what it counts as leaked: blocks inside of blocks are counted in ways of
 * its own, and a leak check in the presence of such blocks may end with an
 * assertion of memcheck itself.
 */
#include "env.h"
#include <small/mempool.h>
#include <small/small.h>
#include <small/region.h>
#include <small/lsregion.h>
#include <small/ibuf.h>
#include <small/obuf.h>
#include <sys/wait.h>
#include <unistd.h>
#ifdef NVALGRIND
#error "for the build with support for Valgrind only"
#endif
#include <valgrind/memcheck.h>

enum { NPOOL = 3, MAXOBJ = 200, MAXDEAD = 64, NREG = 2 };
enum kind { POOL, SMALL, SLAB, ARENA };

struct obj { char *p; size_t n; enum kind kind; int who; uint64_t tag; };

static struct env e;
static struct mempool pool[NPOOL];
static struct slab_cache *pool_cache[NPOOL];
static struct small_alloc sa;
static struct region reg[NREG];
static struct lsregion ls;
static struct ibuf ibuf;
static struct obuf obuf;
static struct obj o[MAXOBJ];
static int no;
static size_t reg_used[NREG];
/** Blocks of the regions. */
static struct obj rb[NREG][MAXOBJ];
static int nrb[NREG];
static struct obj lb[MAXOBJ];
static int nlb;
static int64_t ls_id;
/** Objects given back to a pool whose slab has been in use ever since. */
static struct { char *p; int who; } dead[MAXDEAD];
static int ndead;

/* ---- what memcheck thinks --------------------------------------------- */
static unsigned char bits[4096];

static bool
addressable(const void *p)
{
	return VALGRIND_GET_VBITS(p, bits, 1) == 1;
}

/** Offset of a byte that may not be accessed, or of one that is defined. */
static ssize_t
find(const char *p, size_t n, bool undefined)
{
	for (size_t i = 0; i < n;) {
		size_t k = n - i < sizeof(bits) ? n - i : sizeof(bits);
		if (n > 4 * sizeof(bits) && i > 0 && i + k < n) {
			/* Somewhere in the middle of a large block. */
			i = n - sizeof(bits);
			k = sizeof(bits);
		}
		if (VALGRIND_GET_VBITS(p + i, bits, k) != 1) {
			size_t j = 0;
			while (j + 1 < k && addressable(p + i + j))
				j++;
			return i + j;
		}
		for (size_t j = 0; undefined && j < k; j++)
			if (bits[j] != 0xff)
				return i + j;
		i += k;
	}
	return -1;
}

static void
live(const char *what, const void *p, size_t n)
{
	ssize_t at = find(p, n, false);
	HK_CHECK(at < 0, "vg.live", "%s: byte %zd of the %zu at %p must not be "
		 "accessed", what, at, n, p);
	HK_EV("vg_live");
}

static void
fresh(const char *what, const void *p, size_t n)
{
	live(what, p, n);
	ssize_t at = find(p, n, true);
	HK_CHECK(at < 0, "vg.defined", "%s: byte %zd of the %zu at %p, which "
		 "nobody has written to, passes for defined", what, at, n, p);
	HK_EV("vg_undefined");
}

/** None of the bytes can be accessed. */
static void
gone(const char *what, const char *p, size_t n)
{
	if (n == 0)
		return;
	size_t off[4] = { 0, n - 1, n / 2, rndn(n) };
	for (int i = 0; i < 4; i++)
		HK_CHECK(!addressable(p + off[i]), "vg.dead", "%s: byte %zu of "
			 "the %zu at %p may still be accessed", what, off[i],
			 n, p);
	HK_EV("vg_dead");
}

static unsigned long errors;

static void
quiet(void)
{
	unsigned long n = VALGRIND_COUNT_ERRORS;
	HK_CHECK(n == errors, "vg.report", "%lu reports although everything "
		 "is used as it should be", n - errors);
	HK_EV("vg_quiet");
}

/** The function must make memcheck report something. */
static void
reported(const char *what, void (*f)(struct obj *), struct obj *x)
{
	fflush(NULL);
	pid_t pid = fork();
	if (pid < 0)
		hk_error("fork");
	if (pid == 0) {
		unsigned long n = VALGRIND_COUNT_ERRORS;
		f(x);
		_exit(VALGRIND_COUNT_ERRORS > n ? 42 : 43);
	}
	int st;
	if (waitpid(pid, &st, 0) != pid)
		hk_error("waitpid");
	/* Anything else: memcheck itself, or the library, did not survive. */
	HK_CHECK(!WIFEXITED(st) || WEXITSTATUS(st) != 43, "vg.silent",
		 "%s is not reported", what);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 42)
		HK_EV("vg_misuse");
	else
		HK_EV("vg_no_answer");
}

/**
 * Whether memcheck has blocks at these addresses, of these sizes (0: no matter)
 * that nobody has freed. A child tries to free them.
 */
struct known { char *p; size_t n; };
static struct known kn[2 * MAXOBJ + NREG * MAXOBJ];
static int nkn;

static void
known(const char *what, bool yes)
{
	if (nkn == 0)
		return;
	fflush(NULL);
	int fd[2];
	if (pipe(fd) != 0)
		hk_error("pipe");
	pid_t pid = fork();
	if (pid < 0)
		hk_error("fork");
	if (pid == 0) {
		/* What it writes of its expected reports is of no use. */
		int bad = -1, why = 0;
		for (int i = 0; i < nkn && bad < 0; i++) {
			char *p = kn[i].p;
			unsigned long n = VALGRIND_COUNT_ERRORS;
			bool edge = kn[i].n > 0 && addressable(p + kn[i].n);
			VALGRIND_FREELIKE_BLOCK(p, 0);
			if ((VALGRIND_COUNT_ERRORS == n) != yes)
				bad = i, why = 1;
			else if (yes && kn[i].n > 0 &&
				 (addressable(p + kn[i].n - 1) ||
				  addressable(p + kn[i].n) != edge))
				bad = i, why = 2;
		}
		int res[2] = { bad, why };
		_exit(write(fd[1], res, sizeof(res)) != sizeof(res));
	}
	int st, res[2];
	close(fd[1]);
	bool answer = read(fd[0], res, sizeof(res)) == sizeof(res);
	close(fd[0]);
	if (waitpid(pid, &st, 0) != pid)
		hk_error("waitpid");
	if (!answer) {
		HK_EV("vg_no_answer");
		nkn = 0;
		return;
	}
	HK_CHECK(res[0] < 0, "vg.known", "%s: the block of %zu at %p is %s",
		 what, kn[res[0]].n, kn[res[0]].p, res[1] == 2 ?
		 "known with another size" : yes ? "not known" : "not freed");
	if (yes)
		HK_EVN("vg_known", nkn);
	else
		HK_EVN("vg_freed", nkn);
	nkn = 0;
}

static void
ask(char *p, size_t n)
{
	kn[nkn++] = (struct known){ p, n };
}

/* ---- the history ------------------------------------------------------ */
static uint64_t tags;

static struct obj *
add(char *p, size_t n, enum kind kind, int who)
{
	struct obj *x = &o[no++];
	*x = (struct obj){ p, n, kind, who, hk_mix(hk_case_seed + tags++) };
	hk_fill_sparse(p, n, x->tag);
	return x;
}

static void
verify(struct obj *x)
{
	live("an object", x->p, x->n);
	HK_CHECK(hk_verify_sparse(x->p, x->n, x->tag) < 0, "vg.content",
		 "%p has changed", x->p);
}

static char *
mslab_of(int who, char *p)
{
	return (char *)((uintptr_t)p & pool[who].slab_ptr_mask);
}

static void
double_free(struct obj *x)
{
	if (x->kind == POOL) {
		mempool_free(&pool[x->who], x->p);
		mempool_free(&pool[x->who], x->p);
	} else {
		smfree(&sa, x->p, x->n);
		smfree(&sa, x->p, x->n);
	}
}

static void
use_freed(struct obj *x)
{
	if (x->kind == POOL)
		mempool_free(&pool[x->who], x->p);
	else
		smfree(&sa, x->p, x->n);
	((volatile char *)x->p)[x->n - 1] = 1;
}

static void
use_unset(struct obj *x)
{
	volatile char *p;
	if (x->kind == POOL) {
		mempool_free(&pool[x->who], x->p);
		p = mempool_alloc(&pool[x->who]);
	} else {
		smfree(&sa, x->p, x->n);
		p = smalloc(&sa, x->n);
	}
	if (p == NULL)
		_exit(44);
	if (p[x->n - 1] == 7)
		HK_EV("vg_unset");
}

/** Others of its slab are in use. */
static bool
has_neighbour(struct obj *x)
{
	for (int i = 0; i < no; i++)
		if (&o[i] != x && o[i].kind == POOL && x->kind == POOL &&
		    o[i].who == x->who &&
		    mslab_of(x->who, o[i].p) == mslab_of(x->who, x->p))
			return true;
	return false;
}

static void
del(int i)
{
	struct obj x = o[i];
	verify(&x);
	bool more = has_neighbour(&x);
	bool misuse = x.kind == POOL && x.n > 8 && more && one_in(40);
	misuse = misuse || (x.kind == SMALL && x.n > 8 && x.n < 2000 &&
			    one_in(60));
	if (misuse) {
		if (x.kind == POOL)
			reported("an object freed twice", double_free, &x);
		reported("a write to a freed object", use_freed, &x);
		reported("a use of what was never written", use_unset, &x);
	}
	o[i] = o[--no];
	size_t keep = sizeof(void *);
	switch (x.kind) {
	case POOL:
		hk_opn("mempool_free", x.who, x.n, (uintptr_t)x.p, 0);
		mempool_free(&pool[x.who], x.p);
		if (more && x.n > keep) {
			int d = ndead < MAXDEAD ? ndead++ : (int)rndn(MAXDEAD);
			dead[d].p = x.p;
			dead[d].who = x.who;
		}
		/* No other object: the slab may serve others from now on. */
		for (int d = 0; d < ndead && !more;)
			if (dead[d].who == x.who &&
			    mslab_of(x.who, dead[d].p) ==
			    mslab_of(x.who, x.p))
				dead[d] = dead[--ndead];
			else
				d++;
		break;
	case SMALL:
		hk_opn("smfree", x.n, (uintptr_t)x.p, 0, 0);
		smfree(&sa, x.p, x.n);
		break;
	case SLAB:
		hk_opn("slab_put", x.who, x.n, (uintptr_t)x.p, 0);
		slab_put(&e.cache[x.who], slab_from_data(x.p));
		keep = 0;
		break;
	case ARENA:
		hk_opn("slab_unmap", (uintptr_t)x.p, 0, 0, 0);
		slab_unmap(&e.arena, x.p);
		/* The link of the list. */
		HK_CHECK(find(x.p, keep, false) < 0, "vg.link", "the link of a "
			 "slab cannot be accessed");
	}
	if (x.n > keep)
		gone("given back", x.p + keep, x.n - keep);
}

static void
check_dead(void)
{
	for (int d = 0; d < ndead;) {
		char *p = dead[d].p;
		size_t n = pool[dead[d].who].objsize;
		bool reused = false;
		for (int i = 0; i < no && !reused; i++)
			reused = o[i].p == p;
		if (reused) {
			dead[d] = dead[--ndead];
			continue;
		}
		gone("a free object of a slab in use", p + sizeof(void *),
		     n - sizeof(void *));
		HK_EV("vg_dead_later");
		d++;
	}
}

static void
do_alloc(void)
{
	if (no == MAXOBJ)
		return;
	size_t n;
	char *p;
	int who;
	switch (rndn(8)) {
	case 0: case 1: case 2:
		who = rndn(NPOOL);
		p = mempool_alloc(&pool[who]);
		hk_opn("mempool_alloc", who, (uintptr_t)p, 0, 0);
		if (p == NULL)
			return;
		n = pool[who].objsize;
		fresh("mempool_alloc", p, n);
		add(p, n, POOL, who);
		break;
	case 3: case 4: case 5:
		n = one_in(20) ? rndedge(1, 200000) : rndedge(1, 3000);
		p = smalloc(&sa, n);
		hk_opn("smalloc", n, (uintptr_t)p, 0, 0);
		if (p == NULL)
			return;
		fresh("smalloc", p, n);
		add(p, n, SMALL, 0);
		break;
	case 6:
		n = one_in(4) ? rndedge(1, 300000) : rndedge(1, 20000);
		who = rndn(e.ncache);
		struct slab *s = slab_get(&e.cache[who], n);
		hk_opn("slab_get", who, n, (uintptr_t)s, 0);
		if (s == NULL)
			return;
		n = slab_capacity(s);
		fresh("slab_get", slab_data(s), n);
		add(slab_data(s), n, SLAB, who);
		break;
	default:
		p = slab_map(&e.arena);
		hk_opn("slab_map", (uintptr_t)p, 0, 0, 0);
		if (p == NULL)
			return;
		fresh("slab_map", p, e.slab_size);
		add(p, e.slab_size, ARENA, 0);
	}
}

/** Allocators that come and go. */
static void
do_tour(void)
{
	struct slab_cache *c = &e.cache[rndn(e.ncache)];
	int n = rndn(30), what = rndn(5);
	switch (what) {
	case 0: {
		struct mempool mp;
		mempool_create(&mp, c, rndedge(8, 2000));
		while (n-- > 0)
			mempool_alloc(&mp);
		mempool_destroy(&mp);
		break;
	}
	case 1: {
		struct small_alloc s;
		float f;
		small_alloc_create(&s, c, 16, 8, 1.3, &f);
		/* Not those that are no objects of a pool. */
		while (n-- > 0)
			smalloc(&s, rndr(1, s.objsize_max < 1000 ?
					 s.objsize_max : 1000));
		small_alloc_destroy(&s);
		break;
	}
	case 2: {
		struct region r;
		region_create(&r, c);
		while (n-- > 0) {
			size_t used = region_used(&r);
			region_alloc(&r, rndr(1, 2000));
			if (one_in(8))
				region_truncate(&r, used);
			if (one_in(20))
				region_free(&r);
		}
		region_destroy(&r);
		break;
	}
	case 3: {
		struct ibuf b;
		ibuf_create(&b, c, 100);
		while (n-- > 0)
			ibuf_alloc(&b, rndr(1, 500));
		ibuf_destroy(&b);
		break;
	}
	default: {
		struct obuf b;
		obuf_create(&b, c, 100);
		while (n-- > 0)
			obuf_alloc(&b, rndr(1, 500));
		obuf_destroy(&b);
	}
	}
	HK_EV("vg_tour");
}

static void
do_region(void)
{
	int w = rndn(NREG);
	struct region *r = &reg[w];
	for (int i = 0; i < nrb[w]; i++)
		verify(&rb[w][i]);
	if (nrb[w] < MAXOBJ && rndn(4) > 0) {
		size_t n = one_in(10) ? rndedge(1, 100000) : rndedge(1, 3000);
		size_t total = region_total(r);
		char *p = region_alloc(r, n);
		hk_opn("region_alloc", w, n, (uintptr_t)p, 0);
		if (p == NULL)
			return;
		bool first = region_total(r) > total;
		if (first)
			fresh("region_alloc", p, n);
		else
			live("region_alloc", p, n);
		uint64_t tag = hk_mix(hk_case_seed + tags++);
		hk_fill_sparse(p, n, tag);
		/* The block is all of the slab. */
		struct rslab *s = rlist_first_entry(&r->slabs.slabs,
						    struct rslab,
						    slab.next_in_list);
		int whole = first ? s->slab.size - rslab_sizeof() : 0;
		rb[w][nrb[w]++] = (struct obj){ p, n, POOL, whole, tag };
		reg_used[w] += n;
	} else if (one_in(3)) {
		hk_opn("region_free", w, 0, 0, 0);
		region_free(r);
		for (int i = 0; i < nrb[w]; i++)
			gone("freed with the region", rb[w][i].p,
			     rb[w][i].n);
		nrb[w] = 0;
		reg_used[w] = 0;
		HK_EV("vg_region_free");
	} else if (nrb[w] > 0) {
		int keep = rndn(nrb[w]);
		size_t total = region_total(r);
		while (nrb[w] > keep) {
			struct obj *x = &rb[w][--nrb[w]];
			reg_used[w] -= x->n;
			hk_opn("region_truncate", w, reg_used[w], 0, 0);
			region_truncate(r, reg_used[w]);
			/* It had slabs of its own, or the rest of one. */
			if (region_total(r) < total &&
			    !addressable(x->p)) {
				gone("cut off", x->p, x->n);
				HK_EV("vg_region_cut");
			}
			total = region_total(r);
		}
	}
}

static void
do_ls(void)
{
	for (int i = 0; i < nlb; i++)
		verify(&lb[i]);
	if (nlb < MAXOBJ && rndn(4) > 0) {
		size_t n = one_in(10) ? rndedge(1, 200000) : rndedge(1, 5000);
		char *p = lsregion_alloc(&ls, n, ls_id++);
		hk_opn("lsregion_alloc", n, (uintptr_t)p, 0, 0);
		if (p == NULL)
			return;
		live("lsregion_alloc", p, n);
		uint64_t tag = hk_mix(hk_case_seed + tags++);
		hk_fill_sparse(p, n, tag);
		lb[nlb++] = (struct obj){ p, n, POOL, 0, tag };
		/* Those that failed have no number. */
		lb[nlb - 1].who = ls_id - 1;
	} else if (nlb > 0) {
		int n = rndn(nlb) + 1;
		hk_opn("lsregion_gc", lb[n - 1].who, 0, 0, 0);
		lsregion_gc(&ls, lb[n - 1].who);
		memmove(lb, lb + n, (nlb - n) * sizeof(*lb));
		nlb -= n;
		HK_EV("vg_ls_gc");
	}
}

static void
do_bufs(void)
{
	size_t n = rndedge(1, 30000);
	if (one_in(2)) {
		char *p = ibuf_alloc(&ibuf, n);
		hk_opn("ibuf_alloc", n, (uintptr_t)p, 0, 0);
		if (p != NULL) {
			live("ibuf_alloc", p, n);
			hk_fill(p, n, 1, 0);
		}
		live("ibuf", ibuf.rpos, ibuf.wpos - ibuf.rpos);
		if (one_in(3))
			ibuf_consume(&ibuf, rndn(ibuf_used(&ibuf) + 1));
		if (one_in(10)) {
			char *b = ibuf.buf;
			ibuf_reinit(&ibuf);
			if (b != NULL)
				gone("freed with a buffer", b, 16);
			HK_EV("vg_ibuf_reinit");
		}
	} else {
		char *p = obuf_alloc(&obuf, n);
		hk_opn("obuf_alloc", n, (uintptr_t)p, 0, 0);
		if (p != NULL) {
			live("obuf_alloc", p, n);
			hk_fill(p, n, 2, 0);
		}
		for (int i = 0; i < obuf_iovcnt(&obuf); i++)
			live("obuf", obuf.iov[i].iov_base,
			     obuf.iov[i].iov_len);
		if (obuf_size(&obuf) > 200000 || one_in(15)) {
			char *b = obuf.iov[0].iov_base;
			obuf_destroy(&obuf);
			if (b != NULL)
				gone("freed with a buffer", b, 16);
			obuf_create(&obuf, &e.cache[0], rndr(16, 20000));
			HK_EV("vg_obuf_destroy");
		}
	}
}

void
hk_init(void)
{
	if (!RUNNING_ON_VALGRIND)
		hk_error("not under Valgrind");
}

void
hk_case(uint64_t idx)
{
	(void)idx;
	errors = VALGRIND_COUNT_ERRORS;
	env_create(&e, 0);
	float f;
	small_alloc_create(&sa, &e.cache[rndn(e.ncache)], rndr(8, 64),
			   8 << rndn(2), 1.05 + rndn(10) / 10., &f);
	for (int i = 0; i < NPOOL; i++) {
		pool_cache[i] = &e.cache[rndn(e.ncache)];
		mempool_create(&pool[i], pool_cache[i], rndedge(8, 3000));
	}
	for (int i = 0; i < NREG; i++) {
		region_create(&reg[i], &e.cache[rndn(e.ncache)]);
		nrb[i] = reg_used[i] = 0;
	}
	lsregion_create(&ls, &e.arena);
	ls_id = 1;
	nlb = no = ndead = 0;
	ibuf_create(&ibuf, &e.cache[0], rndr(1, 20000));
	obuf_create(&obuf, &e.cache[0], rndr(16, 20000));
	quiet();
	int nops = rndr(50, 500), weight = rndr(1, 9);
	for (int i = 0; i < nops; i++) {
		if (one_in(200))
			weight = rndr(1, 9);
		int k = rndn(12);
		if (one_in(15)) {
			do_tour();
			quiet();
		}
		if (k == 0)
			do_region();
		else if (k == 1)
			do_ls();
		else if (k == 2)
			do_bufs();
		else if (no == 0 || (int)rndn(10) < weight)
			do_alloc();
		else
			del(rndn(no));
		if (one_in(16))
			check_dead();
		quiet();
	}
	check_dead();
	for (int i = 0; i < no; i++)
		verify(&o[i]);
	hk_shape(no);
	hk_shape(quota_used(&e.quota));
	/* Which blocks are known. */
	if (one_in(3)) {
		for (int i = 0; i < no; i++)
			if (o[i].kind == POOL)
				ask(o[i].p, o[i].n);
			else if (o[i].kind == SMALL &&
				 o[i].n <= sa.objsize_max)
				ask(o[i].p, 0);
		for (int i = 0; i < NREG; i++)
			for (int k = 0; k < nrb[i]; k++)
				if (rb[i][k].who > 0)
					ask(rb[i][k].p, rb[i][k].who);
		known("in use", true);
	}
	/* All, some or nothing is given back; the rest goes with its owner. */
	int rest = one_in(3) ? 0 : one_in(2) ? no : (int)rndn(no + 1);
	while (no > rest)
		del(rndn(no));
	for (int i = 0; i < no;)
		if (o[i].kind >= SLAB ||
		    (o[i].kind == SMALL && o[i].n > sa.objsize_max))
			del(i);
		else
			i++;
	quiet();
	for (int i = 0; i < NPOOL; i++)
		mempool_destroy(&pool[i]);
	small_alloc_destroy(&sa);
	for (int i = 0; i < no; i++)
		gone("destroyed with its owner", o[i].p, o[i].n);
	for (int i = 0; i < NREG; i++) {
		region_destroy(&reg[i]);
		for (int k = 0; k < nrb[i]; k++)
			gone("destroyed with the region", rb[i][k].p,
			     rb[i][k].n);
	}
	for (int i = 0; i < no; i++)
		ask(o[i].p, 0);
	for (int i = 0; i < NREG; i++)
		for (int k = 0; k < nrb[i]; k++)
			ask(rb[i][k].p, 0);
	if (one_in(3))
		known("destroyed", false);
	nkn = 0;
	lsregion_destroy(&ls);
	for (int k = 0; k < nlb; k++)
		gone("destroyed with the lsregion", lb[k].p, lb[k].n);
	ibuf_destroy(&ibuf);
	obuf_destroy(&obuf);
	quiet();
	env_destroy(&e, "vg.leak");
	quiet();
	hk_nontrivial();
}
