#define _GNU_SOURCE
#include "hk.h"
#ifdef HK_VALGRIND
#include <valgrind/memcheck.h>
#endif
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>

hk_rng hk_r;
uint64_t hk_case_seed, hk_case_idx, hk_ops;

uint64_t
rndlog(uint64_t a, uint64_t b)
{
	if (a >= b)
		return a;
	int la = 63 - __builtin_clzll(a | 1), lb = 63 - __builtin_clzll(b | 1);
	int k = la + rndn(lb - la + 1);
	uint64_t v = (1ULL << k) + (k ? rndn(1ULL << k) : 0);
	return v < a ? a : v > b ? b : v;
}

uint64_t
rndedge(uint64_t a, uint64_t b)
{
	uint64_t v;
	switch (rndn(8)) {
	case 0:
		return a;
	case 1:
		return b;
	case 2: case 3: case 4: {
		v = rndlog(a, b);
		v = 1ULL << (63 - __builtin_clzll(v | 1));
		v += (int64_t)rndn(5) - 2;
		return v < a || v > b ? rndr(a, b) : v;
	}
	default:
		return rndlog(a, b);
	}
}

/* ---- reporting -------------------------------------------------------- */
#define RING 64
static struct { char text[152]; } hk_ring[RING];
static unsigned hk_ring_pos;
static const char *hk_out_path;
static const char *hk_viol_path;
/** Shared status page: survives a crash. */
struct hk_status {
	uint64_t magic, idx, seed, ops, pos;
	char ring[RING][152];
};
static struct hk_status *hk_st;

void
hk_op(const char *fmt, ...)
{
	va_list ap;
	char *t = hk_st ? hk_st->ring[hk_ring_pos % RING] :
			  hk_ring[hk_ring_pos % RING].text;
	va_start(ap, fmt);
	vsnprintf(t, 152, fmt, ap);
	va_end(ap);
	hk_ring_pos++;
	hk_ops++;
	if (hk_st) {
		hk_st->pos = hk_ring_pos;
		hk_st->ops = hk_ops;
	}
}

void
hk_opn(const char *name, uint64_t a, uint64_t b, uint64_t c, uint64_t d)
{
	char *t = hk_st ? hk_st->ring[hk_ring_pos % RING] :
			  hk_ring[hk_ring_pos % RING].text;
	/* Binary form: a zero byte, the name, four numbers. */
	t[0] = 1;
	size_t n = strlen(name);
	if (n > 100)
		n = 100;
	memcpy(t + 1, name, n);
	t[1 + n] = 0;
	uint64_t v[4] = { a, b, c, d };
	memcpy(t + 112, v, 32);
	hk_ring_pos++;
	hk_ops++;
	if (hk_st) {
		hk_st->pos = hk_ring_pos;
		hk_st->ops = hk_ops;
	}
}

struct hk_cnt { const char *name; uint64_t v; };
static struct hk_cnt hk_cnts[512];
static int hk_ncnt;

uint64_t *
hk_counter(const char *name)
{
	for (int i = 0; i < hk_ncnt; i++)
		if (strcmp(hk_cnts[i].name, name) == 0)
			return &hk_cnts[i].v;
	if (hk_ncnt == 512)
		hk_error("too many counters");
	hk_cnts[hk_ncnt].name = strdup(name);
	return &hk_cnts[hk_ncnt++].v;
}

static uint64_t hk_sig;
static bool hk_nontriv;

void hk_shape(uint64_t v) { hk_sig = hk_mix(hk_sig ^ v); }
void hk_nontrivial(void) { hk_nontriv = true; }

static void
hk_vreport(const char *kind, const char *key, const char *fmt, va_list ap)
{
	char buf[1024];
	vsnprintf(buf, sizeof(buf), fmt, ap);
	for (char *p = buf; *p; p++)
		if (*p == '\n')
			*p = ' ';
	char line[1400];
	int n = snprintf(line, sizeof(line), "%s\t%s\t%llu\t%llu\t%llu\t%s\n",
			 kind, key, (unsigned long long)hk_case_idx,
			 (unsigned long long)hk_case_seed,
			 (unsigned long long)hk_ops, buf);
	int fd = 2;
	if (hk_viol_path)
		fd = open(hk_viol_path, O_WRONLY | O_CREAT | O_APPEND, 0644);
	if (fd >= 0 && write(fd, line, n) < 0) {}
	if (fd > 2)
		close(fd);
	if (hk_viol_path && write(2, line, n) < 0) {}
}

static void hk_finish(void);

void
hk_violation(const char *key, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	hk_vreport("VIOL", key, fmt, ap);
	va_end(ap);
	hk_finish();
	_exit(10);
}

void
hk_soft_violation(const char *key, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	hk_vreport("VIOL", key, fmt, ap);
	va_end(ap);
}

void
hk_error(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	hk_vreport("ERROR", "harness", fmt, ap);
	va_end(ap);
	_exit(11);
}

/* ---- options ---------------------------------------------------------- */
static const char *hk_optv[64];
static int hk_optc;

const char *
hk_opt(const char *name, const char *dflt)
{
	size_t n = strlen(name);
	for (int i = 0; i < hk_optc; i++)
		if (strncmp(hk_optv[i], name, n) == 0 && hk_optv[i][n] == '=')
			return hk_optv[i] + n + 1;
	return dflt;
}

long
hk_optl(const char *name, long dflt)
{
	const char *s = hk_opt(name, NULL);
	return s ? strtol(s, NULL, 0) : dflt;
}

/* ---- patterns --------------------------------------------------------- */
static inline uint64_t
pat_word(uint64_t tag, uint64_t w)
{
	uint64_t z = (tag + 1) * 0x9e3779b97f4a7c15ULL + w * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 31)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 29);
}

unsigned char
hk_pat(uint64_t tag, size_t off)
{
	uint64_t w = pat_word(tag, off / 8);
	return w >> (off % 8 * 8);
}

void
hk_fill(void *p, size_t n, uint64_t tag, size_t off)
{
	unsigned char *c = p;
	size_t i = 0;
	while (i < n && (off + i) % 8 != 0) {
		c[i] = hk_pat(tag, off + i);
		i++;
	}
	for (; i + 8 <= n; i += 8) {
		uint64_t w = pat_word(tag, (off + i) / 8);
		memcpy(c + i, &w, 8);
	}
	for (; i < n; i++)
		c[i] = hk_pat(tag, off + i);
}

ssize_t
hk_verify(const void *p, size_t n, uint64_t tag, size_t off)
{
	const unsigned char *c = p;
	size_t i = 0;
	while (i < n && (off + i) % 8 != 0) {
		if (c[i] != hk_pat(tag, off + i))
			return i;
		i++;
	}
	for (; i + 8 <= n; i += 8) {
		uint64_t w = pat_word(tag, (off + i) / 8), v;
		memcpy(&v, c + i, 8);
		if (v != w) {
			while (c[i] == hk_pat(tag, off + i))
				i++;
			return i;
		}
	}
	for (; i < n; i++)
		if (c[i] != hk_pat(tag, off + i))
			return i;
	return -1;
}

#define SPARSE_FULL 8192
/** Distance of the samples in a block of n bytes. */
static size_t
sparse_step(size_t n)
{
	size_t s = 4096;
	while (n / s > 128)
		s *= 2;
	return s;
}

void
hk_fill_sparse(void *p, size_t n, uint64_t tag)
{
	if (n <= SPARSE_FULL) {
		hk_fill(p, n, tag, 0);
		return;
	}
	hk_fill(p, 1024, tag, 0);
	hk_fill((char *)p + n - 1024, 1024, tag, n - 1024);
	size_t step = sparse_step(n);
	for (size_t off = step; off + 1040 < n; off += step)
		hk_fill((char *)p + off, 16, tag, off);
#ifdef HK_VALGRIND
	/* What was not filled may be read too. */
	VALGRIND_MAKE_MEM_DEFINED_IF_ADDRESSABLE(p, n);
#endif
}

ssize_t
hk_verify_sparse(const void *p, size_t n, uint64_t tag)
{
	if (n <= SPARSE_FULL)
		return hk_verify(p, n, tag, 0);
	ssize_t d = hk_verify(p, 1024, tag, 0);
	if (d >= 0)
		return d;
	d = hk_verify((const char *)p + n - 1024, 1024, tag, n - 1024);
	if (d >= 0)
		return d + n - 1024;
	size_t step = sparse_step(n);
	for (size_t off = step; off + 1040 < n; off += step) {
		d = hk_verify((const char *)p + off, 16, tag, off);
		if (d >= 0)
			return d + off;
	}
	return -1;
}

/* ---- interval map: a treap -------------------------------------------- */
void
hk_imap_init(struct hk_imap *m)
{
	memset(m, 0, sizeof(*m));
	m->rs = 12345;
}

static void
iv_clear(struct hk_iv *n)
{
	if (n == NULL)
		return;
	iv_clear(n->l);
	iv_clear(n->r);
	hk_free(n);
}

void
hk_imap_clear(struct hk_imap *m)
{
	iv_clear(m->root);
	hk_imap_init(m);
}

struct hk_iv *
hk_imap_overlap(struct hk_imap *m, uintptr_t start, size_t size)
{
	/* The intervals are disjoint: look for the last one starting before
	 * the end of the range. */
	struct hk_iv *n = m->root, *best = NULL;
	while (n != NULL) {
		if (n->start < start + size) {
			best = n;
			n = n->r;
		} else {
			n = n->l;
		}
	}
	if (best != NULL && best->start + best->size > start)
		return best;
	return NULL;
}

static void
iv_split(struct hk_iv *t, uintptr_t key, struct hk_iv **l, struct hk_iv **r)
{
	if (t == NULL) {
		*l = *r = NULL;
	} else if (t->start < key) {
		iv_split(t->r, key, &t->r, r);
		*l = t;
	} else {
		iv_split(t->l, key, l, &t->l);
		*r = t;
	}
}

static struct hk_iv *
iv_merge(struct hk_iv *a, struct hk_iv *b)
{
	if (a == NULL)
		return b;
	if (b == NULL)
		return a;
	if (a->prio > b->prio) {
		a->r = iv_merge(a->r, b);
		return a;
	}
	b->l = iv_merge(a, b->l);
	return b;
}

struct hk_iv *
hk_imap_insert(struct hk_imap *m, uintptr_t start, size_t size, uint64_t tag,
	       void *data)
{
	struct hk_iv *n = hk_malloc(sizeof(*n)), *l, *r;
	m->rs = m->rs * 1664525 + 1013904223;
	n->start = start;
	n->size = size;
	n->tag = tag;
	n->data = data;
	n->prio = m->rs ^ (m->rs >> 15);
	n->l = n->r = NULL;
	iv_split(m->root, start, &l, &r);
	m->root = iv_merge(iv_merge(l, n), r);
	m->count++;
	m->bytes += size;
	return n;
}

struct hk_iv *
hk_imap_find(struct hk_imap *m, uintptr_t start)
{
	struct hk_iv *n = m->root;
	while (n != NULL && n->start != start)
		n = start < n->start ? n->l : n->r;
	return n;
}

bool
hk_imap_remove(struct hk_imap *m, uintptr_t start)
{
	struct hk_iv **pp = &m->root;
	while (*pp != NULL && (*pp)->start != start)
		pp = start < (*pp)->start ? &(*pp)->l : &(*pp)->r;
	struct hk_iv *n = *pp;
	if (n == NULL)
		return false;
	*pp = iv_merge(n->l, n->r);
	m->count--;
	m->bytes -= n->size;
	hk_free(n);
	return true;
}

/* ---- interposition ---------------------------------------------------- */
extern void *__real_malloc(size_t);
extern void *__real_calloc(size_t, size_t);
extern void *__real_realloc(void *, size_t);
extern void __real_free(void *);
extern int __real_posix_memalign(void **, size_t, size_t);
extern void *__real_aligned_alloc(size_t, size_t);
extern void *__real_mmap(void *, size_t, int, int, int, off_t);
extern int __real_munmap(void *, size_t);

void *
hk_malloc(size_t n)
{
	void *p = __real_malloc(n ? n : 1);
	if (p == NULL)
		hk_error("the harness is out of memory");
	return p;
}

void *
hk_realloc(void *o, size_t n)
{
	void *p = __real_realloc(o, n ? n : 1);
	if (p == NULL)
		hk_error("the harness is out of memory");
	return p;
}

void hk_free(void *p) { __real_free(p); }

size_t hk_heap_blocks, hk_heap_bytes, hk_map_bytes;
uint64_t hk_n_malloc, hk_n_free, hk_n_mmap, hk_n_munmap;
long hk_malloc_budget = -1, hk_mmap_budget = -1, hk_fail_len = -1;
uint64_t hk_injected;
size_t hk_malloc_max = HK_MALLOC_MAX;
enum hk_mmap_mode hk_mmap_mode;
/* AddressSanitizer fills memory itself, and freed memory may be poisoned. */
#if defined(__SANITIZE_ADDRESS__) || defined(HK_VALGRIND)
bool hk_scribble = false;
#else
bool hk_scribble = true;
#endif
void (*hk_mem_hook)(void);

bool hk_loose;
long hk_loose_blocks, hk_loose_mapped;
uint64_t hk_loose_calls, hk_loose_failed, hk_loose_every;

static struct hk_imap hk_heap, hk_maps;
static uint64_t hk_mmap_seq;
static uintptr_t hk_mmap_next;
static int hk_lock;
/** Interposed calls may come from several real threads in some harnesses. */
static void lock(void)
{
	while (__atomic_exchange_n(&hk_lock, 1, __ATOMIC_ACQUIRE))
		;
}
static void unlock(void) { __atomic_store_n(&hk_lock, 0, __ATOMIC_RELEASE); }

void
hk_faults_off(void)
{
	hk_malloc_budget = hk_mmap_budget = -1;
	hk_fail_len = -1;
	hk_malloc_max = HK_MALLOC_MAX;
}

static bool
budget_fail(long *b)
{
	if (*b < 0)
		return false;
	if (*b > 0) {
		--*b;
		return false;
	}
	if (hk_fail_len > 0 && --hk_fail_len == 0) {
		*b = -1;
		hk_fail_len = -1;
	}
	hk_injected++;
	return true;
}

struct hk_mem
hk_mem_get(void)
{
	struct hk_mem m = { hk_heap_blocks, hk_heap_bytes, hk_map_bytes };
	return m;
}

static void
heap_add(void *p, size_t n)
{
	lock();
	/* A zero-sized block still has an identity. */
	hk_imap_insert(&hk_heap, (uintptr_t)p, n ? n : 1, 0, NULL);
	hk_heap_blocks++;
	hk_heap_bytes += n ? n : 1;
	unlock();
}

static size_t
heap_del(void *p)
{
	lock();
	struct hk_iv *iv = hk_imap_find(&hk_heap, (uintptr_t)p);
	if (iv == NULL) {
		unlock();
		hk_violation("mem.bad_free", "free of %p, which is not a live "
			     "heap block of the library", p);
	}
	size_t n = iv->size;
	hk_imap_remove(&hk_heap, (uintptr_t)p);
	hk_heap_blocks--;
	hk_heap_bytes -= n;
	unlock();
	return n;
}

/*
 * What several threads do at once. Relaxed, so that ThreadSanitizer sees no
 * order between them.
 */
#define RELAXED_ADD(x, n) __atomic_fetch_add(&(x), (n), __ATOMIC_RELAXED)
static bool
loose_fail(void)
{
	if (hk_loose_every == 0)
		return false;
	uint64_t n = RELAXED_ADD(hk_loose_calls, 1);
	if (hk_mix(hk_case_seed ^ n) % hk_loose_every != 0)
		return false;
	RELAXED_ADD(hk_loose_failed, 1);
	errno = ENOMEM;
	return true;
}

static void *
loose_count(void *p)
{
	if (p != NULL)
		RELAXED_ADD(hk_loose_blocks, 1);
	return p;
}

void *
__wrap_malloc(size_t n)
{
	if (hk_loose)
		return loose_fail() ? NULL : loose_count(__real_malloc(n));
	hk_n_malloc++;
	if (n > hk_malloc_max) {
		hk_injected++;
		errno = ENOMEM;
		return NULL;
	}
	if (budget_fail(&hk_malloc_budget)) {
		errno = ENOMEM;
		return NULL;
	}
	void *p = __real_malloc(n);
	if (p == NULL)
		return NULL;
	if (hk_scribble)
		memset(p, 0xa5, n > 65536 ? 65536 : n);
	heap_add(p, n);
	return p;
}

void *
__wrap_calloc(size_t a, size_t b)
{
	if (hk_loose)
		return loose_fail() ? NULL : loose_count(__real_calloc(a, b));
	hk_n_malloc++;
	if (budget_fail(&hk_malloc_budget)) {
		errno = ENOMEM;
		return NULL;
	}
	void *p = __real_calloc(a, b);
	if (p != NULL)
		heap_add(p, a * b);
	return p;
}

void
__wrap_free(void *p)
{
	if (p == NULL)
		return;
	if (hk_loose) {
		RELAXED_ADD(hk_loose_blocks, -1);
		__real_free(p);
		return;
	}
	hk_n_free++;
	size_t n = heap_del(p);
	if (hk_scribble)
		memset(p, 0xdb, n > 65536 ? 65536 : n);
	__real_free(p);
}

void *
__wrap_realloc(void *o, size_t n)
{
	if (hk_loose) {
		if (loose_fail())
			return NULL;
		void *p = __real_realloc(o, n);
		return o == NULL ? loose_count(p) : p;
	}
	hk_n_malloc++;
	if (budget_fail(&hk_malloc_budget)) {
		errno = ENOMEM;
		return NULL;
	}
	if (o != NULL)
		heap_del(o);
	void *p = __real_realloc(o, n);
	if (p != NULL)
		heap_add(p, n);
	return p;
}

int
__wrap_posix_memalign(void **pp, size_t a, size_t n)
{
	if (hk_loose) {
		if (loose_fail())
			return ENOMEM;
		int err = __real_posix_memalign(pp, a, n);
		if (err == 0)
			loose_count(*pp);
		return err;
	}
	hk_n_malloc++;
	if (budget_fail(&hk_malloc_budget))
		return ENOMEM;
	int rc = __real_posix_memalign(pp, a, n);
	if (rc == 0)
		heap_add(*pp, n);
	return rc;
}

void *
__wrap_aligned_alloc(size_t a, size_t n)
{
	if (hk_loose)
		return loose_fail() ? NULL :
		       loose_count(__real_aligned_alloc(a, n));
	hk_n_malloc++;
	if (budget_fail(&hk_malloc_budget)) {
		errno = ENOMEM;
		return NULL;
	}
	void *p = __real_aligned_alloc(a, n);
	if (p != NULL)
		heap_add(p, n);
	return p;
}

void *
__wrap_mmap(void *addr, size_t n, int prot, int flags, int fd, off_t off)
{
	if (hk_loose) {
		if (loose_fail())
			return MAP_FAILED;
		void *m = __real_mmap(addr, n, prot, flags, fd, off);
		if (m != MAP_FAILED)
			RELAXED_ADD(hk_loose_mapped, (n + 4095) & ~4095L);
		return m;
	}
	if (hk_mem_hook)
		hk_mem_hook();
	hk_n_mmap++;
	if (budget_fail(&hk_mmap_budget)) {
		errno = ENOMEM;
		return MAP_FAILED;
	}
	void *p = MAP_FAILED;
	if (hk_mmap_mode == HK_MMAP_MISALIGN && addr == NULL) {
		/* Any page-aligned address is a legitimate result. */
		size_t shift = (hk_mix(hk_case_seed + hk_mmap_seq++) % 17) *
			       4096;
		char *q = __real_mmap(NULL, n + 65536, prot, flags, fd, off);
		if (q == MAP_FAILED)
			return MAP_FAILED;
		if (shift > 0)
			__real_munmap(q, shift);
		if (shift < 65536)
			__real_munmap(q + shift + n, 65536 - shift);
		p = q + shift;
	} else if (hk_mmap_mode != HK_MMAP_PLAIN && addr == NULL) {
		/* Far from each other, or each right behind the last one. */
		uintptr_t at = hk_mmap_next;
		if (hk_mmap_mode == HK_MMAP_SCATTER || at == 0) {
			uint64_t r = hk_mix(hk_case_seed + hk_mmap_seq++);
			at = 0x200000000000 + (r >> 8) % 0x5e0000000000;
			at &= -((uintptr_t)4096 << r % 13);
		}
		p = __real_mmap((void *)at, n, prot,
				flags | MAP_FIXED_NOREPLACE, fd, off);
		if (p == MAP_FAILED)
			p = __real_mmap(NULL, n, prot, flags, fd, off);
		hk_mmap_next = p == MAP_FAILED ? 0 : (uintptr_t)p + n;
	} else {
		p = __real_mmap(addr, n, prot, flags, fd, off);
	}
	if (p == MAP_FAILED)
		return p;
	lock();
	size_t len = (n + 4095) & ~(size_t)4095;
	hk_imap_insert(&hk_maps, (uintptr_t)p, len, 0, NULL);
	hk_map_bytes += len;
	unlock();
	return p;
}

int __real_madvise(void *addr, size_t n, int advice);
bool hk_madvise_refuse, hk_munmap_refuse;

int
__wrap_munmap(void *addr, size_t n)
{
	if (hk_loose) {
		RELAXED_ADD(hk_loose_mapped, -((n + 4095) & ~4095L));
		return __real_munmap(addr, n);
	}
	if (hk_mem_hook)
		hk_mem_hook();
	hk_n_munmap++;
	size_t len = (n + 4095) & ~(size_t)4095;
	uintptr_t a = (uintptr_t)addr, e = a + len;
	if (n == 0)
		return __real_munmap(addr, n);
	lock();
	/* Every page of the range must be mapped by the library. */
	size_t covered = 0;
	struct hk_iv *iv;
	while ((iv = hk_imap_overlap(&hk_maps, a, len)) != NULL) {
		uintptr_t s = iv->start, t = iv->start + iv->size;
		hk_imap_remove(&hk_maps, s);
		uintptr_t cs = s > a ? s : a, ct = t < e ? t : e;
		covered += ct - cs;
		if (s < a)
			hk_imap_insert(&hk_maps, s, a - s, 0, NULL);
		if (t > e)
			hk_imap_insert(&hk_maps, e, t - e, 0, NULL);
	}
	hk_map_bytes -= covered;
	unlock();
	if (covered != len)
		hk_violation("mem.bad_munmap", "munmap(%p, %zu): only %zu bytes "
			     "of the range are mapped by the library", addr, n,
			     covered);
	int rc = __real_munmap(addr, n);
	if (hk_munmap_refuse) {
		errno = EINVAL;
		return -1;
	}
	return rc;
}

unsigned hk_madvise_refused;

int
__wrap_madvise(void *addr, size_t n, int advice)
{
	if (hk_madvise_refuse) {
		hk_madvise_refused++;
		errno = EINVAL;
		return -1;
	}
	return __real_madvise(addr, n, advice);
}

bool
hk_owned(const void *p, size_t n)
{
	lock();
	bool ok = false;
	struct hk_iv *iv = hk_imap_overlap(&hk_heap, (uintptr_t)p, n ? n : 1);
	if (iv != NULL && iv->start <= (uintptr_t)p &&
	    iv->start + iv->size >= (uintptr_t)p + n)
		ok = true;
	if (!ok) {
		/* Mapped ranges may be split but adjacent: walk them. */
		uintptr_t a = (uintptr_t)p, e = a + n;
		ok = true;
		while (a < e) {
			iv = hk_imap_overlap(&hk_maps, a, 1);
			if (iv == NULL) {
				ok = false;
				break;
			}
			a = iv->start + iv->size;
		}
	}
	unlock();
	return ok;
}

/* ---- main ------------------------------------------------------------- */
static uint64_t hk_done, hk_nontriv_total, hk_ops_total;
static char *hk_samples[3];
static int hk_nsamples;

/** Text of the operations in the ring. */
static char *
render_ring(void)
{
	char *buf = hk_malloc(RING * 256), *o = buf;
	unsigned n = hk_ring_pos < RING ? hk_ring_pos : RING;
	*o = 0;
	for (unsigned i = hk_ring_pos - n; i != hk_ring_pos; i++) {
		const char *t = hk_st ? hk_st->ring[i % RING] :
					hk_ring[i % RING].text;
		if (t[0] == 1) {
			uint64_t v[4];
			memcpy(v, t + 112, 32);
			o += sprintf(o, "%s(%lld,%lld,%lld,%lld); ", t + 1,
				     (long long)v[0], (long long)v[1],
				     (long long)v[2], (long long)v[3]);
		} else {
			o += sprintf(o, "%s; ", t);
		}
	}
	return buf;
}

static uint64_t *hk_sigs;
static size_t hk_nsigs, hk_csigs;

static void
hk_finish(void)
{
	if (hk_out_path == NULL)
		return;
	FILE *f = fopen(hk_out_path, "w");
	if (f == NULL)
		return;
	fprintf(f, "cases %llu\nnontrivial %llu\nops %llu\n",
		(unsigned long long)hk_done,
		(unsigned long long)hk_nontriv_total,
		(unsigned long long)hk_ops_total);
	for (int i = 0; i < hk_ncnt; i++)
		fprintf(f, "ev %s %llu\n", hk_cnts[i].name,
			(unsigned long long)hk_cnts[i].v);
	for (int i = 0; i < hk_nsamples; i++)
		fprintf(f, "sample %s\n", hk_samples[i]);
	for (size_t i = 0; i < hk_nsigs; i++)
		fprintf(f, "s %llx\n", (unsigned long long)hk_sigs[i]);
	fclose(f);
}

int
main(int argc, char **argv)
{
	uint64_t seed = 1, from = 0, to = 1;
	const char *status = NULL;
	/* Do not outlive the runner. */
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	for (int i = 1; i < argc; i++) {
		if (strcmp(argv[i], "--seed") == 0)
			seed = strtoull(argv[++i], NULL, 0);
		else if (strcmp(argv[i], "--from") == 0)
			from = strtoull(argv[++i], NULL, 0);
		else if (strcmp(argv[i], "--to") == 0)
			to = strtoull(argv[++i], NULL, 0);
		else if (strcmp(argv[i], "--out") == 0)
			hk_out_path = argv[++i];
		else if (strcmp(argv[i], "--viol") == 0)
			hk_viol_path = argv[++i];
		else if (strcmp(argv[i], "--status") == 0)
			status = argv[++i];
		else if (strcmp(argv[i], "-o") == 0 && hk_optc < 64)
			hk_optv[hk_optc++] = argv[++i];
		else
			hk_error("unknown argument %s", argv[i]);
	}
	if (status != NULL) {
		int fd = open(status, O_RDWR | O_CREAT | O_TRUNC, 0644);
		if (fd < 0 || ftruncate(fd, sizeof(struct hk_status)) != 0)
			hk_error("cannot create %s", status);
		hk_st = __real_mmap(NULL, sizeof(struct hk_status),
				    PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		close(fd);
		if (hk_st == MAP_FAILED)
			hk_error("cannot map %s", status);
		hk_st->magic = 0x686b737461747573ULL;
	}
	hk_imap_init(&hk_heap);
	hk_imap_init(&hk_maps);
	hk_init();
	for (uint64_t i = from; i < to; i++) {
		hk_case_idx = i;
		hk_case_seed = hk_mix(hk_mix(seed) + i * 0x632be59bd9b4e019ULL);
		hk_r.s = hk_case_seed;
		hk_ops = 0;
		hk_ring_pos = 0;
		hk_sig = 0;
		hk_nontriv = false;
		hk_injected = 0;
		hk_mmap_seq = 0;
		hk_mmap_next = 0;
		hk_faults_off();
		if (hk_st) {
			hk_st->idx = i;
			hk_st->seed = hk_case_seed;
			hk_st->ops = hk_st->pos = 0;
			for (int k = 0; k < RING; k++)
				hk_st->ring[k][0] = 0;
		}
		hk_case(i);
		hk_done++;
		hk_ops_total += hk_ops;
		if (hk_nontriv) {
			hk_nontriv_total++;
			if (hk_nsamples < 2)
				hk_samples[hk_nsamples++] = render_ring();
			HK_ARRAY_PUSH(hk_sigs, hk_nsigs, hk_csigs, hk_sig);
		}
	}
	hk_finish();
	fflush(NULL);
	_exit(0);
}
