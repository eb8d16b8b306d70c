/*
 * Common kit of the monitoring harnesses: seeded randomness, violation and
 * coverage reporting, an interval map that shadows live memory blocks, and
 * interposed malloc/mmap with bookkeeping and fault injection.
 */
#ifndef HK_H
#define HK_H

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

#ifdef __cplusplus
extern "C" {
#endif

/* ---- randomness ------------------------------------------------------- */
typedef struct { uint64_t s; } hk_rng;
static inline uint64_t
hk_mix(uint64_t z)
{
	z += 0x9e3779b97f4a7c15ULL;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
static inline uint64_t
hk_next(hk_rng *r)
{
	r->s += 0x9e3779b97f4a7c15ULL;
	uint64_t z = r->s;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
/** The random stream of the current case. */
extern hk_rng hk_r;
static inline uint64_t rnd(void) { return hk_next(&hk_r); }
/** Uniform in [0, n). */
static inline uint64_t rndn(uint64_t n) { return n == 0 ? 0 : rnd() % n; }
/** Uniform in [a, b]. */
static inline uint64_t rndr(uint64_t a, uint64_t b) { return a + rndn(b - a + 1); }
/** True with probability 1/n. */
static inline bool one_in(uint64_t n) { return rndn(n) == 0; }
/** Log-uniform in [a, b]. */
uint64_t rndlog(uint64_t a, uint64_t b);
/** Log-uniform with extra weight on powers of two and their neighbours. */
uint64_t rndedge(uint64_t a, uint64_t b);

/* ---- reporting -------------------------------------------------------- */
/** Properties a report may be charged to are decided by the runner by key. */
void hk_violation(const char *key, const char *fmt, ...)
	__attribute__((format(printf, 2, 3), noreturn));
/** A non-fatal report, for findings that do not stop the case. */
void hk_soft_violation(const char *key, const char *fmt, ...)
	__attribute__((format(printf, 2, 3)));
/** The harness itself cannot go on (not a violation). */
void hk_error(const char *fmt, ...)
	__attribute__((format(printf, 1, 2), noreturn));
#define HK_CHECK(cond, key, ...) do {					\
	if (!(cond)) hk_violation(key, __VA_ARGS__);			\
} while (0)
/** Count one observed event by a constant name. */
#define HK_EV(name) do {						\
	static uint64_t *hk_c_; 					\
	if (hk_c_ == NULL) hk_c_ = hk_counter(name);			\
	(*hk_c_)++;							\
} while (0)
#define HK_EVN(name, n) do {						\
	static uint64_t *hk_c_; 					\
	if (hk_c_ == NULL) hk_c_ = hk_counter(name);			\
	(*hk_c_) += (n);						\
} while (0)
uint64_t *hk_counter(const char *name);
/** Fold an observed behaviour into the signature of the current case. */
void hk_shape(uint64_t v);
/** The current case did something worth counting as non-trivial. */
void hk_nontrivial(void);
/** Record the operation being run: kept in a ring shown with a violation. */
void hk_op(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/** As hk_op, cheap: up to four integers after a constant name. */
void hk_opn(const char *name, uint64_t a, uint64_t b, uint64_t c, uint64_t d);
extern uint64_t hk_case_seed, hk_case_idx, hk_ops;
/** Value of a "-o name=value" option or dflt. */
const char *hk_opt(const char *name, const char *dflt);
long hk_optl(const char *name, long dflt);

/* Provided by each harness. */
void hk_case(uint64_t idx);
void hk_init(void);

/* ---- content patterns ------------------------------------------------- */
/** Fill with a pattern that depends on the tag and the offset. */
void hk_fill(void *p, size_t n, uint64_t tag, size_t off);
/** Offset of the first difference, or -1. */
ssize_t hk_verify(const void *p, size_t n, uint64_t tag, size_t off);
/** Byte number off of the pattern with this tag. */
unsigned char hk_pat(uint64_t tag, size_t off);
/** Fill/verify only ends and samples of a huge block. */
void hk_fill_sparse(void *p, size_t n, uint64_t tag);
ssize_t hk_verify_sparse(const void *p, size_t n, uint64_t tag);

/* ---- interval map ----------------------------------------------------- */
struct hk_iv {
	uintptr_t start;
	size_t size;
	uint64_t tag;
	void *data;
	struct hk_iv *l, *r;
	uint32_t prio;
};
struct hk_imap { struct hk_iv *root; size_t count; size_t bytes; uint32_t rs; };
void hk_imap_init(struct hk_imap *m);
void hk_imap_clear(struct hk_imap *m);
/** Any interval overlapping [start, start+size), or NULL. */
struct hk_iv *hk_imap_overlap(struct hk_imap *m, uintptr_t start, size_t size);
/** Insert; the caller has checked for overlap. */
struct hk_iv *hk_imap_insert(struct hk_imap *m, uintptr_t start, size_t size,
			     uint64_t tag, void *data);
bool hk_imap_remove(struct hk_imap *m, uintptr_t start);
struct hk_iv *hk_imap_find(struct hk_imap *m, uintptr_t start);

/* ---- raw memory, not tracked ------------------------------------------ */
void *hk_malloc(size_t n);
void *hk_realloc(void *p, size_t n);
void hk_free(void *p);

/* ---- interposed memory functions -------------------------------------- */
/** Live tracked heap blocks / bytes and mapped bytes of the code under test. */
extern size_t hk_heap_blocks, hk_heap_bytes, hk_map_bytes;
extern uint64_t hk_n_malloc, hk_n_free, hk_n_mmap, hk_n_munmap;
/** If >= 0: that many further calls succeed, then calls fail. */
extern long hk_malloc_budget, hk_mmap_budget;
/** madvise fails; how often it did. */
extern bool hk_madvise_refuse;
extern unsigned hk_madvise_refused;
/** munmap says that it fails. */
extern bool hk_munmap_refuse;
/** How many consecutive calls fail once the budget is spent (-1: all). */
extern long hk_fail_len;
/** Number of injected failures so far in this case. */
extern uint64_t hk_injected;
/** malloc of more than this fails (and counts as an injected failure). */
#define HK_MALLOC_MAX ((size_t)1 << 31)
extern size_t hk_malloc_max;
/** Where mmap puts what it maps; any page-aligned address is legitimate. */
enum hk_mmap_mode {
	/** Where the system likes. */
	HK_MMAP_PLAIN,
	/** At page- but not slab-aligned addresses. */
	HK_MMAP_MISALIGN,
	/** Anywhere, so mappings are far from each other. */
	HK_MMAP_SCATTER,
	/** Each right behind the previous one. */
	HK_MMAP_PACK,
};
extern enum hk_mmap_mode hk_mmap_mode;
/** Choose one for the case. */
static inline void
hk_mmap_any(void)
{
	static const enum hk_mmap_mode any[] = {
		HK_MMAP_PLAIN, HK_MMAP_PLAIN, HK_MMAP_MISALIGN,
		HK_MMAP_MISALIGN, HK_MMAP_SCATTER, HK_MMAP_PACK,
	};
#ifdef __SANITIZE_THREAD__
	hk_mmap_mode = any[rndn(4)];
#else
	hk_mmap_mode = any[rndn(6)];
#endif
}
/** Fill pattern for fresh heap memory. */
extern bool hk_scribble;
/** Called at every interposed mmap/munmap (scheduler yield). */
extern void (*hk_mem_hook)(void);
/**
 * For code that runs in several threads: the functions are passed through and
 * only counted, every hk_loose_every-th call or so fails (0: none).
 */
extern bool hk_loose;
extern long hk_loose_blocks, hk_loose_mapped;
extern uint64_t hk_loose_calls, hk_loose_failed, hk_loose_every;
/** Current number of bytes mapped at most since the last reset. */
void hk_faults_off(void);
/** Compare the tracked memory with a snapshot. */
struct hk_mem { size_t blocks, bytes, mapped; };
struct hk_mem hk_mem_get(void);
/** Is [p, p+n) inside memory that the code under test has mapped or malloced? */
bool hk_owned(const void *p, size_t n);

#define HK_ARRAY_PUSH(arr, cnt, cap, val) do {				\
	if ((cnt) == (cap)) {						\
		(cap) = (cap) ? (cap) * 2 : 16;				\
		(arr) = hk_realloc((arr), (cap) * sizeof(*(arr)));	\
	}								\
	(arr)[(cnt)++] = (val);						\
} while (0)

#ifdef __cplusplus
}
#endif
#endif
