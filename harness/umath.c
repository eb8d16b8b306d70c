/* Monitor of the alignment and rounding helpers. */
#include "hk.h"
#include <small/util.h>

typedef unsigned __int128 u128;

static void
check_align(size_t v, int la)
{
	size_t a = (size_t)1 << la;
	/* The least multiple of a not below v. */
	u128 up = ((u128)v + a - 1) / a * a;
	size_t down = v / a * a;
	HK_CHECK(small_align_down(v, a) == down, "util.align_down",
		 "small_align_down(%zu, %zu) is %zu, expected %zu", v, a,
		 small_align_down(v, a), down);
	if (v > SIZE_MAX - a)
		return;
	HK_CHECK(small_align(v, a) == up, "util.align", "small_align(%zu, %zu) "
		 "is %zu, expected %zu", v, a, small_align(v, a), (size_t)up);
	HK_EV("util_align");
}

static void
check_round(size_t v)
{
	if (v > 0) {
		size_t lb = 0;
		while (lb < 63 && (u128)1 << (lb + 1) <= v)
			lb++;
		HK_CHECK(small_lb(v) == lb, "util.lb", "small_lb(%zu) is %zu, "
			 "expected %zu", v, small_lb(v), lb);
		HK_EV("util_lb");
	}
	if (v > SIZE_MAX / 2 + 1)
		return;
	u128 r = v == 0 ? 0 : 1;
	while (r < v)
		r *= 2;
	HK_CHECK(small_round(v) == r, "util.round", "small_round(%zu) is %zu, "
		 "expected %zu", v, small_round(v), (size_t)r);
	HK_EV("util_round");
}

void
hk_init(void)
{
	HK_CHECK(small_getpagesize() == sysconf(_SC_PAGESIZE), "util.pagesize",
		 "the page size is %ld", small_getpagesize());
}

void
hk_case(uint64_t idx)
{
	int k = idx % 64;
	/* Everything around this power of two. */
	size_t p = (size_t)1 << k;
	hk_op("values around 2^%d", k);
	for (int d = -300; d <= 300; d++) {
		size_t v = p + d;
		check_round(v);
		for (int la = 0; la < 64; la++)
			check_align(v, la);
	}
	/* Multiples of alignments, and neighbours. */
	for (int i = 0; i < 3000; i++) {
		int la = rndn(64);
		size_t a = (size_t)1 << la;
		size_t q = rndlog(1, SIZE_MAX / a);
		size_t v = q * a + rndn(5) - 2;
		check_align(v, la);
		check_round(v);
		v = rndedge(1, SIZE_MAX) + rndn(7) - 3;
		check_align(v, rndn(64));
		check_round(v);
		v = rnd() >> rndn(64);
		check_align(v, rndn(64));
		check_round(v);
		hk_shape(v);
	}
	HK_EVN("util_border", 601);
	hk_nontrivial();
}
