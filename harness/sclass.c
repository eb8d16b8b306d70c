/* Monitor of size classes: sizes against the definition. */
#include "hk.h"
#include <small/small_class.h>
#include <math.h>
#include <limits.h>

void hk_init(void) {}

void
hk_case(uint64_t idx)
{
	struct small_class sc;
	memset(&sc, 0x5a, sizeof(sc));
	unsigned gran = 1u << rndn(one_in(4) ? 13 : 7);
	unsigned min = gran * (one_in(2) ? 1 : rndlog(1, 64));
	if (one_in(4))
		min += rndn(gran);	/* not a multiple */
	double f;
	switch (rndn(6)) {
	case 0: f = 2; break;
	case 1: f = 1 + rndr(1, 100) / 100.0; break;
	case 2: f = 1 + rndlog(1, 1 << 23) / (double)(1 << 23); break;
	case 3: f = exp2(1.0 / (1 << rndn(7))) + (rndn(3) - 1.0) * 1e-6; break;
	/* Half-way between two approximations. */
	case 4: f = exp2(exp2(-(double)rndn(8) - 0.5)) + (rndn(3) - 1.0) * 1e-6;
		break;
	default: f = 1 + rndr(1, 1000000) / 1000000.0;
	}
	if (f > 2)
		f = 2;
	if (f < 1.0001)
		f = 1.0001;
	float ff = f, actual = 0;
	hk_op("class(granularity=%u min=%u factor=%.9f)", gran, min, ff);
	small_class_create(&sc, gran, ff, min, &actual);
	HK_CHECK(actual >= pow(ff, 0.5) - 1e-6 &&
		 actual <= pow(ff, 1.5) + 1e-6, "class.factor",
		 "actual factor %.9f for %.9f", actual, ff);
	/* Number of classes in which the size doubles. */
	double kd = log(2) / log(actual);
	unsigned k = (unsigned)(kd + 0.5);
	bool k_exact = kd < 2000;
	/* In a few cases up to the end of the type. */
	unsigned limit = one_in(4) ? UINT_MAX : 1u << 29;
	/* The definition: walk classes and sizes together. */
	unsigned cls = 0, cur = small_class_calc_size_by_offset(&sc, 0);
	HK_CHECK(cur == min, "class.min", "the first class has %u, not %u", cur,
		 min);
	unsigned sizes_cap = 1u << (12 + rndn(6));
	unsigned prev = 0;
	uint64_t nsz = 0;
	unsigned *hist = NULL;
	size_t nh = 0, ch = 0;
	while (true) {
		HK_ARRAY_PUSH(hist, nh, ch, cur);
		HK_CHECK(cur > prev, "class.monotonic", "class %u has %u after "
			 "%u", cls, cur, prev);
		if (min % gran == 0)
			HK_CHECK(cur % gran == 0, "class.granularity",
				 "class %u has %u, not a multiple of %u", cls,
				 cur, gran);
		if (cls > 0)
			HK_CHECK(cur - prev >= gran, "class.granularity",
				 "classes %u and %u", prev, cur);
		/* Every size of this class, or a sample of a long one. */
		unsigned from = prev == 0 ? 0 : prev + 1;
		for (unsigned s = from; s <= cur;) {
			unsigned c = small_class_calc_offset_by_size(&sc, s);
			if (c != cls)
				hk_violation("class.search", "size %u is in "
					     "class %u of %u, but class %u has "
					     "%u", s, c,
					     small_class_calc_size_by_offset(
						&sc, c), cls, cur);
			nsz++;
			if (cur < sizes_cap || s + 2 >= cur ||
			    cur - from < 8) {
				s++;
			} else {
				unsigned step = rndr(1, (cur - from) / 4 + 1);
				s = s + step < s || s + step > cur - 1 ?
				    cur - 1 : s + step;
			}
		}
		if (k_exact && k <= cls && cls - k + 1 >= k) {
			/* Sizes less the offset double every k classes. */
			unsigned off = min - gran;
			unsigned a = hist[cls - k] - off, b = cur - off;
			HK_CHECK(b == 2 * a, "class.growth", "class %u has %u, "
				 "%u classes before it was %u", cls, cur, k,
				 hist[cls - k]);
			HK_EV("class_doubling");
		}
		if (cls > 0 && k_exact && cur > sizes_cap) {
			/* One step is at most 1/k of the size. */
			unsigned off = min - gran;
			HK_CHECK((uint64_t)(cur - prev) * k <=
				 (uint64_t)(prev - off) + gran * k,
				 "class.step", "class %u has %u after %u", cls,
				 cur, prev);
		}
		/* Two more steps must be possible in the type. */
		if ((uint64_t)cur + 2 * (uint64_t)(cur - prev) + gran >
		    UINT_MAX) {
			HK_EV("class_type_end");
			break;
		}
		prev = cur;
		cls++;
		if (cls > 200000)
			break;
		cur = small_class_calc_size_by_offset(&sc, cls);
		if (cur > limit)
			break;
	}
	hk_free(hist);
	HK_EVN("class_sizes", nsz);
	HK_EVN("classes", cls);
	hk_shape(gran);
	hk_shape(min);
	hk_shape(k);
	hk_nontrivial();
}
