/*
 * Monitors for the lock-free parts: quota, LIFO, arena. Each case is a short
 * program of 1..4 fibers run under a seeded interleaving at the granularity of
 * single memory accesses; the recorded history is then decided against a
 * sequential specification.
 */
#include "hk.h"
#include "hksched.h"
#include "conc_sut.h"
#include <sys/mman.h>

enum { MAXOPS = 64 };
struct op {
	int fiber, kind;
	uint64_t a;		/* argument */
	int64_t r, r2;		/* results */
	uint64_t call, ret;	/* event numbers */
};
static struct op H[MAXOPS];
static int nH;
static uint64_t clock_;
static int mode;		/* 0 quota, 1 lifo, 2 arena */
static int perfiber;

static struct op *
op_call(int fiber, int kind, uint64_t a)
{
	struct op *o = &H[nH++];
	o->fiber = fiber;
	o->kind = kind;
	o->a = a;
	o->r = o->r2 = 0;
	o->call = clock_++;
	o->ret = UINT64_MAX;
	hk_opn("call", fiber, kind, a, o->call);
	return o;
}
static void
op_ret(struct op *o, int64_t r, int64_t r2)
{
	o->r = r;
	o->r2 = r2;
	o->ret = clock_++;
	hk_opn("ret", o->fiber, o->kind, r, r2);
}

/* ---- linearizability: depth-first with memoization -------------------- */
struct lin_state { uint64_t v[10]; };
static bool (*lin_step)(struct lin_state *, const struct op *);
static uint64_t *memo;
static size_t memo_n, memo_cap;
static uint64_t lin_nodes;

static bool
memo_seen(uint64_t h)
{
	if (h == 0)
		h = 1;
	if ((memo_n + 1) * 2 > memo_cap) {
		size_t oc = memo_cap;
		uint64_t *old = memo;
		memo_cap = oc ? oc * 2 : 1024;
		memo = hk_malloc(memo_cap * 8);
		memset(memo, 0, memo_cap * 8);
		for (size_t i = 0; i < oc; i++) {
			if (old[i] == 0)
				continue;
			size_t k = old[i] & (memo_cap - 1);
			while (memo[k])
				k = (k + 1) & (memo_cap - 1);
			memo[k] = old[i];
		}
		hk_free(old);
	}
	size_t k = h & (memo_cap - 1);
	while (memo[k] && memo[k] != h)
		k = (k + 1) & (memo_cap - 1);
	if (memo[k] == h)
		return true;
	memo[k] = h;
	memo_n++;
	return false;
}

static bool
lin_search(uint64_t done, struct lin_state *s)
{
	if (done == (nH == 64 ? ~0ULL : (1ULL << nH) - 1))
		return true;
	uint64_t h = hk_mix(done);
	for (unsigned i = 0; i < 10; i++)
		h = hk_mix(h ^ s->v[i]);
	if (memo_seen(h))
		return false;
	if (++lin_nodes > 2000000)
		hk_error("linearizability search too large");
	uint64_t minret = UINT64_MAX;
	for (int i = 0; i < nH; i++) {
		if (!(done >> i & 1) && H[i].ret < minret)
			minret = H[i].ret;
	}
	for (int i = 0; i < nH; i++) {
		if ((done >> i & 1) || H[i].call > minret)
			continue;
		struct lin_state t = *s;
		if (lin_step(&t, &H[i]) && lin_search(done | 1ULL << i, &t))
			return true;
	}
	return false;
}

static bool
linearizable(struct lin_state init,
	     bool (*step)(struct lin_state *, const struct op *))
{
	lin_step = step;
	lin_nodes = 0;
	if (memo_cap > 65536) {
		hk_free(memo);
		memo = NULL;
		memo_cap = 0;
	}
	if (memo)
		memset(memo, 0, memo_cap * 8);
	memo_n = 0;
	return lin_search(0, &init);
}

static struct sched_conf
random_conf(int nfibers)
{
	struct sched_conf c;
	memset(&c, 0, sizeof(c));
	c.nfibers = nfibers;
	c.strategy = rndn(2);
	static const int inv[] = { 1, 2, 3, 6, 15 };
	c.inv_switch = inv[rndn(5)];
	c.nchange = 1 + rndn(5);
	c.length = 20 + rndn(200);
	static const int sp[] = { 0, 0, 20, 4 };
	c.spurious_inv = sp[rndn(4)];
	c.max_steps = 100000;
	return c;
}

static void
run_sched(struct sched_conf *c, sched_fn fn, void *arg, const char *key)
{
	if (!sched_run(c, fn, arg))
		hk_violation(key, "%d fibers made no progress in %llu steps",
			     c->nfibers, (unsigned long long)c->max_steps);
	HK_EVN("sched_steps", sched_steps);
	HK_EVN("sched_switches", sched_switches);
	HK_EVN("spurious_cas_failures", sched_spurious);
	hk_shape(sched_sig);
}

/** Did operations of different fibers overlap? */
static int
overlaps(void)
{
	int n = 0;
	for (int i = 0; i < nH; i++)
		for (int j = 0; j < i; j++)
			if (H[i].fiber != H[j].fiber &&
			    H[i].call < H[j].ret && H[j].call < H[i].ret)
				n++;
	return n;
}

/* ---- quota ------------------------------------------------------------ */
enum { Q_USE, Q_RELEASE, Q_SET, Q_TOTAL, Q_USED, Q_BOTH };
static void *Q;
static size_t unit, qmax;
static uint64_t q_bound;	/* sizes are around that many bytes */
static uint64_t
units(uint64_t n)
{
	return n / unit + (n % unit != 0);
}

static bool
quota_step(struct lin_state *s, const struct op *o)
{
	uint64_t total = s->v[0], used = s->v[1], u = units(o->a);
	switch (o->kind) {
	case Q_USE:
		if (o->a > qmax || used + u > total)
			return o->r == -1;
		s->v[1] = used + u;
		return o->r == (int64_t)(u * unit);
	case Q_RELEASE:
		if (u > used)
			return false;
		s->v[1] = used - u;
		return o->r == (int64_t)(u * unit);
	case Q_SET:
		if (u < used)
			return o->r == -1;
		s->v[0] = u;
		return o->r == (int64_t)(u * unit);
	case Q_TOTAL:
		return (uint64_t)o->r == total * unit;
	case Q_USED:
		return (uint64_t)o->r == used * unit;
	default:
		return (uint64_t)o->r == total * unit &&
		       (uint64_t)o->r2 == used * unit;
	}
}

static uint64_t
quota_size(void)
{
	switch (rndn(8)) {
	case 0:
		return rndr(1, 3) * unit;
	case 1:
		return rndr(1, 3) * unit + rndn(3) - 1;
	case 2:
		return 1 + rndn(unit * 2);
	case 3:
		return rndedge(1, qmax);
	case 4:
		return qmax - rndn(3) * unit - rndn(2);
	default:
		return 1 + rndlog(0, q_bound);
	}
}

static void
quota_do(int f, uint64_t *held, int *nheld)
{
	struct op *o;
	int k = rndn(16);
	if (k < 6 && *nheld < 16) {
		uint64_t sz = quota_size();
		if (one_in(40))
			sz = qmax + rndedge(1, SIZE_MAX - qmax);
		o = op_call(f, Q_USE, sz);
		ssize_t r = sut_quota_use(Q, sz);
		op_ret(o, r, 0);
		if (r >= 0) {
			/* Give back either what was asked or what was got. */
			held[(*nheld)++] = one_in(2) ? sz : (uint64_t)r;
			HK_EV("quota_use_ok");
		} else {
			HK_EV("quota_use_refused");
		}
	} else if (k < 11) {
		if (*nheld == 0)
			return;
		int i = rndn(*nheld);
		uint64_t sz = held[i];
		if (units(sz) > 1 && one_in(3)) {
			/* In two parts. */
			uint64_t part = rndr(1, units(sz) - 1) * unit;
			held[i] = units(sz) * unit - part;
			sz = part;
		} else {
			held[i] = held[--*nheld];
		}
		o = op_call(f, Q_RELEASE, sz);
		op_ret(o, sut_quota_release(Q, sz), 0);
		HK_EV("quota_release");
	} else if (k < 13) {
		uint64_t sz = one_in(8) ? 0 : one_in(3) ? rndn(qmax + 1) :
			      quota_size();
		if (sz > qmax)
			sz = qmax;
		o = op_call(f, Q_SET, sz);
		ssize_t r = sut_quota_set(Q, sz);
		op_ret(o, r, 0);
		if (r < 0)
			HK_EV("quota_set_refused");
		else
			HK_EV("quota_set_ok");
	} else if (k == 13) {
		o = op_call(f, Q_TOTAL, 0);
		op_ret(o, sut_quota_total(Q), 0);
	} else if (k == 14) {
		o = op_call(f, Q_USED, 0);
		op_ret(o, sut_quota_used(Q), 0);
	} else {
		size_t t, u;
		o = op_call(f, Q_BOTH, 0);
		sut_quota_both(Q, &t, &u);
		op_ret(o, t, u);
		HK_CHECK(u <= t, "quota.used_over_total",
			 "used %zu > total %zu", u, t);
	}
}

static struct { uint64_t held[17]; int n; } qheld[SCHED_MAX_FIBERS];

static void
quota_fiber(int f, void *arg)
{
	(void)arg;
	for (int i = 0; i < perfiber; i++) {
		quota_do(f, qheld[f].held, &qheld[f].n);
		sched_yield_point();
	}
}

static void
quota_case(void)
{
	unit = sut_quota_unit();
	qmax = sut_quota_max();
	if (Q == NULL)
		Q = hk_malloc(sut_quota_sizeof());
	size_t total;
	switch (rndn(4)) {
	case 0:
		total = rndr(1, 8) * unit + rndn(3) - 1;
		break;
	case 1:
		total = rndedge(0, qmax);
		break;
	case 2:
		total = qmax - rndn(4) * unit;
		break;
	default:
		total = rndlog(1, 1 << 24);
	}
	q_bound = total / 3 + unit;
	sut_quota_init(Q, total);
	HK_CHECK(sut_quota_used(Q) == 0, "quota.init", "used after init");
	HK_CHECK(sut_quota_total(Q) == units(total) * unit, "quota.init",
		 "total %zu after init with %zu", sut_quota_total(Q), total);
	int nf = one_in(5) ? 1 : 2 + rndn(3);
	perfiber = nf == 1 ? 40 : nf == 2 ? 2 + rndn(7) : 2 + rndn(4);
	nH = 0;
	clock_ = 0;
	memset(qheld, 0, sizeof(qheld));
	if (one_in(3) && nf > 1) {
		/* Some is in use beforehand. */
		for (int f = 0; f < nf; f++)
			for (int i = 0; i < 3; i++)
				quota_do(f, qheld[f].held, &qheld[f].n);
	}
	struct sched_conf c = random_conf(nf);
	run_sched(&c, quota_fiber, NULL, "quota.livelock");
	size_t t, u;
	struct op *o = op_call(9, Q_BOTH, 0);
	sut_quota_both(Q, &t, &u);
	op_ret(o, t, u);
	o = op_call(9, Q_TOTAL, 0);
	op_ret(o, sut_quota_total(Q), 0);
	o = op_call(9, Q_USED, 0);
	op_ret(o, sut_quota_used(Q), 0);
	/* Conservation, checked directly as well. */
	uint64_t sum = 0;
	for (int f = 0; f < nf; f++)
		for (int i = 0; i < qheld[f].n; i++)
			sum += units(qheld[f].held[i]) * unit;
	HK_CHECK(sum == u, "quota.conservation", "%llu bytes charged and not "
		 "released, but used is %zu", (unsigned long long)sum, u);
	HK_CHECK(u <= t, "quota.used_over_total", "used %zu > total %zu", u, t);
	struct lin_state init;
	memset(&init, 0, sizeof(init));
	init.v[0] = units(total);
	HK_CHECK(linearizable(init, quota_step), "quota.linearizable",
		 "no order of the %d operations of %d threads explains the "
		 "results", nH, nf);
	int ov = overlaps();
	HK_EVN("overlapping_pairs", ov);
	HK_EV("histories");
	if (ov > 0 || nf == 1)
		hk_nontrivial();
}

/* ---- LIFO ------------------------------------------------------------- */
enum { L_PUSH, L_POP, L_EMPTY };
enum { NELEM = 8 };
static void *L;
static char *elems[NELEM];
static int nelem;
static uint64_t owner_tag;

static int
elem_id(void *p)
{
	for (int i = 0; i < NELEM; i++)
		if (elems[i] == p)
			return i;
	return -2;
}

/* v[0]: depth, v[1]: the ids, 4 bits each. */
static bool
lifo_step(struct lin_state *s, const struct op *o)
{
	switch (o->kind) {
	case L_PUSH:
		s->v[1] |= o->a << (4 * s->v[0]);
		s->v[0]++;
		return true;
	case L_POP:
		if (s->v[0] == 0)
			return o->r == -1;
		s->v[0]--;
		if ((int64_t)(s->v[1] >> (4 * s->v[0]) & 15) != o->r)
			return false;
		s->v[1] &= (1ULL << (4 * s->v[0])) - 1;
		return true;
	default:
		return o->r == (s->v[0] == 0);
	}
}

static struct { int own[NELEM], n; } lown[SCHED_MAX_FIBERS];
static int owner_of[NELEM];
static uint64_t scrib[NELEM];

/** The owner of an element overwrites it, as a user of a page would. */
static void
lifo_scribble(int e)
{
	uint64_t *p = (uint64_t *)elems[e];
	static const int where[] = { 0, 1, 7, 8191 };
	for (int i = 0; i < 2; i++) {
		uint64_t v;
		switch (rndn(5)) {
		case 0: v = 0; break;
		case 1: v = (uintptr_t)elems[rndn(nelem)] + rndn(4); break;
		case 2: v = (uintptr_t)elems[rndn(nelem)]; break;
		default: v = rnd(); break;
		}
		p[where[rndn(4)]] = v;
		sched_yield_point();
	}
	p[0] = scrib[e] = rnd();
	p[8191] = ~scrib[e];
}

static void
lifo_check_scribble(int e)
{
	uint64_t *p = (uint64_t *)elems[e];
	HK_CHECK(p[0] == scrib[e] && p[8191] == ~scrib[e],
		 "lifo.owned_written", "the contents of popped element %d "
		 "changed while it was owned", e);
}

static void
lifo_do(int f)
{
	struct op *o;
	int k = rndn(20);
	if (k < 10 && lown[f].n > 0) {
		int i = rndn(lown[f].n), e = lown[f].own[i];
		lown[f].own[i] = lown[f].own[--lown[f].n];
		owner_of[e] = -1;
		lifo_check_scribble(e);
		o = op_call(f, L_PUSH, e);
		sut_lifo_push(L, elems[e]);
		op_ret(o, 0, 0);
		HK_EV("lifo_push");
	} else if (k < 19) {
		o = op_call(f, L_POP, 0);
		void *p = sut_lifo_pop(L);
		int e = p ? elem_id(p) : -1;
		op_ret(o, e, 0);
		HK_CHECK(e != -2, "lifo.alien", "popped %p, which was never "
			 "pushed", p);
		if (e >= 0) {
			HK_CHECK(owner_of[e] == -1, "lifo.duplicate",
				 "element %d popped twice", e);
			owner_of[e] = f;
			lown[f].own[lown[f].n++] = e;
			lifo_scribble(e);
			HK_EV("lifo_pop");
		} else {
			HK_EV("lifo_pop_empty");
		}
	} else {
		o = op_call(f, L_EMPTY, 0);
		op_ret(o, sut_lifo_is_empty(L), 0);
		HK_EV("lifo_is_empty");
	}
}

static void
lifo_fiber(int f, void *arg)
{
	(void)arg;
	for (int i = 0; i < perfiber; i++) {
		lifo_do(f);
		sched_yield_point();
	}
}

/*
 * A thread may be stopped in the middle of an operation for as long as the
 * others need to do thousands of theirs.
 */
static int stall_at, stall_cycles;
static bool stall_push;
static void *stalled_result;

static void
stall_hook(void)
{
	if ((int)sched_steps != stall_at)
		return;
	sched_on = false;
	HK_EV("lifo_stalls");
	/* Top two elements off, the top one in and out, only it back on. */
	char *t = sut_lifo_pop(L), *second = NULL;
	HK_CHECK(t != NULL, "lifo.lost", "the elements are lost");
	second = sut_lifo_pop(L);
	for (int i = 1; i < stall_cycles; i++) {
		sut_lifo_push(L, t);
		void *p = sut_lifo_pop(L);
		HK_CHECK(p == t, "lifo.sequential", "pop after push returned "
			 "another element");
	}
	sut_lifo_push(L, t);
	owner_of[elem_id(t)] = -1;
	if (second != NULL) {
		int e = elem_id(second);
		owner_of[e] = 7;
		lifo_scribble(e);
	}
	sched_on = true;
}

static void
stall_fiber(int f, void *arg)
{
	(void)f;
	(void)arg;
	if (stall_push)
		sut_lifo_push(L, elems[0]);
	else
		stalled_result = sut_lifo_pop(L);
}

static void
lifo_stall_case(void)
{
	nelem = 3 + rndn(NELEM - 2);
	nH = 0;
	clock_ = 0;
	for (int e = 1; e < nelem; e++) {
		sut_lifo_push(L, elems[e]);
		owner_of[e] = -1;
	}
	owner_of[0] = 6;
	lifo_scribble(0);
	stall_push = one_in(5);
	stall_at = 1 + rndn(6);
	/* Any number of operations up to what the version may count. */
	int k = rndn(one_in(8) ? 16 : 12);
	stall_cycles = (one_in(3) ? 1 + rndn(4) * 2 : 1) << k;
	if (one_in(4))
		stall_cycles += rndn(3) - 1;
	if (stall_cycles <= 0)
		stall_cycles = 1;
	/* The whole width is the accepted limit. */
	if (stall_cycles > 65000)
		stall_cycles = 65000;
	stalled_result = NULL;
	struct sched_conf c = random_conf(1);
	c.spurious_inv = 0;
	sched_hook = stall_hook;
	run_sched(&c, stall_fiber, NULL, "lifo.livelock");
	sched_hook = NULL;
	if (stall_push) {
		owner_of[0] = -1;
	} else {
		int e = elem_id(stalled_result);
		HK_CHECK(e >= 0, "lifo.lost", "an element is lost after a long "
			 "stall in pop");
		HK_CHECK(owner_of[e] == -1, "lifo.duplicate", "element %d "
			 "popped twice after a stall of %d operations", e,
			 stall_cycles);
		owner_of[e] = 5;
	}
	for (int e = 0; e < nelem; e++)
		if (owner_of[e] == 7)
			lifo_check_scribble(e);
	int left = 0;
	for (int e = 0; e < nelem; e++)
		left += owner_of[e] == -1;
	for (int i = 0; i <= left; i++) {
		void *p = sut_lifo_pop(L);
		int e = p ? elem_id(p) : -1;
		HK_CHECK((e >= 0) == (i < left) && e != -2, "lifo.lost",
			 "%d elements are left, %d expected", i, left);
		if (e < 0)
			break;
		HK_CHECK(owner_of[e] == -1, "lifo.duplicate", "element %d "
			 "popped twice after a stall of %d operations", e,
			 stall_cycles);
		owner_of[e] = 9;
	}
	hk_nontrivial();
	hk_shape(stall_at * 1000003 + stall_cycles);
	HK_EV("histories");
}

static void
lifo_case(void)
{
	if (L == NULL) {
		L = hk_malloc(sut_lifo_sizeof());
		/* Neighbours, so that a carry out of the low bits shows. */
		char *p = mmap(NULL, (NELEM + 1) * 65536ULL,
			       PROT_READ | PROT_WRITE,
			       MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (p == MAP_FAILED)
			hk_error("mmap");
		p = (char *)(((uintptr_t)p + 65535) & ~(uintptr_t)65535);
		for (int i = 0; i < NELEM; i++)
			elems[i] = p + i * 65536;
	}
	sut_lifo_init(L);
	HK_CHECK(sut_lifo_is_empty(L) && sut_lifo_pop(L) == NULL, "lifo.init",
		 "not empty after initialization");
	if (one_in(20)) {
		lifo_stall_case();
		return;
	}
	int nf = one_in(6) ? 1 : 2 + rndn(3);
	nelem = 2 + rndn(NELEM - 2);
	perfiber = nf == 1 ? 40 : nf == 2 ? 3 + rndn(6) : 3 + rndn(3);
	nH = 0;
	clock_ = 0;
	memset(lown, 0, sizeof(lown));
	/* Start close to the wrap of the ABA counter now and then. */
	if (one_in(8)) {
		int n = 65530 + rndn(10);
		for (int i = 0; i < n; i++) {
			int e = i % nelem;
			sut_lifo_push(L, elems[e]);
			HK_CHECK(sut_lifo_pop(L) == elems[e], "lifo.sequential",
				 "pop after push returned another element");
		}
		HK_EV("lifo_counter_wraps");
	}
	struct lin_state init;
	memset(&init, 0, sizeof(init));
	for (int e = 0; e < nelem; e++) {
		scrib[e] = rnd();
		((uint64_t *)elems[e])[0] = scrib[e];
		((uint64_t *)elems[e])[8191] = ~scrib[e];
		if (one_in(2)) {
			sut_lifo_push(L, elems[e]);
			init.v[1] |= (uint64_t)e << (4 * init.v[0]++);
			owner_of[e] = -1;
		} else {
			int f = rndn(nf);
			lown[f].own[lown[f].n++] = e;
			owner_of[e] = f;
		}
	}
	struct sched_conf c = random_conf(nf);
	run_sched(&c, lifo_fiber, NULL, "lifo.livelock");
	/* Nothing lost: what is not owned can be popped. */
	int left = 0;
	for (int e = 0; e < nelem; e++)
		left += owner_of[e] == -1;
	for (int i = 0; i <= left; i++) {
		struct op *o = op_call(9, L_EMPTY, 0);
		op_ret(o, sut_lifo_is_empty(L), 0);
		o = op_call(9, L_POP, 0);
		void *p = sut_lifo_pop(L);
		int e = p ? elem_id(p) : -1;
		op_ret(o, e, 0);
		HK_CHECK(e != -2, "lifo.alien", "popped %p", p);
		if (i < left) {
			HK_CHECK(e >= 0, "lifo.lost", "%d elements are lost",
				 left - i);
			HK_CHECK(owner_of[e] == -1, "lifo.duplicate",
				 "element %d popped twice", e);
			owner_of[e] = 9;
		} else {
			HK_CHECK(e == -1, "lifo.duplicate", "extra element %d",
				 e);
		}
	}
	HK_CHECK(linearizable(init, lifo_step), "lifo.linearizable",
		 "no order of the %d operations of %d threads explains the "
		 "results", nH, nf);
	int ov = overlaps();
	HK_EVN("overlapping_pairs", ov);
	HK_EV("histories");
	if (ov > 0 || nf == 1)
		hk_nontrivial();
}

/* ---- arena ------------------------------------------------------------ */
enum { NARENA = 2, MAXSLAB = 64 };
static void *A[NARENA];
static int narena;
static size_t slabsz[NARENA];
static struct hk_imap owned;
static struct { void *p; uint64_t tag; int arena; } aown[SCHED_MAX_FIBERS][MAXSLAB];
static int naown[SCHED_MAX_FIBERS];
static uint64_t known_slab[NARENA][256];
static int nknown[NARENA];
static uint64_t next_tag;
static uint64_t outside_held;
static bool arena_alone;

/** At every step: is there a moment when the quota has no room? */
static struct { bool active; int arena; bool full; uint64_t faults; }
	inflight[SCHED_MAX_FIBERS + 2];

static void
quota_peek(void)
{
	size_t t, u;
	bool on = sched_on;
	sched_on = false;
	sut_quota_both(Q, &t, &u);
	sched_on = on;
	HK_CHECK(u <= t, "arena.quota_exceeded", "used %zu > total %zu", u, t);
	for (int i = 0; i < SCHED_MAX_FIBERS + 2; i++) {
		if (inflight[i].active &&
		    t - u < slabsz[inflight[i].arena])
			inflight[i].full = true;
	}
}

static void
arena_mem_hook(void)
{
	quota_peek();
	sched_yield_point();
	quota_peek();
}

/** Marks all over the slab but the first bytes are checked separately. */
static void
slab_write(char *p, size_t n, uint64_t tag)
{
	hk_fill(p, 32, tag, 0);
	for (size_t o = 4096; o < n; o += 16384)
		hk_fill(p + o, 16, tag, o);
	hk_fill(p + n - 16, 16, tag, n - 16);
}
static bool
slab_ok(char *p, size_t n, uint64_t tag)
{
	if (hk_verify(p, 32, tag, 0) >= 0 ||
	    hk_verify(p + n - 16, 16, tag, n - 16) >= 0)
		return false;
	for (size_t o = 4096; o < n; o += 16384)
		if (hk_verify(p + o, 16, tag, o) >= 0)
			return false;
	return true;
}

static void *
arena_map(int f, int a)
{
	inflight[f].arena = a;
	inflight[f].full = false;
	inflight[f].faults = hk_injected;
	inflight[f].active = true;
	quota_peek();
	/* Alone, it is known exactly how many slabs can be had. */
	size_t can_have = 0;
	if (arena_alone) {
		int mine = 0;
		for (int i = 0; i < naown[f]; i++)
			mine += aown[f][i].arena == a;
		can_have = nknown[a] - mine +
			(sut_quota_total(Q) - sut_quota_used(Q)) / slabsz[a];
	}
	hk_opn("map", f, a, 0, 0);
	void *p = sut_slab_map(A[a]);
	quota_peek();
	inflight[f].active = false;
	hk_opn("mapped", f, a, (uintptr_t)p, 0);
	size_t n = slabsz[a];
	if (p == NULL) {
		HK_CHECK(can_have == 0 || hk_injected >
			 inflight[f].faults, "arena.spurious_null", "no slab "
			 "although %zu can be had", can_have);
		HK_CHECK(inflight[f].full || hk_injected > inflight[f].faults,
			 "arena.spurious_null", "no slab although the quota "
			 "had room for one all along");
		HK_EV("arena_map_null");
		return NULL;
	}
	HK_EV("arena_map");
	HK_CHECK((uintptr_t)p % n == 0, "arena.alignment",
		 "slab %p is not aligned to %zu", p, n);
	HK_CHECK(hk_owned(p, n), "arena.not_mapped",
		 "slab %p of %zu bytes is not mapped memory", p, n);
	struct hk_iv *iv = hk_imap_overlap(&owned, (uintptr_t)p, n);
	HK_CHECK(iv == NULL, "arena.duplicate", "slab %p overlaps %p, which "
		 "is in use", p, (void *)iv->start);
	uint64_t tag = next_tag++;
	hk_imap_insert(&owned, (uintptr_t)p, n, tag, NULL);
	slab_write(p, n, tag);
	bool seen = false;
	for (int i = 0; i < nknown[a]; i++)
		seen |= known_slab[a][i] == (uintptr_t)p;
	if (seen) {
		HK_EV("arena_slab_reused");
	} else {
		if (nknown[a] == 256)
			hk_error("too many slabs");
		known_slab[a][nknown[a]++] = (uintptr_t)p;
	}
	int i = naown[f]++;
	if (i == MAXSLAB)
		hk_error("too many slabs");
	aown[f][i].p = p;
	aown[f][i].tag = tag;
	aown[f][i].arena = a;
	return p;
}

static void
arena_unmap(int f, int i)
{
	void *p = aown[f][i].p;
	int a = aown[f][i].arena;
	HK_CHECK(slab_ok(p, slabsz[a], aown[f][i].tag), "arena.content",
		 "the contents of slab %p changed while it was in use", p);
	aown[f][i] = aown[f][--naown[f]];
	hk_imap_remove(&owned, (uintptr_t)p);
	hk_opn("unmap", f, a, (uintptr_t)p, 0);
	sut_slab_unmap(A[a], p);
	HK_EV("arena_unmap");
}

static void
arena_fiber(int f, void *arg)
{
	(void)arg;
	uint64_t held = 0;
	for (int i = 0; i < perfiber; i++) {
		int k = rndn(20);
		if (k < 9) {
			arena_map(f, rndn(narena));
		} else if (k < 17) {
			if (naown[f] > 0)
				arena_unmap(f, rndn(naown[f]));
		} else if (k == 17 && held == 0) {
			uint64_t sz = rndr(1, slabsz[0] * 2);
			if (sut_quota_use(Q, sz) > 0) {
				held = sz;
				outside_held += units(sz) * unit;
			}
		} else if (held > 0) {
			outside_held -= units(held) * unit;
			sut_quota_release(Q, held);
			held = 0;
		}
		quota_peek();
		sched_yield_point();
		quota_peek();
	}
}

/** Hundreds of slabs in one arena. */
static void
arena_many_case(void)
{
	enum { MANY = 1600 };
	static struct { char *p; uint64_t tag; } s[MANY];
	static uintptr_t known[MANY];
	struct hk_mem m0 = hk_mem_get();
	size_t n = 65536, max = rndr(100, 1500);
	/* Of what is preallocated, all, some or nothing is within the quota. */
	size_t pre = one_in(4) ? 0 : one_in(3) ? max + rndn(99) :
		     rndn(max + 1);
	sut_quota_init(Q, max * n);
	bool old_flags = one_in(4), shared = one_in(3), dump = one_in(3);
	hk_op("many(quota=%zu prealloc=%zu)", max, pre);
	if (sut_arena_create(A[0], Q, pre * n, n, old_flags, shared, dump) != 0)
		hk_violation("arena.create", "creation failed");
	size_t cover = pre < max ? pre : max;
	HK_CHECK(sut_arena_prealloc(A[0]) == cover * n, "arena.prealloc",
		 "%zu bytes are preallocated, expected %zu slabs",
		 sut_arena_prealloc(A[0]), cover);
	size_t have = 0, exist = 0;
	for (int round = 0; round < 3; round++) {
		size_t want = round == 0 ? rndr(cover, max) : max;
		/* The preallocated ones need nothing of the system. */
		if (round == 0 && cover > 0) {
			want = cover;
			hk_mmap_budget = 0;
		}
		/* Nothing to give back. */
		sut_slab_unmap(A[0], NULL);
		while (have < want) {
			char *p = sut_slab_map(A[0]);
			HK_CHECK(p != NULL, "arena.spurious_null", "slab %zu of "
				 "%zu, %zu preallocated", have, max, cover);
			HK_CHECK((uintptr_t)p % n == 0, "arena.alignment",
				 "slab %p is not aligned to %zu", p, n);
			HK_CHECK(hk_owned(p, n), "arena.not_mapped",
				 "slab %p of %zu bytes is not mapped memory", p,
				 n);
			struct hk_iv *iv = hk_imap_overlap(&owned, (uintptr_t)p,
							   n);
			HK_CHECK(iv == NULL, "arena.duplicate", "slab %p "
				 "overlaps %p, which is in use", p,
				 (void *)iv->start);
			uint64_t tag = next_tag++;
			hk_imap_insert(&owned, (uintptr_t)p, n, tag, NULL);
			slab_write(p, n, tag);
			s[have].p = p;
			s[have++].tag = tag;
		}
		hk_faults_off();
		/* Those that exist already were given first. */
		if (have > exist)
			exist = have;
		HK_CHECK(sut_arena_used(A[0]) == exist * n &&
			 sut_quota_used(Q) == exist * n, "arena.used", "%zu "
			 "slabs exist, arena %zu, quota %zu", exist,
			 sut_arena_used(A[0]), sut_quota_used(Q));
		if (have == max)
			HK_CHECK(sut_slab_map(A[0]) == NULL, "arena.capacity",
				 "more slabs than the %zu in the quota", max);
		if (round == 1) {
			for (size_t i = 0; i < have; i++)
				known[i] = (uintptr_t)s[i].p;
		} else if (round == 2) {
			/* They are still the same. */
			for (size_t i = 0; i < max; i++)
				HK_CHECK(hk_imap_overlap(&owned, known[i], 1) !=
					 NULL, "arena.lost", "slab %#zx is gone",
					 (size_t)known[i]);
		}
		size_t keep = round == 2 ? 0 : rndn(have + 1);
		while (have > keep) {
			size_t i = one_in(3) ? have - 1 : rndn(have);
			HK_CHECK(slab_ok(s[i].p, n, s[i].tag), "arena.content",
				 "the contents of slab %p changed while it was "
				 "in use", s[i].p);
			hk_imap_remove(&owned, (uintptr_t)s[i].p);
			sut_slab_unmap(A[0], s[i].p);
			s[i] = s[--have];
		}
	}
	sut_arena_destroy(A[0]);
	struct hk_mem m = hk_mem_get();
	HK_CHECK(m.mapped == m0.mapped && m.blocks == m0.blocks, "arena.leak",
		 "%zd bytes still mapped after destruction of %zu slabs",
		 m.mapped - m0.mapped, max);
	hk_imap_clear(&owned);
	HK_EV("arena_of_many_slabs");
	hk_shape(max);
	hk_shape(cover);
	hk_nontrivial();
}

static void
arena_case(void)
{
	unit = sut_quota_unit();
	qmax = sut_quota_max();
	if (Q == NULL) {
		Q = hk_malloc(sut_quota_sizeof());
		for (int i = 0; i < NARENA; i++)
			A[i] = hk_malloc(sut_arena_sizeof());
		hk_imap_init(&owned);
	}
	hk_mem_hook = NULL;
	hk_mmap_any();
	if (one_in(300)) {
		next_tag = rnd();
		arena_many_case();
		return;
	}
	struct hk_mem m0 = hk_mem_get();
	narena = one_in(4) ? 2 : 1;
	next_tag = rnd();
	outside_held = 0;
	memset(naown, 0, sizeof(naown));
	memset(nknown, 0, sizeof(nknown));
	memset(inflight, 0, sizeof(inflight));
	size_t want0 = 65536;
	size_t total = rndr(0, 8) * want0 + (one_in(3) ? rndn(want0) : 0);
	sut_quota_init(Q, total);
	total = sut_quota_total(Q);
	for (int a = 0; a < narena; a++) {
		/* Not a power of two, or too small, is rounded up. */
		uint32_t want = one_in(3) ? rndr(1, 65536) :
				one_in(3) ? rndr(65537, 131072) : 65536;
		size_t pre = rndn(4) * 65536 + (one_in(3) ? rndn(65536) : 0);
		if (one_in(6))
			pre = rndedge(0, SIZE_MAX);
		hk_op("create(arena=%d quota=%zu prealloc=%zu slab=%u)", a,
		      total, pre, want);
		if (one_in(20))
			hk_mmap_budget = rndn(2);
		int rc = sut_arena_create(A[a], Q, pre, want, one_in(4),
					  one_in(3), one_in(3));
		hk_faults_off();
		if (rc != 0) {
			HK_CHECK(hk_injected > 0, "arena.create",
				 "creation failed");
			HK_EV("arena_create_failed");
			/* A failed creation holds nothing. */
			for (int b = 0; b < a; b++)
				sut_arena_destroy(A[b]);
			struct hk_mem m = hk_mem_get();
			HK_CHECK(m.mapped == m0.mapped, "arena.leak",
				 "%zd bytes mapped after a failed creation",
				 m.mapped - m0.mapped);
			return;
		}
		slabsz[a] = sut_arena_slab_size(A[a]);
		size_t e = 65536;
		while (e < want)
			e *= 2;
		HK_CHECK(slabsz[a] == e, "arena.slab_size",
			 "slab size %zu for a request of %u", slabsz[a], want);
		size_t cover = pre < total ? pre : total;
		size_t have = sut_arena_prealloc(A[a]);
		HK_CHECK(have % e == 0 && have >= cover && have - cover < e,
			 "arena.prealloc", "%zu bytes are preallocated, "
			 "requested %zu, quota %zu, slab size %zu", have, pre,
			 total, e);
		hk_injected = 0;
		if (narena > 1 || !one_in(4))
			continue;
		/* They are there without asking the system. */
		size_t n = (have < total ? have : total) / e;
		hk_mmap_budget = 0;
		for (size_t i = 0; i < n; i++) {
			void *p = arena_map(0, a);
			HK_CHECK(p != NULL, "arena.prealloc", "slab %zu of %zu "
				 "preallocated ones could not be taken", i, n);
		}
		hk_faults_off();
		while (naown[0] > 0)
			arena_unmap(0, rndn(naown[0]));
		HK_EVN("arena_prealloc_taken", n);
	}
	hk_mem_hook = arena_mem_hook;
	sched_hook = quota_peek;
	int nf = 1 + rndn(4);
	perfiber = nf == 1 ? 30 : 2 + rndn(8);
	arena_alone = nf == 1;
	if (one_in(3)) {
		hk_mmap_budget = rndn(4);
		hk_fail_len = 1 + rndn(3);
	}
	struct sched_conf c = random_conf(nf);
	run_sched(&c, arena_fiber, NULL, "arena.livelock");
	hk_mem_hook = NULL;
	sched_hook = NULL;
	if (hk_injected)
		HK_EV("arena_mmap_faults");
	hk_faults_off();
	/*
	 * Quiescent: the quota accounts exactly for the slabs that exist and
	 * for what others hold.
	 */
	uint64_t expect = outside_held;
	for (int a = 0; a < narena; a++)
		expect += nknown[a] * slabsz[a];
	HK_CHECK(sut_quota_used(Q) == expect, "arena.quota_accounting",
		 "quota has %zu bytes used, but the slabs ever handed out and "
		 "other users make %llu", sut_quota_used(Q),
		 (unsigned long long)expect);
	for (int a = 0; a < narena; a++)
		HK_CHECK(sut_arena_used(A[a]) == nknown[a] * slabsz[a],
			 "arena.used", "used is %zu, %d slabs of %zu exist",
			 sut_arena_used(A[a]), nknown[a], slabsz[a]);
	/* Nothing is lost: take all there is, one arena at a time. */
	arena_alone = false;
	for (int a = 0; a < narena; a++) {
		int known0 = nknown[a], mine = 0;
		for (int f = 0; f < nf; f++)
			for (int i = 0; i < naown[f]; i++)
				mine += aown[f][i].arena == a;
		size_t room = (total - sut_quota_used(Q)) / slabsz[a];
		size_t can = known0 - mine + room;
		for (size_t i = 0; i <= can; i++) {
			void *p = arena_map(SCHED_MAX_FIBERS - 1, a);
			HK_CHECK((p != NULL) == (i < can), "arena.capacity",
				 "%zu slabs could be taken, expected %zu", i,
				 can);
		}
		HK_CHECK((size_t)nknown[a] == known0 + room, "arena.lost",
			 "%d slabs exist, expected %zu", nknown[a],
			 known0 + room);
	}
	for (int f = 0; f < SCHED_MAX_FIBERS; f++)
		while (naown[f] > 0)
			arena_unmap(f, rndn(naown[f]));
	for (int a = 0; a < narena; a++)
		sut_arena_destroy(A[a]);
	struct hk_mem m = hk_mem_get();
	HK_CHECK(m.mapped == m0.mapped && m.blocks == m0.blocks, "arena.leak",
		 "%zd bytes still mapped after destruction",
		 m.mapped - m0.mapped);
	hk_imap_clear(&owned);
	HK_EV("histories");
	hk_nontrivial();
}


/* ---- lessors over one quota ------------------------------------------- */
enum { MAXLEASE = 24 };
static void *LS[SCHED_MAX_FIBERS];
static struct { size_t sz[MAXLEASE]; int n; size_t sum, direct; bool dead; }
	lz[SCHED_MAX_FIBERS];
static size_t lmin;
static bool l_alone;
/** Smallest room in the quota during the lease in progress. */
static struct { bool active; size_t minroom; } lroom[SCHED_MAX_FIBERS];

static void
lessor_peek(void)
{
	size_t t, u;
	bool on = sched_on;
	sched_on = false;
	sut_quota_both(Q, &t, &u);
	sched_on = on;
	HK_CHECK(u <= t, "lessor.quota_exceeded", "used %zu > total %zu", u, t);
	for (int i = 0; i < SCHED_MAX_FIBERS; i++)
		if (lroom[i].active && t - u < lroom[i].minroom)
			lroom[i].minroom = t - u;
}

static void
lessor_check(int f)
{
	HK_CHECK(sut_leased(LS[f]) == lz[f].sum, "lessor.leased",
		 "leased is %zu, live leases make %zu", sut_leased(LS[f]),
		 lz[f].sum);
	size_t av = sut_available(LS[f]);
	HK_CHECK(av < 2 * lmin, "lessor.hoard",
		 "%zu bytes taken from the source and not leased", av);
	HK_CHECK((lz[f].sum + av) % unit == 0, "lessor.units",
		 "%zu bytes taken from the source", lz[f].sum + av);
}

static size_t
lease_size(void)
{
	switch (rndn(10)) {
	case 0: return 0;
	case 1: return lmin + rndn(3) - 1;
	case 2: return rndn(4) * unit + rndn(3);
	case 3: return rndlog(1, lmin * 8);
	case 4: return rndn(lmin);
	case 5: return sut_quota_total(Q) - rndn(2) * sut_quota_used(Q) +
		       rndn(3) - 1;
	case 6: return rndn(lmin * 3);
	default: return 1 + rndlog(0, lmin);
	}
}

static void
lessor_fiber(int f, void *arg)
{
	(void)arg;
	for (int i = 0; i < perfiber; i++) {
		int k = rndn(20);
		size_t u0 = 0, t0 = 0;
		size_t av0 = sut_available(LS[f]);
		if (l_alone)
			sut_quota_both(Q, &t0, &u0);
		if (k < 9 && lz[f].n < MAXLEASE) {
			size_t sz = lease_size();
			if (one_in(60))
				sz = rndedge(1, (size_t)1 << 62);
			if ((ssize_t)sz < 0)
				sz = 1;
			if (one_in(10) && av0 > 0)
				sz = av0 + rndn(2);
			lroom[f].minroom = SIZE_MAX;
			lroom[f].active = true;
			lessor_peek();
			hk_opn("lease", f, sz, av0, 0);
			ssize_t r = sut_lease(LS[f], sz);
			lessor_peek();
			lroom[f].active = false;
			hk_opn("leased", f, r, sut_available(LS[f]), 0);
			if (r < 0) {
				HK_CHECK(sut_available(LS[f]) == av0,
					 "lessor.failed_changed", "a refused "
					 "lease changed what is available");
				uint64_t need = units(sz - av0) * unit;
				HK_CHECK(sz > av0 && lroom[f].minroom < need,
					 "lessor.spurious_refusal",
					 "a lease of %zu was refused with %zu "
					 "available and %zu left in the source",
					 sz, av0, lroom[f].minroom);
				HK_EV("lease_refused");
			} else {
				HK_CHECK((size_t)r == sz, "lessor.result",
					 "a lease of %zu returned %zd", sz, r);
				lz[f].sz[lz[f].n++] = sz;
				lz[f].sum += sz;
				if (sz > av0)
					HK_EV("lease_from_source");
				else
					HK_EV("lease_from_available");
			}
			if (l_alone) {
				size_t d = sut_quota_used(Q) - u0;
				size_t need = sz > av0 ?
					units(sz - av0) * unit : 0;
				if (r < 0 || sz <= av0) {
					HK_CHECK(d == 0, "lessor.source_used",
						 "source used although not "
						 "needed");
				} else {
					HK_CHECK(d >= need,
						 "lessor.source_used",
						 "%zu bytes leased, %zu taken",
						 need, d);
					/* Chunks are large if possible. */
					size_t want = need > lmin ? need : lmin;
					HK_CHECK(d >= want || t0 - u0 < want,
						 "lessor.chunk", "%zu taken "
						 "from the source for %zu with "
						 "%zu left", d, need, t0 - u0);
				}
			}
		} else if (k < 18) {
			if (lz[f].n == 0)
				continue;
			int j = rndn(lz[f].n);
			size_t sz = lz[f].sz[j];
			if (sz > 1 && one_in(3)) {
				/* A part of it. */
				size_t part = rndr(1, sz - 1);
				lz[f].sz[j] -= part;
				sz = part;
			} else {
				lz[f].sz[j] = lz[f].sz[--lz[f].n];
			}
			hk_opn("end_lease", f, sz, av0, 0);
			ssize_t r = sut_end_lease(LS[f], sz);
			HK_CHECK((size_t)r == sz, "lessor.result",
				 "end of lease of %zu returned %zd", sz, r);
			lz[f].sum -= sz;
			size_t av = sut_available(LS[f]);
			if (av < av0 + sz) {
				HK_EV("lessor_released");
				HK_CHECK(av >= lmin, "lessor.oscillation",
					 "only %zu left available after a "
					 "release to the source", av);
			} else {
				HK_CHECK(av == av0 + sz, "lessor.available",
					 "available %zu, expected %zu", av,
					 av0 + sz);
			}
			HK_EV("end_lease");
		} else if (k == 18) {
			/* Somebody charges the source directly. */
			if (lz[f].direct) {
				sut_quota_release(Q, lz[f].direct);
				lz[f].direct = 0;
			} else {
				size_t sz = 1 + rndlog(0, lmin * 2);
				if (sut_quota_use(Q, sz) > 0)
					lz[f].direct = sz;
			}
		} else {
			sut_lessor_destroy(LS[f]);
			HK_CHECK(sut_leased(LS[f]) == 0 &&
				 sut_available(LS[f]) == 0, "lessor.destroy",
				 "something is leased after destruction");
			sut_lessor_create(LS[f], Q);
			lz[f].n = 0;
			lz[f].sum = 0;
			HK_EV("lessor_destroy");
		}
		lessor_check(f);
		if (l_alone) {
			size_t e = lz[f].sum + sut_available(LS[f]) +
				   units(lz[f].direct) * unit;
			HK_CHECK(sut_quota_used(Q) == e, "lessor.conservation",
				 "source used %zu, expected %zu",
				 sut_quota_used(Q), e);
		}
		sched_yield_point();
	}
}

static void
lessor_case(void)
{
	unit = sut_quota_unit();
	qmax = sut_quota_max();
	lmin = sut_lessor_min();
	if (Q == NULL)
		Q = hk_malloc(sut_quota_sizeof());
	for (int i = 0; i < SCHED_MAX_FIBERS; i++)
		if (LS[i] == NULL)
			LS[i] = hk_malloc(sut_lessor_sizeof());
	memset(lz, 0, sizeof(lz));
	memset(lroom, 0, sizeof(lroom));
	size_t total = one_in(4) ? qmax : lmin + rndlog(0, lmin * 16);
	if (one_in(6))
		total = lmin;
	sut_quota_init(Q, total);
	int nf = one_in(2) ? 1 : 2 + rndn(3);
	l_alone = nf == 1;
	perfiber = nf == 1 ? 60 : 4 + rndn(12);
	for (int f = 0; f < nf; f++)
		sut_lessor_create(LS[f], Q);
	struct sched_conf c = random_conf(nf);
	sched_hook = lessor_peek;
	run_sched(&c, lessor_fiber, NULL, "lessor.livelock");
	sched_hook = NULL;
	size_t e = 0;
	for (int f = 0; f < nf; f++) {
		lessor_check(f);
		e += lz[f].sum + sut_available(LS[f]) + units(lz[f].direct) * unit;
	}
	HK_CHECK(sut_quota_used(Q) == e, "lessor.conservation",
		 "source used %zu, all that was taken makes %zu",
		 sut_quota_used(Q), e);
	for (int f = 0; f < nf; f++) {
		if (lz[f].direct)
			sut_quota_release(Q, lz[f].direct);
		if (one_in(2)) {
			/* End every lease first. */
			while (lz[f].n > 0) {
				size_t sz = lz[f].sz[--lz[f].n];
				sut_end_lease(LS[f], sz);
				lz[f].sum -= sz;
				lessor_check(f);
			}
		}
		sut_lessor_destroy(LS[f]);
	}
	HK_CHECK(sut_quota_used(Q) == 0, "lessor.destroy",
		 "%zu bytes of the source in use after all were destroyed",
		 sut_quota_used(Q));
	HK_EV("histories");
	hk_nontrivial();
}

void
hk_init(void)
{
	const char *m = hk_opt("mode", "quota");
	mode = strcmp(m, "quota") == 0 ? 0 : strcmp(m, "lifo") == 0 ? 1 :
	       strcmp(m, "arena") == 0 ? 2 : 3;
}

void
hk_case(uint64_t idx)
{
	(void)idx;
	if (mode == 0)
		quota_case();
	else if (mode == 1)
		lifo_case();
	else if (mode == 2)
		arena_case();
	else
		lessor_case();
}
