#define _GNU_SOURCE
#include "hk.h"
#include "hksched.h"
#include <sys/mman.h>

uint64_t sched_steps, sched_switches, sched_sig, sched_spurious;
int sched_cur = -1;
bool sched_on;
void (*sched_hook)(void);

enum { STACK = 256 * 1024 };
struct fiber {
	void *sp;
	char *stack;
	bool done;
	int prio;
};
static struct fiber fibers[SCHED_MAX_FIBERS];
static void *main_sp;
static struct sched_conf conf;
static sched_fn the_fn;
static void *the_arg;
static uint64_t change_at[16];
static int nextprio;

/* void switch_stack(void **save, void *to) */
__asm__(
".text\n"
".globl hk_switch_stack\n"
".type hk_switch_stack,@function\n"
"hk_switch_stack:\n"
"	pushq %rbp\n	pushq %rbx\n	pushq %r12\n"
"	pushq %r13\n	pushq %r14\n	pushq %r15\n"
"	movq %rsp, (%rdi)\n"
"	movq %rsi, %rsp\n"
"	popq %r15\n	popq %r14\n	popq %r13\n"
"	popq %r12\n	popq %rbx\n	popq %rbp\n"
"	ret\n"
".size hk_switch_stack,.-hk_switch_stack\n");
void hk_switch_stack(void **save, void *to);

static int
live_count(void)
{
	int n = 0;
	for (int i = 0; i < conf.nfibers; i++)
		n += !fibers[i].done;
	return n;
}

/** The fiber to run next; cur may be done. */
static int
choose(int cur)
{
	int n = live_count();
	if (n == 0)
		return -1;
	if (sched_steps > conf.max_steps / 2) {
		/* Something may be waiting for another fiber: be fair. */
		for (int k = 1; k <= conf.nfibers; k++) {
			int i = (cur + k) % conf.nfibers;
			if (!fibers[i].done)
				return i;
		}
	}
	if (conf.strategy == 0) {
		if (!fibers[cur].done && rndn(conf.inv_switch) != 0)
			return cur;
		int k = rndn(n);
		for (int i = 0; i < conf.nfibers; i++)
			if (!fibers[i].done && k-- == 0)
				return i;
	}
	for (int i = 0; i < conf.nchange; i++) {
		if (change_at[i] == sched_steps)
			fibers[cur].prio = nextprio--;
	}
	int best = -1;
	for (int i = 0; i < conf.nfibers; i++) {
		if (!fibers[i].done &&
		    (best < 0 || fibers[i].prio > fibers[best].prio))
			best = i;
	}
	return best;
}

static void
go(int from, int to)
{
	if (to == from)
		return;
	sched_switches++;
	sched_sig = hk_mix(sched_sig ^ (sched_steps * 8 + to));
	sched_cur = to;
	if (to < 0)
		hk_switch_stack(&fibers[from].sp, main_sp);
	else if (from < 0)
		hk_switch_stack(&main_sp, fibers[to].sp);
	else
		hk_switch_stack(&fibers[from].sp, fibers[to].sp);
}

void
sched_yield_point(void)
{
	if (!sched_on)
		return;
	sched_steps++;
	if (sched_hook)
		sched_hook();
	if (sched_steps > conf.max_steps) {
		go(sched_cur, -1);
		__builtin_unreachable();
	}
	go(sched_cur, choose(sched_cur));
}

static void
fiber_main(void)
{
	int me = sched_cur;
	the_fn(me, the_arg);
	fibers[me].done = true;
	go(me, choose(me));
	__builtin_unreachable();
}

bool
sched_run(const struct sched_conf *c, sched_fn fn, void *arg)
{
	conf = *c;
	the_fn = fn;
	the_arg = arg;
	sched_steps = sched_switches = sched_sig = sched_spurious = 0;
	for (int i = 0; i < conf.nfibers; i++) {
		struct fiber *f = &fibers[i];
		if (f->stack == NULL)
			f->stack = hk_malloc(STACK);
		uintptr_t top = ((uintptr_t)f->stack + STACK) & ~(uintptr_t)15;
		void **sp = (void **)(top - 64);
		/* Return address, then an aligned stack on entry. */
		sp[0] = sp[1] = sp[2] = sp[3] = sp[4] = sp[5] = NULL;
		sp[6] = (void *)fiber_main;
		sp[7] = NULL;
		f->sp = sp;
		f->done = false;
		f->prio = 0;
	}
	/* Random distinct priorities. */
	int perm[SCHED_MAX_FIBERS];
	for (int i = 0; i < conf.nfibers; i++) {
		int j = rndn(i + 1);
		perm[i] = perm[j];
		perm[j] = i;
	}
	for (int i = 0; i < conf.nfibers; i++)
		fibers[i].prio = 100 + perm[i];
	nextprio = 99;
	for (int i = 0; i < conf.nchange; i++)
		change_at[i] = 1 + rndn(conf.length);
	sched_on = true;
	sched_cur = -1;
	fibers[0].done = false;
	int first = conf.strategy == 0 ? (int)rndn(conf.nfibers) : choose(0);
	go(-1, first);
	sched_on = false;
	return live_count() == 0;
}

/* ---- the interface the compiler instruments for ----------------------- */
#define Y() sched_yield_point()
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define RW(n) \
void __tsan_read##n(void *p) { (void)p; Y(); } \
void __tsan_write##n(void *p) { (void)p; Y(); } \
void __tsan_unaligned_read##n(void *p) { (void)p; Y(); } \
void __tsan_unaligned_write##n(void *p) { (void)p; Y(); } \
void __tsan_volatile_read##n(void *p) { (void)p; Y(); } \
void __tsan_volatile_write##n(void *p) { (void)p; Y(); } \
void __tsan_read##n##_pc(void *p, void *q) { (void)p; (void)q; Y(); } \
void __tsan_write##n##_pc(void *p, void *q) { (void)p; (void)q; Y(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, long n) { (void)p; (void)n; Y(); }
void __tsan_write_range(void *p, long n) { (void)p; (void)n; Y(); }
void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; }
void __tsan_atomic_thread_fence(int o) { (void)o; Y(); }
void __tsan_atomic_signal_fence(int o) { (void)o; }

static bool
spurious(void)
{
	if (sched_on && conf.spurious_inv && rndn(conf.spurious_inv) == 0) {
		sched_spurious++;
		return true;
	}
	return false;
}

#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *a, int o) \
{ (void)o; Y(); return *a; } \
void __tsan_atomic##bits##_store(volatile T *a, T v, int o) \
{ (void)o; Y(); *a = v; } \
T __tsan_atomic##bits##_exchange(volatile T *a, T v, int o) \
{ (void)o; Y(); T x = *a; *a = v; return x; } \
T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int o) \
{ (void)o; Y(); T x = *a; *a = x + v; return x; } \
T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int o) \
{ (void)o; Y(); T x = *a; *a = x - v; return x; } \
T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int o) \
{ (void)o; Y(); T x = *a; *a = x & v; return x; } \
T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int o) \
{ (void)o; Y(); T x = *a; *a = x | v; return x; } \
T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int o) \
{ (void)o; Y(); T x = *a; *a = x ^ v; return x; } \
T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int o) \
{ (void)o; Y(); T x = *a; *a = ~(x & v); return x; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, \
						  int o, int f) \
{ \
	(void)o; (void)f; Y(); \
	if (*a == *e) { *a = v; return 1; } \
	*e = *a; return 0; \
} \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, \
						int o, int f) \
{ \
	(void)o; (void)f; Y(); \
	if (*a == *e && !spurious()) { *a = v; return 1; } \
	*e = *a; return 0; \
} \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int o, \
					     int f) \
{ (void)o; (void)f; Y(); T x = *a; if (x == e) *a = v; return x; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
