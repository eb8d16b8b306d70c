/*
 * Monitor of the misuse detection of the sanitizer build: objects returned to
 * where they do not belong, with a wrong size, from a wrong thread, or after a
 * write into the gap before them that cannot be poisoned.
 */
#include "env.h"
#include <small/mempool.h>
#include <small/small.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#ifndef ENABLE_ASAN
#error "for the sanitizer build only"
#endif

static int reports;

static void
on_failure(const char *file, int line, const char *func, const char *expr)
{
	(void)file; (void)line; (void)func; (void)expr;
	reports++;
}

static void
expect(bool report, const char *what)
{
	HK_CHECK((reports > 0) == report, "asan.misuse", "%s: %d reports, "
		 "expected %s", what, reports, report ? "one" : "none");
	reports = 0;
	if (report)
		HK_EV("misuse_reported");
	else
		HK_EV("correct_use_quiet");
}

/**
 * The byte before an object that starts in the middle of eight bytes is not
 * poisoned. Returns whether the object has such a byte.
 */
static bool
corrupt(char *p, size_t *off, char *old)
{
	size_t gap = (uintptr_t)p & 7;
	if (gap == 0)
		return false;
	*off = 1 + rndn(gap);
	HK_CHECK(!__asan_address_is_poisoned(p - *off), "harness",
		 "the gap is poisoned");
	*old = p[-*off];
	p[-*off] ^= 1 << rndn(8);
	return true;
}

static void
do_pool(struct slab_cache *c)
{
	enum { N = 40 };
	struct mempool mp[3];
	size_t size[3];
	size[0] = rndedge(1, 5000);
	size[1] = one_in(2) ? size[0] : rndedge(1, 5000);
	size[2] = rndr(1, 40) | 1;
	struct { char *p; int i; } o[N];
	for (int i = 0; i < 3; i++)
		mempool_create(&mp[i], c, size[i]);
	expect(false, "mempool_create");
	int n = rndr(3, N);
	for (int k = 0; k < n; k++) {
		o[k].i = rndn(3);
		o[k].p = mempool_alloc(&mp[o[k].i]);
		memset(o[k].p, 0xee, size[o[k].i]);
	}
	expect(false, "mempool_alloc");
	while (n > 0) {
		int k = rndn(n);
		char *p = o[k].p;
		int i = o[k].i;
		o[k] = o[--n];
		size_t off;
		char old;
		hk_opn("free", i, size[i], n, (uintptr_t)p);
		if (one_in(4)) {
			mempool_free(&mp[(i + 1 + rndn(2)) % 3], p);
			expect(true, "an object freed to another pool");
			HK_EV("misuse_wrong_pool");
		} else if (one_in(3) && corrupt(p, &off, &old)) {
			mempool_free(&mp[i], p);
			expect(true, "a write before an object of a pool");
			HK_EV("misuse_magic");
		} else if (one_in(3) && corrupt(p, &off, &old)) {
			p[-off] = old;
			mempool_free(&mp[i], p);
			expect(false, "a restored byte before an object");
		} else {
			mempool_free(&mp[i], p);
			expect(false, "mempool_free");
		}
	}
	for (int i = 0; i < 3; i++)
		mempool_destroy(&mp[i]);
	expect(false, "mempool_destroy");
}

static void
do_small(struct slab_cache *c)
{
	enum { N = 40 };
	struct small_alloc sa[2];
	struct { char *p; int i; size_t size; } o[N];
	float f;
	for (int i = 0; i < 2; i++)
		small_alloc_create(&sa[i], c, rndr(8, 64), 8, 1.1, &f);
	int n = rndr(3, N);
	for (int k = 0; k < n; k++) {
		o[k].i = rndn(2);
		o[k].size = one_in(8) ? 0 : rndlog(1, 20000);
		o[k].p = smalloc(&sa[o[k].i], o[k].size);
		if (o[k].size > 0)
			memset(o[k].p, 0xee, o[k].size);
	}
	expect(false, "smalloc");
	while (n > 0) {
		int k = rndn(n);
		char *p = o[k].p;
		int i = o[k].i;
		size_t size = o[k].size, off;
		char old;
		o[k] = o[--n];
		hk_opn("smfree", i, size, n, (uintptr_t)p);
		switch (rndn(6)) {
		case 0:
			smfree(&sa[!i], p, size);
			expect(true, "an object freed to another allocator");
			HK_EV("misuse_wrong_allocator");
			break;
		case 1: {
			size_t w = one_in(2) ? size + 1 + rndn(16) :
				   size > 0 ? size - 1 : 1;
			smfree(&sa[i], p, w);
			expect(true, "an object freed with a wrong size");
			HK_EV("misuse_wrong_size");
			break;
		}
		case 2:
			if (corrupt(p, &off, &old)) {
				smfree(&sa[i], p, size);
				expect(true, "a write before an object");
				HK_EV("misuse_magic");
				break;
			}
			/* Fall through. */
		default:
			smfree(&sa[i], p, size);
			expect(false, "smfree");
			break;
		}
	}
	for (int i = 0; i < 2; i++)
		small_alloc_destroy(&sa[i]);
	expect(false, "small_alloc_destroy");
}

static struct { struct slab_cache *c; struct slab *s; bool put; } th;

static void *
thread(void *arg)
{
	(void)arg;
	if (th.put)
		slab_put(th.c, th.s);
	else
		th.s = slab_get(th.c, 100);
	return NULL;
}

static void
do_slabs(struct quota *q)
{
	struct slab_arena ar[2];
	struct slab_cache c[2];
	for (int i = 0; i < 2; i++)
		slab_arena_create(&ar[i], q, 0, 65536, MAP_PRIVATE);
	for (int i = 0; i < 2; i++)
		slab_cache_create(&c[i], &ar[one_in(2)]);
	int n = rndr(1, 8);
	for (int k = 0; k < n; k++) {
		int i = rndn(2);
		size_t size = rndlog(1, 100000);
		struct slab *s = slab_get(&c[i], size);
		memset(slab_data(s), 0xee, size);
		expect(false, "slab_get");
		hk_opn("slab_put", i, size, 0, (uintptr_t)s);
		if (one_in(3)) {
			slab_put(&c[!i], s);
			expect(true, "a slab put to another cache");
			HK_EV("misuse_wrong_cache");
		} else {
			slab_put(&c[i], s);
			expect(false, "slab_put");
		}
		i = rndn(2);
		char *p = slab_map(&ar[i]);
		HK_CHECK(__asan_region_is_poisoned(p, ar[i].slab_size) == NULL,
			 "asan.live", "arena slab: poisoned");
		HK_CHECK(is_outside(p + ar[i].slab_size),
			 "asan.after", "arena slab: the byte after is not "
			 "poisoned");
		HK_CHECK(__asan_address_is_poisoned(p - 1),
			 "asan.before", "arena slab: the byte before is not "
			 "poisoned");
		memset(p, 0xee, 100);
		expect(false, "slab_map");
		hk_opn("slab_unmap", i, 0, 0, (uintptr_t)p);
		bool wrong = one_in(3);
		slab_unmap(&ar[wrong ? !i : i], p);
		expect(wrong, "slab_unmap");
		HK_CHECK(__asan_address_is_poisoned(p), "asan.dead",
			 "arena slab: not poisoned once unmapped");
		if (wrong)
			HK_EV("misuse_wrong_arena");
	}
	if (one_in(8)) {
		/* A cache belongs to a thread. */
		pthread_t t;
		th.c = &c[0];
		th.put = one_in(2);
		if (th.put)
			th.s = slab_get(th.c, 100);
		expect(false, "slab_get");
		pthread_create(&t, NULL, thread, NULL);
		pthread_join(t, NULL);
		expect(true, "a cache used by another thread");
		if (!th.put)
			slab_put(th.c, th.s);
		expect(false, "slab_put");
		HK_EV("misuse_wrong_thread");
	}
	for (int i = 0; i < 2; i++) {
		slab_cache_destroy(&c[i]);
		slab_arena_destroy(&ar[i]);
	}
}

static small_on_assert_failure_f initial_handler;

/**
 * What happens if the user has not set a handler, in a process of its own: the
 * misuse is described on stderr and the process aborts, there and then.
 */
static void
do_unhandled(struct slab_cache *c)
{
	char expr[40], func[40];
	int line = rndr(1, 100000);
	snprintf(expr, sizeof(expr), "a%u == b%u", (unsigned)rndn(1 << 20),
		 (unsigned)rndn(1 << 20));
	snprintf(func, sizeof(func), "f%u", (unsigned)rndn(1 << 20));
	bool direct = one_in(2);
	bool misuse = one_in(2);
	struct mempool mp[2];
	for (int i = 0; i < 2; i++)
		mempool_create(&mp[i], c, 64);
	char *o = mempool_alloc(&mp[0]);
	int fd[2];
	HK_CHECK(pipe(fd) == 0, "harness", "pipe fails");
	fflush(NULL);
	pid_t pid = fork();
	HK_CHECK(pid >= 0, "harness", "fork fails");
	if (pid == 0) {
		signal(SIGABRT, SIG_DFL);
		setrlimit(RLIMIT_CORE, &(struct rlimit){0, 0});
		dup2(fd[1], 2);
		small_on_assert_failure = initial_handler;
		if (direct)
			small_on_assert_failure_default("file.c", line, func,
							expr);
		else
			mempool_free(&mp[misuse], o);
		_exit(33);
	}
	close(fd[1]);
	char out[2000];
	size_t len = 0;
	ssize_t r;
	while (len < sizeof(out) - 1 &&
	       (r = read(fd[0], out + len, sizeof(out) - 1 - len)) > 0)
		len += r;
	out[len] = '\0';
	close(fd[0]);
	int st;
	while (waitpid(pid, &st, 0) != pid)
		;
	if (direct || misuse) {
		HK_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT,
			 "asan.abort", "no abort on %s: status %#x, said: %s",
			 direct ? "a failed check" : "an object freed to "
			 "another pool", st, out);
		HK_CHECK(len > 0, "asan.message", "aborts without a word");
		HK_EV("misuse_aborts");
	} else {
		HK_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 33 && len == 0,
			 "asan.abort", "correct use: status %#x, said: %s",
			 st, out);
		HK_EV("correct_use_goes_on");
	}
	if (direct) {
		char l[16];
		snprintf(l, sizeof(l), "%d", line);
		HK_CHECK(strstr(out, "file.c") != NULL &&
			 strstr(out, func) != NULL &&
			 strstr(out, expr) != NULL && strstr(out, l) != NULL,
			 "asan.message", "file.c:%d: %s: %s is reported as: %s",
			 line, func, expr, out);
	}
	mempool_free(&mp[0], o);
	for (int i = 0; i < 2; i++)
		mempool_destroy(&mp[i]);
	expect(false, "mempool_destroy");
}

void
hk_init(void)
{
	opt_poison = true;
	initial_handler = small_on_assert_failure;
	small_on_assert_failure = on_failure;
}

void
hk_case(uint64_t idx)
{
	(void)idx;
	static struct env E;
	reports = 0;
	env_create_sized(&E, 65536 << rndn(3), QUOTA_MAX, 0, 2);
	hk_nontrivial();
	if (one_in(100))
		do_unhandled(&E.cache[0]);
	int n = rndr(1, 6);
	for (int i = 0; i < n; i++) {
		int w = rndn(3);
		hk_shape(w);
		hk_shape(rnd());
		if (w == 0)
			do_pool(&E.cache[rndn(2)]);
		else if (w == 1)
			do_small(&E.cache[rndn(2)]);
		else
			do_slabs(&E.quota);
	}
	env_destroy(&E, "asan.leak");
	expect(false, "destruction");
}
