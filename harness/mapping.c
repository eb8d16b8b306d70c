/*
 * Monitor of how the memory of an arena is mapped: what the kernel says about
 * each slab (/proc/self/smaps), against the flags of the arena, and what a
 * child process sees and may write.
 */
#include "hk.h"
#include <small/quota.h>
#include <small/slab_arena.h>
#include <small/small_features.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <stdio.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>

enum { MAXS = 256, MAXVMA = 4096, MAXA = 2 };

struct vma {
	uintptr_t start, end;
	bool shared, writable, readable, exec, dontdump;
};
static struct vma vma[MAXVMA];
static int nvma;

/** What the kernel says. */
static void
read_maps(void)
{
	static char buf[1 << 22];
	int fd = open("/proc/self/smaps", O_RDONLY);
	if (fd < 0)
		hk_error("no /proc/self/smaps");
	size_t n = 0;
	ssize_t rc;
	while (n < sizeof(buf) - 1 &&
	       (rc = read(fd, buf + n, sizeof(buf) - 1 - n)) > 0)
		n += rc;
	close(fd);
	buf[n] = 0;
	nvma = 0;
	bool flags = false;
	for (char *l = buf; l != NULL && *l != 0;) {
		char *e = strchr(l, '\n');
		if (e != NULL)
			*e++ = 0;
		unsigned long a, b;
		char perm[8];
		if (l[0] >= 'a' || (l[0] >= '0' && l[0] <= '9')) {
			if (sscanf(l, "%lx-%lx %7s", &a, &b, perm) == 3) {
				if (nvma == MAXVMA)
					hk_error("too many mappings");
				vma[nvma++] = (struct vma){ a, b,
					perm[3] == 's', perm[1] == 'w',
					perm[0] == 'r', perm[2] == 'x', false };
			}
		} else if (strncmp(l, "VmFlags:", 8) == 0 && nvma > 0) {
			flags = true;
			vma[nvma - 1].dontdump = strstr(l, " dd") != NULL;
		}
		l = e;
	}
	if (!flags)
		hk_error("no VmFlags in /proc/self/smaps");
}

/** Bytes of the process that are not to be dumped. */
static size_t
dontdump_bytes(void)
{
	size_t n = 0;
	for (int i = 0; i < nvma; i++)
		if (vma[i].dontdump)
			n += vma[i].end - vma[i].start;
	return n;
}

struct A {
	struct quota q;
	struct slab_arena a;
	bool shared, dontdump, protected;
	size_t nmapped;
	int n;
	struct { char *p; uint64_t tag; } s[MAXS];
};
static struct A arena[MAXA];
static int narena;

static bool
in_prealloc(struct A *g, const char *p)
{
	return g->a.arena != NULL && p >= (char *)g->a.arena &&
	       p < (char *)g->a.arena + g->a.prealloc;
}

/** All of [p, p + n) is mapped as it should be. */
static void
check_range(struct A *g, const char *p, size_t n)
{
	uintptr_t at = (uintptr_t)p, end = at + n;
	bool writable = !(g->protected && in_prealloc(g, p));
	for (int i = 0; i < nvma && at < end; i++) {
		if (vma[i].end <= at)
			continue;
		if (vma[i].start > at)
			break;
		HK_CHECK(vma[i].shared == g->shared, "map.shared",
			 "%p of slab %p is mapped %s", (void *)at, (void *)p,
			 vma[i].shared ? "shared" : "private");
		HK_CHECK(vma[i].dontdump == g->dontdump, "map.dontdump",
			 "%p of slab %p is %s a core dump", (void *)at,
			 (void *)p, vma[i].dontdump ? "left out of" :
			 "a part of");
		HK_CHECK(vma[i].readable && !vma[i].exec, "map.mode",
			 "%p of slab %p is not readable or is executable",
			 (void *)at, (void *)p);
		HK_CHECK(vma[i].writable == writable, "map.writable",
			 "%p of slab %p is%s writable", (void *)at, (void *)p,
			 vma[i].writable ? "" : " not");
		at = vma[i].end;
	}
	HK_CHECK(at >= end, "map.hole", "%p of slab %p is not mapped",
		 (void *)at, (void *)p);
}

static void
check_all(size_t other)
{
	read_maps();
	size_t dd = 0;
	for (int i = 0; i < narena; i++) {
		struct A *g = &arena[i];
		for (int k = 0; k < g->n; k++)
			check_range(g, g->s[k].p, g->a.slab_size);
		if (g->a.prealloc > 0)
			check_range(g, g->a.arena, g->a.prealloc);
		if (g->dontdump)
			dd += g->a.prealloc + g->nmapped * g->a.slab_size;
	}
	HK_CHECK(dontdump_bytes() == dd + other, "map.dontdump",
		 "%zu bytes are left out of a core dump, %zu are of arenas "
		 "that ask for it", dontdump_bytes() - other, dd);
	HK_EV("map_checked");
}

static void
check_content(void)
{
	for (int i = 0; i < narena; i++) {
		struct A *g = &arena[i];
		for (int k = 0; k < g->n; k++) {
			ssize_t bad = hk_verify_sparse(g->s[k].p,
						       g->a.slab_size,
						       g->s[k].tag);
			HK_CHECK(bad < 0, "map.content", "byte %zd of slab %p "
				 "has changed", bad, (void *)g->s[k].p);
		}
	}
}

static void
get(struct A *g)
{
	if (g->n == MAXS)
		return;
	size_t used = g->a.used;
	size_t inj = hk_injected;
	if (one_in(10)) {
		hk_mmap_budget = 0;
		hk_fail_len = rndr(1, 2);
	}
	char *p = slab_map(&g->a);
	hk_faults_off();
	hk_op("map(arena=%d) = %p", (int)(g - arena), (void *)p);
	if (p == NULL) {
		HK_CHECK(hk_injected > inj || quota_total(&g->q) -
			 quota_used(&g->q) < g->a.slab_size,
			 "map.spurious_null", "no slab");
		HK_EV("map_null");
		return;
	}
	if (g->a.used != used && !in_prealloc(g, p)) {
		g->nmapped++;
		HK_EV("map_new");
	} else if (in_prealloc(g, p)) {
		HK_EV("map_prealloc");
	} else {
		HK_EV("map_reused");
	}
	int k = g->n++;
	g->s[k].p = p;
	g->s[k].tag = rnd();
	if (g->protected && in_prealloc(g, p)) {
		/* As it is. */
		g->n--;
		HK_EV("map_protected");
		return;
	}
	hk_fill_sparse(p, g->a.slab_size, g->s[k].tag);
}

static void
put(struct A *g)
{
	for (int tries = 0; tries < 8 && g->n > 0; tries++) {
		int k = rndn(g->n);
		/* A list of free slabs is kept in their memory. */
		if (g->protected && in_prealloc(g, g->s[k].p))
			continue;
		hk_op("unmap(arena=%d, %p)", (int)(g - arena),
		      (void *)g->s[k].p);
		slab_unmap(&g->a, g->s[k].p);
		g->s[k] = g->s[--g->n];
		return;
	}
}

/** What a child writes is seen if, and only if, the memory is shared. */
static void
child_writes(struct A *g)
{
	if (g->n == 0)
		return;
	int k = rndn(g->n);
	bool ro = g->protected && in_prealloc(g, g->s[k].p);
	size_t at = rndn(g->a.slab_size);
	volatile char *p = g->s[k].p + at;
	char was = *p;
	hk_op("fork(arena=%d slab=%p at=%zu%s)", (int)(g - arena),
	      (void *)g->s[k].p, at, ro ? " protected" : "");
	pid_t pid = fork();
	if (pid < 0)
		return;
	if (pid == 0) {
		signal(SIGSEGV, SIG_DFL);
		signal(SIGBUS, SIG_DFL);
		*p = was + 1;
		_exit(0);
	}
	int st;
	while (waitpid(pid, &st, 0) < 0)
		;
	if (ro) {
		HK_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGSEGV &&
			 *p == was, "map.protected", "a write to protected "
			 "memory went through, status %d", st);
		HK_EV("map_write_refused");
		return;
	}
	if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
		hk_violation("map.writable", "a write to slab %p ended with "
			     "status %d", (void *)g->s[k].p, st);
	HK_CHECK(*p == (char)(was + g->shared), "map.shared", "what a child "
		 "writes to a %s slab is%s seen", g->shared ? "shared" :
		 "private", *p == was ? " not" : "");
	*p = was;
	if (g->shared)
		HK_EV("map_child_seen");
	else
		HK_EV("map_child_not_seen");
}

/** What is printed goes to a file. */
static int say_fd = -1, say_old;

static void
say_begin(void)
{
	if (say_fd < 0)
		say_fd = memfd_create("stderr", MFD_CLOEXEC);
	fflush(stderr);
	say_old = dup(2);
	if (say_fd < 0 || say_old < 0 || ftruncate(say_fd, 0) != 0 ||
	    lseek(say_fd, 0, SEEK_SET) != 0 || dup2(say_fd, 2) < 0)
		hk_error("cannot redirect stderr");
}

/** Each line of it must name the error; the number of lines. */
static unsigned
say_end(const char *error)
{
	static char buf[1 << 16];
	fflush(stderr);
	dup2(say_old, 2);
	close(say_old);
	ssize_t n = pread(say_fd, buf, sizeof(buf) - 1, 0);
	if (n < 0)
		hk_error("cannot read what was printed");
	buf[n] = 0;
	unsigned lines = 0;
	for (char *l = buf, *e; l < buf + n; l = e + 1) {
		e = memchr(l, '\n', buf + n - l);
		if (e == NULL)
			e = buf + n;
		*e = 0;
		if (e == l)
			continue;
		lines++;
		for (char *c = l; c < e; c++)
			if ((unsigned char)*c < ' ' || (unsigned char)*c > '~')
				*c = '?';
		HK_CHECK(strstr(l, error) != NULL, "map.message", "\"%.80s\" "
			 "is printed when the error is \"%s\"", l, error);
	}
	return lines;
}

/** The system refuses what is asked for. */
static void
refused_case(void)
{
	struct hk_mem m0 = hk_mem_get();
	read_maps();
	size_t other = dontdump_bytes();
	static struct slab_arena a;
	static struct quota q;
	size_t slab = (size_t)65536 << rndn(4);
	size_t pre = slab * rndn(4);
	bool shared = one_in(2), refuse = !one_in(4);
	quota_init(&q, slab * 8);
	hk_mmap_any();
	hk_op("refused(prealloc=%zu slab=%zu shared=%d advice=%d)", pre, slab,
	      shared, refuse);
	hk_madvise_refused = 0;
	hk_madvise_refuse = refuse;
	say_begin();
	bool feature = small_test_feature(SMALL_FEATURE_DONTDUMP);
	HK_CHECK(hk_mem_get().mapped == m0.mapped, "map.leak", "a feature test "
		 "leaves memory behind");
	if (slab_arena_create(&a, &q, pre, slab, SLAB_ARENA_DONTDUMP |
			      (shared ? SLAB_ARENA_SHARED :
			       SLAB_ARENA_PRIVATE)) != 0)
		hk_violation("map.create", "no arena of %zu bytes", pre);
	char *p[8];
	for (int i = 0; i < 8; i++) {
		p[i] = slab_map(&a);
		HK_CHECK(p[i] != NULL, "map.refused", "no slab %d of 8", i);
		HK_CHECK((uintptr_t)p[i] % slab == 0 && hk_owned(p[i], slab),
			 "map.refused", "slab %p is not memory that was mapped",
			 (void *)p[i]);
		memset(p[i], i + 1, slab);
	}
	for (int i = 0; i < 8; i++)
		HK_CHECK(p[i][0] == i + 1 && p[i][slab - 1] == i + 1,
			 "map.refused", "slab %d of 8 has changed", i);
	unsigned lines = say_end(strerror(EINVAL));
	hk_madvise_refuse = false;
	read_maps();
	if (refuse) {
		HK_CHECK(!feature, "map.feature", "leaving memory out of core "
			 "dumps is said to be supported, but is refused");
		HK_CHECK(hk_madvise_refused > 0 && lines > 0, "map.message",
			 "%u refusals, %u lines are printed",
			 hk_madvise_refused, lines);
		HK_EV("map_advice_refused");
	} else {
		HK_CHECK(feature && lines == 0, "map.feature", "leaving memory "
			 "out of core dumps is not supported, %u lines printed",
			 lines);
		HK_CHECK(dontdump_bytes() == other + 8 * slab, "map.dontdump",
			 "%zu bytes are left out of a core dump",
			 dontdump_bytes() - other);
	}
	for (int i = 0; i < 8; i++)
		slab_unmap(&a, p[i]);
	slab_arena_destroy(&a);
	if (one_in(2)) {
		hk_munmap_refuse = true;
		say_begin();
		feature = small_test_feature(SMALL_FEATURE_DONTDUMP);
		unsigned n = say_end(strerror(EINVAL));
		hk_munmap_refuse = false;
		HK_CHECK(feature && n == 1, "map.feature", "%u lines, the "
			 "feature is%s supported", n, feature ? "" : " not");
		hk_mmap_budget = 0;
		say_begin();
		feature = small_test_feature(SMALL_FEATURE_DONTDUMP);
		say_end(strerror(ENOMEM));
		hk_faults_off();
		HK_CHECK(!feature, "map.feature", "leaving memory out of core "
			 "dumps is said to be supported, but there was no "
			 "memory to try");
		HK_CHECK(small_test_feature(SMALL_FEATURE_DONTDUMP),
			 "map.feature", "leaving memory out of core dumps is "
			 "not supported any more");
		HK_EV("map_test_refused");
	}
	HK_CHECK(hk_mem_get().mapped == m0.mapped, "map.leak", "%zu bytes are "
		 "still mapped", hk_mem_get().mapped - m0.mapped);
	hk_shape(slab * 64 + pre);
	hk_nontrivial();
}

void
hk_init(void)
{
}

void
hk_case(uint64_t idx)
{
	(void)idx;
	if (one_in(12)) {
		refused_case();
		return;
	}
	struct hk_mem m0 = hk_mem_get();
	read_maps();
	size_t other = dontdump_bytes();
	HK_CHECK(small_test_feature(SMALL_FEATURE_DONTDUMP), "map.feature",
		 "leaving memory out of core dumps is not supported, but the "
		 "kernel does");
	HK_CHECK(!small_test_feature(FEATURE_MAX + rndn(1000)), "map.feature",
		 "an unknown feature is supported");
	bool many = one_in(40);
	narena = 1 + one_in(2);
	for (int i = 0; i < narena; i++) {
		struct A *g = &arena[i];
		memset(g, 0x5a, sizeof(*g));
		g->n = 0;
		g->nmapped = 0;
		g->protected = false;
		g->shared = one_in(2);
		g->dontdump = one_in(2);
		int flags = g->shared ? SLAB_ARENA_SHARED : SLAB_ARENA_PRIVATE;
		if (g->dontdump)
			flags |= SLAB_ARENA_DONTDUMP;
		else if (one_in(2))
			flags = g->shared ? MAP_SHARED : MAP_PRIVATE;
		size_t slab = (size_t)65536 << (many ? 0 : rndn(5));
		size_t pre = one_in(3) ? 0 : rndn((many ? 80 : 6) * slab);
		quota_init(&g->q, slab * rndr(1, many ? 150 : 20) + rndn(slab));
		hk_mmap_any();
		hk_op("create(arena=%d quota=%zu prealloc=%zu slab=%zu "
		      "flags=0x%x)", i, quota_total(&g->q), pre, slab, flags);
		if (slab_arena_create(&g->a, &g->q, pre, slab, flags) != 0)
			hk_violation("map.create", "no arena of %zu bytes",
				     pre);
		HK_EV("map_create");
		if (g->dontdump)
			HK_EV("map_create_dontdump");
		if (flags == MAP_SHARED || flags == MAP_PRIVATE)
			HK_EV("map_create_old_flags");
	}
	check_all(other);
	int nops = many ? 300 : rndr(5, 60);
	int bias = many ? 9 : rndr(4, 9);
	for (int i = 0; i < nops; i++) {
		struct A *g = &arena[rndn(narena)];
		if ((int)rndn(10) < bias)
			get(g);
		else
			put(g);
		if (one_in(40))
			child_writes(g);
		if (!g->protected && g->a.arena != NULL && one_in(60)) {
			/* The free ones cannot be handed out any more. */
			size_t got = g->a.used;
			while (g->n < MAXS && quota_used(&g->q) <=
			       quota_total(&g->q)) {
				int n = g->n;
				get(g);
				if (g->n == n)
					break;
			}
			(void)got;
			slab_arena_mprotect(&g->a);
			hk_op("mprotect(arena=%d)", (int)(g - arena));
			g->protected = true;
			HK_EV("map_mprotect");
			child_writes(g);
		}
		if (one_in(10))
			check_all(other);
		hk_shape((uint64_t)g->n * 64 + g->nmapped);
	}
	check_all(other);
	check_content();
	if (arena[0].nmapped + arena[0].n > 2)
		hk_nontrivial();
	for (int i = 0; i < narena; i++) {
		struct A *g = &arena[i];
		if (g->protected && mprotect(g->a.arena, g->a.prealloc,
					     PROT_READ | PROT_WRITE) != 0)
			hk_error("cannot make memory writable again");
		g->protected = false;
		while (g->n > 0)
			put(g);
		slab_arena_destroy(&g->a);
	}
	struct hk_mem m = hk_mem_get();
	HK_CHECK(m.mapped == m0.mapped, "map.leak", "%zu bytes are still "
		 "mapped", m.mapped - m0.mapped);
	read_maps();
	HK_CHECK(dontdump_bytes() == other, "map.leak", "memory that is left "
		 "out of a core dump remains");
}
