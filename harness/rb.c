/*
 * Monitor of the red-black tree: every generated variant against a sorted
 * array. Built with and without RB_COMPACT and RB_CMP_TREE_ARG.
 */
#include "hk.h"
#include <assert.h>
#include <limits.h>
#include <stdbool.h>
#include <stdio.h>
#include <sys/types.h>
#include <small/rb.h>

struct key { int a, b; bool partial; };
typedef struct node_s node_t;
struct node_s {
	struct key k;
	bool in;
	/* Augmentation: a function of the set of nodes of the subtree. */
	uint64_t hash;
	uint32_t cnt;
	int min_a, max_a;
	uint64_t own;
	rb_node(node_t) link;
	/* Structure learned from the last walk. */
	node_t *wl, *wr;
};
typedef rb_tree(node_t, int sign; uint64_t canary;) tree_t;

static tree_t T;
static int cur_sign, mag;

static int
key_cmp3(const struct key *x, const struct key *y)
{
	int r = x->a < y->a ? -1 : x->a > y->a;
	if (r == 0 && !x->partial)
		r = x->b < y->b ? -1 : x->b > y->b;
	return r;
}

static int
do_cmp(const struct key *x, const struct key *y, int sign)
{
	int r = key_cmp3(x, y) * sign;
	if (r == 0)
		return 0;
	switch (mag) {
	case 0: return r;
	case 1: return r < 0 ? INT_MIN : INT_MAX;
	default: return r * (2 + (x->b + y->a) % 1000);
	}
}

#ifdef RB_CMP_TREE_ARG
#define TREEARG tree_t *t,
static int
arg_sign(tree_t *t)
{
	HK_CHECK(t == &T, "rb.cmp_arg", "the comparator is given another tree");
	return t->sign;
}
#define SIGN arg_sign(t)
#else
#define TREEARG
#define SIGN cur_sign
#endif

static int
node_cmp(TREEARG const node_t *x, const node_t *y)
{
	return do_cmp(&x->k, &y->k, SIGN);
}

static int
ext_cmp(TREEARG const struct key *x, const node_t *y)
{
	return do_cmp(x, &y->k, SIGN);
}

static void
node_aug(node_t *n, const node_t *l, const node_t *r)
{
	n->cnt = 1 + (l ? l->cnt : 0) + (r ? r->cnt : 0);
	n->hash = n->own + (l ? l->hash : 0) + (r ? r->hash : 0);
	n->min_a = n->max_a = n->k.a;
	const node_t *c[2] = { l, r };
	for (int i = 0; i < 2; i++) {
		if (c[i] == NULL)
			continue;
		if (c[i]->min_a < n->min_a)
			n->min_a = c[i]->min_a;
		if (c[i]->max_a > n->max_a)
			n->max_a = c[i]->max_a;
	}
}

#define U __attribute__((unused)) static
rb_gen(U, v0_, tree_t, node_t, link, node_cmp)
rb_gen_ext_key(U, v1_, tree_t, node_t, link, node_cmp, const struct key *,
	       ext_cmp)
rb_gen_aug(U, v2_, tree_t, node_t, link, node_cmp, node_aug)
rb_gen_ext_key_aug(U, v3_, tree_t, node_t, link, node_cmp, const struct key *,
		   ext_cmp, node_aug)
rb_proto(U, v4_, tree_t, node_t)
rb_gen(U, v4_, tree_t, node_t, link, node_cmp)

typedef node_t *(*iter_cb)(tree_t *, node_t *, void *);
typedef union { char b[2048]; void *align; } itbuf;
struct vt {
	bool aug;
	void (*new)(void);
	bool (*empty)(void);
	node_t *(*first)(void), *(*last)(void);
	node_t *(*next)(node_t *), *(*prev)(node_t *);
	node_t *(*search)(struct key *), *(*psearch)(struct key *),
	       *(*nsearch)(struct key *);
	void (*insert)(node_t *), (*remove)(node_t *);
	node_t *(*iget)(itbuf *);
	bool (*icreate)(node_t *, itbuf *);
	void (*ifirst)(itbuf *), (*ilast)(itbuf *);
	node_t *(*inext)(itbuf *), *(*iprev)(itbuf *);
	bool (*isearch)(struct key *, itbuf *);
	void (*isearch_le)(struct key *, itbuf *);
	void (*isearch_ge)(struct key *, itbuf *);
	void (*isearch_lt)(struct key *, itbuf *);
	void (*isearch_gt)(struct key *, itbuf *);
	node_t *(*iter)(node_t *, iter_cb, void *);
	node_t *(*riter)(node_t *, iter_cb, void *);
	void (*walk_init)(itbuf *);
	node_t *(*walk_next)(itbuf *, int, node_t **, node_t **);
};

static node_t probe_node;
static const node_t *
as_node(struct key *k)
{
	memset(&probe_node, 0x5a, sizeof(probe_node));
	probe_node.k = *k;
	return &probe_node;
}
#define AS_KEY(k) (k)
#define AS_NODE(k) as_node(k)

#define WRAP(p, is_aug, K)						\
static void p##w_new(void) { p##new(&T); }				\
static bool p##w_empty(void) { return p##empty(&T); }			\
static node_t *p##w_first(void) { return p##first(&T); }		\
static node_t *p##w_last(void) { return p##last(&T); }			\
static node_t *p##w_next(node_t *n) { return p##next(&T, n); }		\
static node_t *p##w_prev(node_t *n) { return p##prev(&T, n); }		\
static node_t *p##w_search(struct key *k) { return p##search(&T, K(k)); } \
static node_t *p##w_psearch(struct key *k) { return p##psearch(&T, K(k)); } \
static node_t *p##w_nsearch(struct key *k) { return p##nsearch(&T, K(k)); } \
static void p##w_insert(node_t *n) { p##insert(&T, n); }		\
static void p##w_remove(node_t *n) { p##remove(&T, n); }		\
static node_t *p##w_iget(itbuf *it)					\
{ return p##iterator_get((struct p##iterator *)it); }			\
static bool p##w_icreate(node_t *n, itbuf *it)				\
{ return p##icreate(&T, n, (struct p##iterator *)it); }			\
static void p##w_ifirst(itbuf *it)					\
{ p##ifirst(&T, (struct p##iterator *)it); }				\
static void p##w_ilast(itbuf *it)					\
{ p##ilast(&T, (struct p##iterator *)it); }				\
static node_t *p##w_inext(itbuf *it)					\
{ return p##inext((struct p##iterator *)it); }				\
static node_t *p##w_iprev(itbuf *it)					\
{ return p##iprev((struct p##iterator *)it); }				\
static bool p##w_isearch(struct key *k, itbuf *it)			\
{ return p##isearch(&T, K(k), (struct p##iterator *)it); }		\
static void p##w_isearch_le(struct key *k, itbuf *it)			\
{ p##isearch_le(&T, K(k), (struct p##iterator *)it); }			\
static void p##w_isearch_ge(struct key *k, itbuf *it)			\
{ p##isearch_ge(&T, K(k), (struct p##iterator *)it); }			\
static void p##w_isearch_lt(struct key *k, itbuf *it)			\
{ p##isearch_lt(&T, K(k), (struct p##iterator *)it); }			\
static void p##w_isearch_gt(struct key *k, itbuf *it)			\
{ p##isearch_gt(&T, K(k), (struct p##iterator *)it); }			\
static node_t *p##w_iter(node_t *s, iter_cb cb, void *a)		\
{ return p##iter(&T, s, cb, a); }					\
static node_t *p##w_riter(node_t *s, iter_cb cb, void *a)		\
{ return p##reverse_iter(&T, s, cb, a); }				\
static void p##w_walk_init(itbuf *it)					\
{									\
	_Static_assert(sizeof(struct p##walk) <= sizeof(*it) &&		\
		       sizeof(struct p##iterator) <= sizeof(*it), "");	\
	p##walk_init((struct p##walk *)it, &T);				\
}									\
static node_t *p##w_walk_next(itbuf *it, int d, node_t **l, node_t **r)	\
{ return p##walk_next((struct p##walk *)it, d, l, r); }			\
static const struct vt p##vt = { is_aug, p##w_new, p##w_empty,		\
	p##w_first, p##w_last, p##w_next, p##w_prev, p##w_search,	\
	p##w_psearch, p##w_nsearch, p##w_insert, p##w_remove, p##w_iget, \
	p##w_icreate, p##w_ifirst, p##w_ilast, p##w_inext, p##w_iprev,	\
	p##w_isearch, p##w_isearch_le, p##w_isearch_ge, p##w_isearch_lt, \
	p##w_isearch_gt, p##w_iter, p##w_riter, p##w_walk_init,		\
	p##w_walk_next };

WRAP(v0_, false, AS_NODE)
WRAP(v1_, false, AS_KEY)
WRAP(v2_, true, AS_NODE)
WRAP(v3_, true, AS_KEY)
WRAP(v4_, false, AS_NODE)

static const struct vt *V;
static const struct vt *const vts[] = { &v0_vt, &v1_vt, &v2_vt, &v3_vt, &v4_vt };

/* ---- model ------------------------------------------------------------ */
enum { MAXN = 1 << 19 };
static node_t *nodes[MAXN];
static int nn;
/** The nodes in the tree, in order, with room at both ends. */
static node_t *ord_buf[2 * MAXN];
static node_t **ord;
static int no;
static int uni_a, uni_b;

static int
mcmp(const struct key *x, const struct key *y)
{
	return key_cmp3(x, y) * cur_sign;
}

/** The first node not less than the key; with after, the first greater. */
static int
lower(const struct key *k, bool after)
{
	int lo = 0, hi = no;
	while (lo < hi) {
		int m = (lo + hi) / 2, c = mcmp(k, &ord[m]->k);
		if (c > 0 || (after && c == 0))
			lo = m + 1;
		else
			hi = m;
	}
	return lo;
}

#define CK(p, what, want, got) do {					\
	node_t *g_ = (got);						\
	node_t *w_ = (want);						\
	HK_CHECK(g_ == w_, p, "%s: %s(%d,%d), expected %s(%d,%d), %d nodes", \
		 what, g_ ? "" : "nothing", g_ ? g_->k.a : 0,		\
		 g_ ? g_->k.b : 0, w_ ? "" : "nothing",			\
		 w_ ? w_->k.a : 0, w_ ? w_->k.b : 0, no);		\
} while (0)
#define AT(i) ((i) >= 0 && (i) < no ? ord[i] : NULL)

/* ---- structure -------------------------------------------------------- */
static int wpos;
struct sub { int height, black; uint64_t hash; uint32_t cnt; int min, max; };

static struct sub
check_sub(node_t *n)
{
	struct sub s = { 0, 0, 0, 0, INT_MAX, INT_MIN };
	if (n == NULL)
		return s;
	struct sub l = check_sub(n->wl);
	HK_CHECK(wpos < no && ord[wpos] == n, "rb.order", "node (%d,%d) at "
		 "position %d of the tree", n->k.a, n->k.b, wpos);
	wpos++;
	struct sub r = check_sub(n->wr);
	s.height = 1 + (l.height > r.height ? l.height : r.height);
	s.hash = n->own + l.hash + r.hash;
	s.cnt = 1 + l.cnt + r.cnt;
	s.min = s.max = n->k.a;
	if (l.cnt > 0 && l.min < s.min) s.min = l.min;
	if (r.cnt > 0 && r.min < s.min) s.min = r.min;
	if (l.cnt > 0 && l.max > s.max) s.max = l.max;
	if (r.cnt > 0 && r.max > s.max) s.max = r.max;
	if (V->aug)
		HK_CHECK(n->hash == s.hash && n->cnt == s.cnt &&
			 n->min_a == s.min && n->max_a == s.max, "rb.augment",
			 "node (%d,%d): data of a subtree of %u nodes, it has "
			 "%u", n->k.a, n->k.b, n->cnt, s.cnt);
#ifdef rbtn_red_get
	bool red = rbtn_red_get(node_t, link, n);
	HK_CHECK(l.black == r.black, "rb.balance", "node (%d,%d): %d black "
		 "nodes below on the left, %d on the right", n->k.a, n->k.b,
		 l.black, r.black);
	if (red)
		HK_CHECK(!(n->wl && rbtn_red_get(node_t, link, n->wl)) &&
			 !(n->wr && rbtn_red_get(node_t, link, n->wr)),
			 "rb.balance", "red node (%d,%d) has a red child",
			 n->k.a, n->k.b);
	s.black = l.black + !red;
#endif
	return s;
}

/** A full walk, then the order, balance and augmentation. */
static void
check_tree(void)
{
	itbuf w;
	memset(&w, 0x5a, sizeof(w));
	HK_CHECK(V->empty() == (no == 0), "rb.empty", "empty is %d, there are "
		 "%d nodes", V->empty(), no);
	V->walk_init(&w);
	/* Pre-order: what is left to visit is a stack of children. */
	static node_t *st[MAXN];
	int sp = 0, seen = 0;
	node_t *root = NULL;
	for (;;) {
		node_t *l = (void *)1, *r = (void *)1;
		node_t *n = V->walk_next(&w, RB_WALK_LEFT | RB_WALK_RIGHT, &l,
					 &r);
		if (n == NULL)
			break;
		HK_CHECK(++seen <= no, "rb.walk", "a walk visits more than %d "
			 "nodes", no);
		if (seen == 1)
			root = n;
		else
			HK_CHECK(sp > 0 && st[--sp] == n, "rb.walk", "node "
				 "(%d,%d) out of order", n->k.a, n->k.b);
		n->wl = l;
		n->wr = r;
		if (r != NULL)
			st[sp++] = r;
		if (l != NULL)
			st[sp++] = l;
	}
	HK_CHECK(seen == no && sp == 0, "rb.walk", "a walk visits %d of %d "
		 "nodes", seen, no);
	wpos = 0;
	struct sub s = check_sub(root);
	HK_CHECK(wpos == no, "rb.order", "%d of %d nodes", wpos, no);
	int lim = 0;
	while ((1 << (lim + 1)) <= no + 1)
		lim++;
	HK_CHECK(s.height <= 2 * lim + (no > 0), "rb.height", "height %d with "
		 "%d nodes", s.height, no);
	HK_CHECK(T.canary == 0x123456789abcdefULL, "rb.tree", "other fields of "
		 "the tree changed");
	hk_shape(s.height);
	HK_EV("rb_walk");
	if (s.height > 24)
		HK_EV("rb_higher_than_24");
}

/** A walk that goes where it wants. */
static void
check_walk(void)
{
	itbuf w;
	memset(&w, 0x5a, sizeof(w));
	check_tree();
	V->walk_init(&w);
	static node_t *st[MAXN];
	int sp = 0, dir = rndn(4), style = rndn(3);
	bool first = true;
	for (;;) {
		node_t *l = (void *)1, *r = (void *)1;
		node_t *n = V->walk_next(&w, dir, &l, &r);
		node_t *want = NULL;
		if (first) {
			want = n;
			HK_CHECK((n == NULL) == (no == 0), "rb.walk",
				 "the first node of a walk is missing");
			first = false;
		} else if (sp > 0) {
			want = st[--sp];
		}
		CK("rb.walk", "walk", want, n);
		if (n == NULL)
			break;
		HK_CHECK(l == n->wl && r == n->wr, "rb.walk", "other children "
			 "than in a full walk");
		dir = style == 0 ? rndn(4) : style == 1 ?
		      (one_in(4) ? (int)rndn(4) : 3) :
		      one_in(2) ? RB_WALK_LEFT : RB_WALK_RIGHT;
		if ((dir & RB_WALK_RIGHT) && r != NULL)
			st[sp++] = r;
		if ((dir & RB_WALK_LEFT) && l != NULL)
			st[sp++] = l;
	}
	HK_EV("rb_walk_directed");
}

/* ---- queries ---------------------------------------------------------- */
static struct key
some_key(void)
{
	struct key k;
	if (no > 0 && one_in(3)) {
		k = ord[rndn(no)]->k;
		if (one_in(3))
			k.a += rndn(3) - 1;
		if (one_in(3))
			k.b += rndn(3) - 1;
	} else {
		k.a = (int)rndn(uni_a + 2) - 1;
		k.b = (int)rndn(uni_b + 2) - 1;
	}
	k.partial = one_in(2);
	return k;
}

static void
check_search(void)
{
	struct key k = some_key();
	int lo = lower(&k, false), hi = lower(&k, true);
	hk_opn(k.partial ? "search_partial" : "search", k.a, k.b, lo, hi);
	node_t *r = V->search(&k);
	if (lo == hi) {
		CK("rb.search", "search", NULL, r);
	} else {
		HK_CHECK(r != NULL && mcmp(&k, &r->k) == 0, "rb.search",
			 "key (%d,%d) is in the tree but was not found", k.a,
			 k.b);
		HK_EV("rb_search_hit");
	}
	CK("rb.nsearch", "nsearch", lo < hi ? AT(hi - 1) : AT(lo),
	   V->nsearch(&k));
	CK("rb.psearch", "psearch", lo < hi ? AT(lo) : AT(lo - 1),
	   V->psearch(&k));
	if (hi - lo > 1)
		HK_EV("rb_many_matches");
	HK_EV("rb_search");
}

/** Move an iterator at position p for a while. */
static void
check_moves(itbuf *it, int p, const char *what)
{
	int n = one_in(no > 10000 ? 1000 : 10) ? no + 3 : rndr(1, 12);
	int back = rndn(4);
	CK("rb.iterator", what, AT(p), V->iget(it));
	if (p < 0 || p >= no)
		p = -1;
	while (n-- > 0) {
		bool b = back == 0 ? false : back == 1 ? true : one_in(2);
		CK("rb.iterator", b ? "iprev" : "inext", AT(p),
		   b ? V->iprev(it) : V->inext(it));
		if (p >= 0)
			p += b ? -1 : 1;
		/* An iterator that has left the tree stays out. */
		if (p >= no)
			p = -1;
		CK("rb.iterator", "iterator_get", AT(p), V->iget(it));
		if (p < 0)
			HK_EV("rb_iterator_end");
	}
	HK_EV("rb_iterator");
}

static void
check_iterators(void)
{
	struct key k = some_key();
	int lo = lower(&k, false), hi = lower(&k, true);
	itbuf it;
	memset(&it, 0x5a, sizeof(it));
	int w = rndn(8);
	hk_opn("iterator", w, k.a, k.b, k.partial);
	switch (w) {
	case 0:
		V->ifirst(&it);
		check_moves(&it, 0, "ifirst");
		break;
	case 1:
		V->ilast(&it);
		check_moves(&it, no - 1, "ilast");
		break;
	case 2: {
		/* Any node, in the tree or not. */
		node_t n;
		memset(&n, 0x5a, sizeof(n));
		n.k = k;
		n.k.partial = false;
		lo = lower(&n.k, false);
		bool in = lo < no && mcmp(&n.k, &ord[lo]->k) == 0;
		HK_CHECK(V->icreate(&n, &it) == in, "rb.icreate", "icreate of "
			 "(%d,%d): %d", k.a, k.b, !in);
		check_moves(&it, in ? lo : -1, "icreate");
		break;
	}
	case 3: {
		bool f = V->isearch(&k, &it);
		HK_CHECK(f == (lo < hi), "rb.isearch", "isearch of (%d,%d)"
			 ": %d", k.a, k.b, f);
		int p = -1;
		if (f) {
			node_t *n = V->iget(&it);
			for (p = lo; p < hi && ord[p] != n; p++)
				;
			HK_CHECK(p < hi, "rb.isearch", "isearch is not at a "
				 "match");
		}
		check_moves(&it, p, "isearch");
		break;
	}
	case 4:
		V->isearch_le(&k, &it);
		check_moves(&it, hi - 1, "isearch_le");
		break;
	case 5:
		V->isearch_ge(&k, &it);
		check_moves(&it, lo, "isearch_ge");
		break;
	case 6:
		V->isearch_lt(&k, &it);
		check_moves(&it, lo - 1, "isearch_lt");
		break;
	default:
		V->isearch_gt(&k, &it);
		check_moves(&it, hi, "isearch_gt");
		break;
	}
	if (hi - lo > 1)
		HK_EV("rb_iterator_many_matches");
}

static struct { int pos, step, stop, n; bool rm; } cbs;
static void tree_remove(node_t *n);

static node_t *
iter_fn(tree_t *t, node_t *n, void *arg)
{
	HK_CHECK(t == &T && arg == &cbs, "rb.iter", "wrong callback arguments");
	CK("rb.iter", "iter", AT(cbs.pos), n);
	cbs.pos += cbs.step;
	cbs.n++;
	if (--cbs.stop == 0) {
		if (cbs.rm)
			tree_remove(n);
		return n;
	}
	return NULL;
}

static void
check_iter(void)
{
	bool rev = one_in(2);
	int start = no > 0 && one_in(2) ? (int)rndn(no) : -1;
	int from = start >= 0 ? start : rev ? no - 1 : 0;
	int len = rev ? from + 1 : no - from;
	memset(&cbs, 0, sizeof(cbs));
	cbs.pos = from;
	cbs.step = rev ? -1 : 1;
	cbs.stop = one_in(2) && len > 0 ? (int)rndr(1, len) : -1;
	int stop = cbs.stop;
	/* The callback that stops may modify the tree. */
	cbs.rm = one_in(8);
	node_t *last = stop > 0 ? AT(from + cbs.step * (stop - 1)) : NULL;
	node_t *s = AT(start);
	hk_opn(rev ? "reverse_iter" : "iter", start, stop, cbs.rm, 0);
	node_t *r = (rev ? V->riter : V->iter)(s, iter_fn, &cbs);
	HK_CHECK(r == last, "rb.iter", "iteration returns something else");
	HK_CHECK(cbs.n == (stop > 0 ? stop : len), "rb.iter", "%d nodes in an "
		 "iteration of %d", cbs.n, stop > 0 ? stop : len);
	HK_EV("rb_iter");
}

static void
check_neighbours(void)
{
	CK("rb.first", "first", AT(0), V->first());
	CK("rb.last", "last", AT(no - 1), V->last());
	if (no == 0)
		return;
	int i = one_in(6) ? 0 : one_in(6) ? no - 1 : (int)rndn(no);
	CK("rb.next", "next", AT(i + 1), V->next(ord[i]));
	CK("rb.prev", "prev", AT(i - 1), V->prev(ord[i]));
	HK_EV("rb_neighbours");
}

/* ---- modifications ---------------------------------------------------- */
static void
tree_insert(node_t *n, bool to_ord)
{
	int p = to_ord ? lower(&n->k, false) : 0;
	struct key k = n->k;
	uint64_t own = n->own;
	/* Nothing may depend on what was in the node. */
	memset(n, 0x5a, sizeof(*n));
	n->k = k;
	n->own = own;
	n->in = true;
	hk_opn("insert", k.a, k.b, no, 0);
	V->insert(n);
	HK_EV("rb_insert");
	if (!to_ord)
		return;
	if (p >= no / 2 || ord == ord_buf) {
		memmove(ord + p + 1, ord + p, (no - p) * sizeof(*ord));
	} else {
		memmove(ord - 1, ord, p * sizeof(*ord));
		ord--;
	}
	ord[p] = n;
	no++;
}

static void
tree_remove(node_t *n)
{
	int p = lower(&n->k, false);
	hk_opn("remove", n->k.a, n->k.b, no, 0);
	V->remove(n);
	if (p >= no / 2) {
		memmove(ord + p, ord + p + 1, (no - p - 1) * sizeof(*ord));
	} else {
		memmove(ord + 1, ord, p * sizeof(*ord));
		ord++;
	}
	no--;
	/* The tree must not look at the node any more. */
	struct key k = n->k;
	uint64_t own = n->own;
	memset(n, 0xa5, sizeof(*n));
	n->k = k;
	n->own = own;
	n->in = false;
	HK_EV("rb_remove");
	if (no == 0)
		HK_EV("rb_emptied");
}

void
hk_init(void)
{
}

/** The highest trees come from ordered insertions. */
static void
high_case(void)
{
	nn = rndr(1 << 17, MAXN - 1);
	uni_a = rndr(1, 4000);
	uni_b = nn / uni_a + 1;
	node_t *all = hk_malloc(nn * sizeof(*all));
	memset(all, 0x5a, nn * sizeof(*all));
	int style = rndn(4);
	hk_op("high(variant=%d nodes=%d universe=%dx%d sign=%d style=%d)",
	      V == &v0_vt ? 0 : V == &v1_vt ? 1 : V == &v2_vt ? 2 :
	      V == &v3_vt ? 3 : 4, nn, uni_a, uni_b, cur_sign, style);
	for (int i = 0; i < nn; i++) {
		all[i].k.a = i / uni_b;
		all[i].k.b = i % uni_b;
		all[i].k.partial = false;
		all[i].in = false;
		all[i].own = hk_mix(i);
		nodes[i] = &all[i];
	}
	int m = nn / 2;
	for (int i = 0; i < nn; i++)
		tree_insert(nodes[style == 0 ? i : style == 1 ? nn - 1 - i :
			    style == 2 ? i % 2 ? nn - 1 - i / 2 : i / 2 :
			    i % 2 ? m - 1 - i / 2 : m + i / 2], false);
	for (int i = 0; i < nn; i++)
		ord[i] = nodes[cur_sign > 0 ? i : nn - 1 - i];
	no = nn;
	for (int i = 0; i < 3000; i++) {
		if (i % 1000 == 0)
			check_tree();
		if (i == 1500)
			check_walk();
		int k = rndn(4);
		/* The deepest nodes are at an end or in the middle. */
		int p = k == 0 ? 0 : k == 1 ? no - 1 : k == 2 ? m :
			(int)rndn(no);
		if (one_in(2))
			tree_remove(AT(p));
		else if (!nodes[k = rndn(nn)]->in)
			tree_insert(nodes[k], true);
		check_neighbours();
		check_search();
		check_iterators();
		if (p >= no)
			p = no - 1;
		CK("rb.next", "next", AT(p + 1), V->next(AT(p)));
		CK("rb.prev", "prev", AT(p - 1), V->prev(AT(p)));
	}
	while (no > nn - nn / 16)
		tree_remove(AT(style == 1 ? 0 : no - 1));
	check_tree();
	no = 0;
	hk_free(all);
	hk_nontrivial();
	HK_EV("rb_high");
}

void
hk_case(uint64_t idx)
{
	(void)idx;
	bool high = one_in(2000);
	int max = one_in(30) ? rndr(1000, 6000) : one_in(4) ? rndr(60, 600) :
		  rndr(1, 60);
	bool big = max > 600;
	uni_a = rndr(1, max);
	uni_b = (2 * max + uni_a - 1) / uni_a;
	if (one_in(3))
		uni_b = uni_b * 4;
	V = vts[rndn(5)];
	memset(&T, 0x5a, sizeof(T));
	cur_sign = one_in(4) ? -1 : 1;
	T.sign = cur_sign;
	T.canary = 0x123456789abcdefULL;
	mag = rndn(3);
	V->new();
	no = 0;
	ord = ord_buf + MAXN;
	if (high) {
		high_case();
		return;
	}
	/* Distinct keys. */
	nn = 0;
	int step = 1;
	long total = (long)uni_a * uni_b;
	if (total > max)
		step = total / max;
	for (long i = rndn(step); i < total && nn < max; i += step) {
		node_t *n = hk_malloc(sizeof(*n));
		memset(n, 0x5a, sizeof(*n));
		n->k.a = i / uni_b;
		n->k.b = i % uni_b;
		n->k.partial = false;
		n->in = false;
		n->own = hk_mix(rnd());
		nodes[nn++] = n;
	}
	hk_op("create(variant=%d nodes=%d universe=%dx%d sign=%d)",
	      V == &v0_vt ? 0 : V == &v1_vt ? 1 : V == &v2_vt ? 2 :
	      V == &v3_vt ? 3 : 4, nn, uni_a, uni_b, cur_sign);
	check_tree();
	check_neighbours();
	int nops = big ? 3 * nn : rndr(50, 1500);
	int bias = 60, style = rndn(6), cur = 0;
	for (int i = 0; i < nops; i++) {
		if (one_in(big ? nn : 60)) {
			static const int b[] = { 0, 20, 45, 50, 55, 80, 100 };
			bias = b[rndn(7)];
			style = rndn(6);
			cur = rndn(nn);
		}
		bool ins = (int)rndn(100) < bias;
		if ((no == 0 && !ins) || (no == nn && ins))
			ins = !ins;
		/* Choose by place: ascending, descending, near, random. */
		node_t *n = NULL;
		if (ins) {
			int k = style == 0 ? 0 : style == 1 ? nn - 1 :
				style == 2 ? cur : (int)rndn(nn);
			int d = style == 1 ? -1 : 1;
			for (int t = 0; t < nn; t++, k += d) {
				k = (k + nn) % nn;
				if (!nodes[k]->in) {
					n = nodes[k];
					break;
				}
			}
			cur = k;
			tree_insert(n, true);
		} else {
			int k = style == 0 ? 0 : style == 1 ? no - 1 :
				style == 2 ? cur % no : style == 3 ? no / 2 :
				(int)rndn(no);
			tree_remove(ord[k]);
		}
		if (big) {
			if (one_in(500))
				check_tree();
		} else if (no < 40 || one_in(10)) {
			check_tree();
		}
		check_neighbours();
		if (one_in(2))
			check_search();
		if (one_in(2))
			check_iterators();
		if (one_in(big ? 800 : 20))
			check_iter();
		if (one_in(big ? 800 : 25))
			check_walk();
		if (no > 5)
			hk_nontrivial();
	}
	check_tree();
	if (one_in(2))
		while (no > 0) {
			tree_remove(ord[rndn(no)]);
			if (no < 30 || one_in(20))
				check_tree();
		}
	for (int i = 0; i < nn; i++)
		hk_free(nodes[i]);
}
