/* Monitor of the intrusive lists and the stack. */
#include "hk.h"
#include <small/rlist.h>
#include <small/lifo.h>

enum { NL = 4, NI = 40 };

struct item {
	char pad[5];
	int id;
	struct rlist link;
	/** Index of the list it is in, or -1. */
	int in;
};

static struct L {
	struct rlist h;
	struct item *m[NI];
	int n;
	/** The contents are discarded: the head is not good for anything. */
	bool stale;
} lists[NL];
static struct item *items[NI];
static int nitems;

static int
pos_of(struct L *l, struct item *t)
{
	for (int i = 0; i < l->n; i++)
		if (l->m[i] == t)
			return i;
	hk_error("item %d is not in its list", t->id);
}

static void
m_insert(struct L *l, int at, struct item *t)
{
	memmove(&l->m[at + 1], &l->m[at], (l->n - at) * sizeof(l->m[0]));
	l->m[at] = t;
	l->n++;
	t->in = l - lists;
}

static struct item *
m_remove(struct L *l, int at)
{
	struct item *t = l->m[at];
	memmove(&l->m[at], &l->m[at + 1], (l->n - at - 1) * sizeof(l->m[0]));
	l->n--;
	t->in = -1;
	return t;
}

static void
check_list(struct L *l)
{
	int k = l - lists;
	if (l->stale)
		return;
	HK_CHECK(!!rlist_empty(&l->h) == (l->n == 0), "rlist.empty",
		 "list %d of %d items: empty is %d", k, l->n,
		 rlist_empty(&l->h));
	int i = 0;
	struct rlist *r;
	rlist_foreach(r, &l->h) {
		HK_CHECK(i < l->n && r == &l->m[i]->link, "rlist.forward",
			 "item %d of %d of list %d is not the one expected", i,
			 l->n, k);
		i++;
	}
	HK_CHECK(i == l->n, "rlist.forward", "%d items in list %d, expected "
		 "%d", i, k, l->n);
	rlist_foreach_reverse(r, &l->h) {
		HK_CHECK(i > 0 && r == &l->m[i - 1]->link, "rlist.backward",
			 "item %d of %d of list %d is not the one expected", i,
			 l->n, k);
		i--;
	}
	HK_CHECK(i == 0, "rlist.backward", "%d items in list %d not seen", i,
		 k);
	struct item *t, *s;
	rlist_foreach_entry(t, &l->h, link) {
		HK_CHECK(i < l->n && t == l->m[i], "rlist.forward_entry",
			 "entry %d of %d of list %d", i, l->n, k);
		HK_CHECK(rlist_prev_entry_safe(t, &l->h, link) ==
			 (i == 0 ? NULL : l->m[i - 1]), "rlist.prev_safe",
			 "before entry %d of %d of list %d", i, l->n, k);
		HK_CHECK(i == l->n - 1 || rlist_next_entry(t, link) ==
			 l->m[i + 1], "rlist.next", "after entry %d of %d", i,
			 l->n);
		HK_CHECK(i == 0 || rlist_prev_entry(t, link) == l->m[i - 1],
			 "rlist.prev", "before entry %d of %d", i, l->n);
		i++;
	}
	HK_CHECK(i == l->n, "rlist.forward_entry", "%d entries in list %d, "
		 "expected %d", i, k, l->n);
	rlist_foreach_entry_reverse(t, &l->h, link) {
		HK_CHECK(i > 0 && t == l->m[i - 1], "rlist.backward_entry",
			 "entry %d of %d of list %d", i, l->n, k);
		i--;
	}
	HK_CHECK(i == 0, "rlist.backward_entry", "%d entries not seen", i);
	rlist_foreach_entry_safe(t, &l->h, link, s) {
		HK_CHECK(i < l->n && t == l->m[i], "rlist.forward_safe",
			 "entry %d of %d of list %d", i, l->n, k);
		i++;
	}
	HK_CHECK(i == l->n, "rlist.forward_safe", "%d entries in list %d, "
		 "expected %d", i, k, l->n);
	rlist_foreach_entry_safe_reverse(t, &l->h, link, s) {
		HK_CHECK(i > 0 && t == l->m[i - 1], "rlist.backward_safe",
			 "entry %d of %d of list %d", i, l->n, k);
		i--;
	}
	HK_CHECK(i == 0, "rlist.backward_safe", "%d entries not seen", i);
	if (l->n == 0)
		return;
	HK_CHECK(rlist_first(&l->h) == &l->m[0]->link &&
		 rlist_last(&l->h) == &l->m[l->n - 1]->link &&
		 rlist_first_entry(&l->h, struct item, link) == l->m[0] &&
		 rlist_last_entry(&l->h, struct item, link) == l->m[l->n - 1],
		 "rlist.ends", "first or last of list %d", k);
}

static struct item *
free_item(void)
{
	int s = rndn(nitems);
	for (int i = 0; i < nitems; i++) {
		struct item *t = items[(s + i) % nitems];
		if (t->in < 0)
			return t;
	}
	return NULL;
}

static struct L *
good_list(void)
{
	for (;;) {
		struct L *l = &lists[rndn(NL)];
		if (!l->stale)
			return l;
		if (one_in(8)) {
			rlist_create(&l->h);
			l->stale = false;
			l->n = 0;
			return l;
		}
	}
}

static void
gone(struct item *t)
{
	HK_CHECK(rlist_empty(&t->link), "rlist.removed", "item %d still has "
		 "neighbours after it was removed", t->id);
}

static void
list_op(void)
{
	struct L *l = good_list();
	struct L *o = good_list();
	int k = l - lists;
	struct item *t;
	switch (rndn(17)) {
	case 0: case 1:
		if ((t = free_item()) == NULL)
			break;
		if (one_in(2) || l->n == 0) {
			bool tail = one_in(2);
			hk_opn(tail ? "add_tail" : "add", k, t->id, l->n, 0);
			if (tail)
				rlist_add_tail_entry(&l->h, t, link);
			else
				rlist_add_entry(&l->h, t, link);
			m_insert(l, tail ? l->n : 0, t);
		} else {
			int i = rndn(l->n);
			bool before = one_in(2);
			hk_opn(before ? "add_before" : "add_after", k, t->id,
			       i, 0);
			if (before)
				rlist_add_tail(&l->m[i]->link, &t->link);
			else
				rlist_add(&l->m[i]->link, &t->link);
			m_insert(l, i + !before, t);
		}
		HK_EV("list_add");
		break;
	case 2:
		if (l->n == 0)
			break;
		t = m_remove(l, rndn(l->n));
		hk_opn("del", k, t->id, 0, 0);
		rlist_del_entry(t, link);
		gone(t);
		if (one_in(4))
			/* Of itself. */
			rlist_del(&t->link);
		gone(t);
		HK_EV("list_del");
		break;
	case 3:
		if (l->n == 0)
			break;
		hk_opn("shift", k, l->n, 0, 0);
		t = m_remove(l, 0);
		if (one_in(2)) {
			HK_CHECK(rlist_shift_entry(&l->h, struct item, link) ==
				 t, "rlist.shift", "not the first of %d",
				 l->n + 1);
		} else {
			HK_CHECK(rlist_shift(&l->h) == &t->link, "rlist.shift",
				 "not the first of %d", l->n + 1);
		}
		gone(t);
		HK_EV("list_shift");
		break;
	case 4:
		if (l->n == 0)
			break;
		hk_opn("shift_tail", k, l->n, 0, 0);
		t = m_remove(l, l->n - 1);
		if (one_in(2)) {
			HK_CHECK(rlist_shift_tail_entry(&l->h, struct item,
				 link) == t, "rlist.shift", "not the last of "
				 "%d", l->n + 1);
		} else {
			HK_CHECK(rlist_shift_tail(&l->h) == &t->link,
				 "rlist.shift", "not the last of %d",
				 l->n + 1);
		}
		gone(t);
		HK_EV("list_shift_tail");
		break;
	case 5: case 6: case 7: {
		/* Within a list, next to itself, or to another list. */
		if (o->n == 0)
			break;
		bool tail = one_in(2);
		t = o->m[rndn(o->n)];
		if (one_in(2) || l->n == 0) {
			hk_opn(tail ? "move_tail" : "move", k, t->id,
			       o - lists, 0);
			m_remove(o, pos_of(o, t));
			if (tail)
				rlist_move_tail_entry(&l->h, t, link);
			else
				rlist_move_entry(&l->h, t, link);
			m_insert(l, tail ? l->n : 0, t);
		} else {
			struct item *to = l->m[rndn(l->n)];
			if (to == t)
				break;
			hk_opn(tail ? "move_before" : "move_after", k, t->id,
			       o - lists, to->id);
			m_remove(o, pos_of(o, t));
			if (tail)
				rlist_move_tail(&to->link, &t->link);
			else
				rlist_move(&to->link, &t->link);
			m_insert(l, pos_of(l, to) + !tail, t);
		}
		HK_EV("list_move");
		break;
	}
	case 8: case 9: {
		if (o == l)
			break;
		bool tail = one_in(2);
		hk_opn(tail ? "splice_tail" : "splice", k, o - lists, l->n,
		       o->n);
		if (tail)
			rlist_splice_tail(&l->h, &o->h);
		else
			rlist_splice(&l->h, &o->h);
		for (int i = 0; o->n > 0; i++)
			m_insert(l, tail ? l->n : i, m_remove(o, 0));
		HK_EV("list_splice");
		break;
	}
	case 10: case 11:
		hk_opn("swap", k, o - lists, l->n, o->n);
		rlist_swap(&l->h, &o->h);
		if (l != o) {
			static struct item *tmp[NI];
			int n = l->n, on = o->n;
			memcpy(tmp, l->m, sizeof(tmp));
			memcpy(l->m, o->m, sizeof(tmp));
			memcpy(o->m, tmp, sizeof(tmp));
			l->n = on;
			o->n = n;
			for (int i = 0; i < l->n; i++)
				l->m[i]->in = k;
			for (int i = 0; i < o->n; i++)
				o->m[i]->in = o - lists;
		}
		HK_EV("list_swap");
		break;
	case 12: case 13: {
		/* Any list, whatever it was, gets the beginning of l. */
		o = &lists[rndn(NL)];
		if (o == l)
			break;
		int at = rndn(l->n + 1);
		hk_opn("cut_before", o - lists, k, at, l->n);
		if (one_in(4))
			HK_EV("list_cut_into_anything");
		for (int i = 0; !o->stale && i < o->n; i++)
			/* Discarded. */
			o->m[i]->in = -1;
		if (o->stale)
			HK_EV("list_cut_into_stale");
		o->n = 0;
		o->stale = false;
		rlist_cut_before(&o->h, &l->h, at == l->n ? &l->h :
				 &l->m[at]->link);
		for (int i = 0; i < at; i++)
			m_insert(o, i, m_remove(l, 0));
		HK_EV("list_cut");
		break;
	}
	case 14: {
		/* Forget the contents without touching them. */
		if (l->n == 0 || !one_in(2))
			break;
		hk_opn("discard", k, l->n, 0, 0);
		for (int i = 0; i < l->n; i++)
			l->m[i]->in = -1;
		l->n = 0;
		l->stale = true;
		break;
	}
	case 15: {
		/* Remove some while walking. */
		struct item *s;
		int i = 0;
		bool back = one_in(2);
		hk_opn(back ? "filter_back" : "filter", k, l->n, 0, 0);
		if (back) {
			i = l->n - 1;
			rlist_foreach_entry_safe_reverse(t, &l->h, link, s) {
				HK_CHECK(i >= 0 && l->m[i] == t,
					 "rlist.backward_safe", "entry %d", i);
				if (one_in(3)) {
					rlist_del_entry(t, link);
					gone(m_remove(l, i));
				}
				i--;
			}
			HK_CHECK(i == -1, "rlist.backward_safe", "%d left", i);
		} else {
			rlist_foreach_entry_safe(t, &l->h, link, s) {
				HK_CHECK(i < l->n && l->m[i] == t,
					 "rlist.forward_safe", "entry %d", i);
				if (one_in(3)) {
					rlist_del_entry(t, link);
					gone(m_remove(l, i));
				} else {
					i++;
				}
			}
			HK_CHECK(i == l->n, "rlist.forward_safe", "%d of %d",
				 i, l->n);
		}
		HK_EV("list_filter");
		break;
	}
	default:
		/* Neighbours of a random item. */
		if (l->n == 0)
			break;
		int i = rndn(l->n);
		HK_CHECK(rlist_next(&l->m[i]->link) == (i + 1 == l->n ? &l->h :
			 &l->m[i + 1]->link) &&
			 rlist_prev(&l->m[i]->link) == (i == 0 ? &l->h :
			 &l->m[i - 1]->link), "rlist.next", "item %d of %d", i,
			 l->n);
		break;
	}
}

static void
lifo_case(void)
{
	struct lifo s[2];
	static char mem[2][64][32];
	int stack[2][64], n[2] = { 0, 0 }, fr[2][64], nf[2] = { 64, 64 };
	memset(s, 0x5a, sizeof(s));
	for (int k = 0; k < 2; k++) {
		lifo_init(&s[k]);
		for (int i = 0; i < 64; i++)
			fr[k][i] = i;
	}
	for (int i = 0; i < 300; i++) {
		int k = rndn(2);
		HK_CHECK(lifo_is_empty(&s[k]) == (n[k] == 0), "lifo.empty",
			 "%d elements", n[k]);
		HK_CHECK(lifo_peek(&s[k]) == (n[k] == 0 ? NULL :
			 mem[k][stack[k][n[k] - 1]]), "lifo.peek",
			 "not the last pushed of %d", n[k]);
		if (one_in(2) && nf[k] > 0) {
			int j = rndn(nf[k]);
			int e = fr[k][j];
			fr[k][j] = fr[k][--nf[k]];
			stack[k][n[k]++] = e;
			memset(mem[k][e], 0x77, sizeof(mem[k][e]));
			lifo_push(&s[k], mem[k][e]);
			HK_EV("lifo_push");
		} else {
			void *p = lifo_pop(&s[k]);
			if (n[k] == 0) {
				HK_CHECK(p == NULL, "lifo.pop", "popped %p "
					 "from an empty stack", p);
				HK_EV("lifo_pop_empty");
				continue;
			}
			int e = stack[k][--n[k]];
			HK_CHECK(p == mem[k][e], "lifo.pop", "not the last "
				 "pushed of %d", n[k] + 1);
			for (size_t b = sizeof(void *); b < 32; b++)
				HK_CHECK(mem[k][e][b] == 0x77, "lifo.content",
					 "byte %zu of an element changed", b);
			fr[k][nf[k]++] = e;
			HK_EV("lifo_pop");
		}
	}
}

void
hk_init(void)
{
}

void
hk_case(uint64_t idx)
{
	(void)idx;
	nitems = 1 + (one_in(2) ? rndn(4) : rndn(NI));
	for (int i = 0; i < nitems; i++) {
		items[i] = hk_malloc(sizeof(struct item));
		memset(items[i], 0x5a, sizeof(struct item));
		items[i]->in = -1;
		items[i]->id = i;
	}
	struct rlist init = RLIST_HEAD_INITIALIZER(init);
	RLIST_HEAD(init2);
	HK_CHECK(rlist_empty(&init) && rlist_empty(&init2), "rlist.empty",
		 "an initialized list is not empty");
	for (int i = 0; i < NL; i++) {
		memset(&lists[i], 0x5a, sizeof(lists[i]));
		lists[i].n = 0;
		lists[i].stale = false;
		rlist_create(&lists[i].h);
	}
	int nops = 20 + rndn(300);
	for (int i = 0; i < nops; i++) {
		list_op();
		for (int k = 0; k < NL; k++)
			check_list(&lists[k]);
	}
	for (int k = 0; k < NL; k++) {
		hk_shape(lists[k].n);
		for (int i = 0; i < lists[k].n; i++)
			hk_shape(lists[k].m[i]->id);
	}
	hk_nontrivial();
	for (int i = 0; i < nitems; i++)
		hk_free(items[i]);
	if (one_in(4))
		lifo_case();
}
