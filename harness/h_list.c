/*
 * The intrusive list: two arbitrary well-formed lists (any lengths up to the
 * bound, any distribution of the elements), then a number of arbitrary
 * operations; after each the links are compared with a model in both
 * directions. As any history leaves well-formed lists, the first operation
 * covers every history with that many elements.
 */
#define VF_ENV
#include "rename.h"
#include "vf.h"
#include "linked_list.h"

#define MAX 9
static struct linked_list head[2];
static struct { long pad; struct linked_list l; long pad2; } el[MAX];
static int seq[2][MAX], len[2];
static bool in[MAX];
static int n;

static int index_of(struct linked_list *p) {
	for (int i = 0; i < n; i++) if (p == &el[i].l) return i;
	return -1;
}
static void check(void) {
	for (int h = 0; h < 2; h++) {
		struct linked_list *p = head[h].next, *q = head[h].prev;
		for (int i = 0; i < len[h]; i++) {
			VF_ASSERT("C16", index_of(p) == seq[h][i], "forward order");
			VF_ASSERT("C16", index_of(q) == seq[h][len[h] - 1 - i], "backward order");
			if (index_of(p) < 0 || index_of(q) < 0) vf_end();
			p = p->next;
			q = q->prev;
		}
		VF_ASSERT("C16", p == &head[h] && q == &head[h], "the list ends at its head");
		VF_ASSERT("C16", linked_list_empty(&head[h]) == (len[h] == 0), "emptiness");
	}
	for (int i = 0; i < n; i++) VF_ASSERT("C16", el[i].pad == i && el[i].pad2 == ~i, "nothing but links is written");
	for (int i = 0; i < n; i++) if (!in[i]) VF_ASSERT("C16", el[i].l.next == el[i].l.prev && (el[i].l.next == NULL || el[i].l.next == &el[i].l), "a removed element is detached");
}
static void link_up(int h) { /* a well-formed list, without the code under test */
	struct linked_list *p = &head[h];
	for (int i = 0; i < len[h]; i++) {
		struct linked_list *e = &el[seq[h][i]].l;
		p->next = e;
		e->prev = p;
		p = e;
	}
	p->next = &head[h];
	head[h].prev = p;
}
static void m_insert(int h, int at, int e) { for (int i = len[h]++; i > at; i--) seq[h][i] = seq[h][i - 1]; seq[h][at] = e; in[e] = true; }
static void m_remove(int h, int at) { in[seq[h][at]] = false; for (int i = at; i + 1 < len[h]; i++) seq[h][i] = seq[h][i + 1]; len[h]--; }

int vf_main(void) {
	n = vf_param("n", 5);
	int ops = vf_param("ops", 2);
	for (int i = 0; i < n; i++) { el[i].pad = i; el[i].pad2 = ~i; }
	len[0] = nd_pick("len", 0, n);
	len[1] = nd_pick("len", 0, n - len[0]);
	for (int i = 0; i < len[0]; i++) { seq[0][i] = i; in[i] = true; }
	for (int i = 0; i < len[1]; i++) { seq[1][i] = len[0] + i; in[len[0] + i] = true; }
	for (int h = 0; h < 2; h++) {
		linked_list_init(&head[h]);
		VF_ASSERT("C16", head[h].next == &head[h] && head[h].prev == &head[h], "an initialised list is empty");
		VF_ASSERT("C16", linked_list_empty(&head[h]), "an initialised list is empty");
		link_up(h);
	}
	check();
	for (int k = 0; k < ops; k++) {
		int h = nd_pick("list", 0, 1);
		switch (nd_pick("op", 0, 3)) {
		case 0: { /* insert a free element after any node */
			int e = -1;
			for (int i = 0; i < n; i++) if (!in[i]) { e = i; break; }
			VF_ASSUME(e >= 0);
			int at = nd_pick("at", 0, len[h]);
			if (nd_bool("init")) linked_list_init(&el[e].l);
			linked_list_insert(at == 0 ? &head[h] : &el[seq[h][at - 1]].l, &el[e].l);
			m_insert(h, at, e);
			VF_WITNESS("insert");
			break;
		}
		case 1: { /* append: insert before the head */
			int e = -1;
			for (int i = n - 1; i >= 0; i--) if (!in[i]) { e = i; break; }
			VF_ASSUME(e >= 0);
			linked_list_insert(head[h].prev, &el[e].l);
			m_insert(h, len[h], e);
			break;
		}
		case 2: {
			VF_ASSUME(len[h] > 0);
			int at = nd_pick("at", 0, len[h] - 1);
			int e = seq[h][at];
			m_remove(h, at);
			linked_list_remove(&el[e].l);
			VF_WITNESS("remove");
			break;
		}
		case 3: { /* move everything to the front of the other list */
			int s = 1 - h;
			if (len[s] == 0) VF_WITNESS("take-empty");
			else if (len[h]) VF_WITNESS("take-join");
			linked_list_take(&head[h], &head[s]);
			for (int i = len[s] - 1; i >= 0; i--) m_insert(h, 0, seq[s][i]);
			len[s] = 0;
			break;
		}
		}
		check();
	}
	vf_obs("len0", len[0]);
	return 0;
}
