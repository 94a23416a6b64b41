/* L12: linked lists */
#include "vh.h"
#include "vh_libc.h"
#include "list.h"
#ifndef SEQ
#define SEQ 0
#endif
#ifndef OPS
#define OPS 4
#endif
#ifndef PRE
#define PRE 2
#endif
#ifndef PRE2
#define PRE2 0
#endif
#define MAXE 8
struct node { int v; ISC_LINK(struct node) link; };
typedef ISC_LIST(struct node) list_t;
static struct node nodes[MAXE];
static int seq[2][MAXE], n[2];	/* expected contents, by node index */
static int nn;
static list_t L[2];
static void check_list(int w)
{
	struct node *p = ISC_LIST_HEAD(L[w]); 
	for (int i = 0; i < n[w]; i++) {
		CHECK(p == &nodes[seq[w][i]], "forward order");
		if (p == NULL) return;
		CHECK(ISC_LINK_LINKED(p, link), "marked as linked");
		p = ISC_LIST_NEXT(p, link);
	}
	CHECK(p == NULL, "forward end");
	p = ISC_LIST_TAIL(L[w]);
	for (int i = n[w] - 1; i >= 0; i--) {
		CHECK(p == &nodes[seq[w][i]], "backward order");
		if (p == NULL) return;
		p = ISC_LIST_PREV(p, link);
	}
	CHECK(p == NULL, "backward end");
	CHECK(!!ISC_LIST_EMPTY(L[w]) == (n[w] == 0), "emptiness");
}
static void ins(int w, int at, int id) { for (int i = n[w]; i > at; i--) seq[w][i] = seq[w][i-1]; seq[w][at] = id; n[w]++; }
static void del(int w, int at) { for (int i = at; i + 1 < n[w]; i++) seq[w][i] = seq[w][i+1]; n[w]--; }
void h_list(void)
{
	unsigned s = SEQ;
	ISC_LIST_INIT(L[0]); ISC_LIST_INIT(L[1]);
	for (int i = 0; i < PRE; i++) { ISC_LINK_INIT(&nodes[nn], link); ISC_LIST_APPEND(L[0], &nodes[nn], link); ins(0, i, nn); nn++; }
	for (int i = 0; i < PRE2; i++) { ISC_LINK_INIT(&nodes[nn], link); ISC_LIST_APPEND(L[1], &nodes[nn], link); ins(1, i, nn); nn++; }
	check_list(0); check_list(1);
	for (int o = 0; o < OPS; o++, s /= 8) {
		int id = nn++;
		struct node *e = &nodes[id];
		ISC_LINK_INIT(e, link);
		CHECK(!ISC_LINK_LINKED(e, link), "marked as not linked");
		int at = n[0] > 0 ? (int) ND_range(0, (uint64_t) n[0] - 1) : 0;
		struct node *ref = n[0] > 0 ? &nodes[seq[0][at]] : NULL;
		switch (s % 8) {
		case 0: ISC_LIST_PREPEND(L[0], e, link); ins(0, 0, id); break;
		case 1: ISC_LIST_APPEND(L[0], e, link); ins(0, n[0], id); break;
		case 2: if (ref) { ISC_LIST_INSERTBEFORE(L[0], ref, e, link); ins(0, at, id); } break;
		case 3: if (ref) { ISC_LIST_INSERTAFTER(L[0], ref, e, link); ins(0, at + 1, id); } break;
		case 4: if (ref) { ISC_LIST_UNLINK(L[0], ref, link); del(0, at); CHECK(!ISC_LINK_LINKED(ref, link), "unlinked"); } break;
		case 5: if (n[0]) { struct node *h = ISC_LIST_HEAD(L[0]); ISC_LIST_DEQUEUE(L[0], h, link); del(0, 0); } break;
		case 6: ISC_LIST_ENQUEUE(L[1], e, link); ins(1, n[1], id); break;
		case 7: ISC_LIST_APPENDLIST(L[0], L[1], link);
			for (int i = 0; i < n[1]; i++) ins(0, n[0], seq[1][i]);
			n[1] = 0; break;
		}
		check_list(0); check_list(1);
	}
	REACH("sequence done");
}
