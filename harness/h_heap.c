/* L05: priority queue */
#include "vh.h"
#include "vh_libc.h"
#include "heap.c"
#ifndef SEQ
#define SEQ 0
#endif
#ifndef OPS
#define OPS 4
#endif
#ifndef MAXN
#define MAXN 4
#endif
static int vals[OPS + MAXN + 1];
static int cmpi(const void *a, const void *b) { int x = *(const int *) a, y = *(const int *) b; return x < y ? -1 : x > y ? 1 : 0; }
static bool in[OPS + MAXN + 1];		/* which items the heap must hold */
static size_t nin;
static size_t nitems;

static void check_min(void *p, bool removed)
{
	if (nin == 0) { CHECK(p == NULL, "empty heap gives NULL"); return; }
	CHECK(p != NULL, "non-empty heap gives an item");
	if (p == NULL) return;
	size_t id = (size_t) ((int *) p - vals);
	CHECK(id < nitems && in[id], "an item that was added and not yet taken");
	for (size_t i = 0; i < nitems; i++) if (in[i]) CHECK(vals[id] <= vals[i], "a smallest item");
	if (removed && id < nitems) { in[id] = false; nin--; }
}
static int *new_item(void)
{
	vals[nitems] = (int) ND_range(0, 7);
	in[nitems] = true; nin++;
	return &vals[nitems++];
}
void h_ops(void)
{
	struct heap *h = heap_init(cmpi);
	size_t n0 = MAXN;
	unsigned seq = SEQ;
	for (size_t i = 0; i < n0; i++) heap_add(h, new_item());
	heap_heapify(h);
	for (int o = 0; o < OPS; o++) {
		switch (seq % 4) {
		case 0: heap_push(h, new_item()); break;
		case 1: check_min(heap_pop(h), true); break;
		case 2:
			check_min(heap_peek(h), false);
			break;
		case 3: {
			bool empty = nin == 0;
			size_t save = nitems;
			int v = (int) ND_range(0, 7);
			vals[save] = v; in[save] = false;
			void *p = heap_replace(h, &vals[save]);
			check_min(p, true);
			nitems++;
			if (!empty) { in[save] = true; nin++; }
			break; }
		}
		CHECK(heap_size(h) == nin, "size");
		seq /= 4;
	}
	REACH("sequence done");
	/* drain in order */
	int last = -1;
	for (int i = 0; i < OPS + MAXN; i++) {
		void *p = heap_pop(h);
		if (p == NULL) break;
		CHECK(*(int *) p >= last, "drains in order");
		last = *(int *) p;
		check_min(p, true);
	}
	CHECK(nin == 0, "every item comes out");
	CHECK(heap_pop(h) == NULL && heap_peek(h) == NULL, "drained");
	heap_destroy(&h);
	CHECK(h == NULL, "destroyed");
}
void h_get(void)
{
	struct heap *h = heap_init(cmpi);
	size_t n0 = ND_range(0, MAXN), i = ND_range(0, MAXN + 1);
	for (size_t k = 0; k < n0; k++) heap_add(h, &vals[k]);
	void *p = heap_get(h, i);
	if (i < n0) CHECK(p == &vals[i], "item by index");
	else CHECK(p == NULL, "out of range gives NULL");
	size_t c = ND_range(0, MAXN);
	heap_clip(h, c);
	CHECK(heap_size(h) == (c < n0 ? c : n0), "clip");
	heap_reset(h);
	CHECK(heap_size(h) == 0 && heap_peek(h) == NULL, "reset");
	REACH_IF(n0 == 0, "empty");
	REACH_IF(i < n0, "in range");
}
