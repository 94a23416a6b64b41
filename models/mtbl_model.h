/*
 * A small in-memory libmtbl: sources and iterators dispatch to their callbacks as the real library does; a table is
 * an array of entries in key order.  Iterators obey the documented interface: get/prefix/range bounds are applied by
 * next(), seek() may go anywhere, a key and value are valid until the next call on the iterator.
 */
#ifndef MTBL_MODEL_DEFS_H
#define MTBL_MODEL_DEFS_H
#include "mtbl_varint_model.h"
#ifdef REPLAY
#define VH_NEW(T) ((T *) calloc(1, sizeof(T)))
#define VH_DEL(p) free(p)
#else
#define VH_NEW(T) ((T *) __CPROVER_allocate(sizeof(T), 1))
#define VH_DEL(p) (free)(p)
#endif
struct mtbl_iter { mtbl_iter_seek_func seek; mtbl_iter_next_func next; mtbl_iter_free_func free_; void *clos; };
struct mtbl_source {
	mtbl_source_iter_func iter; mtbl_source_get_func get; mtbl_source_get_prefix_func prefix;
	mtbl_source_get_range_func range; mtbl_source_free_func free_; void *clos;
};
static int vh_live_iters, vh_live_sources;
struct mtbl_iter *mtbl_iter_init(mtbl_iter_seek_func s, mtbl_iter_next_func n, mtbl_iter_free_func f, void *clos)
{
	struct mtbl_iter *it = VH_NEW(struct mtbl_iter);
	it->seek = s; it->next = n; it->free_ = f; it->clos = clos;
	vh_live_iters++;
	return it;
}
void mtbl_iter_destroy(struct mtbl_iter **it)
{
	struct mtbl_iter *p = *it;	/* a local, so that the test tells the solver which iterator it is */
	if (p == NULL) return;
	p->free_(p->clos);
	VH_DEL(p);
	*it = NULL;
	vh_live_iters--;
}
mtbl_res mtbl_iter_seek(struct mtbl_iter *it, const uint8_t *k, size_t n)
{
	if (it == NULL) return mtbl_res_failure;
	return it->seek(it->clos, k, n);
}
mtbl_res mtbl_iter_next(struct mtbl_iter *it, const uint8_t **k, size_t *lk, const uint8_t **v, size_t *lv)
{
	if (it == NULL) return mtbl_res_failure;
	return it->next(it->clos, k, lk, v, lv);
}
struct mtbl_source *mtbl_source_init(mtbl_source_iter_func i, mtbl_source_get_func g, mtbl_source_get_prefix_func p, mtbl_source_get_range_func r, mtbl_source_free_func f, void *clos)
{
	struct mtbl_source *s = VH_NEW(struct mtbl_source);
	s->iter = i; s->get = g; s->prefix = p; s->range = r; s->free_ = f; s->clos = clos;
	vh_live_sources++;
	return s;
}
void mtbl_source_destroy(struct mtbl_source **s)
{
	struct mtbl_source *p = *s;
	if (p == NULL) return;
	if (p->free_ != NULL) p->free_(p->clos);
	VH_DEL(p);
	*s = NULL;
	vh_live_sources--;
}
struct mtbl_iter *mtbl_source_iter(const struct mtbl_source *s) { return s->iter(s->clos); }
struct mtbl_iter *mtbl_source_get(const struct mtbl_source *s, const uint8_t *k, size_t n) { return s->get(s->clos, k, n); }
struct mtbl_iter *mtbl_source_get_prefix(const struct mtbl_source *s, const uint8_t *k, size_t n) { return s->prefix(s->clos, k, n); }
struct mtbl_iter *mtbl_source_get_range(const struct mtbl_source *s, const uint8_t *k0, size_t n0, const uint8_t *k1, size_t n1) { return s->range(s->clos, k0, n0, k1, n1); }

/* tables */
#ifndef VH_TABN
#define VH_TABN 2
#endif
struct vh_ent { const uint8_t *k; size_t lk; const uint8_t *v; size_t lv; bool hide; };
struct vh_tab { size_t n; struct vh_ent e[VH_TABN]; };
struct vh_titer { const struct vh_tab *t; size_t pos; bool valid; int kind; const uint8_t *k0, *k1; size_t n0, n1; };

static int vh_kcmp(const uint8_t *a, size_t na, const uint8_t *b, size_t nb)
{
	size_t n = na < nb ? na : nb;
	for (size_t i = 0; i < n; i++)
		if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
	return na < nb ? -1 : na > nb;
}
static const uint8_t *vh_kdup(const uint8_t *k, size_t n)
{
#ifndef VH_KEYCAP
#define VH_KEYCAP 32
#endif
#ifdef REPLAY
	uint8_t *p = malloc(n ? n : 1);
#else
	uint8_t *p = __CPROVER_allocate(VH_KEYCAP, 0);
	__CPROVER_assert(n <= VH_KEYCAP, "unwinding assertion: key capacity");
	__CPROVER_assume(n <= VH_KEYCAP);
#endif
	for (size_t i = 0; i < n; i++) p[i] = k[i];
	return p;
}
static mtbl_res vh_titer_seek(void *v, const uint8_t *k, size_t n)
{
	struct vh_titer *it = v;
	size_t p = it->t->n;
	for (size_t i = VH_TABN; i > 0; i--)
		if (i <= it->t->n && vh_kcmp(it->t->e[i - 1].k, it->t->e[i - 1].lk, k, n) >= 0) p = i - 1;
	it->pos = p;
	it->valid = p < it->t->n;
	return it->valid ? mtbl_res_success : mtbl_res_failure;
}
static mtbl_res vh_titer_next(void *v, const uint8_t **k, size_t *lk, const uint8_t **val, size_t *lv)
{
	struct vh_titer *it = v;
#ifdef VH_TOTAL
	/* outputs are set even on failure: callers may not read them then, and the solver keeps constant lengths */
	*k = it->t->e[0].k; *lk = it->t->e[0].lk; *val = it->t->e[0].v; *lv = it->t->e[0].lv;
#endif
	if (!it->valid) return mtbl_res_failure;
	for (size_t i = 0; i < VH_TABN; i++) {
		if (i != it->pos || i >= it->t->n) continue;
		const struct vh_ent *e = &it->t->e[i];
		bool in = true;
		if (it->kind == 1) in = vh_kcmp(e->k, e->lk, it->k0, it->n0) == 0;
		if (it->kind == 2) in = e->lk >= it->n0 && vh_kcmp(e->k, it->n0, it->k0, it->n0) == 0;
		if (it->kind == 3) in = vh_kcmp(e->k, e->lk, it->k1, it->n1) <= 0;
		if (!in) { it->valid = false; return mtbl_res_failure; }
		it->pos = i + 1;
		*k = e->k; *lk = e->lk; *val = e->v; *lv = e->lv;
		return mtbl_res_success;
	}
	it->valid = false;
	return mtbl_res_failure;
}
static void vh_titer_free(void *v)
{
	struct vh_titer *it = v;
#ifdef REPLAY
	free((void *) it->k0); free((void *) it->k1);
#endif
	VH_DEL(it);
}
static struct mtbl_iter *vh_titer_new(void *t, int kind, const uint8_t *k0, size_t n0, const uint8_t *k1, size_t n1)
{
	struct vh_titer *it = VH_NEW(struct vh_titer);
	it->t = t; it->kind = kind; it->n0 = n0; it->n1 = n1;
	it->k0 = kind ? vh_kdup(k0, n0) : NULL;
	it->k1 = kind == 3 ? vh_kdup(k1, n1) : NULL;
	if (kind == 0) { it->pos = 0; it->valid = true; }
	else vh_titer_seek(it, k0, n0);
	return mtbl_iter_init(vh_titer_seek, vh_titer_next, vh_titer_free, it);
}
static struct mtbl_iter *vh_tab_iter(void *t) { return vh_titer_new(t, 0, NULL, 0, NULL, 0); }
static struct mtbl_iter *vh_tab_get(void *t, const uint8_t *k, size_t n) { return vh_titer_new(t, 1, k, n, NULL, 0); }
static struct mtbl_iter *vh_tab_prefix(void *t, const uint8_t *k, size_t n) { return vh_titer_new(t, 2, k, n, NULL, 0); }
static struct mtbl_iter *vh_tab_range(void *t, const uint8_t *k0, size_t n0, const uint8_t *k1, size_t n1) { return vh_titer_new(t, 3, k0, n0, k1, n1); }
static void vh_tab_free(void *t) { (void) t; }
static struct mtbl_source *vh_tab_source(struct vh_tab *t)
{
	return mtbl_source_init(vh_tab_iter, vh_tab_get, vh_tab_prefix, vh_tab_range, vh_tab_free, t);
}
#endif
