/*
 * A source whose iterators present a fixed sequence of entries, in key order, one script for data keys (types 0, 2,
 * 253..255) and one for index keys (types 1, 3).  Every entry but the last is assumed to be in the scanned range and
 * not skipped by a seek (an entry that is not presented is the same history with a shorter script); the last one is
 * presented exactly if the scanned range contains it and no seek has gone past it.  The positions stay concrete.
 */
#ifndef VH_SCN
#define VH_SCN 2
#endif
struct vh_script { size_t n; struct vh_ent e[VH_SCN]; };
struct vh_siter { const struct vh_script *s; size_t pos; bool dead, sought; int kind; const uint8_t *k0, *k1, *ks; size_t n0, n1, ns; };
static struct vh_script vh_data, vh_index;
static unsigned vh_nseek, vh_nnext;
static mtbl_res vh_siter_seek(void *v, const uint8_t *k, size_t n)
{
	struct vh_siter *it = v;
#ifdef REPLAY
	free((void *) it->ks);
#endif
	it->ks = vh_kdup(k, n); it->ns = n;
	it->sought = true;
	vh_nseek++;
	return mtbl_res_success;
}
static mtbl_res vh_siter_next(void *v, const uint8_t **k, size_t *lk, const uint8_t **val, size_t *lv)
{
	struct vh_siter *it = v;
	vh_nnext++;
	if (it->pos >= it->s->n) return mtbl_res_failure;
	const struct vh_ent *e = &it->s->e[it->pos];
	/* outputs are set even on failure: callers may not read them then, and the solver keeps constant lengths */
	*k = e->k; *lk = e->lk; *val = e->v; *lv = e->lv;
	bool in = !it->dead;
	if (it->kind == 1) in = in && vh_kcmp(e->k, e->lk, it->k0, it->n0) == 0;
	if (it->kind == 2) in = in && e->lk >= it->n0 && vh_kcmp(e->k, it->n0, it->k0, it->n0) == 0;
	if (it->kind == 3) in = in && vh_kcmp(e->k, e->lk, it->k0, it->n0) >= 0 && vh_kcmp(e->k, e->lk, it->k1, it->n1) <= 0;
	if (it->sought) in = in && vh_kcmp(e->k, e->lk, it->ks, it->ns) >= 0;
	it->pos++;
	if (it->pos < it->s->n) { ASSUME(in); in = true; }
	if (!in) it->dead = true;
	return in ? mtbl_res_success : mtbl_res_failure;
}
static void vh_siter_free(void *v)
{
	struct vh_siter *it = v;
#ifdef REPLAY
	free((void *) it->k0); free((void *) it->k1); free((void *) it->ks);
#endif
	VH_DEL(it);
}
static struct mtbl_iter *vh_siter_new(int kind, const uint8_t *k0, size_t n0, const uint8_t *k1, size_t n1)
{
	struct vh_siter *it = VH_NEW(struct vh_siter);
	it->s = kind && (k0[0] == 1 || k0[0] == 3) ? &vh_index : &vh_data;
	it->kind = kind; it->n0 = n0; it->n1 = n1;
	it->k0 = kind ? vh_kdup(k0, n0) : NULL;
	it->k1 = kind == 3 ? vh_kdup(k1, n1) : NULL;
	return mtbl_iter_init(vh_siter_seek, vh_siter_next, vh_siter_free, it);
}
static struct mtbl_iter *vh_s_iter(void *t) { (void) t; return vh_siter_new(0, NULL, 0, NULL, 0); }
static struct mtbl_iter *vh_s_get(void *t, const uint8_t *k, size_t n) { (void) t; return vh_siter_new(1, k, n, NULL, 0); }
static struct mtbl_iter *vh_s_prefix(void *t, const uint8_t *k, size_t n) { (void) t; return vh_siter_new(2, k, n, NULL, 0); }
static struct mtbl_iter *vh_s_range(void *t, const uint8_t *k0, size_t n0, const uint8_t *k1, size_t n1) { (void) t; return vh_siter_new(3, k0, n0, k1, n1); }
static void vh_s_free(void *t) { (void) t; }
static struct mtbl_source *vh_script_source(void) { return mtbl_source_init(vh_s_iter, vh_s_get, vh_s_prefix, vh_s_range, vh_s_free, NULL); }
