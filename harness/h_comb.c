/* D13: source combinators over small tables of symbolic keys */
#include "vh.h"
#include "vh_libc.h"
#include "dnstable/dnstable-private.h"
#ifndef VH_TABN
#define VH_TABN 3
#endif
#include "mtbl_model.h"
#include "all_calloc.h"
#include "dnstable/query_mtbl.c"
#ifndef NL
#define NL 2
#endif
#ifndef NR
#define NR 2
#endif
#ifndef KL
#define KL 1			/* key length */
#endif
#ifndef KIND
#define KIND 0			/* 0 iter, 1 get, 2 prefix (KL - 1 bytes), 3 range */
#endif
#ifndef OPS
#define OPS 3
#endif
#ifndef SEQ
#define SEQ 0			/* bit i: operation i is a seek, otherwise a read */
#endif
struct tab { int n; uint8_t k[4][KL], v[4]; struct vh_tab t; };
static struct tab L, R, R2;
static void mk(struct tab *t, int n)
{
	t->n = t->t.n = n;
	for (int i = 0; i < n; i++) {
		for (int j = 0; j < KL; j++) t->k[i][j] = ND_u8();
		t->v[i] = ND_u8();
		if (i > 0) ASSUME(vh_kcmp(t->k[i], KL, t->k[i - 1], KL) > 0);
		t->t.e[i] = (struct vh_ent) { .k = t->k[i], .lk = KL, .v = &t->v[i], .lv = 1 };
	}
}
static int find(const struct tab *t, const uint8_t *k)
{
	int r = -1;
	for (int i = 0; i < t->n; i++) if (vh_kcmp(t->k[i], KL, k, KL) == 0) r = i;
	return r;
}
static void add_merge(void *c, const uint8_t *k, size_t nk, const uint8_t *a, size_t na, const uint8_t *b, size_t nb, uint8_t **m, size_t *nm)
{
	*m = malloc(1);
	**m = *a + *b; *nm = 1;
}
static uint8_t b0[KL + 1], b1[KL + 1];
static struct mtbl_iter *start(const struct mtbl_source *s)
{
	for (int j = 0; j < KL; j++) { b0[j] = ND_u8(); b1[j] = ND_u8(); }
	if (KIND == 1) return mtbl_source_get(s, b0, KL);
	if (KIND == 2) return mtbl_source_get_prefix(s, b0, KL - 1);
	if (KIND == 3) return mtbl_source_get_range(s, b0, KL, b1, KL);
	return mtbl_source_iter(s);
}
static bool in_bounds(const uint8_t *k)
{
	if (KIND == 1) return vh_kcmp(k, KL, b0, KL) == 0;
	if (KIND == 2) return vh_kcmp(k, KL - 1, b0, KL - 1) == 0;
	if (KIND == 3) return vh_kcmp(k, KL, b1, KL) <= 0;
	return true;
}
/* the combined contents: which entries of L survive, and with what value */
static bool want_in[4];
static uint8_t want_v[4];
static void drive(const struct mtbl_source *s)
{
	struct mtbl_iter *it = start(s);
	int pos = 0;
	bool ended = false, seen = false, moved = false;
	if (KIND != 0)
		for (int i = 0; i < L.n; i++) if (vh_kcmp(L.k[i], KL, b0, KIND == 2 ? KL - 1 : KL) < 0) pos = i + 1;
	for (int o = 0; o < OPS; o++) {
		if (SEQ >> o & 1) {
			uint8_t sk[KL];
			for (int j = 0; j < KL; j++) sk[j] = ND_u8();
			/* seeking before the start of a bounded iteration is outside the interface */
			if (KIND != 0) ASSUME(vh_kcmp(sk, KL, b0, KIND == 2 ? KL - 1 : KL) >= 0);
			mtbl_iter_seek(it, sk, KL);
			pos = 0;
			for (int i = 0; i < L.n; i++) if (vh_kcmp(L.k[i], KL, sk, KL) < 0) pos = i + 1;
			ended = false;
			moved = true;
		} else {
			const uint8_t *k = NULL, *v = NULL;
			size_t nk = 0, nv = 0;
			mtbl_res r = mtbl_iter_next(it, &k, &nk, &v, &nv);
			bool over = false;
			/* the first surviving entry at or after pos; leaving the bounds on the way ends the iteration */
			for (int i = 0; i < L.n; i++) {
				if (i < pos || over) continue;
				if (!in_bounds(L.k[i])) { ended = true; break; }
				pos = i + 1;
				if (want_in[i]) over = true;
			}
			if (!over) ended = true;
			CHECK((r == mtbl_res_success) == !ended, "an entry is returned exactly if one remains");
			if (ended || r != mtbl_res_success) { REACH_IF(o + 1 == OPS, "end"); if (o + 1 < OPS && !(SEQ >> (o + 1) & 1)) break; continue; }
			for (int i = 0; i < L.n; i++)
				if (i == pos - 1) {
					CHECK(nk == KL && vh_kcmp(k, nk, L.k[i], KL) == 0, "the key is the next surviving key");
					CHECK(nv == 1 && *v == want_v[i], "the value is the combined value");
				}
			seen = true;
		}
	}
	REACH_IF(seen, "entry returned");
	mtbl_iter_destroy(&it);
}
void h_ljoin(void)
{
	mk(&L, NL); mk(&R, NR);
	struct mtbl_source *ls = vh_tab_source(&L.t), *rs = vh_tab_source(&R.t);
	struct ljoin_mtbl *j = ljoin_mtbl_init(ls, rs, add_merge, NULL);
	for (int i = 0; i < NL; i++) {
		want_in[i] = true;
		want_v[i] = L.v[i];
		for (int j = 0; j < NR; j++) if (vh_kcmp(R.k[j], KL, L.k[i], KL) == 0) want_v[i] += R.v[j];
	}
	drive(ljoin_mtbl_source(j));
	ljoin_mtbl_destroy(&j);
	CHECK(vh_live_iters == 0 && vh_live_sources == 2 && j == NULL, "everything opened is closed");
}
void h_remove(void)
{
	mk(&L, NL); mk(&R, NR);
	struct mtbl_source *ls = vh_tab_source(&L.t), *rs = vh_tab_source(&R.t);
	struct remove_mtbl *m = remove_mtbl_init();
	remove_mtbl_add_source(m, rs);
#ifdef NR2
	mk(&R2, NR2);
	remove_mtbl_add_source(m, vh_tab_source(&R2.t));
#endif
	remove_mtbl_set_upstream(m, ls);
	for (int i = 0; i < NL; i++) {
		want_in[i] = find(&R, L.k[i]) < 0;
#ifdef NR2
		if (find(&R2, L.k[i]) >= 0) want_in[i] = false;
#endif
		want_v[i] = L.v[i];
	}
	drive(remove_mtbl_source(m));
	remove_mtbl_destroy(&m);
	CHECK(vh_live_iters == 0 && m == NULL, "everything opened is closed");
}
static uint8_t fmask, smask;
static int calls;
static mtbl_res ffunc(void *u, struct mtbl_iter *seek, const uint8_t *k, size_t nk, const uint8_t *v, size_t nv, bool *match)
{
	calls++;
	CHECK(u == &fmask, "filter function argument");
	*match = fmask >> (k[KL - 1] & 7) & 1;
	if (!*match && (smask >> (k[KL - 1] & 7) & 1) && k[KL - 1] < 255) {
		uint8_t n[KL];
		for (int j = 0; j < KL; j++) n[j] = k[j];
		n[KL - 1]++;
		return mtbl_iter_seek(seek, n, KL);
	}
	return mtbl_res_success;
}
void h_filter(void)
{
	mk(&L, NL);
	fmask = ND_u8(); smask = ND_u8();
	struct mtbl_source *ls = vh_tab_source(&L.t);
	struct filter_mtbl *f = filter_mtbl_init(ls, ffunc, &fmask);
	for (int i = 0; i < NL; i++) { want_in[i] = fmask >> (L.k[i][KL - 1] & 7) & 1; want_v[i] = L.v[i]; }
	drive(filter_mtbl_source(f));
	filter_mtbl_destroy(&f);
	CHECK(vh_live_iters == 0 && vh_live_sources == 1 && f == NULL, "everything opened is closed");
}
