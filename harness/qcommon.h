/*
 * The whole query path - dnstable_query_set_*, dnstable_query_iter over a table, filters, iteration, decoding -
 * with text conversions replaced by their results (the harness decides what a string denotes).
 */
#include "vh.h"
#if defined(REPLAY) && defined(VH_COUNT)	/* natively every allocation is counted */
#include <stdlib.h>
#include <string.h>
static long vh_live_mem;
static void *vh_c_malloc(size_t n) { vh_live_mem++; return malloc(n); }
static void *vh_c_calloc(size_t k, size_t n) { vh_live_mem++; return calloc(k, n); }
static void *vh_c_realloc(void *p, size_t n) { if (p == NULL) vh_live_mem++; return realloc(p, n); }
static char *vh_c_strdup(const char *s) { vh_live_mem++; return strdup(s); }
static void vh_c_free(void *p) { if (p != NULL) vh_live_mem--; free(p); }
#define malloc vh_c_malloc
#define calloc vh_c_calloc
#define realloc vh_c_realloc
#define strdup vh_c_strdup
#define free vh_c_free
#endif
#include "vh_libc.h"
#include "dnstable/dnstable-private.h"
#include "mtbl_model.h"
#include "wdns_model.h"
#include "wdns_fmt_stub.h"
#include "all_calloc.h"
#include <arpa/inet.h>
#include <strings.h>

/* what the next name, address or type string denotes */
static const uint8_t *vh_name; static size_t vh_name_len; static bool vh_name_bad;
static uint16_t vh_rrtype;
wdns_res wdns_str_to_name_case(const char *s, wdns_name_t *n)
{
	(void) s;
	if (vh_name_bad) return wdns_res_parse_error;
	n->len = (uint8_t) vh_name_len;
#ifdef REPLAY
	n->data = malloc(vh_name_len);
#else
	n->data = __CPROVER_allocate(32, 0);
	VH_MORE(1);
	__CPROVER_assert(vh_name_len <= 32, "unwinding assertion: name capacity");
#endif
	for (size_t i = 0; i < vh_name_len; i++) n->data[i] = vh_name[i];
	return wdns_res_success;
}
uint16_t wdns_str_to_rrtype(const char *s) { (void) s; return vh_rrtype; }
/* address texts are the tokens a and b (IPv4) and c and d (IPv6); the harness chooses the addresses they denote */
static uint8_t vh_addr[4][16];
int vh_inet_pton(int af, const char *s, void *d)
{
	if (s[0] < 'a' || s[0] > 'd' || s[1] != 0 || (af == AF_INET) != (s[0] < 'c')) return 0;
	for (int i = 0; i < (af == AF_INET ? 4 : 16); i++) ((uint8_t *) d)[i] = vh_addr[s[0] - 'a'][i];
	return 1;
}
#define inet_pton vh_inet_pton
/* numbers in texts: parsed, or chosen by the harness */
static bool vh_num_set; static long vh_num;
#include <errno.h>
static long vh_strtol(const char *s, char **end, int base)
{
	if (vh_num_set) {
		while (*s != 0) s++;
		if (end != NULL) *end = (char *) s;
		return vh_num;
	}
#ifdef REPLAY
	return (strtol)(s, end, base);
#else
	const char *s0 = s;
	bool neg = false, any = false, over = false;
	long v = 0;
	while (*s == ' ' || (*s >= 9 && *s <= 13)) s++;
	if (*s == '+' || *s == '-') neg = *s++ == '-';
	for (; *s >= '0' && *s <= '9'; s++) {
		any = true;
		if (v > (INT64_MAX - (*s - '0')) / 10) over = true; else v = v * 10 + (*s - '0');
	}
	if (end != NULL) *end = (char *) (any ? s : s0);
	if (over) { errno = ERANGE; return neg ? INT64_MIN : INT64_MAX; }
	return neg ? -v : v;
#endif
}
#define strtol vh_strtol
#define strtoul(s, e, b) ((unsigned long) vh_strtol(s, e, b))
#ifndef REPLAY
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char) c) return (char *) s; if (*s == 0) return NULL; } }
char *strtok_r(char *s, const char *d, char **save)
{
	if (s == NULL) s = *save;
	while (*s == d[0]) s++;
	if (*s == 0) { *save = s; return NULL; }
	char *t = s;
	while (*s != 0 && *s != d[0]) s++;
	if (*s != 0) *s++ = 0;
	*save = s;
	return t;
}
#endif
#ifndef REPLAY
int strcasecmp(const char *a, const char *b)
{
	for (size_t i = 0;; i++) {
		int x = a[i], y = b[i];
		if (x >= 'A' && x <= 'Z') x += 32;
		if (y >= 'A' && y <= 'Z') y += 32;
		if (x != y) return x - y;
		if (x == 0) break;
	}
#ifdef VH_NO_ERRORS	/* no type text is ANY here, and no type is */
	CHECK(0, "a type that is not ANY is taken for it");
	ASSUME(0);
#endif
	return 0;
}
#endif
#ifndef VH_OWN_CLOCK
int vh_clock(int c, struct timespec *t) { (void) c; t->tv_sec = 0; t->tv_nsec = 0; return 0; }
#endif
#ifndef VH_OWN_CLOCK
#define clock_gettime vh_clock
#else
#undef setjmp
#undef longjmp
#define setjmp(e) vh_setjmp()
#define longjmp(e, v) vh_longjmp()
#endif
#if defined(VH_COUNT) && !defined(REPLAY)
#undef calloc
#define calloc(k, n) (VH_MORE(1), __CPROVER_allocate((k) * (n), 1))
#define free(p) vh_free(p)
#endif
#ifndef VH_OWN_FILESETS
void mtbl_merger_destroy(struct mtbl_merger **m) { *m = NULL; }
void mtbl_fileset_destroy(struct mtbl_fileset **f) { *f = NULL; }
const struct mtbl_source *mtbl_merger_source(struct mtbl_merger *m) { (void) m; return NULL; }
#ifdef REPLAY
struct mtbl_merger_options *mtbl_merger_options_init(void) { abort(); }
void mtbl_merger_options_destroy(struct mtbl_merger_options **o) { (void) o; }
void mtbl_merger_options_set_merge_func(struct mtbl_merger_options *o, mtbl_merge_func f, void *c) { (void) o; (void) f; (void) c; }
struct mtbl_merger *mtbl_merger_init(const struct mtbl_merger_options *o) { (void) o; abort(); }
void mtbl_merger_add_source(struct mtbl_merger *m, const struct mtbl_source *s) { (void) m; (void) s; }
struct mtbl_fileset_options *mtbl_fileset_options_init(void) { abort(); }
void mtbl_fileset_options_destroy(struct mtbl_fileset_options **o) { (void) o; }
void mtbl_fileset_options_set_merge_func(struct mtbl_fileset_options *o, mtbl_merge_func f, void *c) { (void) o; (void) f; (void) c; }
void mtbl_fileset_options_set_dupsort_func(struct mtbl_fileset_options *o, mtbl_dupsort_func f, void *c) { (void) o; (void) f; (void) c; }
void mtbl_fileset_options_set_reader_filter_func(struct mtbl_fileset_options *o, mtbl_reader_filter_func f, void *c) { (void) o; (void) f; (void) c; }
struct mtbl_fileset *mtbl_fileset_dup(struct mtbl_fileset *f, const struct mtbl_fileset_options *o) { (void) f; (void) o; abort(); }
const struct mtbl_source *mtbl_fileset_source(struct mtbl_fileset *f) { (void) f; abort(); }
const struct mtbl_source *mtbl_reader_source(struct mtbl_reader *r) { (void) r; abort(); }
#endif
#endif
#include "dnstable/triplet.c"
/* the query path hands every entry it returns to dnstable_entry_decode; unless VH_DECODE is set the harness sees
 * the key and value themselves (decoding is decided by D01 and D02) */
#ifndef VH_DECODE
#define dnstable_entry_decode vh_real_decode
#define dnstable_entry_destroy vh_real_destroy
#include "dnstable/entry.c"
#undef dnstable_entry_decode
#undef dnstable_entry_destroy
static const uint8_t *vh_got_k, *vh_got_v;
static size_t vh_got_nk, vh_got_nv;
static struct dnstable_entry vh_got;
struct dnstable_entry *dnstable_entry_decode(const uint8_t *k, size_t nk, const uint8_t *v, size_t nv)
{
	vh_got_k = k; vh_got_nk = nk; vh_got_v = v; vh_got_nv = nv;
	return &vh_got;
}
void dnstable_entry_destroy(struct dnstable_entry **e) { *e = NULL; }
#else
#include "dnstable/entry.c"
#endif
#include "dnstable/iter.c"
#ifndef VH_OWN_MERGE
void dnstable_merge_func(void *clos, const uint8_t *key, size_t len_key, const uint8_t *val0, size_t len_val0, const uint8_t *val1, size_t len_val1, uint8_t **merged_val, size_t *len_merged_val) { (void) clos; (void) key; (void) len_key; (void) val0; (void) len_val0; (void) val1; (void) len_val1; *merged_val = NULL; *len_merged_val = 0; }
#endif
#include "dnstable/query_mtbl.c"
#include "dnstable/query.c"

#ifndef NCAP
#define NCAP 24
#endif
/* a name of fixed label lengths and symbolic bytes, leftmost label first; off[i] is the offset of label i */
struct nm { size_t nl, n; uint8_t len[5]; uint8_t w[NCAP]; };
static struct nm mkname(const uint8_t *lens, size_t nl)
{
	struct nm m = { .nl = nl, .n = 0 };
	for (size_t i = 0; i < nl; i++) {
		m.len[i] = lens[i];
		m.w[m.n++] = lens[i];
		for (size_t j = 0; j < lens[i]; j++) m.w[m.n++] = ND_u8();
	}
	m.w[m.n++] = 0;
	return m;
}
static size_t label_off(const struct nm *m, size_t i)
{
	size_t o = 0;
	for (size_t j = 0; j < i; j++) o += m->len[j] + 1;
	return o;
}
static size_t put_fwd(uint8_t *p, const struct nm *m)
{
	for (size_t i = 0; i < m->n; i++) p[i] = m->w[i];
	return m->n;
}
static size_t put_rev(uint8_t *p, const struct nm *m)
{
	size_t n = 0;
	for (size_t i = m->nl; i > 0; i--) {
		size_t o = label_off(m, i - 1);
		for (size_t j = 0; j <= m->len[i - 1]; j++) p[n++] = m->w[o + j];
	}
	p[n++] = 0;
	return n;
}
static uint8_t vh_lc(uint8_t c, bool keep) { return !keep && c >= 'A' && c <= 'Z' ? c + 32 : c; }
/* label i of a equals label j of b once b is lowercased (unless keep) */
static bool label_eq(const struct nm *a, size_t i, const struct nm *b, size_t j, bool keep)
{
	if (a->len[i] != b->len[j]) return false;
	size_t x = label_off(a, i), y = label_off(b, j);
	for (size_t k = 1; k <= a->len[i]; k++) if (a->w[x + k] != vh_lc(b->w[y + k], keep)) return false;
	return true;
}
/* does stored name s satisfy query name q (without its wildcard label) of kind wc: 0 exact, 1 "*.q", 2 "+.q", 3 "q.*", 4 "q.+" */
static bool name_match(const struct nm *s, const struct nm *q, int wc, bool keep)
{
	if (wc == 0 ? s->nl != q->nl : wc % 2 == 1 ? s->nl < q->nl : s->nl != q->nl + 1) return false;
	for (size_t i = 0; i < q->nl; i++)
		if (!label_eq(s, wc == 1 || wc == 2 ? s->nl - q->nl + i : i, q, i, keep)) return false;
	return true;
}
/* the wire form of a query name: its labels plus the wildcard label */
static size_t put_query(uint8_t *p, const struct nm *q, int wc)
{
	size_t n = 0;
	if (wc == 1 || wc == 2) { p[n++] = 1; p[n++] = wc == 1 ? '*' : '+'; }
	for (size_t i = 0; i + 1 < q->n; i++) p[n++] = q->w[i];
	if (wc == 3 || wc == 4) { p[n++] = 1; p[n++] = wc == 3 ? '*' : '+'; }
	p[n++] = 0;
	return n;
}
/* varint of a fixed encoded length */
static size_t put_vl(uint8_t *p, uint64_t v, unsigned L)
{
	ASSUME(L == 10 || v < (1ULL << (7 * L)));
	ASSUME(L == 1 || v >= (1ULL << (7 * (L - 1))));
	for (unsigned i = 0; i < L; i++) { p[i] = (uint8_t) ((v & 127) | (i + 1 < L ? 128 : 0)); v >>= 7; }
	return L;
}
