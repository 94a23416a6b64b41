/* D07, D08, D11: what a query returns */
#include "qcommon.h"
#include "script_model.h"
#ifndef NENT
#define NENT 1
#endif
#ifndef QN
#define QN
#endif
#ifndef BN
#define BN
#endif
#ifndef E0
#define E0
#endif
#ifndef E1
#define E1
#endif
#ifndef E2
#define E2
#endif
#ifndef WC
#define WC 0
#endif
#ifndef RT
#define RT 0			/* rrtype filter */
#endif
#ifndef BW
#define BW 0			/* bailiwick filter */
#endif
#ifndef TF
#define TF 0			/* time filters, one bit each */
#endif
#ifndef RTL
#define RTL 1			/* encoded length of the stored rrtypes */
#endif
#ifndef EXTRA
#define EXTRA 0			/* bytes of record data after the name */
#endif
#ifndef SLICE
#define SLICE 0			/* bytes of initial data slice */
#endif
#ifndef RN
#define RN 1			/* label lengths of the owner of an rdata entry */
#endif
#ifndef KCAP
#define KCAP 28
#endif
#define LENS(x) static const uint8_t lens_##x[] = { 0, x }
#define MKNAME(x) mkname(lens_##x + 1, sizeof(lens_##x) - 1)
LENS(QN); LENS(BN); LENS(RN); LENS(E0); LENS(E1); LENS(E2);
struct ent { struct nm owner, bail; uint16_t rrtype; uint64_t tf, tl; uint8_t k[KCAP], v[3], ik[KCAP], iv[2]; size_t nk, nik, niv; uint8_t rd[2]; };
static struct ent e[3];
static struct nm q, qb;
static bool keep;
static uint16_t want_rrtype;
static uint64_t fence[4];

static struct dnstable_query *mkquery(dnstable_query_type t)
{
	static uint8_t w[NCAP];
	struct dnstable_query *dq = dnstable_query_init(t);
	keep = ND_bool();
	dnstable_query_set_case_sensitive(dq, keep);
	q = MKNAME(QN);
	/* one-byte labels where a wildcard could stand are fixed, longer ones are free */
	for (size_t i = 0; i < q.nl; i++)
		if (q.len[i] == 1 && ((i == 0 && (WC == 0 || WC >= 3)) || (i == q.nl - 1 && WC < 3))) q.w[label_off(&q, i) + 1] = 'a';
	vh_name = w;
	vh_name_len = put_query(w, &q, WC);
	CHECK(dnstable_query_set_data(dq, "name") == dnstable_res_success, "the name is accepted");
	if (BW) {
		qb = MKNAME(BN);
		vh_name_len = put_fwd(w, &qb);
		CHECK(dnstable_query_set_bailiwick(dq, "bailiwick") == dnstable_res_success, "the bailiwick is accepted");
	}
	if (RT) {
#ifdef WT
		want_rrtype = WT;
#else
		want_rrtype = ND_u16();
#endif
		ASSUME(want_rrtype != 0 && want_rrtype != WDNS_TYPE_ANY);
#ifdef QRT
		ASSUME(want_rrtype >= 128 ? QRT == 2 && want_rrtype < 16384 : QRT == 1);
#else
		ASSUME(want_rrtype < 128);
#endif
		vh_rrtype = want_rrtype;
		CHECK(dnstable_query_set_rrtype(dq, "T") == dnstable_res_success, "the type is accepted");
	}
	for (int i = 0; i < 4; i++)
		if (TF >> i & 1) {
			fence[i] = ND_u64();
			static const dnstable_filter_parameter_type ft[4] = { DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, DNSTABLE_FILTER_PARAMETER_TIME_LAST_BEFORE, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER };
			CHECK(dnstable_query_set_filter_parameter(dq, ft[i], &fence[i], 8) == dnstable_res_success, "the time is accepted");
		}
	return dq;
}
static bool times_match(const struct ent *x)
{
	return !((TF & 1 && x->tf > fence[0]) || (TF & 2 && x->tf < fence[1]) || (TF & 4 && x->tl > fence[2]) || (TF & 8 && x->tl < fence[3]));
}
static void mktimes(struct ent *x, int i)
{
	/* without time filters the first time identifies the entry */
	x->tf = TF ? ND_range(0, 127) : (uint64_t) i + 1;
	x->tl = TF ? ND_range(0, 127) : 100;
	ASSUME(x->tf <= x->tl);
	x->v[0] = (uint8_t) x->tf; x->v[1] = (uint8_t) x->tl; x->v[2] = 1;
}
/* the types of entries before the last may be fixed */
static uint16_t mktype(int i)
{
#ifdef ET
	if (i < NENT - 1) return ET;
#endif
	return ND_u16();
}
static void mkrrset(struct ent *x, struct nm owner, int i)
{
	x->owner = owner;
	x->bail = MKNAME(BN);
	x->rrtype = mktype(i);
	x->nk = 0;
	x->k[x->nk++] = 0;
	x->nk += put_rev(x->k + x->nk, &x->owner);
	x->nk += put_vl(x->k + x->nk, x->rrtype, RTL);
	x->nk += put_rev(x->k + x->nk, &x->bail);
	x->k[x->nk++] = 1;
	x->k[x->nk++] = 9;
	mktimes(x, i);
	/* index entry */
	x->ik[0] = 1;
	x->nik = 1 + put_fwd(x->ik + 1, &x->owner);
	x->iv[0] = (uint8_t) x->rrtype; x->iv[1] = (uint8_t) (x->rrtype >> 8);
	x->niv = RTL == 1 ? 1 : 2;
}

static bool is_entry(const struct ent *x)
{
#ifdef VH_DECODE
	static const uint8_t *vh_got_k, *vh_got_v; static size_t vh_got_nk, vh_got_nv;
#endif
	return vh_got_nk == x->nk && vh_kcmp(vh_got_k, vh_got_nk, x->k, x->nk) == 0 && vh_got_nv == 3 && vh_kcmp(vh_got_v, 3, x->v, 3) == 0;
}
/* entries before the last do not match: the first result is the last entry, if that matches */
static void first_result(struct dnstable_query *dq, bool want)
{
	struct mtbl_source *s = vh_script_source();
	struct dnstable_iter *it = dnstable_query_iter(dq, s);
	CHECK(it != NULL, "the query can be run");
	struct dnstable_entry *d = NULL;
	dnstable_res res = dnstable_iter_next(it, &d);
	CHECK((res == dnstable_res_success) == want, "an entry is returned exactly if it matches");
	if (res == dnstable_res_success) {
		CHECK(is_entry(&e[NENT - 1]), "the entry returned is the one that matches");
		dnstable_entry_destroy(&d);
		if (NENT == 1) CHECK(dnstable_iter_next(it, &d) != dnstable_res_success, "each entry is returned once");
	}
#ifndef NOMATCH
	REACH_IF(want, "returned");
#endif
#ifndef ALLMATCH
	REACH_IF(!want, "not returned");
#endif
	dnstable_iter_destroy(&it);
	dnstable_query_destroy(&dq);
	mtbl_source_destroy(&s);
	CHECK(vh_live_iters == 0 && vh_live_sources == 0, "everything opened is closed");
}
static void script_add(struct vh_script *s, const uint8_t *k, size_t nk, const uint8_t *v, size_t nv)
{
	if (s->n > 0) ASSUME(vh_kcmp(s->e[s->n - 1].k, s->e[s->n - 1].lk, k, nk) < 0);
	s->e[s->n++] = (struct vh_ent) { .k = k, .lk = nk, .v = v, .lv = nv };
}
void h_rrset(void)
{
	bool want = false;
	struct dnstable_query *dq = mkquery(DNSTABLE_QUERY_TYPE_RRSET);
	mkrrset(&e[0], MKNAME(E0), 0);
	if (NENT > 1) mkrrset(&e[1], MKNAME(E1), 1);
	if (NENT > 2) mkrrset(&e[2], MKNAME(E2), 2);
	for (int i = 0; i < NENT; i++) {
#if WC >= 3
		if (i == NENT - 1)	/* looked up by name: entries of other names are not in the range */
#endif
		script_add(&vh_data, e[i].k, e[i].nk, e[i].v, 3);
#if WC >= 3
		script_add(&vh_index, e[i].ik, e[i].nik, e[i].iv, e[i].niv);
#endif
		want = name_match(&e[i].owner, &q, WC, keep) && (!RT || e[i].rrtype == want_rrtype) && times_match(&e[i]);
		if (BW) want = want && name_match(&e[i].bail, &qb, 0, false);
		if (i + 1 < NENT) ASSUME(!want);
	}
	first_result(dq, want);
}

/* types whose data begin with a name (or are stored sliced so that they do), and those whose data are only a name */
static bool is_nametype(uint16_t t)
{
	return t == WDNS_TYPE_MX || t == WDNS_TYPE_SRV || t == WDNS_TYPE_NS || t == WDNS_TYPE_CNAME || t == WDNS_TYPE_DNAME || t == WDNS_TYPE_PTR
		|| t == WDNS_TYPE_SOA || t == WDNS_TYPE_SVCB || t == WDNS_TYPE_HTTPS || t == WDNS_TYPE_NSEC || t == WDNS_TYPE_RP || t == WDNS_TYPE_NXT;
}
static bool is_onlyname(uint16_t t)
{
	return t == WDNS_TYPE_MX || t == WDNS_TYPE_SRV || t == WDNS_TYPE_NS || t == WDNS_TYPE_CNAME || t == WDNS_TYPE_DNAME || t == WDNS_TYPE_PTR;
}
static void put_rdata_tail(struct ent *x, size_t rdlen)
{
	struct nm rr = MKNAME(RN);
	x->nk += put_vl(x->k + x->nk, x->rrtype, RTL);
	x->nk += put_rev(x->k + x->nk, &rr);
	for (int i = 0; i < SLICE; i++) x->k[x->nk++] = ND_u8();
	x->k[x->nk++] = (uint8_t) rdlen;
	x->k[x->nk++] = (uint8_t) (rdlen >> 8);
}
static void mkrdata(struct ent *x, struct nm name, int i)
{
	x->owner = name;
	x->rrtype = mktype(i);
	if (EXTRA) ASSUME(!is_onlyname(x->rrtype));
	x->nk = 0;
	x->k[x->nk++] = 2;
	x->nk += put_fwd(x->k + x->nk, &name);
	for (int j = 0; j < EXTRA; j++) x->k[x->nk++] = ND_u8();
	put_rdata_tail(x, name.n + EXTRA);
	mktimes(x, i);
	x->ik[0] = 3;
	x->nik = 1 + put_rev(x->ik + 1, &name);
	x->iv[0] = (uint8_t) x->rrtype; x->iv[1] = (uint8_t) (x->rrtype >> 8);
#ifdef IVN
	x->niv = IVN;
#else
	x->niv = RTL == 1 ? 1 : 2;
#endif
	/* only these types are indexed */
	if (WC == 1 || WC == 2) ASSUME(is_nametype(x->rrtype) && x->rrtype != WDNS_TYPE_NSEC && x->rrtype != WDNS_TYPE_RP && x->rrtype != WDNS_TYPE_NXT);
}
void h_rdata_name(void)
{
	bool want = false;
	struct dnstable_query *dq = mkquery(DNSTABLE_QUERY_TYPE_RDATA_NAME);
	if (RT) ASSUME(is_nametype(want_rrtype));
	mkrdata(&e[0], MKNAME(E0), 0);
	if (NENT > 1) mkrdata(&e[1], MKNAME(E1), 1);
	if (NENT > 2) mkrdata(&e[2], MKNAME(E2), 2);
	for (int i = 0; i < NENT; i++) {
#if WC == 1 || WC == 2
		if (i == NENT - 1)
#endif
		script_add(&vh_data, e[i].k, e[i].nk, e[i].v, 3);
#if WC == 1 || WC == 2
		script_add(&vh_index, e[i].ik, e[i].nik, e[i].iv, e[i].niv);
#endif
		want = name_match(&e[i].owner, &q, WC, keep) && (RT ? e[i].rrtype == want_rrtype : is_nametype(e[i].rrtype)) && times_match(&e[i]);
		if (i + 1 < NENT) ASSUME(!want);
	}
	first_result(dq, want);
}

#ifndef RD0
#define RD0 4			/* record data lengths */
#endif
#ifndef RD1
#define RD1 4
#endif
#ifndef RAWN
#define RAWN 2
#endif
static void mkany(struct ent *x, size_t rdlen, int i)
{
	x->rrtype = mktype(i);
	x->nk = 0;
	x->k[x->nk++] = 2;
	for (size_t j = 0; j < rdlen; j++) x->k[x->nk++] = ND_u8();
	put_rdata_tail(x, rdlen);
	mktimes(x, i);
}
/* raw record data: everything equal is returned, nothing that differs is */
void h_raw(void)
{
	static char hex[2 * RAWN + 1];
	uint8_t raw[RAWN + 1];
	for (int i = 0; i < RAWN; i++) {
		raw[i] = ND_u8();
		hex[2 * i] = "0123456789abcdef"[raw[i] >> 4];
		hex[2 * i + 1] = "0123456789abcdef"[raw[i] & 15];
	}
	struct dnstable_query *dq = dnstable_query_init(DNSTABLE_QUERY_TYPE_RDATA_RAW);
	CHECK(dnstable_query_set_data(dq, hex) == dnstable_res_success, "the data are accepted");
	if (RT) {
		want_rrtype = vh_rrtype = ND_u16();
		ASSUME(want_rrtype != 0 && want_rrtype != WDNS_TYPE_ANY);
		CHECK(dnstable_query_set_rrtype(dq, "T") == dnstable_res_success, "the type is accepted");
	}
	mkany(&e[0], RD0, 0);
	script_add(&vh_data, e[0].k, e[0].nk, e[0].v, 3);
	bool agree = true;
	for (int i = 0; i < RAWN && i < RD0; i++) if (raw[i] != e[0].k[1 + i]) agree = false;
	bool type = !RT || e[0].rrtype == want_rrtype;
	struct mtbl_source *s = vh_script_source();
	struct dnstable_iter *it = dnstable_query_iter(dq, s);
	struct dnstable_entry *d = NULL;
	dnstable_res res = dnstable_iter_next(it, &d);
	if (agree && type && RD0 == RAWN) CHECK(res == dnstable_res_success, "equal record data are found");
	if (res == dnstable_res_success) {
		CHECK(agree && type && is_entry(&e[0]), "record data that differ are not returned");
		REACH("found");
	}
#ifndef NONOTFOUND
	else
		REACH("not found");
#endif
}
/* addresses */
#ifndef V6
#define V6 0
#endif
#define IPN (V6 ? 16 : 4)
#ifndef PFX	/* so many leading address bytes are fixed */
#define PFX 0
#endif
static int acmp(const uint8_t *a, const uint8_t *b) { return vh_kcmp(a, IPN, b, IPN); }
void h_ip(void)
{
	uint16_t type = V6 ? WDNS_TYPE_AAAA : WDNS_TYPE_A;
	uint8_t *lo = vh_addr[V6 ? 2 : 0], *hi = vh_addr[V6 ? 3 : 1];
	struct dnstable_query *dq = dnstable_query_init(DNSTABLE_QUERY_TYPE_RDATA_IP);
	for (int i = 0; i < IPN; i++) lo[i] = ND_u8();
#ifdef RANGE
	for (int i = 0; i < IPN; i++) hi[i] = ND_u8();
	for (int i = 0; i < PFX; i++) hi[i] = lo[i] = 7;
	CHECK(dnstable_query_set_data(dq, V6 ? "c-d" : "a-b") == dnstable_res_success, "the range is accepted");
#else
	for (int i = 0; i < IPN; i++) hi[i] = lo[i];
	CHECK(dnstable_query_set_data(dq, V6 ? "c" : "a") == dnstable_res_success, "the address is accepted");
#endif
	bool want = false;
	for (int i = 0; i < NENT; i++) {
		mkany(&e[i], i == NENT - 1 ? RD1 : RD0, i);
		for (int j = 0; j < PFX; j++) e[i].k[1 + j] = 7;
		want = (i == NENT - 1 ? RD1 : RD0) == IPN && e[i].rrtype == type && acmp(lo, e[i].k + 1) <= 0 && acmp(e[i].k + 1, hi) <= 0;
		if ((i == NENT - 1 ? RD1 : RD0) != IPN) ASSUME(e[i].rrtype != type);	/* address records have address-sized data */
		if (i + 1 < NENT) ASSUME(!want);
#ifdef LAB
		/* bytes that could be taken for label lengths are small or invalid */
		if (i + 1 < NENT || RD1 != IPN) for (size_t j = 2 + IPN; j + 2 < e[i].nk; j++) ASSUME(e[i].k[j] <= LAB || e[i].k[j] > 63);
#endif
		script_add(&vh_data, e[i].k, e[i].nk, e[i].v, 3);
	}
	first_result(dq, want);
}
/* the other kinds of query */
#ifndef TYPE
#define TYPE 255
#define QTYPE DNSTABLE_QUERY_TYPE_VERSION
#endif
void h_types(void)
{
	e[0].k[0] = ND_u8();
	for (int i = 1; i < 3; i++) e[0].k[i] = ND_u8();
	e[0].nk = ND_range(1, 3);
	mktimes(&e[0], 0);
	script_add(&vh_data, e[0].k, e[0].nk, e[0].v, 3);
	struct dnstable_query *dq = dnstable_query_init(QTYPE);
	bool want = e[0].k[0] == TYPE;
#ifdef VTYPE
	static const char *const names[4] = { "rrset", "rrset_name", "rdata", "rdata_name" };
	CHECK(dnstable_query_set_data(dq, names[VTYPE]) == dnstable_res_success, "the type name is accepted");
	want = want && e[0].nk > 1 && e[0].k[1] == VTYPE;
#endif
	first_result(dq, want);
}
#ifdef VH_DECODE
/* testing an entry that has been retrieved against the filters of a query */
void h_filter(void)
{
#ifdef RDATA
	struct dnstable_query *dq = mkquery(DNSTABLE_QUERY_TYPE_RDATA_NAME);
	mkrdata(&e[0], MKNAME(E0), 0);
	bool want = (RT ? e[0].rrtype == want_rrtype : is_nametype(e[0].rrtype)) && times_match(&e[0]);
#else
	struct dnstable_query *dq = mkquery(DNSTABLE_QUERY_TYPE_RRSET);
	mkrrset(&e[0], MKNAME(E0), 0);
	bool want = (!RT || e[0].rrtype == want_rrtype) && times_match(&e[0]) && (!BW || name_match(&e[0].bail, &qb, 0, false));
#endif
	struct dnstable_entry *d = dnstable_entry_decode(e[0].k, e[0].nk, e[0].v, 3);
	bool pass = ND_bool();
	CHECK(d != NULL, "the entry can be decoded");
	CHECK(dnstable_query_filter(dq, d, &pass) == dnstable_res_success && pass == want, "an entry passes the filters exactly if it satisfies them");
	REACH_IF(want, "passes");
	REACH_IF(!want, "fails");
	dnstable_entry_destroy(&d);
	dnstable_query_destroy(&dq);
}
#else
#ifdef ADDR
/* the text a/N denotes address a and the number the harness chooses */
#ifndef PLEN
#define PLEN 8
#endif
void h_prefix(void)
{
	uint8_t *a = vh_addr[V6 ? 2 : 0];
	for (int i = 0; i < IPN; i++) a[i] = ND_u8();
	vh_num = PLEN;
	vh_num_set = true;
	struct dnstable_query *dq = dnstable_query_init(DNSTABLE_QUERY_TYPE_RDATA_IP);
	CHECK(dnstable_query_set_data(dq, V6 ? "c/9" : "a/9") == dnstable_res_success, "a prefix is accepted");
	mkany(&e[0], IPN, 0);
	bool want = e[0].rrtype == (V6 ? WDNS_TYPE_AAAA : WDNS_TYPE_A);
	for (int i = 0; i < 8 * IPN; i++) if (i < vh_num && (a[i / 8] ^ e[0].k[1 + i / 8]) >> (7 - i % 8) & 1) want = false;
	script_add(&vh_data, e[0].k, e[0].nk, e[0].v, 3);
	first_result(dq, want);
}
/* which length texts are accepted */
void h_plen(void)
{
	static char t[3 + PN];
	t[0] = V6 ? 'c' : 'a'; t[1] = '/';
	bool digits = true, odd = false;
	unsigned v = 0;
	for (int i = 0; i < PN; i++) {
		char c = (char) ND_u8();
		ASSUME(c != 0 && c != '/' && c != '-');
		t[2 + i] = c;
		if (c >= '0' && c <= '9') v = v * 10 + (c - '0'); else digits = false;
		if (!(c >= '0' && c <= '9') && c != '+' && c != ' ' && !(c >= 9 && c <= 13)) odd = true;
	}
	struct dnstable_query *dq = dnstable_query_init(DNSTABLE_QUERY_TYPE_RDATA_IP);
	dnstable_res res = dnstable_query_set_data(dq, t);
	if (digits && PN > 0) CHECK((res == dnstable_res_success) == (v <= 8 * IPN), "a length is accepted exactly if it fits the address");
	if (odd || PN == 0) CHECK(res == dnstable_res_failure, "a length that is no number is refused");
	if (res == dnstable_res_failure) CHECK(dnstable_query_get_error(dq) != NULL && strcmp(dnstable_query_get_error(dq), "unknown error") != 0, "a refusal is explained");
	dnstable_query_destroy(&dq);
	REACH("decided");
}
/* a refused text leaves the query as it was */
void h_refused(void)
{
	for (int t = 0; t < 4; t++) for (int i = 0; i < 16; i++) vh_addr[t][i] = t == (V6 ? 3 : 1) && i < IPN ? ND_u8() : 3 * t + i;
	struct dnstable_query *dq = dnstable_query_init(DNSTABLE_QUERY_TYPE_RDATA_IP);
	if (GOOD == 0) CHECK(dnstable_query_set_data(dq, V6 ? "d" : "b") == dnstable_res_success, "the address is accepted");
	if (GOOD == 1) { CHECK(dnstable_query_set_data(dq, V6 ? "d/104" : "b/24") == dnstable_res_success, "the prefix is accepted"); }
	CHECK(dnstable_query_set_data(dq, BADTEXT) == dnstable_res_failure, "the text is refused");
	CHECK(dnstable_query_get_error(dq) != NULL, "a refusal is explained");
	mkany(&e[0], IPN, 0);
	bool want = e[0].rrtype == (V6 ? WDNS_TYPE_AAAA : WDNS_TYPE_A);
	for (int i = 0; i < (GOOD ? IPN == 4 ? 3 : 13 : IPN); i++) if (vh_addr[V6 ? 3 : 1][i] != e[0].k[1 + i]) want = false;
	script_add(&vh_data, e[0].k, e[0].nk, e[0].v, 3);
	first_result(dq, want);
}
#endif
/* any stored bytes */
#ifndef K
#define K 6
#endif
#ifndef V
#define V 3
#endif
#ifndef QKIND
#define QKIND RRSET
#endif
#define CAT_(a, b) a ## b
#define CAT(a, b) CAT_(a, b)
void h_anykey(void)
{
	static uint8_t k[K], v[V ? V : 1], ik[K];
#ifdef IP
	struct dnstable_query *dq = dnstable_query_init(DNSTABLE_QUERY_TYPE_RDATA_IP);
	for (int i = 0; i < 4; i++) { vh_addr[0][i] = ND_u8(); vh_addr[1][i] = ND_u8(); }
	dnstable_query_set_data(dq, "a-b");
	k[0] = 2;
#else
	struct dnstable_query *dq = mkquery(CAT(DNSTABLE_QUERY_TYPE_, QKIND));
	k[0] = CAT(DNSTABLE_QUERY_TYPE_, QKIND) == DNSTABLE_QUERY_TYPE_RRSET ? 0 : 2;
#endif
	ik[0] = k[0] + 1;
	for (int i = 1; i < K; i++) k[i] = ND_u8();
	for (int i = 0; i < V; i++) v[i] = ND_u8();
	script_add(&vh_data, k, K, v, V);
#if INDEX
	for (int i = 1; i < K; i++) ik[i] = ND_u8();
	script_add(&vh_index, ik, K, v, V);
#endif
	struct mtbl_source *s = vh_script_source();
	struct dnstable_iter *it = dnstable_query_iter(dq, s);
	struct dnstable_entry *d = NULL;
	if (dnstable_iter_next(it, &d) == dnstable_res_success) {
		CHECK(vh_got_k == k && vh_got_nk == K && vh_got_v == v && vh_got_nv == V, "what is returned is what is stored");
	}
	REACH("read");
	dnstable_iter_destroy(&it);
}
#endif
