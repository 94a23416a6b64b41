/* D17: setters, observed through what dnstable_query_filter lets through */
#define VH_DECODE
#define TF 15
#include "h_query.c"
#ifndef OPS
#define OPS 2
#endif
static bool on[4], type_on; static uint64_t at[4]; static uint16_t type_is;
/* an rrset entry passes exactly if it satisfies the filters in force */
static void observe(struct dnstable_query *dq, bool bail_on, const struct nm *b)
{
	mkrrset(&e[0], MKNAME(E0), 0);
	bool want = !(on[0] && e[0].tf > at[0]) && !(on[1] && e[0].tf < at[1]) && !(on[2] && e[0].tl > at[2]) && !(on[3] && e[0].tl < at[3]);
	if (type_on && e[0].rrtype != type_is) want = false;
	if (bail_on) want = want && name_match(&e[0].bail, b, 0, false);
	struct dnstable_entry *d = dnstable_entry_decode(e[0].k, e[0].nk, e[0].v, 3);
	bool pass = ND_bool();
	CHECK(d != NULL, "the entry can be decoded");
	CHECK(dnstable_query_filter(dq, d, &pass) == dnstable_res_success && pass == want, "exactly the filters last set are in force");
	REACH_IF(want, "passes");
#ifndef ALLPASS
	REACH_IF(!want, "fails");
#endif
	dnstable_entry_destroy(&d);
	dnstable_query_destroy(&dq);
}
void h_times(void)
{
	struct dnstable_query *dq = dnstable_query_init(DNSTABLE_QUERY_TYPE_RRSET);
	for (int i = 0; i < OPS; i++) {
		int t = (int) ND_u32();
		uint64_t v = ND_u64();
		bool null = ND_bool();
		size_t len = ND_bool() ? 8 : ND_u64();
		dnstable_res res = dnstable_query_set_filter_parameter(dq, (dnstable_filter_parameter_type) t, null ? NULL : &v, len);
		CHECK((res == dnstable_res_success) == (t >= 0 && t <= 3 && len == 8), "a filter parameter is accepted exactly if its kind is known and its length right");
		if (res == dnstable_res_success) { on[t] = !null; at[t] = v; }
		REACH_IF(res == dnstable_res_success && null, "cleared");
		REACH_IF(res != dnstable_res_success, "refused");
	}
	observe(dq, false, NULL);
}
/* record types by a sequence of calls: 0 NULL, 1..5 no filter, 6 a known type, 7 an unknown one */
void h_typeseq(void)
{
	static const char *const text[] = { NULL, "ANY", "any", "TYPE255", "aNy-dNSSEC", "type255", "T", "U" };
	static const uint8_t ops[] = { SEQ };
	struct dnstable_query *dq = dnstable_query_init(DNSTABLE_QUERY_TYPE_RRSET);
	for (size_t i = 0; i < sizeof(ops); i++) {
		vh_rrtype = 0;
		if (ops[i] == 6) { vh_rrtype = ND_u16(); ASSUME(vh_rrtype != 0); }
		dnstable_res res = dnstable_query_set_rrtype(dq, text[ops[i]]);
		CHECK((res == dnstable_res_success) == (ops[i] != 7), "a type is refused exactly if it is unknown");
		if (ops[i] == 7) CHECK(dnstable_query_get_error(dq) != NULL && strcmp(dnstable_query_get_error(dq), "unknown error") != 0, "a refusal is explained");
		if (ops[i] == 6 && vh_rrtype != WDNS_TYPE_ANY) { type_on = true; type_is = vh_rrtype; }
		else if (ops[i] != 7) type_on = false;
	}
	observe(dq, false, NULL);
}
#ifndef TN
#define TN 3
#endif
static bool is_text(const char *t, const char *s)
{
	for (int i = 0;; i++) {
		char c = t[i] >= 'a' && t[i] <= 'z' ? t[i] - 32 : t[i];
		if (c != s[i]) return false;
		if (c == 0) return true;
	}
}
void h_typetext(void)
{
	static char t[TN + 1];
	for (int i = 0; i < TN; i++) { t[i] = (char) ND_u8(); ASSUME(t[i] != 0); }
	struct dnstable_query *dq = dnstable_query_init(DNSTABLE_QUERY_TYPE_RRSET);
	vh_rrtype = 1;
	CHECK(dnstable_query_set_rrtype(dq, "A") == dnstable_res_success, "a known type is accepted");
	vh_rrtype = ND_u16();
	bool any = is_text(t, "ANY") || is_text(t, "TYPE255") || is_text(t, "ANY-DNSSEC");
	dnstable_res res = dnstable_query_set_rrtype(dq, t);
	CHECK((res == dnstable_res_success) == (any || vh_rrtype != 0), "a type is refused exactly if it is unknown");
	type_on = !any && vh_rrtype != WDNS_TYPE_ANY;
	type_is = res == dnstable_res_success ? vh_rrtype : 1;
	REACH_IF(res != dnstable_res_success, "refused");
#if TN == 3 || TN == 7 || TN == 10
	REACH_IF(any, "no filter");
#endif
	observe(dq, false, NULL);
}
/* bailiwicks: two names, or a name and then none */
void h_bail(void)
{
	static uint8_t w1[NCAP], w2[NCAP];
	struct nm b1 = MKNAME(BN), b2 = MKNAME(BN);
	struct dnstable_query *dq = dnstable_query_init(DNSTABLE_QUERY_TYPE_RRSET);
	vh_name = w1; vh_name_len = put_fwd(w1, &b1);
	CHECK(dnstable_query_set_bailiwick(dq, "b1") == dnstable_res_success, "a bailiwick is accepted");
	vh_name = w2; vh_name_len = put_fwd(w2, &b2);
	if (HOW == 1) CHECK(dnstable_query_set_bailiwick(dq, "b2") == dnstable_res_success, "a bailiwick is accepted");
	if (HOW == 2) CHECK(dnstable_query_set_bailiwick(dq, NULL) == dnstable_res_success, "a bailiwick is cleared");
	if (HOW == 3) {
		vh_name_bad = true;
		CHECK(dnstable_query_set_bailiwick(dq, "bad") == dnstable_res_failure, "a text that is no name is refused");
		CHECK(dnstable_query_get_error(dq) != NULL && strcmp(dnstable_query_get_error(dq), "unknown error") != 0, "a refusal is explained");
		vh_name_bad = false;
		CHECK(dnstable_query_set_bailiwick(dq, "b2") == dnstable_res_success, "a bailiwick is accepted after a refusal");
	}
	observe(dq, HOW != 2, HOW == 0 ? &b1 : &b2);
}
/* what each kind of query takes for data, and that it takes a bailiwick only for rrsets */
void h_kinds(void)
{
	static const dnstable_query_type kinds[] = { DNSTABLE_QUERY_TYPE_RRSET, DNSTABLE_QUERY_TYPE_RDATA_NAME, DNSTABLE_QUERY_TYPE_RDATA_IP, DNSTABLE_QUERY_TYPE_RDATA_RAW, DNSTABLE_QUERY_TYPE_VERSION, DNSTABLE_QUERY_TYPE_TIME_RANGE, DNSTABLE_QUERY_TYPE_SOURCE_INFO };
	static uint8_t w[] = { 1, 'b', 0 };
	struct dnstable_query *dq = dnstable_query_init(kinds[KIND]);
	vh_name = w; vh_name_len = 3;
	CHECK((dnstable_query_set_data(dq, NULL) == dnstable_res_success) == (KIND < 5), "data can be cleared where there can be data");
	CHECK((dnstable_query_set_bailiwick(dq, "b") == dnstable_res_success) == (KIND == 0), "a bailiwick is for rrset queries");
	CHECK(dnstable_query_get_error(dq) != NULL, "there is always an error text");
	if (KIND < 2) {
		vh_name_bad = true;
		CHECK(dnstable_query_set_data(dq, "bad") == dnstable_res_failure, "a text that is no name is refused");
		CHECK(dnstable_query_get_error(dq) != NULL && strcmp(dnstable_query_get_error(dq), "unknown error") != 0, "a refusal is explained");
		vh_name_bad = false;
		CHECK(dnstable_query_set_data(dq, "b") == dnstable_res_success, "a name is accepted after a refusal");
	}
	if (KIND >= 5) CHECK(dnstable_query_set_data(dq, "b") == dnstable_res_failure, "data are refused where there are none");
	dnstable_query_destroy(&dq);
	CHECK(dq == NULL, "the query is gone");
	REACH("done");
}
/* data texts */
void h_text(void)
{
	static char t[TN + 1];
	bool hex = TN % 2 == 0 && TN > 0;
	for (int i = 0; i < TN; i++) {
		t[i] = (char) ND_u8();
		ASSUME(t[i] != 0);
		if (!((t[i] >= '0' && t[i] <= '9') || (t[i] >= 'a' && t[i] <= 'f') || (t[i] >= 'A' && t[i] <= 'F'))) hex = false;
	}
	struct dnstable_query *dq;
	if (RAW) {
		dq = dnstable_query_init(DNSTABLE_QUERY_TYPE_RDATA_RAW);
		if (ND_bool()) CHECK(dnstable_query_set_data(dq, "00ff") == dnstable_res_success, "hexadecimal data are accepted");
		dnstable_res res = dnstable_query_set_data(dq, t);
		if (TN > 0) CHECK((res == dnstable_res_success) == hex, "raw data are accepted exactly if they are hexadecimal");
	} else {
		dq = dnstable_query_init(DNSTABLE_QUERY_TYPE_VERSION);
		bool known = !strcmp(t, "rrset") || !strcmp(t, "rrset_name") || !strcmp(t, "rdata") || !strcmp(t, "rdata_name");
		CHECK((dnstable_query_set_data(dq, t) == dnstable_res_success) == known, "exactly the four kinds of versioned entries are accepted");
#if (TN == 5 || TN == 10) && !RAW
		REACH_IF(known, "accepted");
#endif
	}
	CHECK(dnstable_query_get_error(dq) != NULL, "there is always an error text");
	REACH("decided");
	dnstable_query_destroy(&dq);
}
