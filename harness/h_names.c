/* D18: names of entry types, stages and categories */
#include "qcommon.h"
#include "dnstable/util.c"
#ifndef TN
#define TN 5
#endif
static const int all[] = { DNSTABLE_ENTRY_TYPE_RRSET, DNSTABLE_ENTRY_TYPE_RRSET_NAME_FWD, DNSTABLE_ENTRY_TYPE_RDATA, DNSTABLE_ENTRY_TYPE_RDATA_NAME_REV, DNSTABLE_ENTRY_TYPE_SOURCE_INFO, DNSTABLE_ENTRY_TYPE_TIME_RANGE, DNSTABLE_ENTRY_TYPE_VERSION };
static bool eq(const char *a, const char *b, bool fold)
{
	for (int i = 0;; i++) {
		char x = a[i], y = b[i];
		if (fold && x >= 'A' && x <= 'Z') x += 32;
		if (fold && y >= 'A' && y <= 'Z') y += 32;
		if (x != y) return false;
		if (x == 0) return true;
	}
}
void h_to(void)
{
	for (int t = 0; t < 256; t++) {
		bool known = false;
		for (int i = 0; i < 7; i++) if (all[i] == t) known = true;
		const char *s = dnstable_entry_type_to_string(t);
		CHECK((s != NULL) == known, "exactly the known types have names");
		dnstable_entry_type u = 77;
		if (s != NULL) CHECK(dnstable_entry_type_from_string(&u, s) == dnstable_res_success && (int) u == t, "the name of a type denotes it");
	}
	int t = (int) ND_u32();
	ASSUME(t < 0 || t > 255);
	CHECK(dnstable_entry_type_to_string(t) == NULL, "other numbers have no name");
	for (int i = 0; i < 10; i++) {
		const char *s = dnstable_stat_stage_to_str(i);
		dnstable_stat_stage r = 77;
		CHECK(s != NULL && *s != 0, "every stage has a name");
		if (s != NULL) CHECK(dnstable_stat_str_to_stage(s, &r) == dnstable_res_success && (int) r == i, "the name of a stage denotes it");
	}
	for (int i = 0; i < 4; i++) {
		const char *s = dnstable_stat_category_to_str(i);
		dnstable_stat_category r = 77;
		CHECK(s != NULL && *s != 0, "every category has a name");
		if (s != NULL) CHECK(dnstable_stat_str_to_category(s, &r) == dnstable_res_success && (int) r == i, "the name of a category denotes it");
	}
	t = (int) ND_u32();
	ASSUME(t < 0 || t >= 10);
	CHECK(dnstable_stat_stage_to_str(t) == NULL, "other numbers are no stages");
	ASSUME(t < 0 || t >= 4);
	CHECK(dnstable_stat_category_to_str(t) == NULL, "other numbers are no categories");
	dnstable_stat_stage r = 5; dnstable_stat_category c = 3;
	CHECK(dnstable_stat_str_to_stage(NULL, &r) == dnstable_res_failure && dnstable_stat_str_to_stage("", &r) == dnstable_res_failure && dnstable_stat_str_to_stage("rrtype", NULL) == dnstable_res_failure && r == 5, "no name is no stage");
	CHECK(dnstable_stat_str_to_category(NULL, &c) == dnstable_res_failure && dnstable_stat_str_to_category("", &c) == dnstable_res_failure && dnstable_stat_str_to_category("seek", NULL) == dnstable_res_failure && c == 3, "no name is no category");
	CHECK(dnstable_stat_category_to_str(4) == NULL && dnstable_stat_stage_to_str(10) == NULL, "the tables end where the enumerations do");
	REACH("done");
}
void h_from(void)
{
	static char s[TN + 1];
	for (int i = 0; i < TN; i++) { s[i] = (char) ND_u8(); ASSUME(s[i] != 0); }
	dnstable_entry_type t = 77;
	bool known = false, stage = false, cat = false;
	int is = 0, isst = 0, isc = 0;
	for (int i = 0; i < 7; i++) if (eq(s, dnstable_entry_type_to_string(all[i]), false)) { known = true; is = all[i]; }
	dnstable_res res = dnstable_entry_type_from_string(&t, s);
	CHECK((res == dnstable_res_success) == known, "a text is a type exactly if it is the name of one");
	CHECK(known ? (int) t == is : (int) t == 77, "a name denotes the type it is the name of");
	for (int i = 0; i < 10; i++) if (eq(s, dnstable_stat_stage_to_str(i), true)) { stage = true; isst = i; }
	for (int i = 0; i < 4; i++) if (eq(s, dnstable_stat_category_to_str(i), true)) { cat = true; isc = i; }
	dnstable_stat_stage r = 77; dnstable_stat_category c = 77;
	CHECK((dnstable_stat_str_to_stage(s, &r) == dnstable_res_success) == stage && (int) r == (stage ? isst : 77), "a text is a stage exactly if it is the name of one, in any case");
	CHECK((dnstable_stat_str_to_category(s, &c) == dnstable_res_success) == cat && (int) c == (cat ? isc : 77), "a text is a category exactly if it is the name of one, in any case");
	REACH("decided");
}
