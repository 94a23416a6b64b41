/* D02: decoding an entry encoded as documented gives back its fields */
#include "vh.h"
#include "vh_libc.h"
#include "dnstable/dnstable-private.h"
#include "mtbl_varint_model.h"
#include "wdns_model.h"
#include "wdns_fmt_stub.h"
#include "enc.h"
#include "dnstable/triplet.c"
#include "dnstable/entry.c"

#ifndef NL1
#define NL1 1
#endif
#ifndef NL2
#define NL2 1
#endif
#ifndef R
#define R 1
#endif
#ifndef RL
#define RL 2
#endif
#ifndef RTL
#define RTL 1			/* encoded length of the rrtype */
#endif
#ifndef TL1
#define TL1 1			/* encoded lengths of first time, last time, count */
#endif
#ifndef TL2
#define TL2 1
#endif
#ifndef TL3
#define TL3 1
#endif
#ifndef LV
#define LV 2
#endif
#ifndef SL
#define SL 0			/* initial slice of the rdata */
#endif
static void nd_name(struct vname *v, size_t nl)
{
	v->nl = nl;
	for (size_t i = 0; i < nl; i++) ND_bytes(v->lab[i], VH_LLEN);
}
static void put_triplet(struct kbuf *k, uint64_t a, uint64_t b, uint64_t c) { kput_vl(k, a, TL1); kput_vl(k, b, TL2); kput_vl(k, c, TL3); }

static void check_triplet(struct dnstable_entry *e, uint64_t tf, uint64_t tl, uint64_t cnt)
{
	uint64_t u = 0;
	CHECK(dnstable_entry_get_time_first(e, &u) == dnstable_res_success && u == tf, "time_first");
	CHECK(dnstable_entry_get_time_last(e, &u) == dnstable_res_success && u == (tl == 0 ? tf : tl), "time_last (0 means time_first)");
	CHECK(dnstable_entry_get_count(e, &u) == dnstable_res_success && u == (cnt == 0 ? 1 : cnt), "count (0 means 1)");
}
static void no_meta(struct dnstable_entry *e)
{
	const char *s; uint32_t v; dnstable_entry_type t;
	CHECK(dnstable_entry_get_source_info(e, &s) != dnstable_res_success, "no source info");
	CHECK(dnstable_entry_get_version(e, &v) != dnstable_res_success, "no version");
	CHECK(dnstable_entry_get_version_type(e, &t) != dnstable_res_success, "no version type");
}
static void no_times(struct dnstable_entry *e, bool range)
{
	uint64_t u;
	if (!range) {
		CHECK(dnstable_entry_get_time_first(e, &u) != dnstable_res_success, "no time_first");
		CHECK(dnstable_entry_get_time_last(e, &u) != dnstable_res_success, "no time_last");
	}
	CHECK(dnstable_entry_get_count(e, &u) != dnstable_res_success, "no count");
}
static void no_rr(struct dnstable_entry *e)
{
	uint16_t t; size_t n; const uint8_t *p;
	CHECK(dnstable_entry_get_rrtype(e, &t) != dnstable_res_success, "no rrtype");
	CHECK(dnstable_entry_get_num_rdata(e, &n) != dnstable_res_success, "no rdata count");
	CHECK(dnstable_entry_get_rdata(e, 0, &p, &n) != dnstable_res_success, "no rdata");
	CHECK(dnstable_entry_get_bailiwick(e, &p, &n) != dnstable_res_success, "no bailiwick");
}

void h_rrset(void)
{
	struct vname n, b;
	struct kbuf k = { .n = 0 }, v = { .n = 0 };
	uint16_t rrtype = ND_u16();
	uint64_t tf = ND_u64(), tl = ND_u64(), cnt = ND_u64();
	uint8_t rd[R + 1][4]; size_t rl[R + 1];
	nd_name(&n, NL1); nd_name(&b, NL2);
	kput(&k, 0); kput_name(&k, &n, true); kput_vl(&k, rrtype, RTL); kput_name(&k, &b, true);
	for (size_t i = 0; i < R; i++) {
		rl[i] = (RL + i) % 4; ND_bytes(rd[i], rl[i]);
		kput_vl(&k, rl[i], 1);
		for (size_t j = 0; j < rl[i]; j++) kput(&k, rd[i][j]);
	}
	put_triplet(&v, tf, tl, cnt);
	struct dnstable_entry *e = dnstable_entry_decode(k.b, k.n, v.b, v.n);
	CHECK(e != NULL, "a well-formed rrset entry decodes");
	if (e == NULL) return;
	const uint8_t *p; size_t len; uint16_t t;
	CHECK(dnstable_entry_get_type(e) == DNSTABLE_ENTRY_TYPE_RRSET, "type rrset");
	CHECK(dnstable_entry_get_rrname(e, &p, &len) == dnstable_res_success && bytes_are_name(p, len, &n, false), "rrname in forward order");
	CHECK(dnstable_entry_get_bailiwick(e, &p, &len) == dnstable_res_success && bytes_are_name(p, len, &b, false), "bailiwick in forward order");
	CHECK(dnstable_entry_get_rrtype(e, &t) == dnstable_res_success && t == rrtype, "rrtype");
	CHECK(dnstable_entry_get_num_rdata(e, &len) == dnstable_res_success && len == R, "number of rdatas");
	for (size_t i = 0; i < R; i++)
		CHECK(dnstable_entry_get_rdata(e, i, &p, &len) == dnstable_res_success && bytes_eq(p, len, rd[i], rl[i]), "rdata bytes in order");
	CHECK(dnstable_entry_get_rdata(e, R, &p, &len) != dnstable_res_success, "no rdata past the last");
	CHECK(dnstable_entry_get_rdata_name(e, &p, &len) != dnstable_res_success, "no rdata name");
	check_triplet(e, tf, tl, cnt);
	no_meta(e);
	REACH("rrset");
	dnstable_entry_destroy(&e);
}

void h_rdata(void)
{
	struct vname n;
	struct kbuf k = { .n = 0 }, v = { .n = 0 };
	uint16_t rrtype = ND_u16();
	uint64_t tf = ND_u64(), tl = ND_u64(), cnt = ND_u64();
	uint8_t rd[RL + 1]; size_t rl = RL, slice = SL;
	ND_bytes(rd, RL);
	nd_name(&n, NL1);
	/* unsliced when slice == 0, else the initial slice bytes go to the end */
	kput(&k, 2);
	for (size_t i = slice; i < rl; i++) kput(&k, rd[i]);
	kput_vl(&k, rrtype, RTL); kput_name(&k, &n, true);
	for (size_t i = 0; i < slice; i++) kput(&k, rd[i]);
	kput(&k, (uint8_t) (rl - slice)); kput(&k, 0);
	put_triplet(&v, tf, tl, cnt);
	struct dnstable_entry *e = dnstable_entry_decode(k.b, k.n, v.b, v.n);
	CHECK(e != NULL, "a well-formed rdata entry decodes");
	if (e == NULL) return;
	const uint8_t *p; size_t len; uint16_t t;
	CHECK(dnstable_entry_get_type(e) == DNSTABLE_ENTRY_TYPE_RDATA, "type rdata");
	CHECK(dnstable_entry_get_rrname(e, &p, &len) == dnstable_res_success && bytes_are_name(p, len, &n, false), "rrname in forward order");
	CHECK(dnstable_entry_get_bailiwick(e, &p, &len) != dnstable_res_success, "no bailiwick");
	CHECK(dnstable_entry_get_rrtype(e, &t) == dnstable_res_success && t == rrtype, "rrtype");
	CHECK(dnstable_entry_get_num_rdata(e, &len) == dnstable_res_success && len == 1, "one rdata");
	CHECK(dnstable_entry_get_rdata(e, 0, &p, &len) == dnstable_res_success && bytes_eq(p, len, rd, rl), "whole rdata, slice first");
	CHECK(dnstable_entry_get_rdata(e, 1, &p, &len) != dnstable_res_success, "no second rdata");
	CHECK(dnstable_entry_get_rdata_name(e, &p, &len) != dnstable_res_success, "no rdata name");
	check_triplet(e, tf, tl, cnt);
	no_meta(e);
	REACH("rdata");
	dnstable_entry_destroy(&e);
}

#ifdef BIG
/* rdata lengths above 255: the 16-bit trailer is little-endian */
void h_rdata_len16(void)
{
	static uint8_t key[BIG + 6];
	uint8_t v[3] = {1, 1, 1};
	size_t n = 0;
	uint8_t a = ND_u8(), z = ND_u8();
	key[n++] = 2;
	for (size_t i = 0; i < BIG; i++) key[n++] = i == 0 ? a : i == BIG - 1 ? z : 7;
	key[n++] = 1; key[n++] = 0; key[n++] = BIG & 255; key[n++] = BIG >> 8;
	struct dnstable_entry *e = dnstable_entry_decode(key, n, v, 3);
	CHECK(e != NULL, "a well-formed rdata entry decodes");
	if (e == NULL) return;
	const uint8_t *p; size_t len;
	CHECK(dnstable_entry_get_rdata(e, 0, &p, &len) == dnstable_res_success && len == BIG && p[0] == a && p[BIG - 1] == z, "long rdata");
	REACH("long");
}
#endif

void h_names(void)
{
	struct vname n;
	struct kbuf k = { .n = 0 };
	uint8_t v[4]; size_t lv = LV;
	bool rev = ND_bool();
	nd_name(&n, NL1); ND_bytes(v, 3);
	kput(&k, rev ? 3 : 1); kput_name(&k, &n, rev);
	struct dnstable_entry *e = dnstable_entry_decode(k.b, k.n, v, lv);
	CHECK(e != NULL, "a well-formed name index entry decodes");
	if (e == NULL) return;
	const uint8_t *p; size_t len;
	CHECK(dnstable_entry_get_type(e) == (rev ? DNSTABLE_ENTRY_TYPE_RDATA_NAME_REV : DNSTABLE_ENTRY_TYPE_RRSET_NAME_FWD), "type");
	if (rev) {
		CHECK(dnstable_entry_get_rdata_name(e, &p, &len) == dnstable_res_success && bytes_are_name(p, len, &n, false), "rdata name in forward order");
		CHECK(dnstable_entry_get_rrname(e, &p, &len) != dnstable_res_success, "no rrname");
	} else {
		CHECK(dnstable_entry_get_rrname(e, &p, &len) == dnstable_res_success && bytes_are_name(p, len, &n, false), "rrname");
		CHECK(dnstable_entry_get_rdata_name(e, &p, &len) != dnstable_res_success, "no rdata name");
	}
	no_rr(e); no_times(e, false); no_meta(e);
	REACH_IF(rev, "rev");
	REACH_IF(!rev, "fwd");
	dnstable_entry_destroy(&e);
}

void h_time_range(void)
{
	struct kbuf k = { .n = 0 }, v = { .n = 0 };
	uint64_t a = ND_u64(), b = ND_u64(), u;
	kput(&k, 254); kput_vl(&v, a, TL1); kput_vl(&v, b, TL2);
	struct dnstable_entry *e = dnstable_entry_decode(k.b, k.n, v.b, v.n);
	CHECK(e != NULL, "a well-formed time range decodes");
	if (e == NULL) return;
	const uint8_t *p; size_t len;
	CHECK(dnstable_entry_get_type(e) == DNSTABLE_ENTRY_TYPE_TIME_RANGE, "type");
	CHECK(dnstable_entry_get_time_first(e, &u) == dnstable_res_success && u == a, "earliest time");
	CHECK(dnstable_entry_get_time_last(e, &u) == dnstable_res_success && u == b, "latest time");
	CHECK(dnstable_entry_get_rrname(e, &p, &len) != dnstable_res_success, "no rrname");
	CHECK(dnstable_entry_get_rdata_name(e, &p, &len) != dnstable_res_success, "no rdata name");
	no_rr(e); no_times(e, true); no_meta(e);
	REACH("time range");
	dnstable_entry_destroy(&e);
}

void h_meta(void)
{
	uint8_t k[6], v[8]; size_t n = ND_range(1, 5);
	bool ver = ND_bool();
	uint32_t num = ND_u32();
	const uint8_t *p; size_t len; const char *s; uint32_t x; dnstable_entry_type t;
	ND_bytes(k, 6);
	size_t lv = venc(v, num);
	if (ver) { k[0] = 255; n = 2; } else { k[0] = 253; for (size_t i = 1; i < n; i++) ASSUME(k[i] != 0); }
	struct dnstable_entry *e = dnstable_entry_decode(k, n, v, lv);
	CHECK(e != NULL, "well-formed metadata decodes");
	if (e == NULL) return;
	CHECK(dnstable_entry_get_rrname(e, &p, &len) != dnstable_res_success, "no rrname");
	CHECK(dnstable_entry_get_rdata_name(e, &p, &len) != dnstable_res_success, "no rdata name");
	no_rr(e); no_times(e, false);
	if (ver) {
		CHECK(dnstable_entry_get_type(e) == DNSTABLE_ENTRY_TYPE_VERSION, "type");
		CHECK(dnstable_entry_get_version(e, &x) == dnstable_res_success && x == num, "version number");
		CHECK(dnstable_entry_get_version_type(e, &t) == dnstable_res_success && (int) t == (int) k[1], "versioned type");
		CHECK(dnstable_entry_get_source_info(e, &s) != dnstable_res_success, "no source info");
	} else {
		CHECK(dnstable_entry_get_type(e) == DNSTABLE_ENTRY_TYPE_SOURCE_INFO, "type");
		CHECK(dnstable_entry_get_source_info(e, &s) == dnstable_res_success && strlen(s) == n - 1, "source info length");
		for (size_t i = 0; i + 1 < n; i++) CHECK((uint8_t) s[i] == k[i + 1], "source info text");
		CHECK(dnstable_entry_get_version(e, &x) != dnstable_res_success, "no version");
		CHECK(dnstable_entry_get_version_type(e, &t) != dnstable_res_success, "no version type");
	}
	REACH_IF(ver, "version");
	REACH_IF(!ver && n == 5, "source info");
	dnstable_entry_destroy(&e);
}
