/* entry decoding: safety on arbitrary bytes, fidelity on well-formed ones */
#include "vh.h"
#include "vh_libc.h"
#include "dnstable/dnstable-private.h"
#include "mtbl_varint_model.h"
#include "wdns_model.h"
#include "wdns_fmt_stub.h"
#include "dnstable/triplet.c"
#include "dnstable/entry.c"

#ifndef K
#define K 10
#endif
#ifndef V
#define V 4
#endif

static void use_entry(struct dnstable_entry *e)
{
	/* every accessor on whatever came out; returned buffers must be readable */
	const uint8_t *p; size_t n = 0, m = 0; uint16_t t; uint64_t u; uint32_t v; const char *s; dnstable_entry_type et;
	volatile uint8_t sink = 0;
	if (dnstable_entry_get_rrname(e, &p, &n) == dnstable_res_success && n > 0) { sink += p[0]; sink += p[n - 1]; }
	if (dnstable_entry_get_bailiwick(e, &p, &n) == dnstable_res_success && n > 0) { sink += p[0]; sink += p[n - 1]; }
	if (dnstable_entry_get_rdata_name(e, &p, &n) == dnstable_res_success && n > 0) { sink += p[0]; sink += p[n - 1]; }
	(void) dnstable_entry_get_rrtype(e, &t);
	if (dnstable_entry_get_num_rdata(e, &m) == dnstable_res_success) {
		size_t i = ND_range(0, 3);
		dnstable_res r = dnstable_entry_get_rdata(e, i, &p, &n);
		CHECK((r == dnstable_res_success) == (i < m), "rdata index accepted iff below the number of rdatas");
		if (r == dnstable_res_success && n > 0) { sink += p[0]; sink += p[n - 1]; }
	}
	(void) dnstable_entry_get_time_first(e, &u);
	(void) dnstable_entry_get_time_last(e, &u);
	(void) dnstable_entry_get_count(e, &u);
	if (dnstable_entry_get_source_info(e, &s) == dnstable_res_success) sink += (uint8_t) s[0];
	(void) dnstable_entry_get_version(e, &v);
	(void) dnstable_entry_get_version_type(e, &et);
}

static bool known_type(uint8_t t) { return t <= 3 || t >= 253; }

/* D01: a key of K arbitrary bytes (type byte TYPE), a value of 0..V arbitrary bytes */
void h_decode_any(void)
{
	size_t lv = ND_range(0, V);
	uint8_t *k = ND_tail(K, K), *v = ND_tail(V, lv);
#ifdef TYPE
	k[0] = TYPE;
#else
	ASSUME(!known_type(k[0]));
#endif
	struct dnstable_entry *e = dnstable_entry_decode(k, K, v, lv);
#ifndef TYPE
	CHECK(e == NULL, "an entry of no documented type is not decoded");
	REACH("unknown type");
#else
#ifndef ALWAYS
	REACH_IF(e == NULL, "malformed");
#endif
	if (e != NULL) {
		CHECK((int) dnstable_entry_get_type(e) == TYPE, "decoded entry has the type of its key");
		use_entry(e);
#ifndef NEVER
		REACH("decoded");
#endif
		dnstable_entry_destroy(&e);
		CHECK(e == NULL, "destroyed");
	}
#endif
}
void h_decode_empty(void)
{
	uint8_t *v = ND_tail(V, V);
	CHECK(dnstable_entry_decode(v, 0, v, V) == NULL, "an empty key is not decoded");
	REACH("empty");
}
