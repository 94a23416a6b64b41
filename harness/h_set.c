/* D06: reading a stored record-type set */
#include "vh.h"
#include "vh_libc.h"
#if defined(REPLAY)
#define VH_SCALED(n) (n)
#define VH_SCALED_TYPES(n) (n)
#else
#ifndef VH_SCALE
#define VH_SCALE 48
#endif
#define VH_SCALED(n) ((n) > VH_SCALE ? VH_SCALE : (n))
#define VH_SCALED_TYPES(n) ((n) > VH_SCALE ? VH_SCALE : (n))
#endif
#include "scale_dnstable-private.h"
#include "mtbl_varint_model.h"
#include "wdns_model.h"
#include "wdns_fmt_stub.h"
#include "dnstable/triplet.c"
#include "scale_entry.c"
#ifndef N
#define N 4
#endif
#ifndef MASK
#define MASK 0xff
#endif
#ifndef NBITS
#define NBITS 48		/* more than the number of types the bytes can hold */
#endif
#ifndef CAP
#define CAP (N > 0 ? N : 1)
#endif
enum verdict { ABSENT, PRESENT, CORRUPT };
/* independent reader of the manual's definition; *bad: the whole is corrupt */
static enum verdict oracle(const uint8_t *v, size_t n, uint16_t t, bool *bad)
{
	enum verdict r = ABSENT;
	bool found = false;
	size_t o = 0;
	int prev = -1;
	*bad = false;
	if (n == 1) return v[0] == t ? PRESENT : ABSENT;
	if (n == 2) return (v[0] | v[1] << 8) == t ? PRESENT : ABSENT;
	for (int w = 0; w <= N / 2; w++) {
		if (o == n) break;
		if (n - o < 2 || v[o + 1] > n - o - 2) { *bad = true; if (!found) r = CORRUPT; break; }
		if (v[o] <= prev || v[o + 1] == 0 || v[o + 1] > 32) *bad = true;
		if (!found && v[o] == t >> 8) {
			unsigned byte = (t & 255) / 8;
			found = true;
			r = byte < v[o + 1] && (v[o + 2 + byte] >> (7 - t % 8) & 1) ? PRESENT : ABSENT;
		}
		prev = v[o];
		o += 2 + (size_t) v[o + 1];
	}
	return r;
}
static bool indexed(unsigned et, uint16_t t)
{
	if (et == DNSTABLE_ENTRY_TYPE_RRSET_NAME_FWD) return true;
	return t == 2 || t == 5 || t == 6 || t == 12 || t == 15 || t == 33 || t == 39 || t == 64 || t == 65;
}
void h_set(void)
{
	static rrtype_unpacked_set list;
	bool bad, found = false, sorted = true;
	unsigned et = ND_bool() ? DNSTABLE_ENTRY_TYPE_RRSET_NAME_FWD : DNSTABLE_ENTRY_TYPE_RDATA_NAME_REV;
	uint16_t t = ND_u16();
#ifdef LONG
	/* one block of N - 2 bytes of which only two are free */
	uint8_t *v = malloc(N);
	for (int i = 0; i < N; i++) v[i] = 0;
	v[0] = ND_u8(); v[1] = LONG;
	v[2] = ND_u8() & MASK; v[N - 1] = ND_u8() & MASK;
#else
	uint8_t *v = ND_tail(CAP, N);
#ifdef SHAPE
	/* the length bytes of the blocks, fixed per query */
	const uint8_t shape[] = { SHAPE };
	for (unsigned i = 0, o = 0; i < sizeof(shape); i++) {
		v[o + 1] = shape[i];
		for (unsigned j = 0; j < shape[i] && o + 2 + j < N; j++) v[o + 2 + j] &= MASK;
		o += 2 + shape[i];
	}
#endif
#endif
	int n = rrtype_union_unpack(v, N, &list);
	bool m = rrtype_test(et, t, v, N);
#if N == 0
	CHECK(n == 0, "an empty set lists no types");
	CHECK(m == indexed(et, t), "an empty set stands for every indexed type");
	REACH_IF(m, "empty");
#else
	enum verdict o = oracle(v, N, t, &bad);
	CHECK((n < 0) == bad, "listing fails exactly for corrupt sets");
	CHECK(m || o == ABSENT, "a type the set may contain is never denied");
	CHECK(!m || bad || o == PRESENT, "a type an intact set lacks is denied");
	if (n >= 0) {
		CHECK(n < NBITS, "no more types than bits");
		for (int i = 0; i < NBITS; i++) {
			if (i >= n) break;
			if (list.rrtypes[i] == t) found = true;
			if (i > 0 && list.rrtypes[i] <= list.rrtypes[i - 1]) sorted = false;
		}
		CHECK(found == m, "listing and membership agree");
		CHECK(sorted, "types are listed in increasing order");
	}
#ifndef NOGOOD
	REACH_IF(n > 0 && m, "member");
#endif
#ifdef SOMEBAD
	REACH_IF(n < 0, "corrupt");
#endif
#endif
}
