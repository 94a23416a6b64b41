/* D04, D05: the merge callback */
#include "vh.h"
#include "vh_libc.h"
#if defined(REPLAY) || defined(FULL)
#define VH_SCALED(n) (n)
#define VH_SCALED_TYPES(n) (n)
#else
#ifndef VH_SCALE
#define VH_SCALE 64
#endif
#define VH_SCALED(n) ((n) > VH_SCALE ? VH_SCALE : (n))
#define VH_SCALED_TYPES(n) ((n) > 40 ? 40 : (n))
#endif
#include "scale_dnstable-private.h"
#include "mtbl_varint_model.h"
#include "wdns_model.h"
#include "wdns_fmt_stub.h"
#include "enc.h"
#include "dnstable/triplet.c"
#ifdef UNIONS
#include "scale_entry.c"
#endif
#include "scale_merge.c"

#ifndef KT
#define KT 0
#endif
#ifndef LA
#define LA 1
#endif
#ifndef LB
#define LB 1
#endif
#ifndef LC
#define LC 1
#endif
struct val { uint8_t b[32]; size_t n; };

static struct val vtriplet(const uint64_t v[3], const unsigned L[3], int k)
{
	struct kbuf kb = { .n = 0 };
	struct val r;
	for (int i = 0; i < k; i++) kput_vl(&kb, v[i], L[i]);
	for (size_t i = 0; i < kb.n; i++) r.b[i] = kb.b[i];
	r.n = kb.n;
	return r;
}
static struct val merge(const uint8_t *key, size_t lk, const struct val *a, const struct val *b, size_t cap)
{
	uint8_t *x = VH_tail(a->b, 32, a->n), *y = VH_tail(b->b, 32, b->n);
	uint8_t *m = NULL;
	size_t lm = 999;
	struct val r;
	dnstable_merge_func(NULL, key, lk, x, a->n, y, b->n, &m, &lm);
	CHECK(m != NULL, "a merged value is returned");
	CHECK(lm <= cap, "the merged value is no longer than its values need");
	r.n = lm;
	for (size_t i = 0; i < cap && i < 32; i++) if (i < lm) r.b[i] = m[i];
	return r;
}
static bool val_eq(const struct val *a, const struct val *b)
{
	if (a->n != b->n) return false;
	for (size_t i = 0; i < 32; i++) if (i < a->n && a->b[i] != b->b[i]) return false;
	return true;
}
/* independent decoder: k varints filling the value exactly */
static bool vdec(const struct val *v, uint64_t *out, int k)
{
	size_t o = 0;
	for (int i = 0; i < k; i++) {
		uint64_t x = 0;
		bool done = false;
		for (int j = 0; j < 10; j++) {
			if (o >= v->n) return false;
			uint8_t c = v->b[o++];
			x |= (uint64_t) (c & 127) << (7 * j);
			if (c < 128) { done = true; break; }
		}
		if (!done) return false;
		out[i] = x;
	}
	return o == v->n;
}
static void mkkey(uint8_t key[2]) { key[0] = KT; key[1] = ND_u8(); }
#define MIN(a, b) ((a) < (b) ? (a) : (b))
#define MAX(a, b) ((a) > (b) ? (a) : (b))

/* two triplets, all values of the given encoded lengths */
void h_triplets(void)
{
	uint8_t key[2];
	uint64_t a[3], b[3], m[3];
	const unsigned L0[3] = { LA, LB, LC }, L1[3] = { LB, LC, LA };
	mkkey(key);
	for (int i = 0; i < 3; i++) { a[i] = ND_u64(); b[i] = ND_u64(); }
	struct val x = vtriplet(a, L0, 3), y = vtriplet(b, L1, 3);
	ASSUME(a[2] <= UINT64_MAX - b[2]);
	struct val r = merge(key, 2, &x, &y, 30), q = merge(key, 2, &y, &x, 30);
	CHECK(vdec(&r, m, 3), "the merged value is three integers");
	CHECK(m[0] == MIN(a[0], b[0]), "merged time_first is the earliest");
	CHECK(m[1] == MAX(a[1], b[1]), "merged time_last is the latest");
	CHECK(m[2] == a[2] + b[2], "merged count is the sum");
	CHECK(val_eq(&r, &q), "order of the inputs does not matter");
	REACH("merged");
}
/* three one-byte triplets, both groupings */
void h_assoc(void)
{
	uint8_t key[2];
	uint64_t a[3][3];
	struct val v[3];
	const unsigned L[3] = { 1, 1, 1 };
	mkkey(key);
	for (int j = 0; j < 3; j++) {
		for (int i = 0; i < 3; i++) a[j][i] = ND_range(0, 127);
		v[j] = vtriplet(a[j], L, 3);
	}
	struct val l = merge(key, 2, &v[0], &v[1], 30), r = merge(key, 2, &v[1], &v[2], 30);
	struct val x = merge(key, 2, &l, &v[2], 30), y = merge(key, 2, &v[0], &r, 30);
	CHECK(val_eq(&x, &y), "grouping does not matter");
	REACH("assoc");
}
/* time ranges */
void h_time_ranges(void)
{
	uint8_t key[2] = { 254, 0 };
	uint64_t a[2], b[2], m[2];
	const unsigned L0[2] = { LA, LB }, L1[2] = { LC, LA };
	for (int i = 0; i < 2; i++) { a[i] = ND_u64(); b[i] = ND_u64(); }
	struct val x = vtriplet(a, L0, 2), y = vtriplet(b, L1, 2);
	struct val r = merge(key, 1, &x, &y, 20), q = merge(key, 1, &y, &x, 20);
	CHECK(vdec(&r, m, 2), "the merged value is two integers");
	CHECK(m[0] == MIN(a[0], b[0]) && m[1] == MAX(a[1], b[1]), "the merged range is the hull");
	CHECK(val_eq(&r, &q), "order of the inputs does not matter");
	x.n = 0;
	r = merge(key, 1, &x, &y, 20);
	CHECK(r.n == 0, "an unknown range stays unknown");
	r = merge(key, 1, &y, &x, 20);
	CHECK(r.n == 0, "an unknown range stays unknown");
	REACH("ranges");
}
/* versions; EA/EB: value present */
void h_versions(void)
{
	uint8_t key[2] = { 255, ND_u8() };
	uint32_t a = ND_u32(), b = ND_u32();
	struct kbuf k0 = { .n = 0 }, k1 = { .n = 0 };
	struct val x, y;
	uint64_t m;
	bool known = key[1] <= 3, ea = ND_bool(), eb = ND_bool();
	kput_vl(&k0, a, LA); kput_vl(&k1, b, LB);
	for (size_t i = 0; i < 5; i++) { x.b[i] = k0.b[i]; y.b[i] = k1.b[i]; }
	x.n = ea ? LA : 0; y.n = eb ? LB : 0;
	struct val r = merge(key, 2, &x, &y, 5), q = merge(key, 2, &y, &x, 5);
	if (!known || !ea || !eb)
		CHECK(r.n == 0, "an unknown version stays unknown");
	else
		CHECK(vdec(&r, &m, 1) && m == MIN(a, b), "the merged version is the smallest");
	CHECK(val_eq(&r, &q), "order of the inputs does not matter");
	REACH_IF(known && ea && eb, "versions");
	REACH_IF(!known && ea, "unknown version type");
}
/* keys of any other type merge to the empty value */
void h_other(void)
{
	uint8_t key[3], t;
	size_t lk = ND_range(0, 3);
	ND_bytes(key, 3);
	t = key[0];
	ASSUME(lk == 0 || !(t <= 3) );
	ASSUME(!(lk == 1 && t == 254) && !(lk == 2 && t == 255));
	struct val x, y;
	ND_bytes(x.b, 3); ND_bytes(y.b, 3);
	x.n = ND_range(0, 3); y.n = ND_range(0, 3);
	struct val r = merge(key, lk, &x, &y, 5);
	CHECK(r.n == 0, "values of other keys merge to the empty value");
	REACH("other");
}
#ifdef UNIONS
#ifndef FA
#define FA 1
#endif
#ifndef FB
#define FB 1
#endif
/*
 * A record-type set in a stored form: F = 1 (one type below 256), 2 (one type), or
 * 10 b0 [+ 100 b1]: a bitmap with b0 bytes in window W0 and b1 bytes in window W1.
 */
#ifndef LO
#define LO 0			/* low byte of a single type */
#endif
#ifndef HI
#define HI 255
#endif
#ifndef MASK
#define MASK 0xff		/* bits of bitmap bytes that may be set */
#endif
#define SCAP 8
struct tset { uint8_t v[SCAP]; size_t n; };
static struct tset nd_set(int form)
{
	struct tset s = { .n = 0 };
	if (form == 0) return s;
	if (form == 1) { s.v[s.n++] = (uint8_t) ND_range(LO, HI); return s; }
	if (form == 2) { s.v[s.n++] = (uint8_t) ND_range(LO, HI); s.v[s.n++] = (uint8_t) ND_range(1, 255); return s; }
	int b0 = form / 10 % 10, b1 = form / 100 % 10;
	uint8_t w0 = b1 ? (uint8_t) ND_range(0, 254) : ND_u8();
	s.v[s.n++] = w0; s.v[s.n++] = b0;
	for (int i = 0; i < b0; i++) s.v[s.n++] = ND_u8() & MASK;
	ASSUME(s.v[s.n - 1] != 0);
	if (b1) {
		s.v[s.n++] = (uint8_t) ND_range(w0 + 1, 255); s.v[s.n++] = b1;
		for (int i = 0; i < b1; i++) s.v[s.n++] = ND_u8() & MASK;
		ASSUME(s.v[s.n - 1] != 0);
	}
	return s;
}
/* independent membership, from the manual page */
static bool in_set(const uint8_t *v, size_t n, uint16_t t)
{
	if (n == 0) return true;
	if (n == 1) return t == v[0];
	if (n == 2) return t == (v[0] | v[1] << 8);
	size_t o = 0;
	for (int w = 0; w < 5; w++) {
		if (o + 2 > n) return false;
		uint8_t win = v[o], len = v[o + 1];
		if (win == t >> 8) {
			unsigned byte = (t & 255) / 8;
			return byte < len && o + 2 + byte < n && (v[o + 2 + byte] >> (7 - t % 8) & 1);
		}
		o += 2 + (size_t) len;
	}
	return false;
}
/* canonical: windows ascending, lengths 1..32, last byte of each block non-zero, no trailing bytes */
static bool canonical(const uint8_t *v, size_t n)
{
	size_t o = 0;
	int prev = -1;
	if (n == 0 || n == 1) return true;
	if (n == 2) return v[1] != 0;
	for (int w = 0; w < 5; w++) {
		if (o == n) return true;
		if (o + 3 > n || v[o] <= prev || v[o + 1] < 1 || v[o + 1] > 32) return false;
		if (o + 2 + v[o + 1] > n || v[o + 1 + v[o + 1]] == 0) return false;
		prev = v[o];
		o += 2 + (size_t) v[o + 1];
	}
	return false;
}
void h_union(void)
{
	uint8_t key[2] = { ND_bool() ? 1 : 3, ND_u8() };
	struct tset a = nd_set(FA), b = nd_set(FB);
	uint8_t *x = VH_tail(a.v, SCAP, a.n), *y = VH_tail(b.v, SCAP, b.n), *m = NULL;
	uint16_t t = ND_u16();
	size_t lm = 999;
	dnstable_merge_func(NULL, key, 2, x, a.n, y, b.n, &m, &lm);
	CHECK(m != NULL, "well-formed sets are merged");
	CHECK(lm <= 140, "size of the merged set");
	CHECK(in_set(m, lm, t) == (in_set(a.v, a.n, t) || in_set(b.v, b.n, t)), "a type is in the merged set exactly if it is in one of the inputs");
	CHECK(canonical(m, lm), "the merged set is in canonical form");
	REACH("union");
	REACH_IF(in_set(b.v, b.n, t) && !in_set(a.v, a.n, t), "second only");
}
/* arbitrary bytes: no abort, no out-of-bounds access; a result is canonical */
#ifndef N0
#define N0 3
#endif
#ifndef N1
#define N1 3
#endif
void h_union_any(void)
{
	uint8_t key[1] = { 1 }, *m = NULL;
	uint8_t *x = ND_tail(N0, N0), *y = ND_tail(N1, N1);
	size_t lm = 999;
	for (int i = 2; i < N0; i++) x[i] &= MASK;
	for (int i = 2; i < N1; i++) y[i] &= MASK;
	if (N1 < 3) y[0] &= 31;
	dnstable_merge_func(NULL, key, 1, x, N0, y, N1, &m, &lm);
	if (m != NULL && lm > 0) {
		volatile uint8_t sink = m[0];
		sink += m[lm - 1];
	}
	REACH_IF(m == NULL, "refused");
	REACH_IF(m != NULL, "merged");
}
#endif
#ifndef UNIONS
/*
 * Many windows: W types, each the last of its window, so that every block has its full length.  Listing the
 * types of a stored set is replaced by its contract here (decided by D06).
 */
#ifndef W
#define W 31
#endif
int rrtype_union_unpack(const uint8_t *v, size_t n, rrtype_unpacked_set *s)
{
	for (int i = 0; i < W; i++) s->rrtypes[i] = (uint16_t) (i * 6 * 256 + 255);
	if (v[0] == 1) s->rrtypes[W - 1]--;
	return W;
}
void h_union_wide(void)
{
	uint8_t key[1] = { ND_bool() ? 1 : 3 }, *m = NULL;
	const uint8_t a[3] = { 0, 1, 1 }, b[3] = { 1, 1, 1 };
	size_t lm = 0;
	dnstable_merge_func(NULL, key, 1, a, 3, b, 3, &m, &lm);
	CHECK(m != NULL && lm == W * 34, "long sets are merged");
	if (m == NULL || lm != W * 34) return;
	bool same = true;
	for (int i = 0; i < W; i++) {
		if (m[i * 34] != i * 6 || m[i * 34 + 1] != 32) same = false;
		for (int j = 0; j < 32; j++)
			if (m[i * 34 + 2 + j] != (j < 31 ? 0 : i == W - 1 ? 3 : 1)) same = false;
	}
	CHECK(same, "merged blocks");
	REACH("wide");
}
#endif
