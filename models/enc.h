/*
 * Independent encoder for the entry formats of dnstable-encoding(5), used by
 * the harnesses to build keys and values from fields.
 */
#ifndef VH_ENC_H
#define VH_ENC_H
#include "vh.h"
#ifndef VH_KCAP
#define VH_KCAP 32
#endif
#ifndef VH_LLEN
#define VH_LLEN 1		/* every label has this many bytes */
#endif
#ifndef VH_MAXL
#define VH_MAXL 3
#endif
struct kbuf { uint8_t b[VH_KCAP]; size_t n; };
/* a name as a sequence of up to VH_MAXL labels, leftmost first */
struct vname { size_t nl; uint8_t lab[VH_MAXL][VH_LLEN]; };

static inline void kput(struct kbuf *k, uint8_t c) { k->b[k->n] = c; k->n++; }
static inline void kput_bytes(struct kbuf *k, const uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) kput(k, p[i]); }
static inline size_t vname_wirelen(const struct vname *v) { return v->nl * (VH_LLEN + 1) + 1; }
static inline void kput_labels(struct kbuf *k, const struct vname *v, bool rev)
{
	for (size_t i = 0; i < v->nl; i++) {
		size_t j = rev ? v->nl - 1 - i : i;
		kput(k, VH_LLEN);
		for (size_t c = 0; c < VH_LLEN; c++) kput(k, v->lab[j][c]);
	}
}
static inline void kput_name(struct kbuf *k, const struct vname *v, bool rev)
{
	kput_labels(k, v, rev);
	kput(k, 0);
}
static inline size_t venc(uint8_t *p, uint64_t v)
{
	size_t n = 0;
	for (int i = 0; i < 10; i++) {
		if (v < 128) { p[n++] = (uint8_t) v; break; }
		p[n++] = (uint8_t) (v & 127) | 128;
		v >>= 7;
	}
	return n;
}
static inline void kput_varint(struct kbuf *k, uint64_t v)
{
	uint8_t t[10];
	size_t n = venc(t, v);
	for (size_t i = 0; i < 10; i++) if (i < n) kput(k, t[i]);
}
/* a varint whose encoded length L is fixed for the query */
static inline void kput_vl(struct kbuf *k, uint64_t v, unsigned L)
{
	ASSUME(L == 10 || v < (1ULL << (7 * L)));
	ASSUME(L == 1 || v >= (1ULL << (7 * (L - 1))));
	for (unsigned i = 0; i < L; i++) { kput(k, (uint8_t) ((v & 127) | (i + 1 < L ? 128 : 0))); v >>= 7; }
}
static inline bool vname_eq(const struct vname *a, const struct vname *b)
{
	if (a->nl != b->nl) return false;
	for (size_t i = 0; i < a->nl; i++)
		for (size_t c = 0; c < VH_LLEN; c++)
			if (a->lab[i][c] != b->lab[i][c]) return false;
	return true;
}
static inline bool bytes_are_name(const uint8_t *p, size_t n, const struct vname *v, bool rev)
{
	struct kbuf k = { .n = 0 };
	kput_name(&k, v, rev);
	if (n != k.n) return false;
	for (size_t i = 0; i < k.n; i++) if (p[i] != k.b[i]) return false;
	return true;
}
static inline bool bytes_eq(const uint8_t *a, size_t na, const uint8_t *b, size_t nb)
{
	if (na != nb) return false;
	for (size_t i = 0; i < na; i++) if (a[i] != b[i]) return false;
	return true;
}
#endif
