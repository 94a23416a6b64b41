/*
 * mtbl varints (base-128, little-endian groups), as documented by libmtbl:
 * decoders read until the first byte without the continuation bit, at most 5
 * (10) bytes, and return 0 when there is none.
 */
#ifndef MTBL_VARINT_MODEL_H
#define MTBL_VARINT_MODEL_H
#include "mtbl.h"
unsigned mtbl_varint_length(uint64_t v)
{
	return v < (1ULL << 7) ? 1 : v < (1ULL << 14) ? 2 : v < (1ULL << 21) ? 3 :
	       v < (1ULL << 28) ? 4 : v < (1ULL << 35) ? 5 : v < (1ULL << 42) ? 6 :
	       v < (1ULL << 49) ? 7 : v < (1ULL << 56) ? 8 : v < (1ULL << 63) ? 9 : 10;
}
unsigned mtbl_varint_length_packed(const uint8_t *d, size_t n)
{
	for (size_t i = 0; i < n; i++)
		if (d[i] < 0x80) return (unsigned) i + 1;
	return 0;
}
static size_t vh_enc(uint8_t *p, uint64_t v)
{
	unsigned n = mtbl_varint_length(v);
	for (unsigned i = 0; i < 10; i++) {
		if (i >= n) break;
		p[i] = (uint8_t) ((v & 0x7f) | (i + 1 < n ? 0x80 : 0));
		v >>= 7;
	}
	return n;
}
size_t mtbl_varint_encode32(uint8_t *p, uint32_t v) { return vh_enc(p, v); }
size_t mtbl_varint_encode64(uint8_t *p, uint64_t v) { return vh_enc(p, v); }
size_t mtbl_varint_decode32(const uint8_t *d, uint32_t *value)
{
	uint32_t v = 0;
	for (unsigned i = 0; i < 5; i++) {
		uint8_t b = d[i];
		v |= (uint32_t) (b & 0x7f) << (7 * i);
		if (b < 0x80) { *value = v; return i + 1; }
	}
	*value = d[0] & 0x7f;
	return 0;
}
size_t mtbl_varint_decode64(const uint8_t *d, uint64_t *value)
{
	uint64_t v = 0;
	for (unsigned i = 0; i < 10; i++) {
		uint8_t b = d[i];
		v |= (uint64_t) (b & 0x7f) << (7 * i);
		if (b < 0x80) { *value = v; return i + 1; }
	}
	*value = d[0] & 0x7f;
	return 0;
}
#endif
