/* L01: variable-length integer codec of libmy */
#include "vh.h"
#include "vh_libc.h"
#include "varint.c"

static unsigned spec_len(uint64_t v) { unsigned n = 1; for (int i = 0; i < 10; i++) { if (v < 128) break; v >>= 7; n++; } return n; }

void h_rt64(void)
{
	uint8_t b[12]; uint64_t v = ND_u64(), w = 0;
	for (int i = 0; i < 12; i++) b[i] = 0xA5;
	size_t n = varint_encode64(b, v);
	CHECK(n == spec_len(v), "encoded length is minimal");
	CHECK(n == varint_length(v), "predicted length is the encoded length");
	for (size_t i = 0; i < 12; i++) {
		if (i + 1 < n) CHECK(b[i] & 0x80, "continuation bit");
		if (i < n && i < 9) CHECK((b[i] & 0x7f) == ((v >> (7 * i)) & 0x7f), "little-endian 7-bit groups");
		if (i + 1 == n) CHECK(!(b[i] & 0x80), "last byte has no continuation bit");
		if (i >= n) CHECK(b[i] == 0xA5, "nothing written past the encoding");
	}
	CHECK(varint_length_packed(b, 12) == n, "packed length");
	CHECK(varint_length_packed(b, n) == n, "packed length, exact buffer");
	CHECK(varint_length_packed(b, n - 1) == 0, "truncated");
	CHECK(varint_decode64(b, &w) == n && w == v, "decode inverts encode");
	REACH_IF(n == 10, "10-byte value");
	REACH_IF(n == 1, "1-byte value");
}
void h_rt32(void)
{
	uint8_t b[8], c[12]; uint32_t v = ND_u32(), w = 0; uint64_t x;
	for (int i = 0; i < 8; i++) b[i] = 0xA5;
	size_t n = varint_encode32(b, v), m = varint_encode64(c, v);
	CHECK(n == spec_len(v) && n == m, "same length as the 64-bit encoder");
	for (size_t i = 0; i < 8; i++) {
		if (i < n) CHECK(b[i] == c[i], "same bytes as the 64-bit encoder");
		else CHECK(b[i] == 0xA5, "nothing written past the encoding");
	}
	CHECK(varint_decode32(b, &w) == n && w == v, "decode inverts encode");
	CHECK(varint_decode64(b, &x) == n && x == v, "64-bit decoder agrees");
	REACH_IF(n == 5, "5-byte value");
}
/* arbitrary bytes ending in a terminated varint, nothing readable after it */
void h_any64(void)
{
	size_t n = ND_range(1, 10);
	uint8_t *p = ND_tail(10, n);
	ASSUME(p[n - 1] < 0x80);
	size_t t = 0; uint64_t s = 0, v = 0;
	for (size_t i = 0; i < 10; i++) { if (i >= n) break; s |= (uint64_t) (p[i] & 0x7f) << (7 * i); t = i + 1; if (p[i] < 0x80) break; }
	size_t r = varint_decode64(p, &v);
	CHECK(r == t, "consumes up to the first byte without continuation bit");
	CHECK(v == s, "value is the sum of the groups");
	REACH_IF(n == 10 && r == 10, "full");
	REACH_IF(n == 10 && r == 3, "short");
}
void h_any32(void)
{
	size_t n = ND_range(1, 5);
	uint8_t *p = ND_tail(5, n);
	ASSUME(p[n - 1] < 0x80);
	size_t t = 0; uint32_t s = 0, v = 0;
	for (size_t i = 0; i < 5; i++) { if (i >= n) break; s |= (uint32_t) (p[i] & 0x7f) << (7 * i); t = i + 1; if (p[i] < 0x80) break; }
	size_t r = varint_decode32(p, &v);
	CHECK(r == t, "consumes up to the first byte without continuation bit");
	CHECK(v == s, "value is the sum of the groups");
	REACH_IF(n == 5 && r == 5, "full");
}
void h_unterminated(void)
{
	uint8_t b[10]; uint64_t v; uint32_t w;
	ND_bytes(b, 10);
	for (int i = 0; i < 5; i++) b[i] |= 0x80;
	CHECK(varint_decode32(b, &w) == 0, "no terminator within 5 bytes");
	for (int i = 5; i < 10; i++) b[i] |= 0x80;
	CHECK(varint_decode64(b, &v) == 0, "no terminator within 10 bytes");
	REACH("unterminated");
}
void h_packed(void)
{
	size_t n = ND_range(0, 12), t = 0;
	uint8_t *p = ND_tail(12, n);
	for (size_t i = 0; i < n; i++) if (p[i] < 0x80) { t = i + 1; break; }
	CHECK(varint_length_packed(p, n) == t, "length of the first varint, 0 when unterminated");
	REACH_IF(t == 0 && n == 12, "unterminated");
	REACH_IF(t == 12, "terminated");
}
