/* L04: every implementation of CRC-32C computes CRC-32C */
#include "vh.h"
#include "vh_libc.h"
#ifndef N
#define N 4
#endif
#ifndef OFF
#define OFF 0
#endif
static uint32_t crc_byte(uint32_t c, uint8_t b) { c ^= b; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0x82F63B78u & (0u - (c & 1))); return c; }
#ifndef REPLAY
static uint64_t vh_asm_any(void) { return ND_u64(); }
static uint64_t vh_crc32_insn(uint64_t crc, uint64_t v, int width)
{
	uint32_t c = (uint32_t) crc;
	for (int i = 0; i < width / 8; i++) c = crc_byte(c, (uint8_t) (v >> (8 * i)));
	return c;
}
#include "asm_crc_crc32c-sse42.c"
#else
#include "crc32c-sse42.c"
#endif
#if defined(REPLAY) || defined(TABLES)
#include "crc32c-slicing.c"
#else
/* entry (k, b): the remainder of byte b followed by k zero bytes (query "tables" decides that the table says so) */
static uint32_t vh_tab(uint32_t k, uint32_t b)
{
	CHECK(k < 8 && b < 256, "table index in range");
	uint32_t c = crc_byte(0, (uint8_t) b);
	for (uint32_t i = 0; i < 7; i++) if (i < k) c = crc_byte(c, 0);
	return c;
}
#include "tables_crc32c-slicing.c"
#endif

static uint8_t *obj;
/* bytes SYM..SYM+NSYM-1 are free, the others fixed per query */
#ifndef SYM
#define SYM 0
#endif
#ifndef NSYM
#define NSYM N
#endif
static const uint8_t *input(void)
{
	obj = malloc(OFF + N + 1);
	uint8_t *p = obj + OFF;
	for (size_t i = 0; i < N; i++) p[i] = i >= SYM && i < SYM + NSYM ? ND_u8() : (uint8_t) (i * 37 + 11);
	return p;
}
static uint32_t spec(const uint8_t *p)
{
	uint32_t c = 0xFFFFFFFFu;
	for (size_t i = 0; i < N; i++) c = crc_byte(c, p[i]);
	return ~c;
}
void h_slicing(void)
{
	const uint8_t *p = input();
	CHECK(my_crc32c_slicing(p, N) == spec(p), "table-driven CRC equals the bitwise definition");
	REACH("slicing");
}
void h_sse42(void)
{
	const uint8_t *p = input();
	CHECK(my_crc32c_sse42(p, N) == spec(p), "instruction-based CRC equals the bitwise definition");
	REACH("sse42");
}
/* every table entry */
#ifdef TABLES
void h_tables(void)
{
	uint8_t b = ND_u8();
	uint32_t c = crc_byte(0, b);
	for (int k = 0; k < 8; k++) {
		CHECK(g_crc_slicing[k][b] == c, "table entry");
		c = crc_byte(c, 0);
	}
	REACH_IF(b == 255, "last entry");
}
#endif
#include "crc32c.c"
/* the exported entry point, on machines with and without the instruction */
void h_dispatch(void)
{
	const uint8_t *p = input();
	uint32_t want = spec(p);
	CHECK(my_crc32c(p, N) == want, "first call");
	CHECK(my_crc32c(p, N) == want, "second call");
	REACH("dispatch");
}
