/* L03: streaming base64 codec */
#include "vh.h"
#include "vh_libc.h"
#include "b64_encode.c"
#include "b64_decode.c"
#ifndef N
#define N 4
#endif
#define CH (((N + 2) / 3) * 4)
static char sym(unsigned v) { return v < 26 ? 'A' + v : v < 52 ? 'a' + v - 26 : v < 62 ? '0' + v - 52 : v == 62 ? '+' : '/'; }
static int val(char c)
{
	if (c >= 'A' && c <= 'Z') return c - 'A';
	if (c >= 'a' && c <= 'z') return c - 'a' + 26;
	if (c >= '0' && c <= '9') return c - '0' + 52;
	return c == '+' ? 62 : c == '/' ? 63 : -1;
}
/* every split of the input into two chunks (SPLIT is fixed per query) */
#ifndef SPLIT
#define SPLIT 0
#endif
void h_enc(void)
{
	uint8_t in[N + 1]; char out[CH + 4];
	ND_bytes(in, N);
	for (size_t i = 0; i < CH + 4; i++) out[i] = '#';
	base64_encodestate st;
	base64_init_encodestate(&st);
	size_t k = base64_encode_block((char *) in, SPLIT, out, &st);
	k += base64_encode_block((char *) in + SPLIT, N - SPLIT, out + k, &st);
	k += base64_encode_blockend(out + k, &st);
	CHECK(k == CH, "number of characters");
	for (size_t j = 0; j < CH; j++) {
		unsigned v = 0; bool any = false;
		for (size_t b = 0; b < 6; b++) {
			size_t i = 6 * j + b;
			unsigned x = 0;
			if (i / 8 < N) { x = (in[i / 8] >> (7 - i % 8)) & 1; any = true; }
			v = v << 1 | x;
		}
		CHECK(out[j] == (any ? sym(v) : '='), "RFC 4648 base64 symbol or padding");
	}
	for (size_t j = CH; j < CH + 4; j++) CHECK(out[j] == '#', "nothing written past the encoding");
	REACH("encoded");
}
void h_rt(void)
{
	uint8_t in[N + 1]; char out[CH + 1], back[N + 4];
	ND_bytes(in, N);
	base64_encodestate st; base64_decodestate ds;
	base64_init_encodestate(&st);
	size_t k = base64_encode_block((char *) in, N, out, &st);
	k += base64_encode_blockend(out + k, &st);
	CHECK(k == CH, "length");
	base64_init_decodestate(&ds);
	size_t d = base64_decode_block(out, SPLIT, back, &ds);
	d += base64_decode_block(out + SPLIT, (int) k - SPLIT, back + d, &ds);
	CHECK(d == N, "decoded length");
	for (size_t j = 0; j < N; j++) CHECK((uint8_t) back[j] == in[j], "decode inverts encode for any split");
	REACH("round trip");
}
void h_value(void)
{
	uint8_t c = ND_u8();
	int r = base64_decode_value((char) c);
	CHECK(val((char) c) >= 0 ? r == val((char) c) : r < 0, "symbol value, negative for any other character");
	REACH_IF(c == '/', "slash");
	REACH_IF(r < 0, "junk");
}
/* characters outside the alphabet are skipped wherever they are */
void h_dec_any(void)
{
	char *in = (char *) ND_tail(N, N);
	char *out = (char *) ND_tail(N + 1, 3 * N / 4 + 1);
	base64_decodestate ds;
	base64_init_decodestate(&ds);
	size_t d = base64_decode_block(in, SPLIT, out, &ds);
	d += base64_decode_block(in + SPLIT, N - SPLIT, out + d, &ds);
	unsigned nb = 0; uint8_t spec[N + 1]; size_t ns = 0; uint32_t acc = 0;
	for (size_t i = 0; i < N; i++) {
		int v = val(in[i]);
		if (v < 0) continue;
		acc = acc << 6 | v; nb += 6;
		if (nb >= 8) { nb -= 8; spec[ns++] = (uint8_t) (acc >> nb); acc &= (1u << nb) - 1; }
	}
	CHECK(d == ns, "decoded length");
	for (size_t i = 0; i < N; i++) if (i < ns) CHECK((uint8_t) out[i] == spec[i], "decoded bytes, junk skipped");
	REACH_IF(ns == 3 * N / 4, "no junk");
	REACH_IF(ns == 0, "all junk");
}
