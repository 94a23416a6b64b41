/* L02: base32hex codec */
#include "vh.h"
#include "vh_libc.h"
#ifndef REPLAY
void *memchr(const void *s, int c, size_t n)
{
	const uint8_t *p = s;
	for (size_t i = 0; i < n; i++) if (p[i] == (uint8_t) c) return (void *) (p + i);
	return NULL;
}
#endif
#include "b32_encode.c"
#define base32_alphabet base32_alphabet_d
#include "b32_decode.c"
#ifndef N
#define N 5
#endif
#define CH ((N * 8 + 4) / 5)
static unsigned bit(const uint8_t *p, size_t n, size_t i) { return i / 8 < n ? (p[i / 8] >> (7 - i % 8)) & 1 : 0; }
static char sym(unsigned v) { return v < 10 ? '0' + v : 'A' + v - 10; }

void h_enc(void)
{
	uint8_t in[N + 1]; char out[CH + 4]; uint8_t back[N + 2];
	ND_bytes(in, N);
	for (size_t i = 0; i < CH + 4; i++) out[i] = '#';
	size_t size = CH + ND_range(0, 2);
	size_t n = base32_encode(out, size, in, N);
	CHECK(n == CH, "number of characters");
	for (size_t j = 0; j < CH; j++) {
		unsigned v = 0;
		for (size_t b = 0; b < 5; b++) v = v << 1 | bit(in, N, 5 * j + b);
		CHECK(out[j] == sym(v), "RFC 4648 base32hex symbol");
	}
	for (size_t j = CH; j < CH + 4; j++) CHECK(out[j] == '#', "nothing written past the encoding");
	back[N] = 0x5A; back[N + 1] = 0x5A;
	CHECK(base32_decode(back, N, out, n) == N, "decoded length");
	for (size_t j = 0; j < N; j++) CHECK(back[j] == in[j], "decode inverts encode");
	CHECK(back[N] == 0x5A && back[N + 1] == 0x5A, "nothing written past the destination");
	/* case-insensitive, optional padding */
	for (size_t j = 0; j < CH; j++) if (ND_bool() && out[j] >= 'A') out[j] += 32;
	CHECK(base32_decode(back, N, out, n) == N, "lower case accepted");
	for (size_t j = 0; j < N; j++) CHECK(back[j] == in[j], "lower case decodes alike");
	REACH("round trip");
}
/* a destination smaller than the encoding receives a prefix of it */
void h_enc_trunc(void)
{
	uint8_t in[N + 1]; char full[CH + 1];
	ND_bytes(in, N);
	size_t n = base32_encode(full, CH, in, N), size = ND_range(0, CH);
	char *out = (char *) ND_tail(CH, size);
	CHECK(n == CH, "full length");
	CHECK(base32_encode(out, size, in, N) == size, "fills the destination");
	for (size_t j = 0; j < size; j++) CHECK(out[j] == full[j], "prefix of the encoding");
	REACH_IF(size + 1 == CH, "truncated");
}
void h_dec_any(void)
{
	size_t size = ND_range(0, N);
	char *in = (char *) ND_tail(CH, CH);
	uint8_t *out = ND_tail(N ? N : 1, size);
	size_t r = base32_decode(out, size, in, CH);
	bool bad = false, pad = false; size_t firstbad = CH;
	for (size_t j = 0; j < CH; j++) {
		unsigned char c = in[j];
		bool ok = (c >= '0' && c <= '9') || (c >= 'A' && c <= 'V') || (c >= 'a' && c <= 'v');
		if (c == '=') pad = true; else if (!ok && !bad) { bad = true; firstbad = j; }
	}
	CHECK(r == (size_t) -1 || r <= size, "result is an error or within the destination");
	if (!bad) CHECK(r != (size_t) -1, "valid text is accepted");
	if (!bad && !pad) {
		CHECK(r == size, "fills the destination");
		for (size_t j = 0; j < size; j++) {
			unsigned v = 0;
			for (size_t b = 0; b < 8; b++) {
				size_t i = 8 * j + b; unsigned char c = in[i / 5];
				unsigned s = c <= '9' ? c - '0' : (c | 32) - 'a' + 10;
				v = v << 1 | ((s >> (4 - i % 5)) & 1);
			}
			CHECK(out[j] == v, "decoded bits");
		}
	}
	if (bad && !pad && size == N) CHECK(r == (size_t) -1, "an invalid character is an error");
	REACH_IF(bad && r == (size_t) -1, "rejected");
	REACH_IF(!bad && !pad && size == N, "accepted");
}
/* padding up to a multiple of 8 characters changes nothing */
void h_dec_pad(void)
{
	uint8_t in[N + 1], back[N + 1]; char out[CH + 8];
	ND_bytes(in, N);
	size_t n = base32_encode(out, CH, in, N);
	CHECK(n == CH, "length");
	while (n % 8 != 0) out[n++] = '=';
	CHECK(base32_decode(back, N, out, n) == N, "padded text decodes");
	for (size_t j = 0; j < N; j++) CHECK(back[j] == in[j], "padded text decodes alike");
	REACH("padded");
}
void h_empty(void)
{
	char out[8]; uint8_t d[4] = {1, 1, 1, 1};
	for (int i = 0; i < 8; i++) out[i] = '#';
	CHECK(base32_encode(out, 8, d, 0) == 0 && out[0] == '#', "empty input encodes to nothing");
	CHECK(base32_decode(d, 4, out, 0) == 0 && d[0] == 1, "empty text decodes to nothing");
	REACH("empty");
}
