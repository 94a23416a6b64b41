/* L14: lookup3 hashing */
#include "vh.h"
#include "vh_libc.h"
#include <endian.h>
#include "lookup3.c"
#undef mix
#undef final
#undef rot
#ifndef N
#define N 5
#endif
#ifndef OFF
#define OFF 0
#endif
/* bytes SYM..SYM+NSYM-1 are free, the others fixed */
#ifndef SYM
#define SYM 0
#endif
#ifndef NSYM
#define NSYM N
#endif
#define ROT(x, k) (((x) << (k)) | ((x) >> (32 - (k))))
static uint32_t A, B, C;
static void r_mix(void)
{
	A -= C; A ^= ROT(C, 4); C += B;  B -= A; B ^= ROT(A, 6); A += C;  C -= B; C ^= ROT(B, 8); B += A;
	A -= C; A ^= ROT(C, 16); C += B; B -= A; B ^= ROT(A, 19); A += C; C -= B; C ^= ROT(B, 4); B += A;
}
static void r_final(void)
{
	C ^= B; C -= ROT(B, 14); A ^= C; A -= ROT(C, 11); B ^= A; B -= ROT(A, 25); C ^= B; C -= ROT(B, 16);
	A ^= C; A -= ROT(C, 4); B ^= A; B -= ROT(A, 14); C ^= B; C -= ROT(B, 24);
}
/* the word made of bytes k[0..3], absent ones zero */
static uint32_t word(const uint8_t *k, int i, int n, bool big)
{
	uint32_t w = 0;
	for (int j = 0; j < 4; j++) if (i + j < n) w |= (uint32_t) k[i + j] << (big ? 24 - 8 * j : 8 * j);
	return w;
}
/* published algorithm; result in C and B */
static void ref(const uint8_t *k, int n, uint32_t s1, uint32_t s2, bool big)
{
	A = B = C = 0xdeadbeef + (uint32_t) n + s1; C += s2;
	int i = 0;
	while (n - i > 12) { A += word(k, i, n, big); B += word(k, i + 4, n, big); C += word(k, i + 8, n, big); r_mix(); i += 12; }
	if (n == 0) return;
	A += word(k, i, n, big); B += word(k, i + 4, n, big); C += word(k, i + 8, n, big);
	r_final();
}
static uint32_t buf32[(N + 3) / 4 + 3];
static uint8_t *fill(void)
{
	uint8_t *b = (uint8_t *) buf32, *p = b + OFF;
	for (unsigned i = 0; i < sizeof buf32; i++) b[i] = ND_u8();	/* whatever surrounds the key */
	for (int i = 0; i < N; i++) if (i < SYM || i >= SYM + NSYM) p[i] = (uint8_t) (i * 37 + 11);
	return p;
}
void h_little(void)
{
	uint8_t *p = fill();
	uint32_t seed = NSYM == N || N > 1 ? 0 : ND_u32();
	ref(p, N, seed, 0, false);
	uint32_t h = my_hashlittle(p, N, seed);
	CHECK(h == C, "little-endian hash");
	REACH("done");
}
void h_little2(void)
{
	uint8_t *p = fill();
	uint32_t s1 = 17, s2 = NSYM == N || N > 1 ? 5 : ND_u32(), c = s1, b = s2;
	ref(p, N, s1, s2, false);
	my_hashlittle2(p, N, &c, &b);
	CHECK(c == C, "first hash"); CHECK(b == B, "second hash");
	REACH("done");
}
void h_big(void)
{
	uint8_t *p = fill();
	uint32_t seed = NSYM == N || N > 1 ? 0 : ND_u32();
	ref(p, N, seed, 0, true);
	CHECK(my_hashbig(p, N, seed) == C, "big-endian hash");
	REACH("done");
}
#if N % 4 == 0
void h_word(void)
{
	for (int i = 0; i < N / 4; i++) buf32[i] = ND_u32();
	uint32_t seed = ND_u32(), s2 = ND_u32();
	A = B = C = 0xdeadbeef + (uint32_t) N + seed;
	int i = 0, n = N / 4;
	while (n - i > 3) { A += buf32[i]; B += buf32[i + 1]; C += buf32[i + 2]; r_mix(); i += 3; }
	if (n > 0) { A += buf32[i]; B += i + 1 < n ? buf32[i + 1] : 0; C += i + 2 < n ? buf32[i + 2] : 0; r_final(); }
	CHECK(my_hashword(buf32, (size_t) n, seed) == C, "word hash");
	A = B = C = 0xdeadbeef + (uint32_t) N + seed; C += s2;
	for (i = 0; n - i > 3; i += 3) { A += buf32[i]; B += buf32[i + 1]; C += buf32[i + 2]; r_mix(); }
	if (n > 0) { A += buf32[i]; B += i + 1 < n ? buf32[i + 1] : 0; C += i + 2 < n ? buf32[i + 2] : 0; r_final(); }
	uint32_t c = seed, b = s2;
	my_hashword2(buf32, (size_t) n, &c, &b);
	CHECK(c == C && b == B, "double word hash");
	REACH("done");
}
#endif
