/* IP prefix arithmetic, bit by bit */
#include "vh.h"
#include "libmy/ip_arith.h"
#ifndef V6
#define V6 0
#endif
#define W (V6 ? 128 : 32)
#define N (W / 8)
static bool bit(const uint8_t *a, unsigned i) { return a[i / 8] >> (7 - i % 8) & 1; }
void h_bounds(void)
{
	uint8_t a[N], a0[N], lo[N], hi[N];
	for (int i = 0; i < N; i++) a[i] = a0[i] = ND_u8();
	unsigned p = ND_u8();
	ASSUME(p <= W);
	if (V6) { ip6_lower(a, p, lo); ip6_upper(a, p, hi); } else { ip4_lower(a, p, lo); ip4_upper(a, p, hi); }
	bool ok_lo = true, ok_hi = true, same = true;
	for (unsigned i = 0; i < W; i++) {
		if (bit(lo, i) != (i < p && bit(a, i))) ok_lo = false;
		if (bit(hi, i) != (i >= p || bit(a, i))) ok_hi = false;
	}
	for (int i = 0; i < N; i++) if (a[i] != a0[i]) same = false;
	CHECK(ok_lo, "the first address of a prefix has the host bits cleared");
	CHECK(ok_hi, "the last address of a prefix has the host bits set");
	CHECK(same, "the address itself is not changed");
	/* in place */
	if (V6) ip6_lower(a, p, a); else ip4_lower(a, p, a);
	same = true;
	for (int i = 0; i < N; i++) if (a[i] != lo[i]) same = false;
	CHECK(same, "the bounds can be computed in place");
	REACH_IF(p == 0, "no bits");
	REACH_IF(p == W, "all bits");
	REACH_IF(p > 0 && p < W, "some bits");
}
void h_incr(void)
{
	uint8_t a[N], b[N];
	for (int i = 0; i < N; i++) a[i] = b[i] = ND_u8();
	if (V6) ip6_incr(a); else ip4_incr(a);
	unsigned c = 1;
	bool ok = true;
	for (int i = N - 1; i >= 0; i--) {
		c += b[i];
		if (a[i] != (uint8_t) c) ok = false;
		c >>= 8;
	}
	CHECK(ok, "the next address is the numerical successor");
	REACH_IF(c, "wraps");
	REACH_IF(!c, "does not wrap");
}
