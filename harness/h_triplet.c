#include "vh.h"
#include "vh_libc.h"
#include "dnstable/dnstable-private.h"
#include "mtbl_varint_model.h"
#include "dnstable/triplet.c"

/* independent reference decoder of one varint inside [p, p+n): returns length
 * or 0 when there is no complete varint of at most 10 bytes */
static size_t ref_dec(const uint8_t *p, size_t n, uint64_t *v)
{
	uint64_t r = 0;
	for (size_t i = 0; i < 10 && i < n; i++) {
		r |= (uint64_t) (p[i] & 0x7f) << (7 * i);
		if (!(p[i] & 0x80)) { *v = r; return i + 1; }
	}
	return 0;
}

void h_triplet_rt(void)
{
	uint64_t a = ND_u64(), b = ND_u64(), c = ND_u64(), x, y, z;
	uint8_t buf[30];
	size_t n = triplet_pack(buf, a, b, c);
	CHECK(n == (size_t) mtbl_varint_length(a) + mtbl_varint_length(b) + mtbl_varint_length(c), "packed length is minimal");
	CHECK(n <= 30, "packed triplet fits 30 bytes");
	CHECK(triplet_unpack(buf, n, &x, &y, &z) == dnstable_res_success, "unpack of a packed triplet succeeds");
	CHECK(x == a && y == b && z == c, "triplet values survive");
	size_t m = ND_range(0, 31);
	uint8_t pad[32] = {0};
	for (size_t i = 0; i < 30; i++) pad[i] = buf[i];
	if (m != n && m <= 31)
		CHECK(triplet_unpack(pad, m, &x, &y, &z) != dnstable_res_success || m == n, "a length other than the packed one is rejected");
	REACH_IF(n == 30 && m == 31, "triplet 30");
	REACH_IF(n == 3, "triplet 3");
}

void h_pair_rt(void)
{
	uint64_t a = ND_u64(), b = ND_u64(), x, y;
	uint8_t buf[20];
	size_t n = pair_pack(buf, a, b);
	CHECK(n == (size_t) mtbl_varint_length(a) + mtbl_varint_length(b), "packed length is minimal");
	CHECK(pair_unpack(buf, n, &x, &y) == dnstable_res_success, "unpack of a packed pair succeeds");
	CHECK(x == a && y == b, "pair values survive");
	size_t m = ND_range(0, 21);
	uint8_t pad[22] = {0};
	for (size_t i = 0; i < 20; i++) pad[i] = buf[i];
	if (m != n)
		CHECK(pair_unpack(pad, m, &x, &y) != dnstable_res_success, "a length other than the packed one is rejected");
	REACH_IF(n == 20, "pair 20");
}

#ifndef N
#define N 8
#endif
/* arbitrary bytes: accepted iff they are exactly three complete varints */
void h_triplet_any(void)
{
	size_t n = ND_range(0, N);
	uint8_t *buf = ND_tail(N, n);
	uint64_t x = 0, y = 0, z = 0, rx = 0, ry = 0, rz = 0;
	size_t l1 = ref_dec(buf, n, &rx);
	size_t l2 = l1 ? ref_dec(buf + l1, n - l1, &ry) : 0;
	size_t l3 = l2 ? ref_dec(buf + l1 + l2, n - l1 - l2, &rz) : 0;
	bool ok = l3 && l1 + l2 + l3 == n;
	dnstable_res r = triplet_unpack(buf, n, &x, &y, &z);
	CHECK((r == dnstable_res_success) == ok, "accepts exactly three complete varints");
	if (ok) CHECK(x == rx && y == ry && z == rz, "values as documented");
	REACH_IF(ok, "accepted");
	REACH_IF(!ok && n == N, "rejected");
}
void h_pair_any(void)
{
	size_t n = ND_range(0, N);
	uint8_t *buf = ND_tail(N, n);
	uint64_t x = 0, y = 0, rx = 0, ry = 0;
	size_t l1 = ref_dec(buf, n, &rx);
	size_t l2 = l1 ? ref_dec(buf + l1, n - l1, &ry) : 0;
	bool ok = l2 && l1 + l2 == n;
	dnstable_res r = pair_unpack(buf, n, &x, &y);
	CHECK((r == dnstable_res_success) == ok, "accepts exactly two complete varints");
	if (ok) CHECK(x == rx && y == ry, "values as documented");
	REACH_IF(ok, "accepted");
	REACH_IF(!ok && n == N, "rejected");
}
