/* L08 hex decoding, L09 string replacement, L10 time arithmetic */
#include "vh.h"
#include "vh_libc.h"
#include "vh_ctype.h"
#ifndef REPLAY
char *strstr(const char *h, const char *n)
{
	for (size_t i = 0; ; i++) {
		size_t j = 0;
		while (n[j] != 0 && h[i + j] == n[j]) j++;
		if (n[j] == 0) return (char *) h + i;
		if (h[i] == 0) return NULL;
	}
}
char *strchr(const char *s, int c)
{
	for (size_t i = 0; ; i++) { if (s[i] == (char) c) return (char *) s + i; if (s[i] == 0) return NULL; }
}
#endif
#define HAVE_CLOCK_GETTIME 1
#define VH_UCAP 16
#include "libmy/ubuf.h"	/* model storage symbolically, the real header natively */
#include "hex_decode.h"
#include "string_replace.h"
#include "my_time.h"
#ifndef N
#define N 4
#endif
#ifndef O
#define O 1
#endif
#ifndef R
#define R 1
#endif
static int hv(uint8_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
void h_hex(void)
{
	char *s = (char *) ND_tail(N + 1, N + 1);
	s[N] = 0;
	for (int i = 0; i < N; i++) ASSUME(s[i] != 0);
	uint8_t *raw = NULL; size_t len = 0;
	bool want = N > 0 && N % 2 == 0;
	for (int i = 0; i < N; i++) if (hv((uint8_t) s[i]) < 0) want = false;
	bool ok = hex_decode(s, &raw, &len);
	CHECK(ok == want, "accepts exactly even-length hexadecimal");
	if (ok && want) {
		CHECK(len == N / 2, "length");
		for (int i = 0; i + 1 < N; i += 2) CHECK(raw[i / 2] == hv((uint8_t) s[i]) * 16 + hv((uint8_t) s[i + 1]), "bytes");
		if (VH_NATIVE) free(raw);
	} else if (!ok) CHECK(raw == NULL, "nothing left allocated");
	REACH("done");
	REACH_IF(!ok, "refused");
#if N > 0 && N % 2 == 0
	REACH_IF(ok, "accepted");
#endif
}
void h_replace(void)
{
	char *s = (char *) ND_tail(N + 1, N + 1), *o = (char *) ND_tail(O + 1, O + 1), *r = (char *) ND_tail(R + 1, R + 1);
	s[N] = 0; o[O] = 0; r[R] = 0;
	for (int i = 0; i < N; i++) ASSUME(s[i] != 0);
	for (int i = 0; i < O; i++) ASSUME(o[i] != 0);
	for (int i = 0; i < R; i++) ASSUME(r[i] != 0);
	/* oracle: left to right */
	char exp[N * (R > 1 ? R : 1) + 2]; size_t e = 0;
	for (int i = 0; i < N; ) {
		bool m = i + O <= N;
		for (int j = 0; j < O && m; j++) if (s[i + j] != o[j]) m = false;
		if (m) { for (int j = 0; j < R; j++) exp[e++] = r[j]; i += O; }
		else exp[e++] = s[i++];
	}
	char *got = string_replace(s, o, r);
	CHECK(got != NULL, "result");
	for (size_t i = 0; i < sizeof exp; i++) {
		if (i < e) CHECK(got[i] == exp[i], "text");
		else { CHECK(got[i] == 0, "terminated"); break; }
	}
	if (VH_NATIVE) free(got);
	REACH("done");
#if O <= N && O > 0
	REACH_IF(e == N - O + R, "replaced");
#endif
}
static void nd_ts(struct timespec *t) { t->tv_sec = (time_t) ND_raw(1ULL << 40); t->tv_nsec = (long) ND_raw(999999999); }
void h_time(void)
{
	struct timespec a, b; nd_ts(&a); nd_ts(&b);
	struct timespec s = b, d = b;
	my_timespec_add(&a, &s);
	CHECK(s.tv_nsec >= 0 && s.tv_nsec < 1000000000, "sum normalised");
	CHECK(s.tv_sec - a.tv_sec - b.tv_sec == (a.tv_nsec + b.tv_nsec >= 1000000000) , "sum seconds");
	CHECK(s.tv_nsec == a.tv_nsec + b.tv_nsec - (s.tv_sec - a.tv_sec - b.tv_sec) * 1000000000, "sum exact");
	my_timespec_sub(&a, &d);
	CHECK(d.tv_nsec >= 0 && d.tv_nsec < 1000000000, "difference normalised");
	CHECK(d.tv_sec == b.tv_sec - a.tv_sec - (b.tv_nsec < a.tv_nsec), "difference seconds");
	CHECK(d.tv_nsec == b.tv_nsec - a.tv_nsec + (b.tv_nsec < a.tv_nsec) * 1000000000L, "difference exact");
	int c = my_timespec_cmp(&a, &b);
	int w = a.tv_sec != b.tv_sec ? (a.tv_sec < b.tv_sec ? -1 : 1) : a.tv_nsec != b.tv_nsec ? (a.tv_nsec < b.tv_nsec ? -1 : 1) : 0;
	CHECK(c == w, "comparison");
	REACH("done");
	REACH_IF(b.tv_nsec < a.tv_nsec, "borrow");
	REACH_IF(a.tv_nsec + b.tv_nsec >= 1000000000, "carry");
}
/* add accepts a not yet normalised left operand, as after repeated adds */
void h_time_carry(void)
{
	struct timespec a, b; nd_ts(&a); nd_ts(&b);
	a.tv_nsec = (long) ND_raw(4000000000ULL);
	struct timespec s = b;
	my_timespec_add(&a, &s);
	CHECK(s.tv_nsec >= 0 && s.tv_nsec < 1000000000, "sum normalised");
	CHECK(s.tv_sec - b.tv_sec - a.tv_sec >= 0 && s.tv_sec - b.tv_sec - a.tv_sec <= 5, "carry in range");
	CHECK((s.tv_sec - b.tv_sec - a.tv_sec) * 1000000000 + s.tv_nsec == a.tv_nsec + b.tv_nsec, "sum exact");
	REACH("done");
}
/* seconds as dyadic rationals are converted exactly */
void h_time_double(void)
{
	struct timespec t;
	uint64_t sec = ND_raw(1ULL << 33);
	unsigned q = (unsigned) ND_raw(7);
	double x = (double) sec + (double) q / 8;
	my_timespec_from_double(x, &t);
	CHECK(t.tv_sec == (time_t) sec, "whole seconds");
	CHECK(t.tv_nsec == (long) q * 125000000, "fraction");
	REACH("done");
	REACH_IF(sec > 0x80000000ULL && q == 3, "past 2038");
}
void h_time_to_double(void)
{
	struct timespec t;
	t.tv_sec = (time_t) ND_raw(1ULL << 33); unsigned q = (unsigned) ND_raw(7); t.tv_nsec = (long) q * 125000000;
	double y = my_timespec_to_double(&t);
	CHECK(y == (double) t.tv_sec + (double) q / 8, "to floating point");
	REACH("done");
}
/* sleeping: an interrupted sleep is continued with what remained */
static long slept; static unsigned calls;
void h_dummy(void) { }
