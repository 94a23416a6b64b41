/* L07: growable vectors and byte buffers */
#include "vh.h"
#include "vh_libc.h"
#if defined(OWN_REALLOC) && !defined(REPLAY)
static void *vh_realloc(void *p, size_t n)
{
	size_t o = __CPROVER_OBJECT_SIZE(p);
	uint8_t *q = malloc(n);
	for (size_t i = 0; i < n && i < o; i++) q[i] = ((uint8_t *) p)[i];
	free(p);
	return q;
}
#define realloc vh_realloc
#endif
#include "ubuf.h"
typedef struct { uint8_t a; uint16_t b; } pr_t;	/* an element with padding */
VECTOR_GENERATE(pvec, pr_t)
#ifndef SEQ
#define SEQ 0
#endif
#ifndef OPS
#define OPS 3
#endif
#ifndef HINT
#define HINT 1
#endif
#define CAPN 24
static pr_t sh[CAPN];
static size_t nsh;
static pr_t nd_pr(void) { pr_t x; memset(&x, 0, sizeof x); x.a = ND_u8(); x.b = ND_u16(); return x; }
static bool eq(pr_t x, pr_t y) { return x.a == y.a && x.b == y.b; }
static void check_vec(pvec *v)
{
	CHECK(pvec_size(v) == nsh, "size");
	CHECK(pvec_bytes(v) == nsh * sizeof(pr_t), "size in bytes");
	CHECK(pvec_ptr(v) == pvec_data(v) + nsh, "append position");
	for (size_t i = 0; i < nsh; i++) {
		CHECK(eq(pvec_data(v)[i], sh[i]), "contents");
		CHECK(eq(pvec_value(v, i), sh[i]), "value by index");
	}
}
void h_vec(void)
{
	pvec *v = pvec_init(HINT);
	unsigned seq = SEQ;
	check_vec(v);
	for (int o = 0; o < OPS; o++, seq /= 8) {
		switch (seq % 8) {
		case 0: sh[nsh] = nd_pr(); pvec_add(v, sh[nsh]); nsh++; break;
		case 1: {	/* append three */
			pr_t x[3]; for (int i = 0; i < 3; i++) x[i] = sh[nsh + i] = nd_pr();
			pvec_append(v, x, 3); nsh += 3; break; }
		case 2:		/* reserve, write in place, advance */
			pvec_reserve(v, 3);
			for (int i = 0; i < 2; i++) { sh[nsh + i] = nd_pr(); pvec_ptr(v)[i] = sh[nsh + i]; }
			pvec_advance(v, 2); nsh += 2; break;
		case 3: { size_t c = 2; pvec_clip(v, 9); CHECK(pvec_size(v) == (nsh < 9 ? nsh : 9), "clip to more"); if (nsh > 9) nsh = 9; pvec_clip(v, c); 
			if (c < nsh) nsh = c;
			CHECK(pvec_size(v) == nsh, "clip");
			break; }
		case 4: pvec_reset(v); nsh = 0; break;
		case 5: {	/* detach */
			pr_t *out = NULL; size_t n = 99;
			pvec_detach(v, &out, &n);
			CHECK(n == nsh, "detached length");
			for (size_t i = 0; i < nsh; i++) CHECK(eq(out[i], sh[i]), "detached contents");
			free(out); nsh = 0; break; }
		case 6: {	/* extend by another vector */
			pvec *w = pvec_init(1);
			for (int i = 0; i < 2; i++) { sh[nsh + i] = nd_pr(); pvec_add(w, sh[nsh + i]); }
			pvec_extend(v, w); nsh += 2;
			CHECK(pvec_size(w) == 2, "source kept");
			pvec_destroy(&w); CHECK(w == NULL, "destroyed"); break; }
		case 7:		/* append nothing */
			pvec_append(v, sh, 0); pvec_reserve(v, 0); break;
		}
		check_vec(v);
	}
	REACH("sequence done");
	pvec_destroy(&v);
	CHECK(v == NULL, "destroyed");
	pvec_destroy(&v);	/* harmless */
}
void h_reinit(void)
{
	pvec x; 
	pvec_reinit(HINT, &x);
	check_vec(&x);
	for (int i = 0; i < 3; i++) { sh[nsh] = nd_pr(); pvec_add(&x, sh[nsh]); nsh++; }
	check_vec(&x);
	REACH("done");
	free(x._v);
}

/* byte buffers: strings */
#ifndef N
#define N 3
#endif
#ifndef M
#define M 2
#endif
static void nd_str(char *s, size_t n) { for (size_t i = 0; i < n; i++) { s[i] = (char) ND_u8(); ASSUME(s[i] != 0); } s[n] = 0; }
void h_ubuf(void)
{
	char a[N + 1], b[M + 1];
	for (int i = 0; i < N; i++) a[i] = (char) ('a' + i);
	for (int i = 0; i < M; i++) b[i] = (char) ('p' + i);
	a[N] = b[M] = 0;
	ubuf *u = ubuf_dup_cstr(a);
	CHECK(ubuf_size(u) == N, "duplicate has the string without terminator");
	char *c = ubuf_cstr(u);
	for (int i = 0; i <= N; i++) CHECK(c[i] == a[i], "as C string");
	CHECK(ubuf_size(u) == N + 1, "one terminator");
	ubuf_cterm(u);
	CHECK(ubuf_size(u) == N + 1, "terminating twice adds nothing");
	ubuf_add_cstr(u, b);
	CHECK(ubuf_size(u) == N + M, "string appended over the terminator");
	for (int i = 0; i < N; i++) CHECK(ubuf_value(u, i) == (uint8_t) a[i], "head kept");
	for (int i = 0; i < M; i++) CHECK(ubuf_value(u, N + i) == (uint8_t) b[i], "tail added");
	char strip = (char) ND_u8();
	uint8_t lastb = N + M > 0 ? ubuf_value(u, N + M - 1) : 0;
	ubuf_rstrip(u, strip);
	size_t want = N + M - (N + M > 0 && (uint8_t) strip == lastb);
	CHECK(ubuf_size(u) == want, "one trailing character stripped");
	for (size_t i = 0; i < want; i++) CHECK(ubuf_data(u)[i] == (uint8_t) (i < N ? a[i] : b[i - N]), "rest kept");
	REACH("done");
	ubuf_destroy(&u);
}
/* formatted append, against a vsnprintf that writes SEQ characters */
#ifndef REPLAY
int vsnprintf(char *s, size_t n, const char *f, va_list ap)
{
	static char out[N + 1]; static bool init;
	if (!init) { nd_str(out, N); init = true; }
	for (size_t i = 0; i < n; i++) { s[i] = i < N ? out[i] : 0; if (i >= N || i + 1 == n) { s[i] = 0; break; } }
	return N;
}
#endif
void h_fmt(void)
{
	char a[M + 1]; nd_str(a, M);
	ubuf *u = ubuf_init(HINT);
	ubuf_append(u, (uint8_t *) a, M);
	if (ND_bool()) ubuf_cterm(u);
#ifdef REPLAY
	char w[N + 1]; nd_str(w, N);
	ubuf_add_fmt(u, "%s", w);
#else
	ubuf_add_fmt(u, "%s", "");
#endif
	CHECK(ubuf_size(u) == M + N, "formatted text appended");
	for (int i = 0; i < M; i++) CHECK(ubuf_value(u, i) == (uint8_t) a[i], "head kept");
#ifdef REPLAY
	for (int i = 0; i < N; i++) CHECK(ubuf_value(u, M + i) == (uint8_t) w[i], "text");
#endif
	ubuf_cterm(u);
	CHECK(ubuf_size(u) == M + N + 1, "terminated");
	REACH("done");
	ubuf_destroy(&u);
}
