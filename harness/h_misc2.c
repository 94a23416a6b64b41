/* L15 number formatting, L18 bounded reads, L20 printing, L21 atomics, L22 environment integers */
#include "vh.h"
#include "vh_libc.h"
#include <errno.h>
#include <unistd.h>
#include <limits.h>
#ifndef N
#define N 3
#endif
#ifndef D
#define D 8
#endif

/* ---- stand-ins for the system, the same in both worlds ---- */
/* read(): any short count, end of file, interruption or error */
static uint8_t src[N + 1]; static size_t src_pos; static unsigned reads; static bool failed, eof;
static ssize_t vh_read(int fd, void *buf, size_t n)
{
	CHECK(fd == 7, "reads from the given descriptor");
	CHECK(src_pos + n <= N, "never asks for more than is needed");
	reads++;
	ASSUME(reads <= N + 2);
	uint64_t k = ND_raw(3);
	if (k == 0) { errno = EINTR; return -1; }
	if (k == 1) { errno = EIO; failed = true; return -1; }
	if (k == 2) { eof = true; return 0; }
	size_t got = 1 + ND_raw(N - 1);
	ASSUME(got <= n);
	for (size_t i = 0; i < got; i++) ((uint8_t *) buf)[i] = src[src_pos + i];
	src_pos += got;
	return (ssize_t) got;
}
#define read vh_read
#include "read_bytes.h"
#undef read

static char outb[8 * N + 8]; static size_t outn;
static int vh_fputc(int c, FILE *f) { (void) f; outb[outn++] = (char) c; return c; }
static int vh_fputs(const char *s, FILE *f) { while (*s) vh_fputc(*s++, f); return 1; }
static int vh_fprintf(FILE *f, const char *fmt, ...)
{
	/* just the directives this header may use: %x with width and zero, %c, literal text */
	__builtin_va_list ap; __builtin_va_start(ap, fmt);
	for (; *fmt; fmt++) {
		if (*fmt != '%') { vh_fputc(*fmt, f); continue; }
		fmt++;
		int w = 0; bool z = *fmt == '0';
		while (*fmt >= '0' && *fmt <= '9') w = w * 10 + (*fmt++ - '0');
		unsigned v = __builtin_va_arg(ap, unsigned);
		if (*fmt == 'c') { vh_fputc((int) v, f); continue; }
		CHECK(*fmt == 'x' || *fmt == 'X', "format understood by the stand-in");
		char dg[8]; int n = 0;
		do { unsigned d = v & 15; dg[n++] = (char) (d < 10 ? '0' + d : (*fmt == 'x' ? 'a' : 'A') + d - 10); v >>= 4; } while (v && n < 8);
		for (int i = n; i < w && i < 8; i++) vh_fputc(z ? '0' : ' ', f);
		while (n > 0) vh_fputc(dg[--n], f);
	}
	__builtin_va_end(ap);
	return 0;
}
#define fputc vh_fputc
#define putc vh_fputc
#define fputs vh_fputs
#define fprintf vh_fprintf
#include "vh_ctype.h"
#include "print_string.h"
#undef fputc
#undef putc
#undef fputs
#undef fprintf

static char *env; static bool asked;
static char *vh_getenv(const char *n) { asked = strcmp(n, "NAME") == 0; return env; }
#define getenv vh_getenv
#ifndef REPLAY
/* strtoul(s, &e, 0) as C defines it */
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static unsigned long vh_strtoul(const char *s, char **e, int base)
{
	const char *p = s; bool neg = false, any = false, ovf = false; unsigned long v = 0;
	while (sp(*p)) p++;
	if (*p == '+' || *p == '-') neg = *p++ == '-';
	int b = base;
#define HEXV(c) ((c) >= '0' && (c) <= '9' ? (c) - '0' : (c) >= 'a' && (c) <= 'f' ? (c) - 'a' + 10 : (c) >= 'A' && (c) <= 'F' ? (c) - 'A' + 10 : 99)
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && HEXV(p[2]) < 16) { p += 2; b = 16; }
	else if (base == 0) b = p[0] == '0' ? 8 : 10;
	while (HEXV(*p) < b) {
		unsigned long nv = v * (unsigned long) b + (unsigned long) HEXV(*p);
		any = true;
		if (v > (ULONG_MAX - (unsigned long) HEXV(*p)) / (unsigned long) b) ovf = true;
		v = nv; p++;
	}
	if (e) *e = (char *) (any ? p : s);
	if (ovf) { errno = ERANGE; return ULONG_MAX; }
	return neg ? -v : v;
}
#define strtoul vh_strtoul
#define strtoull vh_strtoul
#endif
#include "getenv_int.h"
#undef getenv

#include "my_format.c"
#ifdef ATOMICS
#include "atomic.h"
#include "atomic_64.h"
#ifndef REPLAY	/* cbmc lacks these two built-ins on pointers */
#define __sync_fetch_and_add(p, n) ({ __typeof__(*(p)) o_ = *(p); *(p) = (char *) o_ + (n); o_; })
#define __sync_bool_compare_and_swap(p, o, n) ({ bool r_ = *(p) == (o); if (r_) *(p) = (n); r_; })
#endif
#include "atomic_ptr.h"
#endif

/* ---- L15 ---- */
#ifndef VBASE
#define VBASE 0
#endif
#ifndef VMAX
#define VMAX 65535
#endif
void h_u64(void)
{
	char *dst = (char *) ND_tail(D, D);
	uint64_t v = VBASE + ND_raw(VMAX);
	const char *start = NULL;
	char save0 = dst[0];
	size_t nd = my_uint64_to_str(v, dst, D, &start);
	CHECK(dst[D - 1] == 0, "terminated at the end of the buffer");
	CHECK(start >= dst && start < dst + D, "start within the buffer");
	CHECK(nd == (size_t) (dst + D - 1 - start), "number of digits");
	CHECK(nd >= 1, "at least one digit");
	/* the digits denote the value, or its last D-1 digits */
	uint64_t w = v;
	for (int i = 0; i < D - 1; i++) {
		int at = D - 2 - i;
		if ((size_t) i < nd) { CHECK(dst[at] == (char) ('0' + w % 10), "digit"); w /= 10; }
	}
	if (nd < D - 1) { CHECK(w == 0, "nothing lost"); CHECK(nd == 1 || *start != '0', "no leading zero"); }
	if (nd + 1 < D) CHECK(dst[0] == save0, "padding untouched");
	REACH("done");
}
void h_hexs(void)
{
	uint8_t *s = ND_tail(N, N);
	char *dst = (char *) ND_tail(D, D);
	bool up = ND_bool();
	size_t fit = (D - 1) / 2 < N ? (D - 1) / 2 : N;
	size_t r = my_bytes_to_hex_str(s, N, up, dst, D);
	CHECK(r == 2 * fit, "formatted length");
	CHECK(dst[2 * fit] == 0, "terminated");
	for (size_t i = 0; i < 2 * fit; i++) {
		unsigned d = i % 2 ? s[i / 2] & 15u : s[i / 2] >> 4;
		CHECK(dst[i] == (char) (d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10), "hexadecimal digit");
	}
	REACH("done");
}
void h_hex16(void)
{
	char *dst = (char *) ND_tail(5, 5);
	uint16_t v = ND_u16();
	bool up = ND_bool();
	CHECK(my_uint16_to_hex_str(v, up, dst, 5) == 4, "four digits");
	for (int i = 0; i < 4; i++) { unsigned d = v >> (12 - 4 * i) & 15u; CHECK(dst[i] == (char) (d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10), "digit"); }
	CHECK(dst[4] == 0, "terminated");
	REACH("done");
}
/* ---- L18 ---- */
void h_read(void)
{
	uint8_t *b = ND_tail(N + 1, N);
	for (int i = 0; i < N; i++) src[i] = ND_u8();
	errno = 0;
	bool ok = read_bytes(7, b, N);
	CHECK(ok == (src_pos == N), "success exactly if everything was read");
	CHECK(ok == !(failed || eof), "failure exactly on error or end of file");
	if (ok) for (int i = 0; i < N; i++) CHECK(b[i] == src[i], "bytes in order");
	REACH_IF(ok && reads > 1, "short reads joined");
	REACH_IF(!ok, "failure");
}
/* ---- L20 ---- */
void h_print(void)
{
	uint8_t *s = ND_tail(N, N);
	print_string(s, N, NULL);
	/* undo it */
	size_t p = 0;
	CHECK(outn >= 2 && outb[p++] == '"', "opening quote");
	for (int i = 0; i < N; i++) {
		uint8_t c = (uint8_t) outb[p];
		if (c == '\\' && outb[p + 1] == 'x') {
			unsigned v = 0;
			for (int j = 2; j < 4; j++) { char h = outb[p + j]; unsigned d = h >= '0' && h <= '9' ? (unsigned) (h - '0') : h >= 'a' && h <= 'f' ? (unsigned) (h - 'a' + 10) : 99; CHECK(d < 16, "two digits"); v = v * 16 + d; }
			CHECK(v == s[i], "escaped byte"); p += 4;
			CHECK(s[i] < 0x20 || s[i] > 0x7e, "only unprintable bytes are written in hexadecimal");
		} else if (c == '\\') { CHECK((uint8_t) outb[p + 1] == s[i], "escaped character"); p += 2; CHECK(s[i] == '"' || s[i] == '\\', "only quotes and backslashes are escaped"); }
		else { CHECK(c == s[i], "plain character"); CHECK(c != '"' && c >= 0x20 && c <= 0x7e, "printable and not a quote"); p++; }
	}
	CHECK(p + 1 == outn && outb[p] == '"', "closing quote");
	REACH("done");
}
/* ---- L21 ---- */
#ifdef ATOMICS
void h_atomic(void)
{
	int a = (int) ND_range(0, 0x3fffffff), i = (int) ND_range(0, 0x3fffffff); if (ND_bool()) a = -a; if (ND_bool()) i = -i;
	atomic_t v = ATOMIC_INIT(a);
	CHECK(atomic_read(&v) == a, "initial value");
	atomic_add(i, &v); CHECK(atomic_read(&v) == a + i, "add");
	atomic_sub(i, &v); CHECK(atomic_read(&v) == a, "sub");
	atomic_inc(&v); CHECK(atomic_read(&v) == a + 1, "increment");
	atomic_dec(&v); CHECK(atomic_read(&v) == a, "decrement");
	CHECK(!!atomic_sub_and_test(i, &v) == (a == i), "subtract and test"); CHECK(atomic_read(&v) == a - i, "subtracted");
	atomic_set(&v, a); CHECK(!!atomic_dec_and_test(&v) == (a == 1), "decrement and test"); CHECK(atomic_read(&v) == a - 1, "decremented");
	atomic_set(&v, a); CHECK(!!atomic_inc_and_test(&v) == (a == -1), "increment and test"); CHECK(atomic_read(&v) == a + 1, "incremented");
	atomic_set(&v, a); CHECK(!!atomic_add_negative(i, &v) == (a + i < 0), "add and test sign"); CHECK(atomic_read(&v) == a + i, "added");
	atomic_set(&v, a); CHECK(atomic_zero(&v) == a, "zero returns the old value"); CHECK(atomic_read(&v) == 0, "zeroed");
	REACH("done");
}
void h_atomic64(void)
{
	int64_t a = (int64_t) ND_raw(INT64_MAX / 2); int i = (int) ND_raw(INT_MAX); if (ND_bool()) a = -a; if (ND_bool()) i = -i;
	atomic64_t v = ATOMIC64_INIT(a);
	CHECK(atomic64_read(&v) == a, "initial value");
	atomic64_add(i, &v); CHECK(atomic64_read(&v) == a + i, "add");
	atomic64_sub(i, &v); CHECK(atomic64_read(&v) == a, "sub");
	atomic64_inc(&v); CHECK(atomic64_read(&v) == a + 1, "increment");
	atomic64_dec(&v); CHECK(atomic64_read(&v) == a, "decrement");
	CHECK(!!atomic64_sub_and_test(i, &v) == (a == i), "subtract and test"); CHECK(atomic64_read(&v) == a - i, "subtracted");
	atomic64_set(&v, a); CHECK(!!atomic64_dec_and_test(&v) == (a == 1), "decrement and test"); CHECK(atomic64_read(&v) == a - 1, "decremented");
	atomic64_set(&v, a); CHECK(!!atomic64_inc_and_test(&v) == (a == -1), "increment and test"); CHECK(atomic64_read(&v) == a + 1, "incremented");
	atomic64_set(&v, a); CHECK(!!atomic64_add_negative(i, &v) == (a + i < 0), "add and test sign"); CHECK(atomic64_read(&v) == a + i, "added");
	atomic64_set(&v, a); CHECK(atomic64_zero(&v) == a, "zero returns the old value"); CHECK(atomic64_read(&v) == 0, "zeroed");
	REACH("done");
}
void h_atomic_ptr(void)
{
	static char objs[4];
	unsigned x = (unsigned) ND_raw(3), y = (unsigned) ND_raw(3);
	atomic_ptr_t v = { &objs[x] };
	CHECK(atomic_ptr_get(&v) == &objs[x], "get");
	CHECK(atomic_ptr_set(&v, &objs[y]), "set succeeds without contention");
	CHECK(atomic_ptr_get(&v) == &objs[y], "value set");
	REACH("done");
}
#endif
/* ---- L22 ---- */
void h_env(void)
{
	char *s = (char *) ND_tail(N + 1, N + 1);
	s[N] = 0;
	for (int i = 0; i < N; i++) ASSUME(s[i] != 0);
	/* a number: digits, optionally 0x..., octal after a leading 0; signs and blanks as strtoul takes them are not decided */
	for (int i = 0; i < N; i++) ASSUME(s[i] != '-' && s[i] != '+' && s[i] != ' ' && !(s[i] >= 9 && s[i] <= 13));
	env = s;
	uint64_t v = 0;
	int b = 10, st = 0; bool num = N > 0; uint64_t w = 0;
	if (N > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { b = 16; st = 2; }
	else if (N > 1 && s[0] == '0') { b = 8; }
	for (int i = st; i < N; i++) {
		int c = s[i], d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
		if (d >= b) num = false; else w = w * (unsigned) b + (unsigned) d;
	}
	bool ok = getenv_int("NAME", &v);
	CHECK(asked, "asks for the named variable");
	CHECK(ok == num, "succeeds exactly for a number");
	if (ok && num) CHECK(v == w, "value");
	REACH_IF(!ok, "refused");
#if N > 0
	REACH_IF(ok, "number");
#endif
}
void h_env_unset(void)
{
	uint64_t v = 5;
	env = NULL;
	CHECK(!getenv_int("NAME", &v), "unset variable");
	REACH("done");
}
/* twenty digits: too large or just fitting */
void h_env_big(void)
{
	static char s[21];
	static const char max[] = "18446744073709551615";
	for (int i = 0; i < 20; i++) s[i] = i < 17 ? max[i] : (char) ('0' + ND_raw(9));
	env = s;
	int c = 0;
	for (int i = 0; i < 20; i++) if (c == 0 && s[i] != max[i]) c = s[i] < max[i] ? -1 : 1;
	uint64_t v = 0;
	bool ok = getenv_int("NAME", &v);
	CHECK(ok == (c <= 0), "a number that does not fit is refused");
	REACH_IF(c > 0, "too large"); REACH_IF(c < 0, "fits");
}
