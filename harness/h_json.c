/* D15: entries as JSON and as text.  The output is read back by a streaming
 * JSON parser and compared, token by token, with what the entry holds. */
#include "vh.h"
#include "vh_libc.h"
#include <time.h>
#include <stdarg.h>
#include <limits.h>
/* ---- numbers in base ten: division by ten by its definition ---- */
#ifndef REPLAY
uint64_t nondet_q(void); uint8_t nondet_r(void);
static uint64_t vh_div10(uint64_t v)
{
#ifdef DIGIT1	/* every number has one digit */
	__CPROVER_assert(v <= 9, "CHECK model: one digit");
	return 0;
#endif
	uint64_t q = nondet_q(); uint8_t r = nondet_r();
	__CPROVER_assume(q <= UINT64_MAX / 10 && r <= 9 && q * 10 + r >= q && (q << 3) + (q << 1) + r == v && (q << 3) + (q << 1) <= v);
	return q;
}
static uint64_t vh_mod10(uint64_t v) { uint64_t q = vh_div10(v); return v - ((q << 3) + (q << 1)); }
#define vh_div10(v) _Generic((v), uint64_t: (vh_div10)(v), default: (v) / 10)
#define vh_mod10(v) _Generic((v), uint64_t: (vh_mod10)(v), default: (v) % 10)
#else
#define vh_div10(v) ((v) / 10)
#define vh_mod10(v) ((v) % 10)
#endif

#ifndef SL	/* characters in a text */
#define SL 1
#endif
/* ---- what the output must say ---- */
#define STRC 0x200u	/* a character inside a string */
#define NUMT 0x400u	/* a number */
#define HEXC 0x1000u	/* a digit in base sixteen */
#define SNUM 0x800u	/* a number inside a string */
#ifndef NEXP
#define NEXP 220
#endif
static uint32_t expd[NEXP + 1]; static unsigned nexp, pos;
static uint64_t nums[8]; static unsigned nnums;
#ifdef TEXT
#define INSTR 0u
#else
#define INSTR STRC
#endif
static void x_tok(uint32_t t) { expd[nexp++] = t; }
static void x_raw(const char *s) { for (unsigned i = 0; s[i]; i++) x_tok((uint8_t) s[i]); }
static void x_chars(const char *s) { for (unsigned i = 0; s[i]; i++) x_tok(INSTR | (uint8_t) s[i]); }
static void x_str(const char *s) { x_tok('"'); x_chars(s); x_tok('"'); }
static void x_ntext(const char *s) { for (unsigned i = 0; i < SL; i++) x_tok(INSTR | (uint8_t) s[i]); }
static void x_text(const char *s) { x_tok('"'); x_ntext(s); x_tok('"'); }
static void x_num(uint64_t v) { nums[nnums] = v; x_tok(NUMT | nnums++); }
static void x_snum(uint64_t v) { nums[nnums] = v; x_tok(SNUM | nnums++); }
static bool first = true;
static void x_key(const char *s) { if (!first) x_tok(','); first = false; x_str(s); x_tok(':'); }
/* ---- reading the output ---- */
#define SEP 0xff	/* grouping character of the modelled locale */
static enum { OUT, NUM, IN, ESC, U1, U2, U3, U4 } st;
static uint64_t acc; static unsigned nd;
static void expect(uint32_t t) { CHECK(pos < nexp && expd[pos] == t, "the output says what the entry holds"); pos++; }
static void digit(uint8_t c)
{
	CHECK(!(nd > 0 && acc == 0), "no leading zeros");
	CHECK(acc < UINT64_MAX / 10 || (acc == UINT64_MAX / 10 && c <= '5'), "the number fits 64 bits");
	acc = (acc << 3) + (acc << 1) + (uint64_t) (c - '0'); nd++;
}
static void number_ends(uint32_t kind)
{
	CHECK(nd > 0, "a number is where one is due");
	CHECK(pos < nexp && (expd[pos] & 0xf00) == kind && acc == nums[expd[pos] & 7], "the number is the stored one");
	pos++; acc = 0; nd = 0;
}
#ifndef TEXT
static void outside(uint8_t c)
{
	if (pos < nexp && (expd[pos] & NUMT)) { CHECK(c >= '0' && c <= '9', "a number is where one is due"); st = NUM; digit(c); return; }
	st = c == '"' ? IN : OUT;
	expect(c);
}
static void feed(uint8_t c)
{
	CHECK(c != 0, "no null byte inside the output");
	switch (st) {
	case OUT: outside(c); break;
	case NUM:
		if (c >= '0' && c <= '9') { digit(c); break; }
		number_ends(NUMT);
		outside(c);
		break;
	case IN:
		if (pos < nexp && (expd[pos] & HEXC)) { CHECK((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'), "raw data is in base sixteen"); expect(HEXC | c); break; }
		if (pos < nexp && (expd[pos] & SNUM)) {
			if (c >= '0' && c <= '9') { digit(c); break; }
			number_ends(SNUM);
		}
		CHECK(c >= 0x20, "control characters are escaped");
		if (c == '\\') st = ESC;
		else if (c == '"') { expect('"'); st = OUT; }
		else expect(STRC | c);
		break;
	case ESC:
		st = IN;
		if (c == 'u') { st = U1; acc = 0; }
		else if (c == 'b') expect(STRC | '\b');
		else if (c == 'f') expect(STRC | '\f');
		else if (c == 'n') expect(STRC | '\n');
		else if (c == 'r') expect(STRC | '\r');
		else if (c == 't') expect(STRC | '\t');
		else { CHECK(c == '"' || c == '\\' || c == '/', "escapes are ones JSON knows"); expect(STRC | c); }
		break;
	default: {
		uint8_t h = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
		CHECK(h != 99, "four hexadecimal digits follow");
		acc = acc << 4 | h;
		if (st == U1) st = U2; else if (st == U2) st = U3; else if (st == U3) st = U4;
		else { st = IN; CHECK(acc < 0x200, "the escape stands for a byte"); expect(STRC | (uint32_t) acc); acc = 0; }
	} }
}
#else
static void feed(uint8_t c)
{
	CHECK(c != 0, "no null byte inside the output");
	if (pos < nexp && (expd[pos] & (NUMT | SNUM))) {
		if (c >= '0' && c <= '9') { digit(c); return; }
		if (c == SEP && (expd[pos] & NUMT)) return;
		number_ends(expd[pos] & 0xf00);
	}
	expect(c);
}
#endif
static bool finished; static char vh_result[1];
static void finish(void)
{
	CHECK(st == OUT && pos == nexp, "the output is complete");
	finished = true;
}

/* ---- the buffer being written is read at once ---- */
#include "libmy/my_alloc.h"
#include "libmy/ubuf.h"
#ifndef REPLAY
static ubuf *vh_main; static bool armed;
static ubuf *vh_ubuf_init(unsigned n) { ubuf *u = ubuf_init(n); if (armed && vh_main == NULL) vh_main = u; return u; }
/* The texts of the entry hold SL characters, none of them null.  Telling the
 * solver their length where strlen is called keeps loops over them short. */
static const char *texts[6]; static unsigned ntexts;
static bool is_text(const void *p)
{
	for (unsigned i = 0; i < ntexts; i++) if (__CPROVER_POINTER_OBJECT(p) == __CPROVER_POINTER_OBJECT(texts[i])) return true;
	return false;
}
static void known_text(const char *t) { if (ntexts == 0 || !is_text(t)) texts[ntexts++] = t; }
static size_t vh_strlen(const char *s)
{
	for (unsigned i = 0; i < ntexts; i++)
		if (s == texts[i]) {
			for (unsigned k = 0; k < SL; k++) CHECK(s[k] != '\0', "model: length of a text");
			CHECK(s[SL] == '\0', "model: length of a text");
			return SL;
		}
	return strlen(s);
}
static void vh_ubuf_append(ubuf *u, const uint8_t *p, size_t n)
{
	if (u != vh_main) { ubuf_append(u, p, n); return; }
	for (size_t i = 0; i < n; i++) {
		if (i >= SL && is_text(p)) { CHECK(false, "model: length of a text"); break; }
		feed(p[i]);
	}
}
static void vh_ubuf_add(ubuf *u, uint8_t c) { if (u == vh_main) feed(c); else ubuf_add(u, c); }
static void vh_ubuf_add_cstr(ubuf *u, const char *s)
{
	if (u != vh_main) { ubuf_add_cstr(u, s); return; }
	vh_ubuf_append(u, (const uint8_t *) s, vh_strlen(s));
}
static void vh_ubuf_cterm(ubuf *u) { if (u == vh_main) finish(); else ubuf_cterm(u); }
static void vh_ubuf_detach(ubuf *u, uint8_t **p, size_t *n)
{
	if (u != vh_main) { ubuf_detach(u, p, n); return; }
	CHECK(finished, "the output is terminated"); *p = (uint8_t *) vh_result; *n = 1;
}
#define strlen vh_strlen
#define ubuf_init vh_ubuf_init
#define ubuf_append vh_ubuf_append
#define ubuf_add vh_ubuf_add
#define ubuf_add_cstr vh_ubuf_add_cstr
#define ubuf_cterm vh_ubuf_cterm
#define ubuf_detach vh_ubuf_detach
#define KNOWN known_text
#else
#define KNOWN(t) ((void) (t))
#endif

/* ---- formatting functions of the C library ---- */
static unsigned group;	/* bytes of the locale's grouping character, 0 for none */
static int vh_vfmt(char *s, size_t size, const char *f, va_list ap)
{
	size_t n = 0;
#define PUT(c) do { if (n + 1 < size) s[n] = (char) (c); n++; } while (0)
	for (unsigned i = 0; f[i] != '\0'; i++) {
		if (f[i] != '%') { PUT(f[i]); continue; }
		bool grp = false, lng = false, half = false; unsigned width = 0;
		for (i++;; i++) {
			if (f[i] == '\'') grp = true;
			else if (f[i] == 'l') lng = true;
			else if (f[i] == 'h') half = true;
			else if (f[i] >= '0' && f[i] <= '9') width = width * 10 + (unsigned) (f[i] - '0');
			else if (f[i] != '.') break;
		}
		if (f[i] == 's') { const char *t = va_arg(ap, const char *); for (unsigned k = 0; t[k]; k++) PUT(t[k]); continue; }
		uint64_t v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
		if (half) v &= 0xffff;
		if (f[i] == 'x') {
			CHECK(width == 2, "model: only bytes are printed in base sixteen");
			v &= 0xff;	/* cbmc does not promote what is passed */
			PUT("0123456789abcdef"[v >> 4]); PUT("0123456789abcdef"[v & 15]);
			continue;
		}
		CHECK(f[i] == 'u' || f[i] == 'd', "model: conversion known");
		char dig[20]; unsigned k = 0;
		do { uint64_t q = vh_div10(v); dig[k++] = (char) ('0' + (v - ((q << 3) + (q << 1)))); v = q; } while (v != 0 && k < 20);
		ASSUME(v == 0);
		while (k > 0) {
			k--; PUT(dig[k]);
			if (grp && k > 0 && k % 3 == 0) for (unsigned g = 0; g < group; g++) PUT(SEP);
		}
	}
	if (size > 0) s[n < size ? n : size - 1] = '\0';
	return (int) n;
}
static int vh_snprintf(char *s, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vh_vfmt(s, n, f, ap); va_end(ap); return r; }
static int vh_sprintf(char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vh_vfmt(s, (size_t) INT_MAX, f, ap); va_end(ap); return r; }
#define snprintf vh_snprintf
#undef sprintf
#define sprintf vh_sprintf
/* the calendar: any date on the right side of the limits that matter */
static struct { uint64_t v; struct tm tm; bool none; } cal[2];
static struct tm *vh_gmtime(const time_t *t, struct tm *out)
{
	for (unsigned i = 0; i < 2; i++)
		if ((uint64_t) *t == cal[i].v) { if (cal[i].none) return NULL; *out = cal[i].tm; return out; }
	CHECK(false, "only stored times are converted");
	return NULL;
}
#define gmtime_r vh_gmtime
static unsigned two(char *s, unsigned n, unsigned v) { s[n] = (char) ('0' + v / 10); s[n + 1] = (char) ('0' + v % 10); return n + 2; }
static size_t vh_strftime(char *s, size_t max, const char *f, const struct tm *t)
{
	char b[48]; unsigned n = 0;
	for (unsigned i = 0; f[i]; i++) {
		if (f[i] != '%') { b[n++] = f[i]; continue; }
		i++;
		if (f[i] == 'Y') {
			unsigned y = 1900u + (unsigned) t->tm_year;
			ASSUME(y >= 1000 && y <= 99999);
			if (y > 9999) { b[n++] = (char) ('0' + y / 10000); y %= 10000; }
			n = two(b, n, y / 100); n = two(b, n, y % 100);
		} else if (f[i] == 'm') n = two(b, n, 1u + (unsigned) t->tm_mon);
		else if (f[i] == 'd') n = two(b, n, (unsigned) t->tm_mday);
		else if (f[i] == 'H') n = two(b, n, (unsigned) t->tm_hour);
		else if (f[i] == 'M') n = two(b, n, (unsigned) t->tm_min);
		else if (f[i] == 'S') n = two(b, n, (unsigned) t->tm_sec);
		else CHECK(false, "model: conversion known");
	}
	if (n + 1 > max) return 0;
	for (unsigned i = 0; i < n; i++) s[i] = b[i];
	s[n] = '\0';
	return n;
}
#define strftime vh_strftime

#include "dnstable/dnstable-private.h"
#include "mtbl_varint_model.h"
#include "wdns_model.h"
#ifndef REPLAY
#include "my_format.c"
#include "div10_dnstable-json.h"
#endif
#include "dnstable/triplet.c"
#include "dnstable/entry.c"
#undef ubuf_init
#undef ubuf_append

/* ---- the entry and its texts ---- */
#ifndef TYPE
#define TYPE 0
#endif
#ifndef R
#define R 1
#endif
static char t_name[4], t_bail[4], t_data[2][4], t_type[2][3];
static uint8_t w_name[2], w_bail[2];
static uint16_t rrtype;
static const wdns_rdata_t *rd[2];
static void text(char *t, unsigned n)
{
	for (unsigned i = 0; i < n; i++) {
#ifdef PLAIN
		t[i] = PLAIN;
#else
		t[i] = (char) ND_range(1, 255);
#endif
	}
	t[n] = '\0';
}
size_t wdns_domain_to_str(const uint8_t *src, size_t n, char *dst)
{
	const char *t = src == w_name ? t_name : t_bail;
	CHECK((src == w_name && n == 1) || (src == w_bail && n == 2), "a name of the entry is printed");
	size_t i;
	for (i = 0; i < SL; i++) dst[i] = t[i];
	dst[i] = '\0';
	KNOWN(dst);
	return i + 1;
}
const char *wdns_rrtype_to_str(uint16_t t)
{
	if (t & 1) return NULL;
	t_type[0][0] = 'N'; t_type[0][1] = (char) ('a' + (t >> 1) % 16); t_type[0][2] = 0;
	return t_type[0];
}
char *wdns_rdata_to_str(const uint8_t *r, uint16_t l, uint16_t t, uint16_t c)
{
	unsigned i = R > 1 && r == rd[1]->data ? 1 : 0;
	CHECK(r == rd[i]->data && l == rd[i]->len, "data of the entry is printed");
	CHECK(t == rrtype && c == WDNS_CLASS_IN, "as data of its type");
	char *s = malloc(SL + 1);
	for (unsigned k = 0; k < SL; k++) s[k] = t_data[i][k];
	s[SL] = '\0';
	KNOWN(s);
	return s;
}
static void x_type(uint16_t t)
{
	if (t & 1) { x_chars("TYPE"); x_snum(t); }
	else { x_tok(INSTR | 'N'); x_tok(INSTR | (uint32_t) ('a' + (t >> 1) % 16)); }
}
static void x_type_str(uint16_t t) { x_tok('"'); x_type(t); x_tok('"'); }
#define LAST_RFC 253402300799ull
static void time_at(unsigned i, uint64_t v)
{
	struct tm *t = &cal[i].tm;
	cal[i].v = v;
	t->tm_mon = (int) ND_range(0, 11); t->tm_mday = (int) ND_range(1, 31); t->tm_hour = (int) ND_range(0, 23); t->tm_min = (int) ND_range(0, 59); t->tm_sec = (int) ND_range(0, 59);
	/* 1970..9999, later, or (of a value read as negative) earlier */
	uint64_t y = ND_raw(2000);
	if (v <= LAST_RFC) t->tm_year = 70 + (int) (ND_raw(8029));
	else if (v <= INT64_MAX) { t->tm_year = 8100 + (int) y; cal[i].none = v > 67768036191676799ull; }
	else { t->tm_year = 69 - (int) (y % 900); cal[i].none = v < (uint64_t) -67768040609740800ll; }
}
static void x_two(unsigned v) { x_tok(INSTR | ('0' + v / 10)); x_tok(INSTR | ('0' + v % 10)); }
static void x_time(unsigned i)
{
	const struct tm *t = &cal[i].tm;
	unsigned y = 1900u + (unsigned) t->tm_year;
#ifdef RFC
	if (cal[i].v > LAST_RFC) { x_num(cal[i].v); return; }
#ifndef TEXT
	x_tok('"');
#endif
	x_two(y / 100); x_two(y % 100); x_tok(INSTR | '-'); x_two(1u + (unsigned) t->tm_mon); x_tok(INSTR | '-'); x_two((unsigned) t->tm_mday); x_tok(INSTR | 'T');
	x_two((unsigned) t->tm_hour); x_tok(INSTR | ':'); x_two((unsigned) t->tm_min); x_tok(INSTR | ':'); x_two((unsigned) t->tm_sec); x_tok(INSTR | 'Z');
#ifndef TEXT
	x_tok('"');
#endif
#elif defined(TEXT)
	if (cal[i].v > INT64_MAX || cal[i].none) { x_num(cal[i].v); return; }
	if (y > 9999) { x_tok('0' + y / 10000); y %= 10000; }
	x_two(y / 100); x_two(y % 100); x_tok('-'); x_two(1u + (unsigned) t->tm_mon); x_tok('-'); x_two((unsigned) t->tm_mday); x_tok(' ');
	x_two((unsigned) t->tm_hour); x_tok(':'); x_two((unsigned) t->tm_min); x_tok(':'); x_two((unsigned) t->tm_sec); x_raw(" -0000");
#else
	x_num(cal[i].v);
#endif
}
static void x_hex(const uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) { x_tok(HEXC | (uint8_t) "0123456789abcdef"[p[i] >> 4]); x_tok(HEXC | (uint8_t) "0123456789abcdef"[p[i] & 15]); } }
static struct dnstable_entry ent;
#ifndef TMAX
#define TMAX UINT64_MAX
#endif
#ifndef TMIN
#define TMIN 0
#endif
#ifndef CMAX
#define CMAX UINT64_MAX
#endif
#ifndef RL
#define RL 1
#endif
static uint64_t stored_time(void) { return ND_range(TMIN, TMAX); }

static void run(void)
{
	struct dnstable_formatter *f = dnstable_formatter_init();
	char *s;
#ifdef TEXT
	dnstable_formatter_set_output_format(f, dnstable_output_format_text);
#endif
#ifdef RFC
	dnstable_formatter_set_date_format(f, dnstable_date_format_rfc3339);
#endif
#ifdef ARRAY
	dnstable_formatter_set_rdata_array(f, true);
#endif
#ifdef RAW
	dnstable_formatter_set_raw_rdata(f, true);
#endif
#ifndef REPLAY
	armed = true;
#endif
#ifdef DEFAULT
#ifdef TEXT
	s = dnstable_entry_to_text(&ent);
#else
	s = dnstable_entry_to_json(&ent);
#endif
#else
	s = dnstable_entry_format(f, &ent);
#endif
	CHECK(s != NULL, "the entry is printed");
#ifdef REPLAY
	for (size_t i = 0; s[i] != '\0'; i++) feed((uint8_t) s[i]);
	finish();
	free(s);
#else
	CHECK(finished, "the output is terminated");
#endif
	dnstable_formatter_destroy(&f);
	REACH("printed");
}
static void common(void)
{
	group = (unsigned) ND_raw(3);
	ent.e_type = TYPE;
	text(t_name, SL); text(t_bail, SL);
	ent.name.data = w_name; ent.name.len = 1; ent.bailiwick.data = w_bail; ent.bailiwick.len = 2;
	ent.time_first = stored_time(); ent.time_last = stored_time(); ent.count = ND_range(0, CMAX);
	ASSUME(ent.time_first != ent.time_last);
	time_at(0, ent.time_first); time_at(1, ent.time_last);
#ifdef RT
	rrtype = RT;
#else
	rrtype = ND_u16();
#endif
	ent.rrtype = rrtype;
	ent.iszone =
#ifdef ZONE
		true;
#else
		false;
#endif
	ent.rdatas = rdata_vec_init(2);
	for (unsigned i = 0; i < R; i++) {
		wdns_rdata_t *r = malloc(sizeof(*r) + 4);
		r->len = RL;
		for (unsigned k = 0; k < RL; k++) r->data[k] = ND_u8();
		rd[i] = r;
		text(t_data[i], SL);
		rdata_vec_add(ent.rdatas, r);
	}
}
void h_json(void)
{
	common();
#ifndef TEXT
	x_tok('{');
#if TYPE == 0 || TYPE == 2
	x_key("count"); x_num(ent.count);
	x_key(ent.iszone ? "zone_time_first" : "time_first"); x_time(0);
	x_key(ent.iszone ? "zone_time_last" : "time_last"); x_time(1);
	x_key("rrname"); x_text(t_name);
	x_key("rrtype"); x_type_str(rrtype);
#if TYPE == 0
	x_key("bailiwick"); x_text(t_bail);
	bool arr = true;
#else
	bool arr = false;
#ifdef ARRAY
	arr = true;
#endif
#endif
	x_key("rdata");
	if (arr) x_tok('[');
	for (unsigned i = 0; i < R; i++) { if (i) x_tok(','); x_text(t_data[i]); }
	if (arr) x_tok(']');
#ifdef RAW
	x_key("rdata_raw");
	if (arr) x_tok('[');
	for (unsigned i = 0; i < R; i++) {
		if (i) x_tok(',');
		x_tok('"'); x_hex(rd[i]->data, RL);
#if TYPE == 0
#if RT < 128
		uint8_t v[1] = { RT }; x_hex(v, 1);
#elif RT < 16384
		uint8_t v[2] = { (RT & 127) | 128, RT >> 7 }; x_hex(v, 2);
#else
		uint8_t v[3] = { (RT & 127) | 128, (RT >> 7 & 127) | 128, RT >> 14 }; x_hex(v, 3);
#endif
#endif
		x_tok('"');
	}
	if (arr) x_tok(']');
#endif
#elif TYPE == 1 || TYPE == 3
	x_key(TYPE == 1 ? "rrset_name" : "rdata_name"); x_text(t_name);
	x_key("rrtypes"); x_tok('[');
#if MAPL > 0
	uint8_t m[MAPL] = { MAP };
	uint16_t ty[] = { TYPES };
#ifdef ANYTYPE
	ty[0] = rrtype; m[0] = (uint8_t) (MAPL == 2 ? rrtype >> 8 : rrtype); if (MAPL == 2) m[MAPL - 1] = (uint8_t) rrtype; else ASSUME(rrtype < 256);
#endif
	ent.rrtype_map = ubuf_init(8); ubuf_append(ent.rrtype_map, m, MAPL);
	for (unsigned i = 0; i < sizeof ty / sizeof *ty; i++) { if (i) x_tok(','); x_type_str(ty[i]); }
#endif
	x_tok(']');
#elif TYPE == 254	/* time range */
	x_key("time_first"); x_time(0);
	x_key("time_last"); x_time(1);
#elif TYPE == 253
	ent.source_info = ubuf_init(8); ubuf_append(ent.source_info, (const uint8_t *) t_name, SL + 1);
	KNOWN((const char *) ubuf_data(ent.source_info));
	x_key("source info"); x_text(t_name);
#else
	ent.v_type = (dnstable_entry_type) VT; ent.version = ND_u32();
	x_key("entry_type"); x_tok('"'); x_chars(VTNAME);
#ifdef VTNUM
	x_snum(VT);
#endif
	x_tok('"');
	x_key("version"); x_num(ent.version);
#endif
	x_tok('}');
#else
#if TYPE == 0
	x_raw(";;  bailiwick: "); x_ntext(t_bail);
	x_raw("\n;;      count: "); x_num(ent.count);
	x_raw(ent.iszone ? "\n;; first seen in zone file: " : "\n;; first seen: "); x_time(0);
	x_raw(ent.iszone ? "\n;;  last seen in zone file: " : "\n;;  last seen: "); x_time(1);
	x_raw("\n");
#endif
#if TYPE == 0 || TYPE == 2
	for (unsigned i = 0; i < R; i++) {
		x_ntext(t_name); x_raw(" IN "); x_type(rrtype); x_raw(" "); x_ntext(t_data[i]); x_raw("\n");
	}
#elif TYPE == 254
	x_raw(";; Earliest time_first: "); x_time(0); x_raw("\n;; Latest time_last: "); x_time(1); x_raw("\n");
#endif
#endif
	run();
}
