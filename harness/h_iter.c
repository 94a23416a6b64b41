/* D14: what a sequence of reads of one result does */
#include "vh.h"
#ifdef CLOCK
#define VH_OWN_CLOCK
#include <time.h>
/* a clock that never goes back; the deadline in force and whether a reading has passed it */
#ifndef MODE
#define MODE 1			/* 1: a deadline, 2: a timeout for each read, 3: both */
#endif
static struct timespec vh_now, vh_first, vh_dl, vh_to;
static unsigned vh_reads;
static bool vh_due, vh_forced;
static bool vh_before(const struct timespec *a, const struct timespec *b) { return a->tv_sec != b->tv_sec ? a->tv_sec < b->tv_sec : a->tv_nsec < b->tv_nsec; }
static void vh_time(struct timespec *t) { t->tv_sec = (time_t) ND_range(0, 1ull << 33); t->tv_nsec = (long) ND_range(0, 999999999); }
static int vh_clock(int c, struct timespec *t)
{
	CHECK(c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_COARSE, "time is measured on the monotonic clock");
	struct timespec n;
	vh_time(&n);
	ASSUME(!vh_before(&n, &vh_now));
	*t = vh_now = n;
	vh_reads++;
	if ((MODE & 1) && !vh_before(&n, &vh_dl)) vh_due = true;
	if (vh_reads == 1) { vh_first = n; if (MODE == 2) vh_due = false; }
	else if (MODE & 2) {
		struct timespec end = { vh_first.tv_sec + vh_to.tv_sec, vh_first.tv_nsec + vh_to.tv_nsec };
		if (end.tv_nsec > 999999999) { end.tv_sec++; end.tv_nsec -= 1000000000; }
		if (!vh_before(&n, &end)) vh_due = true;
	}
	return 0;
}
#include "config.h"
#define clock_gettime vh_clock
static int vh_setjmp(void) { return vh_forced; }
/* the real call unwinds to query_iter_next, which reports the timeout (decided separately); here only whether it may */
static void vh_longjmp(void)
{
	CHECK(vh_due, "a read is abandoned only once its time is up");
	ASSUME(0);
}
#endif
#include "h_query.c"
#ifndef OFF
#define OFF 0
#endif
#ifndef READS
#define READS (NENT + 1)
#endif
static struct dnstable_query *setup(void)
{
#ifdef RDATA
	struct dnstable_query *dq = mkquery(DNSTABLE_QUERY_TYPE_RDATA_NAME);
#else
	struct dnstable_query *dq = mkquery(DNSTABLE_QUERY_TYPE_RRSET);
#endif
#ifdef RDATA
#define MK mkrdata
#else
#define MK mkrrset
#endif
	MK(&e[0], MKNAME(E0), 0);
	if (NENT > 1) MK(&e[1], MKNAME(E1), 1);
	if (NENT > 2) MK(&e[2], MKNAME(E2), 2);
	for (int i = 0; i < NENT; i++) {
		script_add(&vh_data, e[i].k, e[i].nk, e[i].v, 3);
#if WC >= 3 || (defined(RDATA) && WC >= 1 && WC <= 2)
		script_add(&vh_index, e[i].ik, e[i].nik, e[i].iv, e[i].niv);
#endif
#ifdef RDATA
		ASSUME(is_nametype(e[i].rrtype));
#endif
	}
	return dq;
}
#ifdef CLOCK
void h_deadline(void)
{
	struct dnstable_query *dq = setup();
	if (MODE & 1) { vh_time(&vh_dl); CHECK(dnstable_query_set_deadline(dq, &vh_dl) == dnstable_res_success, "a deadline is accepted"); }
	if (MODE & 2) { vh_time(&vh_to); CHECK(dnstable_query_set_timeout(dq, &vh_to) == dnstable_res_success, "a timeout is accepted"); }
	if (MODE == 0) {
		struct timespec t = { 0, 0 };
		dnstable_query_set_deadline(dq, &t); dnstable_query_set_timeout(dq, &t);
		dnstable_query_set_deadline(dq, NULL); dnstable_query_set_timeout(dq, NULL);
	}
	vh_time(&vh_now);
	int got = 0;
	struct mtbl_source *s = vh_script_source();
	struct dnstable_iter *it = dnstable_query_iter(dq, s);
	CHECK(it != NULL, "the query can be run");
	for (int i = 0; i < READS; i++) {
		unsigned nnext = vh_nnext;
		struct dnstable_entry *d = NULL;
		vh_reads = 0; vh_due = false;
		dnstable_res res = dnstable_iter_next(it, &d);
		CHECK(!vh_due, "a read whose time is up does not go on");
		if (MODE) CHECK(vh_reads - (MODE & 2 ? 1 : 0) >= vh_nnext - nnext, "the clock is consulted for every entry looked at");
		if (res != dnstable_res_success) break;
		dnstable_entry_destroy(&d);
		got++;
	}
	REACH_IF(got, "read");
#ifndef NONEMPTY
	REACH_IF(!got, "none left");
#endif
	dnstable_iter_destroy(&it);
	dnstable_query_destroy(&dq);
}
/* when the time is up, that is what is reported */
void h_timeout(void)
{
	struct dnstable_query *dq = setup();
	vh_time(&vh_to);
	CHECK((MODE & 1 ? dnstable_query_set_deadline(dq, &vh_to) : dnstable_query_set_timeout(dq, &vh_to)) == dnstable_res_success, "a deadline is accepted");
	struct mtbl_source *s = vh_script_source();
	struct dnstable_iter *it = dnstable_query_iter(dq, s);
	struct dnstable_entry *d = NULL;
	vh_forced = true;
	CHECK(dnstable_iter_next(it, &d) == dnstable_res_timeout && d == NULL, "a read that is abandoned reports the timeout");
	REACH("timeout");
	dnstable_iter_destroy(&it);
	CHECK(vh_live_iters == 0, "everything opened is closed after a timeout");
	dnstable_query_destroy(&dq);
}
#else
/* OFF matching entries are passed over, the others returned in order, each time the query is run */
void h_offset(void)
{
	struct dnstable_query *dq = setup();
	CHECK(dnstable_query_set_offset(dq, OFF) == dnstable_res_success, "an offset is accepted");
	struct mtbl_source *s = vh_script_source();
	for (int run = 0; run < 2; run++) {
		struct dnstable_iter *it = dnstable_query_iter(dq, s);
		struct dnstable_entry *d = NULL;
		uint64_t left = OFF;
		for (int i = 0; i < NENT; i++) {
#if defined(ET)
			if (ET != WT && i < NENT - 1) continue;
#endif
			/* the last entry matches if it is presented */
			bool want = i < NENT - 1 || (name_match(&e[i].owner, &q, WC, keep) && (!RT || e[i].rrtype == want_rrtype));
			if (left > 0) { left--; continue; }
			dnstable_res res = dnstable_iter_next(it, &d);
			CHECK((res == dnstable_res_success) == want, "results after the offset are returned");
			if (want) CHECK(is_entry(&e[i]), "results are returned in order");
			if (!want) break;
		}
		CHECK(dnstable_iter_next(it, &d) == dnstable_res_failure, "after the last result there is none");
		dnstable_iter_destroy(&it);
	}
	REACH("done");
	dnstable_query_destroy(&dq);
}
#ifdef VH_COUNT
#ifndef KIND
#define KIND 0
#endif
/* whatever is read, destroying releases everything */
void h_balance(void)
{
	struct dnstable_query *dq;
	static const uint8_t k2[] = { KEYS };
	long before = vh_live_mem;
	if (KIND == 0) dq = setup();
	else {
		dq = dnstable_query_init(KIND == 1 ? DNSTABLE_QUERY_TYPE_RDATA_IP : KIND == 2 ? DNSTABLE_QUERY_TYPE_RDATA_RAW : KIND == 3 ? DNSTABLE_QUERY_TYPE_VERSION : KIND == 4 ? DNSTABLE_QUERY_TYPE_TIME_RANGE : DNSTABLE_QUERY_TYPE_SOURCE_INFO);
		if (KIND == 1 || KIND == 2) for (int t = 0; t < 2; t++) for (int i = 0; i < 4; i++) vh_addr[t][i] = i + 4 * t;
		if (KIND <= 3) {
			static const char *const text[4] = { "", DATA, "00010203", "rrset" };
			CHECK(dnstable_query_set_data(dq, text[KIND]) == dnstable_res_success, "the data are accepted");
			if (ND_bool()) CHECK(dnstable_query_set_data(dq, text[KIND]) == dnstable_res_success, "the data are accepted again");
		}
		e[0].v[0] = e[0].v[1] = e[0].v[2] = 1;
		script_add(&vh_data, k2, sizeof(k2), e[0].v, 3);
	}
	CHECK(dnstable_query_set_offset(dq, OFF) == dnstable_res_success, "an offset is accepted");
	CHECK(vh_live_mem > before, "allocations are counted");
	struct mtbl_source *s = vh_script_source();
	struct dnstable_iter *it = dnstable_query_iter(dq, s);
	for (int i = 0; i < READS; i++) {
		struct dnstable_entry *d = NULL;
		if (dnstable_iter_next(it, &d) == dnstable_res_success) dnstable_entry_destroy(&d);
	}
	dnstable_iter_destroy(&it);
	dnstable_query_destroy(&dq);
	mtbl_source_destroy(&s);
	CHECK(it == NULL && dq == NULL && vh_live_iters == 0 && vh_live_sources == 0, "everything opened is closed");
	CHECK(vh_live_mem == before, "everything allocated is released");
	REACH("done");
}
#endif
#endif
