/* L11: rate limiter, against an adversarial clock */
#include "vh.h"
#include "vh_libc.h"
#include <time.h>
#define HAVE_CLOCK_GETTIME 1
#define HAVE_CLOCK_NANOSLEEP 1
#ifndef RATE
#define RATE 3
#endif
#ifndef FREQ
#define FREQ 0
#endif
#ifndef CALLS
#define CALLS 3
#endif
static struct timespec clk;	/* current time */
static bool slept; static struct timespec target;
static unsigned nclock;
#ifndef GAP
#define GAP 0
#endif
static uint64_t gap_choice;
static int vh_clock_gettime(clockid_t c, struct timespec *ts) { (void) c; *ts = clk; nclock++; return 0; }
static bool lt(struct timespec a, struct timespec b) { return a.tv_sec < b.tv_sec || (a.tv_sec == b.tv_sec && a.tv_nsec < b.tv_nsec); }
static struct timespec plus(struct timespec a, long ns) { a.tv_nsec += ns; while (a.tv_nsec >= 1000000000) { a.tv_nsec -= 1000000000; a.tv_sec++; } return a; }
static int vh_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rem)
{
	(void) c; (void) rem;
	CHECK(flags == TIMER_ABSTIME, "sleeps until an absolute time");
	CHECK(!slept, "one sleep per call");
	slept = true; target = *t;
	/* wake up late, on time, or early because of a signal */
	uint64_t r = ND_raw(2);
	if (r == 0 || !lt(clk, *t)) clk = *t;
	else if (r == 1) clk = plus(*t, (long) ND_raw(999999999));
	else clk = plus(clk, 0);
	return 0;
}
#define clock_gettime vh_clock_gettime
#define clock_nanosleep vh_nanosleep
#include "my_rate.c"
/* the longest period the limiter may use: 2% over nominal, allowing for rounding */
static long max_period(void) { return (long) (1000000000.0 / RATE * (FREQ ? 1.03 : 1.0)) + 2; }
void h_rate(void)
{
	struct my_rate *r = my_rate_init(RATE, FREQ);
	clk.tv_sec = 1000 + (time_t) ND_raw(3); clk.tv_nsec = (long) ND_raw(999999999);
	struct timespec prev = clk;
	for (int i = 0; i < CALLS; i++) {
		/* work between calls: none, or any amount up to two seconds */
		uint64_t g = ND_raw(3);
		if (i == 0) prev = clk;
		else if (g == 1) clk = plus(clk, (long) ND_raw(999999999));
		else if (g == 2) clk = plus(plus(clk, 999999999), (long) ND_raw(999999999));
		struct timespec now = clk;
		slept = false;
		my_rate_sleep(r);
		if (!lt(prev, now)) CHECK(slept, "a call right after the previous one is delayed");
		if (slept) {
			CHECK(lt(now, target), "sleeps only until a future time");
			CHECK(target.tv_nsec >= 0 && target.tv_nsec < 1000000000, "normalised time");
			CHECK(!lt(plus(prev, max_period()), target), "waits at most one period after the previous call");
			CHECK(lt(prev, target), "schedule moves forward");
		} else {
			CHECK(lt(prev, now), "not delayed only if time has passed");
		}
		REACH_IF(i == CALLS - 1 && slept, "delayed");
#if CALLS > 1
		REACH_IF(i == CALLS - 1 && !slept, "not delayed");
#endif
		prev = clk;
	}
	my_rate_destroy(&r);
	CHECK(r == NULL, "destroyed");
	my_rate_sleep(NULL);
}
/* a call that comes a full period after the previous one is never delayed beyond the tick */
void h_late(void)
{
	struct my_rate *r = my_rate_init(RATE, 0);
	clk.tv_sec = 1000 + (time_t) ND_raw(3); clk.tv_nsec = (long) ND_raw(999999999);
	my_rate_sleep(r);
	struct timespec prev = clk;
	clk = plus(clk, max_period());
	if (RATE == 1) clk.tv_sec += 1;
	slept = false;
	my_rate_sleep(r);
	CHECK(!slept || !lt(plus(prev, max_period()), target), "a late call does not wait");
	CHECK(!slept, "a late call does not wait");
	REACH("done");
}
