/*
 * L06: my_queue.  QIMPL selects the implementation.  The preempt transform
 * puts VH_YIELD() before every statement of insert and remove; at each of
 * them the solver decides whether the other side runs a complete operation
 * there.  Runs are deterministic given the decisions, so they replay.
 */
#include "vh.h"
#include "vh_libc.h"
#include <pthread.h>
static void vh_yield(void);
#define VH_YIELD() vh_yield()
static bool locked;
#ifndef BUDGET
#define BUDGET 2
#endif
#if defined(MUTEX)
#define pthread_mutex_init(m, a) (locked = false, 0)
#define pthread_mutex_destroy(m) 0
static int vh_lock(void) { ASSUME(!locked); locked = true; return 0; }
static int vh_unlock(void) { CHECK(locked, "unlock of a held lock"); locked = false; return 0; }
#define pthread_mutex_lock(m) vh_lock()
#define pthread_mutex_unlock(m) vh_unlock()
#include "preempt_my_queue_mutex.c"
#define Q_init my_queue_mutex_init
#define Q_insert my_queue_mutex_insert
#define Q_remove my_queue_mutex_remove
#define Q_destroy my_queue_mutex_destroy
#else
#include "my_memory_barrier.h"
#undef smp_mb
#undef smp_rmb
#undef smp_wmb
#define smp_mb() do {} while (0)
#define smp_rmb() do {} while (0)
#define smp_wmb() do {} while (0)
#include "preempt_my_queue_mb.c"
#define Q_init my_queue_mb_init
#define Q_insert my_queue_mb_insert
#define Q_remove my_queue_mb_remove
#define Q_destroy my_queue_mb_destroy
#endif
#ifndef CAP
#define CAP 2
#endif
#ifndef OPS
#define OPS 4
#endif
#ifndef ESZ
#define ESZ 2
#endif
#define LOG 16
static struct my_queue *q;
static uint8_t sent[LOG][ESZ]; static unsigned nsent, ngot;
static bool nesting;
static int outer = -1;				/* 0 insert, 1 remove */
static unsigned budget;

static void do_insert(void)
{
	uint8_t e[ESZ]; unsigned space = 99;
	ND_bytes(e, ESZ);
	bool want = ND_bool();
	/* what is certainly in the queue / certainly free, whatever the other side is doing */
	unsigned hi = nsent - ngot, lo = hi;
	if (outer == 1 && lo > 0) lo--;
	for (int i = 0; i < ESZ; i++) sent[nsent][i] = e[i];
	unsigned before = nsent;
	bool nested = outer != -1;
	if (!nested) { outer = 0; nsent++; }	/* may become visible at any moment from here on */
	bool r = Q_insert(q, e, want ? &space : NULL);
	if (!nested) outer = -1;
	if (!nested && !r) { CHECK(ngot <= before, "nothing taken that was not inserted"); nsent--; }
	if (nested && r) nsent++;
	if (!nested) {
		/* the other side may have removed in between: only the one-sided facts hold */
		if (hi < CAP - 1) CHECK(r, "an insert into a queue with room succeeds");
	} else {
		if (hi < CAP - 1) CHECK(r, "a nested insert into a queue with room succeeds");
		if (lo >= CAP - 1) CHECK(!r, "a nested insert into a full queue fails");
	}
	if (want) {
		CHECK(space < CAP, "space within the capacity");
		if (r) CHECK(space <= CAP - 2, "space after an insert");
		else CHECK(space == 0, "no space when the insert fails");
	}
}
static void do_remove(void)
{
	uint8_t e[ESZ]; unsigned count = 99;
	for (int i = 0; i < ESZ; i++) e[i] = 0xEE;
	bool want = ND_bool();
	unsigned sure = nsent - ngot;
	if (outer == 0 && sure > 0) sure--;
	bool nested = outer != -1;
	if (!nested) outer = 1;
	bool r = Q_remove(q, e, want ? &count : NULL);
	if (!nested) outer = -1;
	if (r) {
		CHECK(ngot < nsent, "nothing comes out that did not go in");
		for (int i = 0; i < ESZ; i++) CHECK(e[i] == sent[ngot][i], "elements come out whole and in order");
		ngot++;
	} else {
		CHECK(sure == 0, "a remove from a non-empty queue succeeds");
		for (int i = 0; i < ESZ; i++) CHECK(e[i] == 0xEE, "a failed remove writes nothing");
	}
	if (want) {
		CHECK(count < CAP, "count within the capacity");
		if (!r) CHECK(count == 0, "nothing left when the remove fails");
	}
}
static void vh_yield(void)
{
	if (outer == -1 || budget == 0) return;
	if (nesting) return;		/* one level of preemption */
	if (locked) return;			/* the other side would block until the lock is released */
	if (!ND_bool()) return;
	budget--;
	nesting = true;
	if (outer == 0) do_remove(); else do_insert();
	nesting = false;
}
void h_queue(void)
{
	q = Q_init(CAP, ESZ);
	CHECK(q != NULL, "power-of-two capacity accepted");
	budget = BUDGET;
	unsigned seq = SEQ;
	for (int i = 0; i < OPS; i++) {
		if (seq & 1) do_remove(); else do_insert();
		seq >>= 1;
		CHECK(nsent - ngot <= CAP - 1, "capacity never exceeded");
	}
	REACH_IF(true, "run complete");
	/* drain */
	budget = 0;
	for (int i = 0; i < CAP; i++) do_remove();
	CHECK(ngot == nsent, "every inserted element comes out exactly once");
	Q_destroy(&q);
	CHECK(q == NULL, "destroyed");
}
void h_init(void)
{
	unsigned n = (unsigned) ND_range(0, 40);
	q = Q_init(n, 1);
	bool pow2 = n == 2 || n == 4 || n == 8 || n == 16 || n == 32;
	CHECK((q != NULL) == pow2, "only powers of two from 2 on are accepted");
	REACH_IF(q != NULL, "accepted");
	REACH_IF(q == NULL && n > 2, "rejected");
}
