/*
 * Symbolic-side stand-in for libmy/my_alloc.h in the dnstable harnesses.
 * Allocations never fail.  my_malloc(n) hands out the last n bytes of an
 * object of constant size VH_MCAP: the object size stays concrete for the
 * solver, and a byte past the block is outside the object.  The native side
 * uses the real header.
 */
#ifdef REPLAY
#include_next "libmy/my_alloc.h"
#elif !defined(MY_ALLOC_H)
#define MY_ALLOC_H
#include <assert.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#ifndef VH_MCAP
#define VH_MCAP 64
#endif
/* blocks in use, where the harness asks for them to be counted */
#ifdef VH_COUNT
static long vh_live_mem;
#define VH_MORE(n) (vh_live_mem += (n))
#else
#define VH_MORE(n) ((void) 0)
#endif
static inline void *vh_malloc_tail(size_t n)
{
	VH_MORE(1);
	__CPROVER_assert(n <= VH_MCAP, "unwinding assertion: model allocation capacity");
	__CPROVER_assume(n <= VH_MCAP);
	uint8_t *o = __CPROVER_allocate(VH_MCAP, 0);
	return o + (VH_MCAP - n);
}
#define my_malloc(n)	vh_malloc_tail(n)
#define my_calloc(k, n)	(VH_MORE(1), __CPROVER_allocate((k) * (n), 1))
static inline void vh_free(void *p)
{
#ifdef VH_COUNT
	if (p != NULL) VH_MORE(-1);
#endif
#ifdef VH_MEM
	if (p != NULL) {
		__CPROVER_assert(!__CPROVER_DYNAMIC_OBJECT(p) || __CPROVER_r_ok(p, 0) , "CHECK no double free");
		__CPROVER_deallocate((uint8_t *) p - __CPROVER_POINTER_OFFSET(p));
	}
#else
	(void) p;
#endif
}
static inline char *my_strdup(const char *s)
{
	size_t n = strlen(s);
#ifdef VH_NO_ERRORS	/* set where every call must succeed: only error messages are longer than an address text */
	__CPROVER_assert(n < 5, "CHECK no error is reported");
	__CPROVER_assume(n < 5);
#endif
	char *p = my_malloc(n + 1);
	for (size_t i = 0; i <= n; i++) p[i] = s[i];
	return p;
}
#define my_free(p) do { vh_free(p); (p) = NULL; } while (0)
#endif
