/*
 * Harness vocabulary.  The same harness is compiled twice:
 *   - by cbmc (__CPROVER defined): ND_*() are solver variables, ASSUME/CHECK
 *     become assumptions/assertions;
 *   - natively (-DREPLAY) with the values of a solver trace, against the same
 *     real sources, with ASan/UBSan: a CHECK that fails prints REPLAY-FAIL.
 */
#ifndef VH_H
#define VH_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

#ifndef REPLAY
uint64_t nondet_vh_u64(void);
static inline uint64_t ND_raw(uint64_t max)
{
	uint64_t nd = nondet_vh_u64();
	__CPROVER_assume(nd <= max);
	__CPROVER_input("nd", nd);
	return nd;
}
#define ASSUME(c)	__CPROVER_assume(c)
#define CHECK(c, msg)	__CPROVER_assert((c), "CHECK " msg)
/* reachability witness: must be violated for the query not to be vacuous */
#define REACH(msg)	__CPROVER_assert(0, "REACH " msg)
#define REACH_IF(c, msg) __CPROVER_assert(!(c), "REACH " msg)
#define VH_NATIVE 0
#else
extern uint64_t vh_next(void);
extern void vh_assume_failed(const char *, const char *, int);
extern void vh_check_failed(const char *, const char *, int);
extern void vh_reach(const char *);
static inline uint64_t ND_raw(uint64_t max) {
	uint64_t v = vh_next();
	if (v > max) v = max;
	return v;
}
#define ASSUME(c)	do { if (!(c)) vh_assume_failed(#c, __FILE__, __LINE__); } while (0)
#define CHECK(c, msg)	do { if (!(c)) vh_check_failed(msg, __FILE__, __LINE__); } while (0)
#define REACH(msg)	vh_reach(msg)
#define REACH_IF(c, msg) do { if (c) vh_reach(msg); } while (0)
#define VH_NATIVE 1
#endif

static inline uint8_t  ND_u8(void)  { return (uint8_t) ND_raw(UINT8_MAX); }
static inline uint16_t ND_u16(void) { return (uint16_t) ND_raw(UINT16_MAX); }
static inline uint32_t ND_u32(void) { return (uint32_t) ND_raw(UINT32_MAX); }
static inline uint64_t ND_u64(void) { return ND_raw(UINT64_MAX); }
static inline bool     ND_bool(void) { return ND_raw(1) != 0; }
/* lo..hi inclusive */
static inline uint64_t ND_range(uint64_t lo, uint64_t hi) { return lo + ND_raw(hi - lo); }
static inline void ND_bytes(uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = ND_u8(); }

/* n arbitrary bytes at the very end of an object of constant size cap: one
 * byte past the buffer is outside the object in both worlds, and the object
 * size stays concrete for the solver. */
static inline uint8_t *ND_tail(size_t cap, size_t n)
{
	uint8_t *o = malloc(cap), *p = o + (cap - n);
	for (size_t i = 0; i < cap; i++) o[i] = ND_u8();
	return p;
}
/* the first n bytes of src (capacity cap), placed at the end of an object */
static inline uint8_t *VH_tail(const uint8_t *src, size_t cap, size_t n)
{
	uint8_t *o = malloc(cap), *p = o + (cap - n);
	for (size_t i = 0; i < cap; i++) if (i < n) p[i] = src[i];
	return p;
}
#endif
