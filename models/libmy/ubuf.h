/*
 * Symbolic-side stand-in for libmy/ubuf.h and libmy/vector.h in the dnstable
 * harnesses: same interface, storage of fixed capacity.  Exceeding the
 * capacity is reported as an insufficient bound, never as a pass.  The real
 * vector/ubuf code is decided against the same contract by its own property.
 */
#ifdef REPLAY
#include_next "libmy/ubuf.h"
#elif !defined(MY_UBUF_H)
#define MY_UBUF_H
#include <assert.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include "libmy/my_alloc.h"
#ifndef VH_UCAP
#define VH_UCAP 64
#endif
#ifndef VH_VCAP
#define VH_VCAP 4
#endif
#define VH_CAPACITY(c) do { __CPROVER_assert((c), "unwinding assertion: model buffer capacity"); __CPROVER_assume(c); } while (0)

#define VH_VECTOR(name, type, CAP)					\
typedef struct name##__vector {						\
	size_t _n, _n_alloced;						\
	type _v[CAP];							\
} name;									\
static inline name *name##_init(unsigned hint)				\
{									\
	name *vec = __CPROVER_allocate(sizeof(name), 0);		\
	vec->_n = 0; vec->_n_alloced = hint ? hint : 1;			\
	VH_MORE(1);							\
	return vec;							\
}									\
static inline void name##_destroy(name **vec)				\
{									\
	if (*vec) { vh_free(*vec); *vec = NULL; }			\
}									\
static inline void name##_reserve(name *vec, size_t k)			\
{									\
	VH_CAPACITY(k <= CAP && vec->_n + k <= CAP);			\
	if (k > vec->_n_alloced - vec->_n) vec->_n_alloced = vec->_n + k; \
}									\
static inline void name##_add(name *vec, type elem)			\
{									\
	name##_reserve(vec, 1);						\
	vec->_v[vec->_n] = elem;					\
	vec->_n += 1;							\
}									\
static inline void name##_append(name *vec, type const *e, size_t k)	\
{									\
	name##_reserve(vec, k);						\
	for (size_t i = 0; i < k; i++) vec->_v[vec->_n + i] = e[i];	\
	vec->_n += k;							\
}									\
static inline void name##_extend(name *a, name *b) { name##_append(a, b->_v, b->_n); } \
static inline void name##_reset(name *vec) { vec->_n = 0; }		\
static inline void name##_clip(name *vec, size_t k) { if (k < vec->_n) vec->_n = k; } \
static inline size_t name##_bytes(name *vec) { return vec->_n * sizeof(type); } \
static inline size_t name##_size(name *vec) { return vec->_n; }		\
static inline type name##_value(name *vec, size_t i)			\
{									\
	assert(i < vec->_n);						\
	return vec->_v[i];						\
}									\
static inline type *name##_ptr(name *vec) { return &vec->_v[vec->_n]; }	\
static inline type *name##_data(name *vec) { return &vec->_v[0]; }	\
static inline void name##_advance(name *vec, size_t x)			\
{									\
	assert(x <= vec->_n_alloced - vec->_n);				\
	vec->_n += x;							\
}									\
static inline void name##_detach(name *vec, type **out, size_t *outsz)	\
{									\
	name *c = __CPROVER_allocate(sizeof(name), 0);			\
	*c = *vec;							\
	VH_MORE(1);							\
	*out = &c->_v[0]; *outsz = vec->_n;				\
	vec->_n = 0;							\
}
#define VECTOR_GENERATE(name, type) VH_VECTOR(name, type, VH_VCAP)

VH_VECTOR(ubuf, uint8_t, VH_UCAP)

#define ubuf_append_cstr_lit(u, s) ubuf_append(u, (const uint8_t*) s, sizeof(s) - 1)
#define ubuf_append_cstr(u, s, l) ubuf_append(u, (const uint8_t*) s, l)
static inline ubuf *ubuf_new(void) { return (ubuf_init(64)); }
static inline ubuf *ubuf_dup_cstr(const char *s)
{
	size_t len = strlen(s);
	ubuf *u = ubuf_init(len + 1);
	ubuf_append(u, (const uint8_t *) s, len);
	return u;
}
static inline void ubuf_add_cstr(ubuf *u, const char *s)
{
	if (u->_n > 0 && u->_v[u->_n - 1] == 0) u->_n--;
	ubuf_append(u, (const uint8_t *) s, strlen(s));
}
static inline void ubuf_cterm(ubuf *u)
{
	if (u->_n == 0 || u->_v[u->_n - 1] != 0) ubuf_add(u, 0);
}
static inline char *ubuf_cstr(ubuf *u) { ubuf_cterm(u); return (char *) ubuf_data(u); }
static inline void ubuf_rstrip(ubuf *u, char s)
{
	if (u->_n > 0 && u->_v[u->_n - 1] == (uint8_t) s) u->_n--;
}
#endif
