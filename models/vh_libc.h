/*
 * Plain-loop definitions of the mem- and str- functions for the symbolic
 * side: every byte access is an ordinary dereference, so a bounded unwinding covers it
 * and out-of-bounds accesses are visible.  Not used natively.
 */
#ifndef VH_LIBC_H
#define VH_LIBC_H
#ifndef REPLAY
void *memcpy(void *d, const void *s, size_t n)
{
	for (size_t i = 0; i < n; i++) ((uint8_t *) d)[i] = ((const uint8_t *) s)[i];
	return d;
}
void *memmove(void *d, const void *s, size_t n)
{
	uint8_t *dd = d; const uint8_t *ss = s;
	if (__CPROVER_POINTER_OBJECT(d) == __CPROVER_POINTER_OBJECT(s) && dd > ss) {
		for (size_t i = n; i > 0; i--) dd[i-1] = ss[i-1];
	} else {
		for (size_t i = 0; i < n; i++) dd[i] = ss[i];
	}
	return d;
}
void *memset(void *d, int c, size_t n)
{
	for (size_t i = 0; i < n; i++) ((uint8_t *) d)[i] = (uint8_t) c;
	return d;
}
int memcmp(const void *a, const void *b, size_t n)
{
	const uint8_t *x = a, *y = b;
	for (size_t i = 0; i < n; i++)
		if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
	return 0;
}
size_t strlen(const char *s)
{
	size_t n = 0;
	while (s[n] != '\0') n++;
	return n;
}
int strcmp(const char *a, const char *b)
{
	size_t i = 0;
	while (a[i] != '\0' && a[i] == b[i]) i++;
	return (int) (unsigned char) a[i] - (int) (unsigned char) b[i];
}
char *strdup(const char *s)
{
	size_t n = strlen(s);
	char *p = malloc(n + 1);
	for (size_t i = 0; i <= n; i++) p[i] = s[i];
	return p;
}
/* copies into a scalar are done as one word so that constants keep folding */
#define VH_CPYW(W, T)							\
static inline void *vh_cpy##W(void *d, const void *s, size_t n)		\
{									\
	if (n != sizeof(T)) return memcpy(d, s, n);			\
	const uint8_t *p = s;						\
	T w = 0;							\
	for (unsigned i = sizeof(T); i > 0; i--) w = (T) ((w << 8) | p[i - 1]); \
	*(T *) d = w;							\
	return d;							\
}
VH_CPYW(16, uint16_t)
VH_CPYW(32, uint32_t)
VH_CPYW(64, uint64_t)
#define memcpy(d, s, n) _Generic((d), uint16_t *: vh_cpy16, uint32_t *: vh_cpy32, uint64_t *: vh_cpy64, default: memcpy)((d), (s), (n))
#endif
#endif
