/* typed allocations on the symbolic side keep struct members separately tracked */
#if !defined(REPLAY) && !defined(VH_CALLOC)
#define VH_CALLOC
#define calloc(k, n) __CPROVER_allocate((k) * (n), 1)
#endif
