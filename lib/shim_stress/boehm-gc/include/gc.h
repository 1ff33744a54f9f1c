/* Boehm collector that performs a full collection every VP_GC_PERIOD allocations once armed. */
#include "/usr/include/gc.h"
void *vp_gc_malloc(size_t n);
void *vp_gc_malloc_atomic(size_t n);
void *vp_gc_realloc(void *p, size_t n);
#undef GC_malloc
#undef GC_malloc_atomic
#undef GC_realloc
#define GC_malloc(n) vp_gc_malloc(n)
#define GC_malloc_atomic(n) vp_gc_malloc_atomic(n)
/* GC_realloc keeps its own name: the repository's shim redefines it to itself. */
