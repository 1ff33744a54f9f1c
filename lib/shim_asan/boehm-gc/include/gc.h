/* No collection at all: every object is its own malloc block so that ASan sees its exact bounds. */
#ifndef VP_ASAN_GC_H
#define VP_ASAN_GC_H
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
static inline void *GC_malloc(size_t n) { void *p = calloc(1, n ? n : 1); if (!p) abort(); return p; }
static inline void *GC_malloc_atomic(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
static inline void *vp_realloc(void *p, size_t n) { void *q = realloc(p, n ? n : 1); if (!q) abort(); return q; }
#define GC_realloc(p, n) vp_realloc(p, n)
#define GC_add_roots(a, b) ((void)(a), (void)(b))
#define GC_register_finalizer(o, p, a, b, c) ((void)(o), (void)(p))
static inline void vp_gc_nop(void) {}
static inline void GC_init(void) {}
#define GC_deinit() vp_gc_nop()
#define GC_disable() vp_gc_nop()
#define GC_enable() vp_gc_nop()
#define GC_gcollect() vp_gc_nop()
#endif
