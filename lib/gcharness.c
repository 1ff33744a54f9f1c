/* Executes a script of collector operations against src/gc/minim-gc and reports, per operation,
 * which blocks were freed and destroyed.  Everything the harness knows about blocks lives in static
 * memory, which the collector does not scan; the only references to blocks are the slots array on
 * the stack and the words of the blocks themselves. */
#include <malloc.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "minim-gc/gc.h"

#define NOBJ 60000
#define NSLOT 64
void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t);
void __real_free(void *);

typedef struct { uintptr_t ptr, base; size_t size; int dtor, freed, destroyed; intptr_t *exp; } obj;  /* exp: small int, or -1-id */
static obj O[NOBJ];
static int fail_next, bad;
static uintptr_t recent[16];
static int nrecent;
static int evf[NOBJ], nevf, evd[NOBJ], nevd;

/* base address -> id */
#define HN (1 << 18)
static struct { uintptr_t base; int id; } H[HN];
static int *hslot(uintptr_t b, int make) {
    size_t i = (b >> 4) * 0x9E3779B97F4A7C15ull >> 46;
    while (H[i].base && H[i].base != b) i = (i + 1) & (HN - 1);
    if (!H[i].base) { if (!make) return NULL; H[i].base = b; }
    return &H[i].id;
}
static void forget(void *p) { for (int i = 0; i < 16; i++) if (recent[i] == (uintptr_t) p) recent[i] = 0; }
static void note(void *p) { recent[nrecent++ & 15] = (uintptr_t) p; }
static void released(void *p) {
    int *s = hslot((uintptr_t) p, 0);
    if (s && *s >= 0) {
        O[*s].freed++;
        evf[nevf++] = *s;
        *s = -1;
    }
    forget(p);
    memset(p, 0xA5, malloc_usable_size(p));
}
void *__wrap_malloc(size_t n) {
    if (fail_next) { fail_next = 0; return NULL; }
    void *p = __real_malloc(n);
    memset(p, 0x5A, n);
    note(p);
    return p;
}
void *__wrap_calloc(size_t m, size_t n) {
    if (fail_next && m == 1) { fail_next = 0; return NULL; }
    void *p = __real_calloc(m, n);
    note(p);
    return p;
}
void __wrap_free(void *p) { if (p) { released(p); __real_free(p); } }
void *__wrap_realloc(void *o, size_t n) {       /* always moves */
    if (fail_next) { fail_next = 0; return NULL; }
    void *p = __real_malloc(n);
    size_t old = o ? malloc_usable_size(o) : 0;
    memset(p, 0x5A, n);
    if (o) {
        int *s = hslot((uintptr_t) o, 0);
        if (s) *s = -1;                           /* the block lives on */
        memcpy(p, o, old < n ? old : n);
        memset(o, 0xA5, old);
        forget(o);
        __real_free(o);
    }
    note(p);
    return p;
}

static int id_of(uintptr_t p) {
    for (int i = 0; i < NOBJ; i++) if (O[i].ptr == p && !O[i].freed) return i;
    return -1;
}
static int intact(int id, int all) {
    uintptr_t *w = (uintptr_t *) O[id].ptr;
    for (size_t k = 0; k < O[id].size / 8; k++) {
        intptr_t e = O[id].exp[k];
        if (e >= 0 ? w[k] != (uintptr_t) e : all && w[k] != O[-1 - e].ptr) return 0;
    }
    return 1;
}
static void dtor(void *p, void *d) {
    int id = id_of((uintptr_t) p);
    if (id < 0) { printf("BAD destructor called on an unknown block\n"); bad = 1; return; }
    if (!intact(id, 0)) { printf("BAD destructor of %d sees a damaged block\n", id); bad = 1; }
    if (O[id].destroyed++) { printf("BAD destructor of %d called again\n", id); bad = 1; }
    evd[nevd++] = id;
}
static void marker(void (*mrk)(void *, void *), void *gc, void *p) {     /* even words only */
    int id = id_of((uintptr_t) p);
    if (id < 0) { printf("BAD marker called on an unknown block\n"); bad = 1; return; }
    for (size_t k = 0; k < O[id].size / 8; k += 2) mrk(gc, ((void **) p)[k]);
}

static void adopt(int id, void *p, size_t size) {
    O[id].ptr = (uintptr_t) p;
    O[id].size = size;
    O[id].base = 0;
    for (int i = 0; i < 16; i++)
        if (recent[i] && recent[i] <= (uintptr_t) p && (uintptr_t) p + size <= recent[i] + malloc_usable_size((void *) recent[i]))
            O[id].base = recent[i];
    if (!O[id].base) { printf("BAD block %d is not where it was allocated\n", id); bad = 1; return; }
    *hslot(O[id].base, 1) = id;
}
static void setint(int id, size_t k, intptr_t v) { ((uintptr_t *) O[id].ptr)[k] = v; O[id].exp[k] = v; }

static void alloc(void *volatile *slots, int slot, int id, int kind, size_t size, int cal) {
    void *p;
    size_t n = cal == 2 ? 4 : 1;
    if (cal == 2) size = (size + 3) / 4 * 4;
    switch (kind) {
    case 0: p = cal ? GC_calloc(n, size / n) : GC_alloc(size); break;
    case 1: p = cal ? GC_calloc_atomic(n, size / n) : GC_alloc_atomic(size); break;
    case 2: p = cal ? GC_calloc_opt(n, size / n, (void (*)(void *)) dtor, NULL) : GC_alloc_opt(size, (void (*)(void *)) dtor, NULL); break;
    case 3: p = cal ? GC_calloc_opt(n, size / n, NULL, marker) : GC_alloc_opt(size, NULL, marker); break;
    case 4: p = cal ? GC_calloc_opt(n, size / n, (void (*)(void *)) dtor, (void (*)(void (void *, void *), void *, void *)) GC_atomic_mrk) : GC_alloc_opt(size, (void (*)(void *)) dtor, (void (*)(void (void *, void *), void *, void *)) GC_atomic_mrk); break;
    default: p = cal ? GC_calloc_opt(n, size / n, (void (*)(void *)) dtor, marker) : GC_alloc_opt(size, (void (*)(void *)) dtor, marker);
    }
    if (!p) { printf("BAD allocation of %d returned no block\n", id); bad = 1; return; }
    if (cal) for (size_t i = 0; i < size; i++) if (((char *) p)[i]) { printf("BAD calloc of %d is not zero\n", id); bad = 1; break; }
    adopt(id, p, size);
    O[id].exp = __real_calloc(size / 8 + 1, 8);
    for (size_t k = 0; k < size / 8; k++) setint(id, k, (id * 31 + k * 7) & 1023);
    O[id].dtor = kind == 2 || kind >= 4;
    slots[slot] = p;
}

static void reallocate(void *volatile *slots, int slot, int id, int kind, size_t size) {
    void *p, *o = (void *) O[id].ptr;
    size_t old = O[id].size / 8;
    switch (kind) {
    case 0: p = GC_realloc(o, size); break;
    case 1: p = GC_realloc_atomic(o, size); break;
    case 2: p = GC_realloc_opt(o, size, (void (*)(void *)) dtor, NULL); break;
    case 3: p = GC_realloc_opt(o, size, NULL, marker); break;
    case 4: p = GC_realloc_opt(o, size, (void (*)(void *)) dtor, (void (*)(void (void *, void *), void *, void *)) GC_atomic_mrk); break;
    default: p = GC_realloc_opt(o, size, (void (*)(void *)) dtor, marker);
    }
    if (!p) { printf("BAD reallocation of %d returned no block\n", id); bad = 1; return; }
    adopt(id, p, size);
    O[id].exp = __real_realloc(O[id].exp, size + 8);
    for (size_t k = old; k < size / 8; k++) setint(id, k, (id * 31 + k * 7) & 1023);
    slots[slot] = p;
}

__attribute__((noinline)) static void clear_stack(void) {
    volatile char b[32768];
    memset((char *) b, 0, sizeof b);
}

/* collects while the block of a slot is referenced by one callee-saved register only */
#ifdef __x86_64__
#define IN_REG(reg) __asm__ volatile("push %%" reg "\n push %%rdi\n mov (%%rdi), %%" reg "\n movq $0, (%%rdi)\n call GC_collect\n" \
                                     "pop %%rax\n mov %%" reg ", (%%rax)\n pop %%" reg "\n" : "+D"(where) : : "rax", "rcx", "rdx", "rsi", "r8", "r9", "r10", "r11", "memory", "cc")
__attribute__((noinline)) static void collect_in_register(void *volatile *where, int r) {
    switch (r) {
    case 0: IN_REG("rbx"); break;
    case 1: IN_REG("r12"); break;
    case 2: IN_REG("r13"); break;
    case 3: IN_REG("r14"); break;
    default: IN_REG("r15");
    }
}
#else
static void collect_in_register(void *volatile *where, int r) { (void) where; (void) r; GC_collect(); }
#endif

__attribute__((noinline)) static int step(void *volatile *slots, char *line) {
    static int prev;
    long a = 0, b = 0, c = 0, d = 0, e = 0;
    sscanf(line + 1, "%ld %ld %ld %ld %ld", &a, &b, &c, &d, &e);
    switch (line[0]) {
    case 'a': alloc(slots, a, b, c, d, e); break;
    case 'r': reallocate(slots, a, b, c, d); break;
    case 'w': ((uintptr_t *) O[a].ptr)[b] = O[c].ptr; O[a].exp[b] = -1 - c; break;
    case 'n': setint(a, b, c); break;
    case 's': slots[a] = (void *) O[b].ptr; break;
    case 'z': slots[a] = NULL; break;
    case 'f': GC_free((void *) O[a].ptr); break;
    case 'c': GC_collect(); break;
    case 'q': collect_in_register(&slots[a], b); break;
    case 'p': GC_pause(); break;
    case 'u': GC_resume(); break;
    case 'R': GC_register_root((void *) O[a].ptr); break;
    case 'D': GC_register_dtor((void *) O[a].ptr, dtor); O[a].dtor = 1; break;
    case 'm': fail_next = 1; break;
    case 'L':                                       /* chain of c cells, ids b.., head in slot a */
        for (long i = 0; i < c; i++) {
            alloc(slots, a, b + i, 0, 16, 0);
            if (i) { ((uintptr_t *) O[b + i].ptr)[0] = O[b + i - 1].ptr; O[b + i].exp[0] = -b - i; }
        }
        break;
    case 'B':                                       /* c blocks of d bytes, ids b.., each dropped at once */
        for (long i = 0; i < c; i++) { alloc(slots, a, b + i, 1, d, 0); slots[a] = NULL; clear_stack(); }
        break;
    case 'g': printf("%zu %zu %zu\n", GC_get_allocated(), GC_get_reachable(), GC_get_collectable()); break;
    case 'k': {
        char *s = line + 1;
        for (;;) {
            char *t;
            long lo = strtol(s, &t, 10);
            if (t == s) break;
            long hi = strtol(t, &s, 10);
            for (long i = lo; i < hi; i++) if (!intact(i, 1)) { printf("BAD block %ld was changed\n", i); bad = 1; }
        }
        break; }
    case 'F': GC_finalize(); return 1;
    }
    return 0;
}

/* keeps step's frame inside what clear_stack clears */
__attribute__((noinline)) static int padded(void *volatile *slots, char *line) {
    volatile char b[1024];
    memset((char *) b, 0, sizeof b);
    return step(slots, line) + b[512];
}

/* a..b ranges keep long reports short */
static int cmp(const void *a, const void *b) { return *(int *) a - *(int *) b; }
static void ranges(const char *w, int *v, int n) {
    if (!n) return;
    qsort(v, n, sizeof *v, cmp);
    printf(" %s", w);
    for (int i = 0; i < n;) {
        int j = i;
        while (j + 1 < n && v[j + 1] == v[j] + 1) j++;
        printf(" %d-%d", v[i], v[j] + 1);
        i = j + 1;
    }
}

static char text[1 << 22];
__attribute__((noinline)) static void run(FILE *in) {
    void *volatile slots[NSLOT];
    int n = 0, done = 0;
    for (int i = 0; i < NSLOT; i++) slots[i] = NULL;
    while (!done && fgets(text, sizeof text, in)) {
        nevf = nevd = 0;
        clear_stack();
        done = padded(slots, text);
        if (nevf || nevd) { printf("%d", n); ranges("freed", evf, nevf); ranges("destroyed", evd, nevd); printf("\n"); fflush(stdout); }
        n++;
    }
    printf(bad ? "bad\n" : "ok\n");
}

int main(void) {
    void *base = NULL;
    static char ob[1 << 16];
    setvbuf(stdout, ob, _IOFBF, sizeof ob);
    GC_init(&base);
    run(stdin);
    return 0;
}
