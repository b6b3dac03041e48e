/* C11: histories over several arenas and arena-backed scopes, in one thread or one set per thread,
 * against an interval model; the arenas share a list of free chunks. */
#include "eng.h"
#include "raii.h"
#include <string.h>
#include <stdio.h>
#include <pthread.h>
#include <sched.h>
#include <limits.h>

#define MAXB 1500
#define NA 4
#define MAXT 4
#define MAXOP 160

enum { O_ALLOC, O_CALLOC, O_FILL, O_CLEAR, O_FREE, O_MAKE, O_DEFER, O_MALLOC, O_UNWIND, O_BULK, O_NONE, O_HUGE, O_KINDS };

typedef struct { int kind, ar, how, szkind; long size; int fail; } op;

typedef struct {
    unsigned char *p;
    long size;
    int id, ar;
    char how;              /* 0 of the arena, 1 bound to the scope with malloc_full */
} blk;

typedef struct {
    arena_t a;             /* NULL: not made */
    memory_t *scope;       /* or NULL */
    int ndefer, nrun;      /* deferred to the scope, and run so far */
    int first, nown;       /* ids of the deferred ones are first.. */
} mar;

typedef struct {
    op ops[MAXOP];
    int n;
    mar A[NA];
    blk B[MAXB];
    int nb, nid;
    int tno, yields;
    int nclear, nfree, nrefill, nlive, nlong, nfault;
} hist;

static hist H[MAXT];
static int nH;
static __thread hist *cur;

static unsigned char pat(const blk *b, long i) { return (unsigned char)(b->id * 37 + i * 11 + (i >> 8) * 5 + cur->tno * 89 + 1); }

static void check_blk(const blk *b, int deep) {
    long i, edge = deep ? b->size : 24;
    for (i = 0; i < b->size && i < edge; i++)
        CHECK(b->p[i] == pat(b, i), "block %d (%ld bytes) of arena %d changed at offset %ld", b->id, b->size, b->ar, i);
    for (i = b->size - edge; i < b->size; i++)
        if (i >= 0)
            CHECK(b->p[i] == pat(b, i), "block %d (%ld bytes) of arena %d changed at offset %ld", b->id, b->size, b->ar, i);
}

static void check_all(int deep) {
    int k;
    for (k = 0; k < cur->nb; k++)
        check_blk(&cur->B[k], deep || cur->B[k].size < 300);
}

static void drop(int ar, int bound_too) {
    int k, n = 0;
    for (k = 0; k < cur->nb; k++)
        if (cur->B[k].ar != ar || (cur->B[k].how && !bound_too))
            cur->B[n++] = cur->B[k];
    cur->nb = n;
}

/* The blocks bound to the arena's scope are about to be released. */
static int bound(int ar, unsigned char **c) {
    int k, n = 0;
    for (k = 0; k < cur->nb; k++)
        if (cur->B[k].ar == ar && cur->B[k].how) {
            if (n < 64)
                c[n++] = cur->B[k].p;
            cur->B[k--] = cur->B[--cur->nb];
        }
    return n;
}

/* A new block of arena ar. */
static void got(int ar, unsigned char *p, long size, int zero, int bound) {
    blk *b;
    int k;
    long i;
    CHECK(p != NULL, "allocating %ld bytes gives nothing", size);
    CHECK(trk_owns(p, size), "a block of %ld bytes is not within memory of the allocator", size);
    for (k = 0; k < cur->nb; k++) {
        b = &cur->B[k];
        CHECK(p + size <= b->p || b->p + b->size <= p, "a new block of %ld bytes of arena %d overlaps block %d of arena %d (%ld bytes)",
            size, ar, b->id, b->ar, b->size);
    }
    if (zero)
        for (i = 0; i < size; i++)
            CHECK(p[i] == 0, "a zeroed block of %ld bytes is not zero at offset %ld", size, i);
    if (cur->nb == MAXB)
        return;
    b = &cur->B[cur->nb++];
    b->p = p;
    b->size = size;
    b->ar = ar;
    b->id = cur->nid++;
    b->how = bound;
    for (i = 0; i < size; i++)
        p[i] = pat(b, i);
}

static void on_defer(void *arg) {
    mar *m = &cur->A[(long)arg >> 16];
    int id = (int)((long)arg & 0xffff);
    CHECK(m->nrun < m->ndefer, "a deferred function of the arena's scope runs again");
    CHECK(id == m->first + m->ndefer - 1 - m->nrun, "deferred function %d of the arena's scope runs out of order", id);
    m->nrun++;
    check_all(0);                    /* everything is still valid */
}

static void alloc(int ar, const op *o, int zero, long size) {
    mar *m = &cur->A[ar];
    unsigned char *volatile p = NULL;
    volatile int failed = 0;
    long cap = (long)arena_capacity(m->a), cap2;
    int cnt = zero ? (size % 3 == 0 ? 3 : size % 2 == 0 ? 2 : 1) : 1;
    if (o->fail)
        trk_fail(1, 0, 0);
    try {
        if (!zero)
            p = m->scope ? o->how % 3 == 0 ? malloc_by(m->scope, size) : o->how % 3 == 1 ? malloc_arena(m->scope, size) : arena_alloc(m->a, size)
                : arena_alloc(m->a, size);
        else
            p = m->scope ? o->how % 3 == 0 ? calloc_by(m->scope, cnt, size / cnt) : o->how % 3 == 1 ? calloc_arena(m->scope, cnt, size / cnt)
                : arena_calloc(m->a, cnt, size / cnt) : arena_calloc(m->a, cnt, size / cnt);
    } catch_any {
        failed = 1;
    } end_try;
    if (o->fail) {
        int hit = (int)trk_failed();
        trk_fail(0, 0, 0);
        CHECK(failed == (hit > cur->nfault), failed ? "a request that did not fail raises an exception" : "a request whose memory could not be allocated raises nothing");
        cur->nfault = hit;
    } else
        CHECK(!failed, "allocating %ld bytes raises an exception", size);
    if (failed)
        return;
    got(ar, p, size, zero, 0);
    cap2 = (long)arena_capacity(m->a);
    CHECK(trk_owns(p, size + cap2 - (cap2 && (size & 1))), "the arena reports a capacity of %ld bytes it does not have", cap2);
    /* from the same chunk, unless there is no room for it */
    if (cap >= size + (size & 1)) {
        CHECK(cap2 <= cap - size, "the capacity goes from %ld to %ld when %ld bytes are handed out", cap, cap2, size);
        CHECK(cap2 >= cap - size - 32, "the capacity goes from %ld to %ld when only %ld bytes are handed out", cap, cap2, size);
    } else
        cur->nrefill++;
}

static void make(int ar, int how, int fail) {
    mar *m = &cur->A[ar];
    static const int thr[] = { 0, 1, 2, 3, 10, 40 };
    volatile int failed = 0;
    size_t live = trk_live();
    memset(m, 0, sizeof *m);
    if (fail)
        trk_fail(1 + how % 2, 0, 0);
    try {
        if (how % 3 == 2) {
            m->scope = unique_init_arena();
            m->a = m->scope->arena;
        } else
            m->a = arena_init(thr[how / 3 % 6]);
    } catch_any {
        failed = 1;
    } end_try;
    if (fail) {
        int hit = (int)trk_failed();
        trk_fail(0, 0, 0);
        CHECK(failed == (hit > cur->nfault), failed ? "making an arena raises an exception though nothing failed" : "making an arena without memory raises nothing");
        cur->nfault = hit;
        if (failed) {
            CHECK(trk_live() == live, "making an arena fails and leaves %d blocks behind", (int)(trk_live() - live));
            m->scope = NULL;
            m->a = NULL;
            return;
        }
    } else
        CHECK(!failed, "making an arena raises an exception");
    CHECK(m->a != NULL, "no arena is made");
    CHECK(arena_capacity(m->a) == 0, "a new arena has a capacity");
    m->first = cur->nid;
}

static void clear(int ar) {
    drop(ar, 0);
    arena_clear(cur->A[ar].a);
    cur->nclear++;
}

static void release(int ar) {
    mar *m = &cur->A[ar];
    unsigned char *c[64];
    int n = 0, k;
    for (k = 0; k < cur->nb && n < 64; k++)
        if (cur->B[k].ar == ar && !cur->B[k].how)
            c[n++] = cur->B[k].p;
    if (m->scope) {
        unsigned char *d[64];
        bound(ar, d);
        free_arena(m->scope);
        CHECK(m->nrun == m->ndefer, "%d of the %d functions deferred to the arena's scope have run when it is freed", m->nrun, m->ndefer);
        m->scope = NULL;
    } else
        arena_free(m->a);
    drop(ar, 1);
    for (k = 0; k < n; k++)
        CHECK(!trk_owns(c[k], 1), "a block of an arena is still allocated after the arena was freed (%d of %d, arena %d thread %d, clears %d)", k, n, ar, cur->tno, cur->nclear);
    m->a = NULL;
    cur->nfree++;
}

/* An arena that is not there. */
static void nothing(const op *o) {
    volatile int caught = 0;
    CHECK(arena_capacity(NULL) == 0, "no arena has a capacity");
    CHECK(arena_total(NULL) == 0, "no arena has a size");
    arena_free(NULL);
    arena_clear(NULL);
    try {
        if (o->how & 1)
            arena_alloc(NULL, o->size);
        else
            arena_calloc(NULL, 1, o->size);
    } catch_any {
        caught = 1;
    } end_try;
    CHECK(caught, "allocating in no arena raises nothing");
}

/* More than there can be: nothing is handed out, and everything stays as it is. */
static void huge(int ar, const op *o) {
    static const long sizes[] = { LONG_MAX, LONG_MAX - 1, LONG_MAX - 20, LONG_MAX - 10240, LONG_MAX / 2 + 1, LONG_MIN, -2, -1 };
    static const struct { long c, n; } prod[] = { { 1l << 30, 1l << 34 }, { 1l << 24, (1l << 40) + 1 }, { 3, LONG_MAX / 3 + 1 }, { 2, LONG_MAX }, { 1l << 30, (1l << 33) + 16 }, { 7, LONG_MAX / 7 * 2 } };
    mar *m = &cur->A[ar];
    void *volatile p = NULL;
    volatile int failed = 0;
    long cap = (long)arena_capacity(m->a);
    int k = (int)o->size;
    try {
        if (o->how & 1) {
            k %= 6;
            p = !m->scope || o->how & 4 ? arena_calloc(m->a, prod[k].c, prod[k].n) : o->how & 2 ? calloc_by(m->scope, (int)prod[k].c, prod[k].n) : calloc_arena(m->scope, (int)prod[k].c, prod[k].n);
        } else {
            k %= 8;
            p = !m->scope || o->how & 4 ? arena_alloc(m->a, sizes[k]) : o->how & 2 ? malloc_by(m->scope, sizes[k]) : malloc_arena(m->scope, sizes[k]);
        }
    } catch_any {
        failed = 1;
    } end_try;
    CHECK(failed, "a request for more memory than there is raises nothing, and gives %p (case %d, form %d)", p, k, o->how);
    CHECK((long)arena_capacity(m->a) == cap, "a request that failed changes the capacity from %ld to %ld", cap, (long)arena_capacity(m->a));
}

static void step(const op *o) {
    int ar = o->ar, k;
    mar *m = &cur->A[ar];
    long size = o->size;
    if (!m->a) {
        make(ar, o->how, o->kind == O_MAKE && o->fail);
        if (!m->a)
            return;
    }
    if (o->szkind) {                /* around what is left, or the threshold */
        long cap = (long)arena_capacity(m->a);
        if (o->szkind == 1 && cap > 8)
            size = cap - o->size % 5 + 2;
        else if (o->szkind == 2 && cap > 8)
            size = cap - o->size % 3;
        else
            size = (long)m->a->threshold * 1024 - 96 + o->size % 200;
        if (size < 1)
            size = 1;
    }
    switch (o->kind) {
        case O_ALLOC:
        case O_CALLOC:
            alloc(ar, o, o->kind == O_CALLOC, size);
            break;
        case O_BULK:
            for (k = 0; k < o->how * 3; k++)
                alloc(ar, o, (k + o->how) & 1, 1 + (size + k * 7) % 900);
            break;
        case O_CLEAR: clear(ar); break;
        case O_FREE: release(ar); break;
        case O_DEFER:
            if (m->scope) {
                if (!m->ndefer)
                    m->first = cur->nid & 0x3fff;
                CHECK(raii_deferred(m->scope, on_defer, (void *)(((long)ar << 16) | (m->first + m->ndefer))) != (size_t)-1, "a function can not be deferred");
                m->ndefer++;
            }
            break;
        case O_MALLOC:
            if (m->scope) {
                unsigned char *p = malloc_full(m->scope, size, RAII_FREE);
                got(ar, p, size, 0, 1);
            }
            break;
        case O_UNWIND:
            if (m->scope) {           /* the scope, not the arena */
                unsigned char *c[64];
                int n = bound(ar, c);
                raii_deferred_free(m->scope);
                CHECK(m->nrun == m->ndefer, "%d of the %d functions deferred to the arena's scope have run when it is unwound", m->nrun, m->ndefer);
                m->nrun = m->ndefer = 0;
                for (k = 0; k < n; k++)
                    CHECK(!trk_owns(c[k], 1), "a block bound to the arena's scope is not released with it");
            }
            break;
        case O_NONE: nothing(o); break;
        case O_HUGE: huge(ar, o); break;
        default: break;
    }
    check_all(0);
}

static void *run(void *arg) {
    hist *h = arg;
    int k;
    cur = h;
    for (k = 0; k < h->n; k++) {
        step(&h->ops[k]);
        if (h->yields & (1 << k % 8))
            sched_yield();
    }
    check_all(1);
    for (k = 0; k < NA; k++)
        if (h->A[k].a)
            release(k);
    CHECK(h->nb == 0, "model");
    return NULL;
}

/* Many chunks taken and given back by several threads at once. */
static int storm_rounds, storm_big;
static unsigned storm_seed;

static void *storm(void *arg) {
    int t = (int)(long)arg, r, k, n;
    unsigned x = storm_seed * 2654435761u + t * 40503u + 1;
    arena_t a = arena_init(2 + t);
    for (r = 0; r < storm_rounds; r++) {
        unsigned char *p[6];
        long sz[6], i;
        n = 1 + (x >> 9) % 6;
        for (k = 0; k < n; k++) {
            x = x * 1664525u + 1013904223u;
            sz[k] = 1 + (x >> 8) % storm_big;
            p[k] = arena_alloc(a, sz[k]);
            CHECK(p[k] && trk_owns(p[k], sz[k]), "thread %d: a block of %ld bytes is not within memory of the allocator", t, sz[k]);
            for (i = 0; i < sz[k]; i += 61)
                p[k][i] = (unsigned char)(t * 50 + k + r + i + 1);
        }
        if (r % 32 == t)
            sched_yield();
        for (k = 0; k < n; k++)
            for (i = 0; i < sz[k]; i += 61)
                CHECK(p[k][i] == (unsigned char)(t * 50 + k + r + i + 1), "thread %d round %d: block %d (%ld bytes) changed at offset %ld", t, r, k, sz[k], i);
        arena_clear(a);
    }
    arena_free(a);
    return NULL;
}

static void storms(size_t live) {
    pthread_t th[8];
    int t, n = d_in(2, 8);
    storm_rounds = 100 + (int)d_u(1500);
    storm_big = d_p(1, 2) ? 4000 : 1 + (int)d_u(9000);
    storm_seed = (unsigned)d_u64();
    NOTE("%d threads, each %d rounds of 1 to 6 blocks of up to %d bytes and a clear\n", n, storm_rounds, storm_big);
    for (t = 0; t < n; t++)
        if (pthread_create(&th[t], NULL, storm, (void *)(long)t))
            exit(0);
    for (t = 0; t < n; t++)
        pthread_join(th[t], NULL);
    CHECK(trk_live() - live <= 10, "%d blocks are left when all arenas are freed", (int)(trk_live() - live));
    trk_check();
    eng_label("storm");
    eng_nontrivial();
    exit(0);
}

static void c11(void) {
    static const char *const kn[] = { "alloc", "calloc", "fill", "clear", "free", "make", "defer", "malloc_full", "unwind scope", "many", "no arena", "more than there is" };
    int t, k, mode = d_w("921"), arenas;
    size_t live;
    if (mode == 2) {
        storms(trk_live());
        return;
    }
    nH = mode ? d_in(2, MAXT) : 1;
    arenas = d_in(1, NA);
    memset(H, 0, sizeof H);
    for (t = 0; t < nH; t++) {
        hist *h = &H[t];
        h->tno = t;
        h->yields = mode ? (int)d_u(255) : 0;
        h->n = (int)d_len(MAXOP - 1);
        for (k = 0; k < h->n; k++) {
            op *o = &h->ops[k];
            o->kind = d_w("950321222111");
            o->ar = (int)d_u(arenas - 1);
            o->how = (int)d_u(17);
            o->szkind = d_w("9211");
            o->size = 1 + d_len(o->kind == O_CALLOC || o->kind == O_ALLOC ? (d_p(1, 150) ? 1000000 : 16384) : 600);
            o->fail = !mode && d_p(1, 12);
            NOTE("%s%d: %s in arena %d, size %ld (%d), form %d%s\n", mode ? "thread " : "", mode ? t : k, kn[o->kind], o->ar, o->size, o->szkind, o->how, o->fail ? ", no memory" : "");
        }
    }
    live = trk_live();
    if (mode) {
        pthread_t th[MAXT];
        for (t = 0; t < nH; t++)
            if (pthread_create(&th[t], NULL, run, &H[t]))
                exit(0);
        for (t = 0; t < nH; t++)
            pthread_join(th[t], NULL);
        eng_label("threads");
    } else
        run(&H[0]);
    {
        int clears = 0, frees = 0, refills = 0, fault = 0;
        for (t = 0; t < nH; t++) {
            clears += H[t].nclear;
            frees += H[t].nfree;
            refills += H[t].nrefill;
            fault += H[t].nfault;
        }
        if (clears && refills > 1 && arenas + nH > 2)
            eng_nontrivial();
        if (clears) eng_label("cleared");
        if (refills > 2) eng_label("3 or more chunks");
        if (fault) eng_label("memory failed");
        if (arenas > 1) eng_label("several arenas");
    }
    /* chunks kept for later are all that may be left: no more than the greatest threshold */
    CHECK(trk_live() - live <= 41, "%d blocks are left when all arenas are freed", (int)(trk_live() - live));
    trk_check();
    exit(0);
}

static const eng_prop props[] = {
    { "C11", ENG_ISO, 1, c11, NULL, "generated histories over 1 to 4 arenas and arena-backed scopes (several thresholds): allocate, zeroed too, around the remaining capacity and the threshold, clear, free, defer and bind to the scope, unwind it, with failing memory and requests for more than there can be; or such histories in 2 to 4 threads at once, or 2 to 8 threads that take and clear chunks thousands of times; an interval model with content patterns is checked after each operation; non-trivial: threads churn chunks, or something is cleared, more than one chunk is used, and there are several arenas or threads" },
};

int main(int argc, char **argv) { return eng_main(argc, argv, props, 1); }
