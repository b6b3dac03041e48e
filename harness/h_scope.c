/* C01, C02: histories over smart pointer scopes against a stack model that follows every call. */
#include "eng.h"
#include "raii.h"
#include <string.h>
#include <stdio.h>
#include <stddef.h>

#define MAXE 20000         /* entries in a case */
#define MAXS 5             /* scopes; 0 is the thread's default one */
#define MAXA 400           /* blocks of a scope's arena */

enum { K_FREE, K_REL, K_FN };                       /* what an entry is */
enum { ACT_NONE, ACT_DEFER, ACT_ALLOC, ACT_CANCEL, ACT_FIRE, ACT_UNWIND, ACT_OTHER };

typedef struct {
    int kind, id, scope;
    int act, arg;
    int state;              /* 0 bound, 1 running or done, 2 cancelled */
    int depth;
    size_t index;           /* as returned, or the scope's mid */
    unsigned char *blk;
    size_t size;
} entry;

typedef struct {
    memory_t *m;
    int open;
    int unwinding;
    int n;
    int arena;              /* it has one */
    int na;
    struct { unsigned char *p; size_t size; int id; } a[MAXA];
    int st[MAXE];           /* entry numbers, bottom first */
} mscope;

static entry E[MAXE];
static int nE;
static mscope M[MAXS];
static int nuw, uw[64];     /* scopes being unwound, innermost last */
static int firing;          /* entry being fired, or -1 */
static int use_index;       /* C02 */
static int ncalls, nbulk, nnested, ndone, narena, many;

static void on_call(void *arg);

static unsigned char pat(int id, size_t i) { return (unsigned char)(id * 37 + i * 11 + (i >> 8) * 5 + 1); }

static void check_block(const entry *e) {
    size_t i;
    CHECK(trk_is_live(e->blk), "block %d of scope %d (%zu bytes) was freed though its scope was not unwound", e->id, e->scope, e->size);
    for (i = 0; i < e->size; i++)
        CHECK(e->blk[i] == pat(e->id, i), "block %d of scope %d (%zu bytes) changed at offset %zu", e->id, e->scope, e->size, i);
}

/* of the arena of a scope that is not yet unwound */
static void check_arena(int s, int deep) {
    int k;
    size_t i;
    for (k = 0; k < M[s].na; k++)
        if (deep || k < 2 || k + 3 > M[s].na) {
            CHECK(trk_owns(M[s].a[k].p, M[s].a[k].size), "block %d (%zu bytes) of the arena of scope %d was freed though its scope was not unwound", k, M[s].a[k].size, s);
            for (i = 0; i < M[s].a[k].size; i++)
                CHECK(M[s].a[k].p[i] == pat(M[s].a[k].id, i), "block %d (%zu bytes) of the arena of scope %d changed at offset %zu", k, M[s].a[k].size, s, i);
        }
}

static void check_all(int deep) {
    int s, k;
    for (s = 0; s < MAXS; s++)
        check_arena(s, deep);
    for (s = 0; s < MAXS; s++)
        for (k = 0; k < M[s].n; k++) {
            entry *e = &E[M[s].st[k]];
            if (e->state == 0 && e->kind != K_FN && (deep || k + 3 > M[s].n || k < 2))
                check_block(e);
        }
}

/* the release function of malloc_full/calloc_full */
static void release(void *p) {
    int i;
    for (i = nE - 1; i >= 0; i--)
        if (E[i].kind == K_REL && E[i].blk == p)
            break;
    CHECK(i >= 0, "a release function is called with a pointer that was not allocated with it");
    on_call(&E[i]);
    trk_free(p);
}

static entry *new_entry(int s, int kind) {
    entry *e;
    if (nE >= MAXE)
        return NULL;
    e = &E[nE];
    memset(e, 0, sizeof *e);
    e->id = nE++;
    e->scope = s;
    e->kind = kind;
    M[s].st[M[s].n++] = e->id;
    return e;
}

static void do_alloc_arena(int s, int how, size_t size, int cnt) {
    memory_t *m = M[s].m;
    unsigned char *p;
    size_t i;
    if (M[s].na >= MAXA || !size)
        return;
    switch (how) {
        case 0: p = malloc_by(m, size); break;
        case 2: p = calloc_by(m, cnt, size / cnt); break;
        case 3: p = malloc_arena(m, size); break;
        default: p = calloc_arena(m, cnt, size / cnt); break;
    }
    NOTE("    allocate %zu (form %d, count %d) from the arena of scope %d\n", size, how, cnt, s);
    CHECK(p != NULL, "a request for %zu bytes of an arena gives nothing", size);
    CHECK(trk_owns(p, size), "a request for %zu bytes of an arena gives less", size);
    if (how == 2 || how == 7)
        for (i = 0; i < size; i++)
            CHECK(p[i] == 0, "zeroed memory of an arena (%zu bytes) is not zero at offset %zu", size, i);
    M[s].a[M[s].na].p = p;
    M[s].a[M[s].na].size = size;
    M[s].a[M[s].na].id = ++narena + 100000;
    for (i = 0; i < size; i++)
        p[i] = pat(narena + 100000, i);
    M[s].na++;
}

static void do_alloc(int s, int how, size_t size) {
    memory_t *m = M[s].m;
    size_t i, cnt = 1;
    int zero = 0, kind = K_FREE;
    unsigned char *p;
    entry *e;
    if (nE >= MAXE)
        return;
    if (how == 2 || how == 5 || how == 6 || how == 7) {
        zero = 1;
        cnt = size % 3 == 0 ? 3 : size % 2 == 0 ? 2 : 1;
        if (size > 64 && size % 5 == 0) {
            cnt = size % 97 + 1;
            size -= size % cnt;
        }
    }
    if (M[s].arena && (how == 0 || how == 2 || how == 3 || how == 7)) {
        do_alloc_arena(s, how, size, (int)cnt);
        return;
    }
    if (s == 0 && (how == 3 || how == 7))
        m = NULL;
    switch (how) {
        case 0: p = malloc_by(m, size); break;
        case 1: p = malloc_full(m, size, RAII_FREE); break;
        case 2: p = calloc_by(m, (int)cnt, size / cnt); break;
        case 3: p = m ? malloc_full(m, size, trk_free) : malloc_default(size); break;
        case 4: p = malloc_full(m, size, release); kind = K_REL; break;
        case 5: p = calloc_full(m, (int)cnt, size / cnt, release); kind = K_REL; break;
        case 6: p = calloc_full(m, (int)cnt, size / cnt, RAII_FREE); break;
        default: p = m ? calloc_full(m, (int)cnt, size / cnt, RAII_FREE) : calloc_default((int)cnt, size / cnt); break;
    }
    NOTE("    allocate %zu (form %d) in scope %d -> block %d\n", size, how, s, nE);
    CHECK(p != NULL, "allocation of %zu bytes gives nothing", size);
    CHECK(trk_is_live(p), "allocation gives a pointer that is no block of the allocator");
    CHECK(trk_size(p) >= size, "allocation of %zu bytes gives %zu", size, trk_size(p));
    if (zero)
        for (i = 0; i < size; i++)
            CHECK(p[i] == 0, "calloc of %zu bytes is not zero at offset %zu", size, i);
    e = new_entry(s, kind);
    e->blk = p;
    e->size = size;
    for (i = 0; i < size; i++)
        p[i] = pat(e->id, i);
    e->index = s == 0 && how % 2 ? raii_mid() : raii_last_mid(M[s].m);
}

/* More than there can be: a panic, nothing is bound, everything stays. */
static void do_huge(int s, int how, int k) {
    static const size_t sizes[] = { (size_t)-1, (size_t)-2, (size_t)-17, ((size_t)-1 >> 1) + 1, (size_t)-1 >> 1, (size_t)-1 >> 2 };
    static const struct { int c; size_t n; } prod[] = { { 1 << 30, (size_t)1 << 34 }, { 1 << 24, ((size_t)1 << 40) + 1 }, { 3, (size_t)-1 / 3 + 1 }, { 2, (size_t)1 << 63 }, { 1 << 30, ((size_t)1 << 34) + 8 }, { 7, (size_t)-1 / 7 + 2 } };
    memory_t *m = M[s].m;
    size_t count = raii_deferred_count(m), mid = raii_last_mid(m), live = trk_live();
    void *volatile p = NULL;
    volatile int failed = 0;
    NOTE("    ask scope %d for more than there is (form %d, case %d)\n", s, how, k);
    try {
        switch (how) {
            case 0: p = malloc_by(m, sizes[k]); break;
            case 1: p = malloc_full(m, sizes[k], RAII_FREE); break;
            case 2: p = calloc_by(m, prod[k].c, prod[k].n); break;
            case 3: p = s ? malloc_full(m, sizes[k], release) : malloc_default(sizes[k]); break;
            case 4: p = calloc_full(m, prod[k].c, prod[k].n, release); break;
            default: p = s ? calloc_full(m, prod[k].c, prod[k].n, RAII_FREE) : calloc_default(prod[k].c, prod[k].n); break;
        }
    } catch_any {
        failed = 1;
    } end_try;
    CHECK(failed, "a request for more memory than there is gives %p", p);
    CHECK(raii_deferred_count(m) == count && raii_last_mid(m) == mid, "a request that failed binds something");
    CHECK(trk_live() == live, "a request that failed leaves %d blocks allocated", (int)(trk_live() - live));
}

static void do_defer(int s, int how, int depth) {
    entry *e;
    memory_t *m = M[s].m;
    int act = ACT_NONE, arg = 0;
    if (nE >= MAXE)
        return;
    if (depth < 3 && d_p(1, 6)) {
        act = d_w(use_index ? "0333311" : "0550023");
        arg = act == ACT_DEFER ? (d_p(1, 8) ? d_in(14, 40) : d_in(1, 4)) : (int)d_u(60);
    }
    e = new_entry(s, K_FN);
    e->act = act;
    e->arg = arg;
    e->depth = depth;
    NOTE("    defer function %d to scope %d%s\n", e->id, s, act == ACT_NONE ? "" : act == ACT_DEFER ? ", which defers more" :
        act == ACT_ALLOC ? ", which allocates" : act == ACT_CANCEL ? ", which cancels another" : act == ACT_FIRE ? ", which fires another" :
        act == ACT_UNWIND ? ", which unwinds another scope" : ", which defers to another scope");
    e->index = (size_t)-2;
    if (s == 0 && how == 1)
        e->index = raii_defer(on_call, e);
    else if (s == 0 && how == 2)
        raii_recover(on_call, e);
    else if (how == 3)
        raii_recover_by(m, on_call, e);
    else
        e->index = raii_deferred(m, on_call, e);
    CHECK(e->index != (size_t)-1, "deferring reports failure");
}

/* entries of scope s that may be cancelled or fired */
static entry *pick_live(int s, uint32_t r, int cancel) {
    int k, n = 0;
    for (k = 0; k < M[s].n; k++) {
        entry *e = &E[M[s].st[k]];
        if (e->state == 0 && e->index != (size_t)-2)
            n++;
    }
    (void)cancel;
    if (!n)
        return NULL;
    r = r < 8 && (uint32_t)n > r ? n - 1 - r : r % n;       /* often one of the last */
    for (k = 0; k < M[s].n; k++) {
        entry *e = &E[M[s].st[k]];
        if (e->state == 0 && e->index != (size_t)-2 && r-- == 0)
            return e;
    }
    return NULL;
}

static void do_cancel(int s, uint32_t r) {
    entry *e = pick_live(s, r, 1);
    if (!e)
        return;
    NOTE("    cancel %d of scope %d (%d bound after it)\n", e->id, s, M[s].n - 1);
    e->state = 2;
    if (s == 0 && r % 2)
        raii_defer_cancel(e->index);
    else
        raii_deferred_cancel(M[s].m, e->index);
    ndone++;
    if (e->kind != K_FN) {          /* the caller owns it now */
        size_t i;
        for (i = 0; i < e->size; i++)
            CHECK(e->blk[i] == pat(e->id, i), "block %d changed when its release was cancelled", e->id);
        trk_free(e->blk);
        e->blk = NULL;
    }
}

static void do_fire(int s, uint32_t r) {
    entry *e = pick_live(s, r, 0);
    int was = firing, before;
    if (!e)
        return;
    NOTE("    fire %d of scope %d\n", e->id, s);
    firing = e->id;
    before = ncalls;
    if (e->kind == K_FREE)
        e->state = 1;
    if (s == 0 && r % 2)
        raii_defer_fire(e->index);
    else
        raii_deferred_fire(M[s].m, e->index);
    ndone++;
    if (e->kind == K_FREE)
        CHECK(!trk_is_live(e->blk), "firing a block's release did not free it");
    else
        CHECK(e->state == 1 && ncalls > before, "firing %d did not run it", e->id);
    firing = was;
}

/* The model takes off what must have been released before entry e (or all, e NULL) runs. */
static void advance(int s, entry *e) {
    while (M[s].n) {
        entry *t = &E[M[s].st[M[s].n - 1]];
        if (t->state != 0) {           /* fired or cancelled before */
            M[s].n--;
            continue;
        }
        if (t == e)
            return;
        CHECK(t->kind == K_FREE, e ? "function %d of scope %d was called before function %d, which was bound later" :
            "unwinding scope %2$d did not run function %3$d", e ? e->id : 0, s, t->id);
        CHECK(!trk_is_live(t->blk), "block %d of scope %d is still allocated, though what was bound before it is released", t->id, s);
        t->state = 1;
        M[s].n--;
    }
    CHECK(!e, "function %d was called, but is not bound to the scope that is unwound", e ? e->id : 0);
}

static void do_unwind(int s, int how) {
    if (M[s].unwinding || nuw >= 60)
        return;
    check_all(0);
    if (M[s].arena)
        check_arena(s, 1);
    NOTE("  unwind scope %d (%d entries, form %d)\n", s, M[s].n, how);
    M[s].unwinding = 1;
    uw[nuw++] = s;
    if (s == 0) {
        if (how == 0)
            raii_deferred_clean();
        else if (how == 1)
            raii_destroy();
        else
            raii_deferred_free(M[s].m);
    } else if (how <= 1 && M[s].arena)
        free_arena(M[s].m);
    else if (how <= 1)
        raii_delete(M[s].m);
    else
        raii_deferred_free(M[s].m);
    advance(s, NULL);
    nuw--;
    M[s].unwinding = 0;
    if (how > 1)
        M[s].na = 0;
    if (s && how <= 1) {
        CHECK(!trk_is_live(M[s].m), "raii_delete does not free the scope");
        for (how = 0; how < M[s].na; how++)
            CHECK(!trk_owns(M[s].a[how].p, 1), "block %d of the arena of scope %d is allocated after the scope was deleted", how, s);
        M[s].open = M[s].na = M[s].arena = 0;
        M[s].m = NULL;
    } else
        CHECK(raii_deferred_count(M[s].m) == 0, "an unwound scope still counts %zu deferred", raii_deferred_count(M[s].m));
}

static void act(entry *e) {
    int s = e->scope, o, k;
    switch (e->act) {
        case ACT_DEFER:
            for (k = 0; k < e->arg; k++)
                do_defer(s, 0, e->depth + 1);
            nnested++;
            break;
        case ACT_ALLOC:
            do_alloc(s, e->arg % 3, (size_t)e->arg * 3);
            nnested++;
            break;
        case ACT_CANCEL: do_cancel(s, e->arg); break;
        case ACT_FIRE:
            if (e->depth < 2)
                do_fire(s, e->arg);
            break;
        case ACT_UNWIND:
        case ACT_OTHER:
            for (o = (s + 1 + e->arg) % MAXS, k = 0; k < MAXS; k++, o = (o + 1) % MAXS)
                if (o != s && M[o].open && !M[o].unwinding)
                    break;
            if (k < MAXS) {
                if (e->act == ACT_UNWIND)
                    do_unwind(o, 2);
                else
                    do_defer(o, 0, e->depth + 1);
            }
            break;
    }
}

/* Every deferred function is this one. */
static void on_call(void *arg) {
    entry *e = arg;
    int was = firing;
    CHECK(e >= E && e < E + nE && ((char *)arg - (char *)E) % sizeof(entry) == 0, "a deferred function is called with a foreign argument");
    ncalls++;
    CHECK(e->state != 2, "function %d was called though it was cancelled", e->id);
    CHECK(e->state == 0, "function %d of scope %d was called twice", e->id, e->scope);
    if (firing == e->id) {
        e->state = 1;
    } else {
        CHECK(nuw > 0, "function %d of scope %d was called, but nothing is unwound", e->id, e->scope);
        CHECK(uw[nuw - 1] == e->scope, "function %d of scope %d was called while scope %d is unwound", e->id, e->scope, uw[nuw - 1]);
        advance(e->scope, e);
        e->state = 1;
        M[e->scope].n--;
    }
    if (e->kind == K_REL)
        check_block(e);
    /* what was bound earlier is still there */
    if (M[e->scope].arena)
        check_arena(e->scope, 0);
    if (M[e->scope].n) {
        entry *b = &E[M[e->scope].st[M[e->scope].n - 1]];
        if (b->state == 0 && b->kind != K_FN)
            check_block(b);
    }
    firing = -1;
    if (e->kind == K_FN && e->act)
        act(e);
    firing = was;
}

/* More entries than 16 bits count, of one scope. */
#define WIDE 70000
static struct { int state; size_t index; } W[WIDE];
static int wnext, wfiring;

static void on_wide(void *arg) {
    int k = (int)((char *)arg - (char *)W) / (int)sizeof *W;
    CHECK(k >= 0 && k < WIDE, "a deferred function is called with a foreign argument");
    CHECK(W[k].state == 0, "function %d of many runs though it was %s", k, W[k].state == 1 ? "run before" : "cancelled");
    W[k].state = 1;
    if (wfiring >= 0) {
        CHECK(k == wfiring, "firing function %d of many runs %d", wfiring, k);
        return;
    }
    while (wnext >= 0 && W[wnext].state && wnext != k)
        wnext--;
    CHECK(wnext == k, "function %d of many runs before function %d, bound later", k, wnext);
}

static void run_wide(void) {
    int n = d_in(WIDE - 4500, WIDE), own = d_p(1, 2), k, i, j;
    memory_t *m = raii_init();
    wfiring = -1;
    if (own)
        m = unique_init();
    NOTE("  %d functions are deferred to %s\n", n, own ? "a scope" : "the default scope");
    memset(W, 0, sizeof W);
    for (k = 0; k < n; k++) {
        W[k].index = raii_deferred(m, on_wide, &W[k]);
        CHECK(W[k].index != (size_t)-1, "deferring function %d of many reports failure", k);
    }
    CHECK(raii_deferred_count(m) == (size_t)n, "%d functions were deferred, but %zu are counted", n, raii_deferred_count(m));
    if (use_index)
        for (j = d_in(1, 12); j--;) {
            i = (int)d_u(n - 1);
            if (d_p(1, 3))
                i = (int)d_u(n > 65537 ? n - 65537 : 1);
            if (W[i].state)
                continue;
            if (d_p(1, 2)) {
                NOTE("  cancel %d\n", i);
                raii_deferred_cancel(m, W[i].index);
                W[i].state = 2;
            } else {
                NOTE("  fire %d\n", i);
                wfiring = i;
                raii_deferred_fire(m, W[i].index);
                wfiring = -1;
                CHECK(W[i].state == 1, "firing function %d of many does not run it", i);
            }
        }
    wnext = n - 1;
    if (own)
        raii_delete(m);
    raii_deferred_clean();
    for (k = 0; k < n; k++)
        CHECK(W[k].state, "function %d of %d never runs", k, n);
    trk_check();
    CHECK(trk_live() == 0, "%zu blocks (%zu bytes) are still allocated at the end", trk_live(), trk_live_bytes());
    eng_label("more than 65536 entries at once");
    eng_nontrivial();
}

static void run(void) {
    int steps = d_in(1, 40), i, s, k, maxn = 0, total = 0;
    nE = nuw = ncalls = nbulk = nnested = ndone = 0;
    firing = -1;
    narena = 0;
    for (s = 0; s < MAXS; s++)
        memset(&M[s], 0, offsetof(mscope, a));
    if (d_p(1, 4000)) {
        run_wide();
        return;
    }
    many = d_p(1, 300);
    M[0].m = raii_init();
    M[0].open = 1;
    for (i = 0; i < steps; i++) {
        s = (int)d_u(MAXS - 1);
        if (!M[s].open) {
            M[s].arena = s && d_p(1, 5);
            M[s].m = M[s].arena ? unique_init_arena() : unique_init();
            CHECK(trk_is_live(M[s].m), "unique_init gives no block");
            M[s].open = 1;
            M[s].n = 0;
            NOTE("  new scope %d%s\n", s, M[s].arena ? " with an arena" : "");
        }
        switch (d_w(use_index ? "653213" : "852200")) {
            case 0: do_defer(s, (int)d_u(3), 0); break;
            case 1: {
                int how = (int)d_u(7);
                if (d_p(1, 40)) {
                    do_huge(s, (int)d_u(5), (int)d_u(5));
                    break;
                }
                do_alloc(s, how, d_p(1, 300) ? (size_t)d_in(70000, 3000000) : d_len(how == 0 ? 70000 : 3000));
                break;
            }
            case 2:                          /* cross the list's growth steps */
                k = d_in(1, 40);
                if (d_p(1, 5))
                    k += (int)d_u(many ? 6000 : 400);
                nbulk++;
                NOTE("  %d entries to scope %d:\n", k, s);
                while (k--)
                    if (d_p(1, 5))
                        do_alloc(s, k % 8, k % 40 + 1);
                    else
                        do_defer(s, 0, 2);
                break;
            case 3: do_unwind(s, (int)d_u(3)); break;
            case 4: do_fire(s, d_u(200)); break;
            default: do_cancel(s, d_u(200)); break;
        }
        if (M[s].n > maxn)
            maxn = M[s].n;
        if (i % 8 == 7)
            check_all(1);
    }
    check_all(1);
    total = nE;
    for (k = 0; k < MAXS; k++) {             /* any order */
        s = (int)((k + steps) % MAXS);
        if (M[s].open)
            do_unwind(s, 0);
    }
    for (k = 0; k < MAXS; k++)               /* unwinding one may have bound more to another */
        if (M[k].open && (k == 0 || M[k].n))
            do_unwind(k, 0);
    for (k = 0; k < 4 && M[0].n; k++)
        do_unwind(0, 0);
    trk_check();
    CHECK(trk_live() == 0, "%zu blocks (%zu bytes) are still allocated at the end", trk_live(), trk_live_bytes());
    for (k = 0; k < nE; k++)
        CHECK(E[k].state != 0, "entry %d of scope %d was never released", k, E[k].scope);
    if (maxn > 16)
        eng_label("more than 16 entries at once");
    if (maxn > 64)
        eng_label("more than 64 entries at once");
    if (maxn > 1000)
        eng_label("more than 1000 entries at once");
    if (narena)
        eng_label("scopes with an arena");
    if (nnested)
        eng_label("bound while unwinding");
    if (ndone)
        eng_label("cancelled or fired");
    if (total > 3 && (!use_index || ndone > 0))
        eng_nontrivial();
}

static void c01(void) { use_index = 0; run(); }
static void c02(void) { use_index = 1; run(); }

static const eng_prop props[] = {
    { "C01", ENG_BATCH, 0, c01, NULL, "histories of up to 40 steps over the default and 4 further scopes, some with an arena: defers (plain, recoverable, themselves deferring, allocating or unwinding others), allocations in every form, requests for more than there can be, bulk binding over the list's growth steps, unwinds, deletes, reuse; a stack model checks each call, block and release in order, then that nothing is left; non-trivial: more than 3 entries bound" },
    { "C02", ENG_BATCH, 0, c02, NULL, "as C01, with cancels and fires of any live index (returned, or the scope's last allocation id), also from deferred functions while unwinding; non-trivial: more than 3 entries and at least one cancelled or fired" },
};

int main(int argc, char **argv) {
    return eng_main(argc, argv, props, sizeof props / sizeof *props);
}
