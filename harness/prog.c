/* prog.c - see prog.h */
#include "prog.h"
#include <setjmp.h>

EX_EXCEPTION(prog_custom);
EX_EXCEPTION(prog_custom_x);
extern const char EX_NAME(range_error)[], EX_NAME(logic_error)[], EX_NAME(out_of_range)[], EX_NAME(domain_error)[],
    EX_NAME(sig_hup)[], EX_NAME(sig_term)[];

const char *const prog_text[T_COUNT] = {
#define X(n) #n,
    NAMES(X)
#undef X
#define X(n, s) #n,
    SIGNAMES(X)
#undef X
#define X(n) #n,
    MSGS(X)
#undef X
#define TEN(s) s s s s s s s s s s
    TEN("a message that is much longer than any ") TEN("name an exception may have, ") "to its end",
    TEN("a message that is much longer than any ") TEN("name an exception may have, ") "to its End", "50% done: %s %d %n", "", "oop", "Boom",
};
const int prog_sig[NSIGX] = {
#define X(n, s) s,
    SIGNAMES(X)
#undef X
    SIGUSR1, SIGUSR2, RT_SIG, RT_SIG + 1, RT_SIG + 2, RT_SIG + 3, RT_SIG + 4, RT_SIG + 5, RT_SIG + 6, RT_SIG + 7, RT_SIG + 8,
    RT_SIG + 9, RT_SIG + 10, RT_SIG + 11, RT_SIG + 12, RT_SIG + 13, RT_SIG + 14, RT_SIG + 15, RT_SIG + 16, RT_SIG + 17
};
static const int sig_names[] = { T_prog_custom, T_range_error, T_logic_error, T_out_of_range, T_domain_error, T_sig_hup, T_sig_term };
#define SIG_NAME(n, i) sig_names[((n)->b + (i)) % 7]

static int same_text(int a, int b) { return a >= 0 && b >= 0 && !strcmp(prog_text[a], prog_text[b]); }

static int text_of(const char *s) {
    int i;
    if (!s)
        return T_NONE;
    for (i = 0; i < T_COUNT; i++)
        if (!strcmp(prog_text[i], s))
            return i;
    return T_OTHER;
}

/* the first text that reads the same */
static int canon(int t) { return t < 0 ? t : text_of(prog_text[t]); }

/* --- the shapes of try ------------------------------------------------------------ */
enum { SH_FULL, SH_ANY, SH_FIN, SH_ONE, SH_TWOFIN, SH_PANIC, SH_IF, SH_IFFIN, SH_FINALITY, SH_SIGS, SH_SIGANY,
    SH_DUP, SH_CUSTOMFIN, SH_NONE, SH_PROT, SH_PROTFIN, SH_ANYFIRST, SH_COUNT };
#define CL_ANY -1
#define CL_END -9
static const struct {
    int isif, fin, prot;
    int cl[14];
} shape[SH_COUNT] = {
    { 0, 1, 0, { T_range_error, T_logic_error, CL_ANY, CL_END } },
    { 0, 0, 0, { CL_ANY, CL_END } },
    { 0, 1, 0, { CL_END } },
    { 0, 0, 0, { T_range_error, CL_END } },
    { 0, 1, 0, { T_logic_error, T_range_error, CL_END } },
    { 0, 0, 0, { T_panic, T_prog_custom_x, T_prog_custom, CL_END } },
    { 1, 0, 0, { T_range_error, T_msg_boom, CL_END } },
    { 1, 1, 0, { T_msg_oops, T_sig_segv, T_prog_custom, CL_END } },
    { 0, 1, 0, { CL_ANY, CL_END } },
    { 0, 0, 0, { T_sig_segv, T_sig_abrt, T_sig_fpe, T_sig_ill, T_sig_int, T_sig_term, T_sig_quit, T_sig_hup,
        T_sig_winch, T_sig_trap, T_sig_alrm, T_sig_bus, CL_END } },
    { 0, 1, 0, { T_sig_segv, T_sig_fpe, CL_ANY, CL_END } },
    { 0, 0, 0, { T_out_of_range, T_out_of_range, CL_ANY, CL_END } },
    { 0, 1, 0, { T_prog_custom, CL_END } },
    { 0, 0, 0, { CL_END } },
    { 0, 0, 1, { T_range_error, CL_ANY, CL_END } },
    { 0, 1, 1, { T_logic_error, CL_END } },
    { 0, 0, 0, { CL_ANY, T_range_error, CL_END } },
};
#define HANDLER(n, K) ((n)->k[1 + (K) % 3])

/* --- running ------------------------------------------------------------------------ */
#define NUT 40                      /* tasks of a spawn scope made by the program */
#define UMAX 60                     /* blocks of a scope made by the program */
typedef struct frame frame;
typedef struct ginst ginst;
struct frame {
    frame *up;
    ginst *upinst;
    int n;
    ex_ptr_t prot[NSLOT];
    void *pv[NSLOT];
    int nopen, opened[NSLOT];     /* protected, not unprotected */
};
struct ginst {
    ginst *up;
    memory_t *scope;
};
typedef struct {
    node *st;
    ginst *inst;
} closure;
typedef struct {
    prog *P;
    frame *fr;
    ginst *inst;
    frame base;
    ginst insts[NINST];
    int ninst;
    closure cl[NEVENT];
    int ncl;
    int nop, nblk;
    struct { unsigned char *p; size_t n; int text; } blk[NBLK];
    sigset_t mask;
    int steps, dead;
    struct uscope { memory_t *s; unsigned char *p[UMAX]; int n[UMAX], np, spoiled; future_t pool; } us[3];
    struct utask { result_t r; int v, returned, kind; } ut[NUT];
    int nut, claimed;
    int hook, hook_in;
    struct { uint64_t h; int n; } tr[NTRACE];
    int ntr;
} run_t;

static __thread run_t *R;
static char ptr_target[4096];
#define PTR(id) ((void *)&ptr_target[id])

static int run_list(node *n);

static unsigned char fill(size_t i, int no) { return (unsigned char)(no * 53 + i * 7 + 3); }

static int count_live(void) {
    int i, n = 0;
    for (i = 0; i < R->nblk; i++)
        if (R->blk[i].p && trk_is_live(R->blk[i].p))
            n++;
    return n;
}

static event *ev_at(int kind, int id) {
    prog *P = R->P;
    event *e;
    int i;
    size_t k;
    if (P->yield)
        P->yield();
    if (P->nact >= NEVENT) {
        P->overflow = 1;
        _exit(98);
    }
    e = &P->act[P->nact];
    memset(e, 0, sizeof *e);
    e->kind = kind;
    e->id = id;
    e->live = count_live();
    for (i = 0; i < R->nblk; i++)
        if (R->blk[i].p && trk_is_live(R->blk[i].p) && (kind == EV_DEFER || kind == EV_END || kind == EV_DDEFER || kind == EV_CATCH))
            for (k = 0; k < R->blk[i].n; k++)
                if (R->blk[i].p[k] != (R->blk[i].text ? R->blk[i].p[k] : fill(k, i)))
                    eng_fail("allocated memory (%zu bytes) changed at offset %zu", R->blk[i].n, k);
    __sync_synchronize();
    P->nact++;
    return e;
}

static void ev(int kind, int id, int a) { ev_at(kind, id)->a = a; }

static int mask_ok(void) {
    sigset_t now;
    int i;
    pthread_sigmask(SIG_BLOCK, NULL, &now);
    for (i = 1; i < 64; i++)
        if (sigismember(&now, i) != sigismember(&R->mask, i) && i != 32 && i != 33)
            return 0;
    return 1;
}

static const char *const this_file = __FILE__;
static int file_of(const char *f) { return !f ? 3 : !strcmp(f, this_file) ? 0 : !strcmp(f, "unknown") ? 1 : !strcmp(f, "elsewhere.c") ? 4 : 2; }

/* --- backtraces, where the library takes them ------------------------------------------------- */
#if defined(USE_DEBUG)
#include <execinfo.h>
static uint64_t trace_hash(void *const *a, int n) {
    uint64_t h = 1469598103934665603u;
    int i;
    for (i = 0; i < n; i++)
        h = (h ^ (uint64_t)(uintptr_t)a[i]) * 1099511628211u;
    return h;
}

/* By a function that throws next: its callers. */
static inline __attribute__((always_inline)) void trace_throw(void) {
    void *a[EX_MAX_NAME_LEN];
    int n, i, k = R->ntr + 1;
    if (!R->P->traces || k >= NTRACE)
        return;
    R->ntr = k;
    n = backtrace(a, EX_MAX_NAME_LEN);
    R->tr[k].n = n < 240 ? n - 1 : 0;
    R->tr[k].h = trace_hash(a + 1, R->tr[k].n);
    for (i = 1; i < k; i++)
        if (R->tr[i].n == R->tr[k].n && R->tr[i].h == R->tr[k].h)
            break;
    R->P->same[k] = i;
}

static int trace_of(ex_backtrace_t *bt) {
    int i;
    if (!R->P->traces)
        return 0;
    for (i = 1; i <= R->ntr; i++)
        if (R->P->same[i] == i && R->tr[i].n && (int)bt->size >= R->tr[i].n && bt->size <= EX_MAX_NAME_LEN &&
            R->tr[i].h == trace_hash(bt->ctx + bt->size - R->tr[i].n, R->tr[i].n))
            return i;
    return -1;
}
#else
static void trace_throw(void) {}
static int trace_of(ex_backtrace_t *bt) { return 0; }
#endif

static void caught_event(node *n, int clause, const char *err, const char *file, int line, ex_backtrace_t *bt, int isif) {
    event *e = ev_at(EV_CATCH, n->id);
    e->a = clause;
    e->b = canon(text_of(err));
    e->c = isif ? canon(text_of(raii_message())) : T_NONE;
    e->d = line;
    e->f = file_of(file);
    e->m = mask_ok();
    e->t = trace_of(bt);
}

static void op_settle(void) { prog_settle(R->P); }

static void op_begin(void) {
    prog *P = R->P;
    op_settle();
    P->pend_failed = trk_failed();
    P->pend = R->nop < NOPS ? R->nop : NOPS - 1;
    R->nop++;
    P->nops = R->nop;
}

static void op_end(node *n, void *p, size_t size, int zero, int text) {
    size_t i;
    R->P->pend = -1;                /* it did not throw: whatever failed was made good */
    if (!p) {
        ev(EV_NULL, n->id, 0);
        return;
    }
    if (!trk_is_live(p))
        eng_fail("an allocation gives a pointer that is no block of the allocator");
    if (trk_size(p) < size)
        eng_fail("an allocation of %zu bytes gives %zu", size, trk_size(p));
    for (i = 0; zero && i < size; i++)
        if (((unsigned char *)p)[i])
            eng_fail("a zeroed allocation of %zu bytes is not zero at offset %zu", size, i);
    R->blk[R->nblk].p = p;
    R->blk[R->nblk].n = size;
    R->blk[R->nblk].text = text;
    if (!text)
        for (i = 0; i < size; i++)
            ((unsigned char *)p)[i] = fill(i, R->nblk);
    R->nblk++;
}

/* release functions of protected pointers */
static void rel0(void *p) { ev(EV_REL, (int)((char *)p - ptr_target), 0); }
static void rel1(void *p) { ev(EV_REL, (int)((char *)p - ptr_target), 1); }
static void rel2(void *p) {
    ev(EV_REL, (int)((char *)p - ptr_target), 2);
    try {
        throw(range_error);
    } catch_any {
        ev(EV_STEP, 9999, 0);
    } end_try;
}
static void rel3(void *p) {
    ev(EV_REL, (int)((char *)p - ptr_target), 3);
    R->P->lines[10] = __LINE__; throw(out_of_range);
}
static void (*const rels[])(void *) = { rel0, rel1, rel2, rel3 };

static ginst *inst_up(int k) {
    ginst *g = R->inst;
    while (k-- > 0 && g && g->up)
        g = g->up;
    return g;
}

static closure *mk(node *st, ginst *inst) {
    closure *c;
    if (R->ncl >= NEVENT) {
        R->P->overflow = 1;
        _exit(98);
    }
    c = &R->cl[R->ncl++];
    c->st = st;
    c->inst = inst;
    return c;
}

static void on_defer(void *arg) {
    closure *c = arg;
    ginst *inst = R->inst;
    if (c < R->cl || c >= R->cl + R->ncl || ((char *)c - (char *)R->cl) % sizeof *c)
        eng_fail("a deferred function was called with a foreign argument");
    R->inst = c->inst;
    ev(EV_DEFER, c->st->id, 0);
    run_list(c->st->k[0]);
    R->inst = inst;
}

static void on_defer2(void *arg) {          /* the one cancelled, or fired */
    closure *c = arg;
    ginst *inst = R->inst;
    R->inst = c->inst;
    ev(EV_DEFER, c->st->id, 2);
    run_list(c->st->k[1]);
    R->inst = inst;
}

static void on_ddefer(void *arg) {
    closure *c = arg;
    ginst *inst = R->inst;
    if (c < R->cl || c >= R->cl + R->ncl || ((char *)c - (char *)R->cl) % sizeof *c)
        eng_fail("a deferred function was called with a foreign argument");
    R->inst = NULL;
    ev(EV_DDEFER, c->st->id, 0);
    run_list(c->st->k[0]);
    R->inst = inst;
}

static void on_terminate(void) { ev(EV_TERM, 0, 0); }
static void on_ctrlc(void) { ev(EV_CTRLC, 0, 0); }

/* --- the program's own functions for exceptions: told of each, and to unwind a scope of its own ---- */
static void on_hooked(void *arg) {
    memory_t *s = exception_unwind_func ? ex_local()->data : NULL;
    int k = (int)(intptr_t)arg;
    event *e = ev_at(EV_HOOK, 3);
    e->a = k;
    e->b = canon(text_of(raii_message_by(s)));
    if (k == 2 && !R->hook_in) {
        R->hook_in = 1;
        try {
            throw(domain_error);
        } catch_any {
            ev(EV_STEP, 9998, 0);
        } end_try;
        R->hook_in = 0;
    }
}

static void hook_setup(ex_context_t *ctx, const char *ex, const char *message) {
    event *e = ev_at(EV_HOOK, 1);
    memory_t *s;
    e->a = canon(text_of(ex));
    e->b = message ? canon(text_of(message)) : T_NONE;
    e->d = ctx->line;
    e->f = file_of(ctx->file);
    if (ctx != ex_local() || ctx->ex != ex || ctx->panic != message)
        eng_fail("the set-up function is not given the context that %s is thrown in", ex);
    if (R->hook == 2 || R->hook == 4) {
        ex_swap_set(ctx, PTR(4000 + R->hook_in));
        ex_unwind_set(ctx, true);
    } else if (R->hook == 3) {
        s = unique_init();
        s->err = (void *)ex;
        s->panic = message;
        raii_deferred(s, on_hooked, (void *)1);
        raii_deferred(s, on_hooked, (void *)2);
        ex_swap_set(ctx, s);
        ex_unwind_set(ctx, true);
    }
}

static void hook_unwind(void *data) {
    ev(EV_HOOK, 2, 0);
    if (R->hook == 2 && data != PTR(4000 + R->hook_in))
        eng_fail("the unwind function is not given what the set-up function left for it");
    if (R->hook == 3)
        raii_delete(data);
    if (R->hook == 1)
        eng_fail("the unwind function is called though the set-up function did not ask for it");
}

static void do_hook(int k) {
    R->hook = k;
    exception_setup_func = k ? hook_setup : NULL;
    exception_unwind_func = k && k < 4 ? hook_unwind : NULL;
}

/* --- scopes, arenas, threads and helpers of the library, for failing memory ---------------- */
static void us_check(int k) {
    struct uscope *u = &R->us[k];
    int i, j;
    for (i = 0; i < u->np; i++)
        for (j = 0; j < u->n[i]; j++)
            if (u->p[i][j] != fill(j, i + 7 * k))
                eng_fail("block %d (%d bytes) of %s changed at offset %d", i, u->n[i], k ? "an arena" : "a scope", j);
}

#define OBJ(t) (3 + (t)->v * 5)            /* elements of the object a task returns */
static int ut_value(struct utask *t) {
    const values_type v = thrd_result(t->r);
    const int *p = v.array_int ? (const int *)v.object : NULL;
    int i;
    if (t->kind < 2)
        return v.integer;
    if (!trk_owns(p, OBJ(t) * sizeof *p))
        eng_fail("the object of a task is not all there");
    for (i = 1; i < OBJ(t); i++)
        if (p[i] != t->v + i)
            eng_fail("the object of a task has another content at offset %d", i);
    return p[0];
}

/* Every task of the spawn scope, once all of them have ended: the value of those that returned one. */
static void ut_check(void) {
    int i;
    for (i = 0; i < R->nut; i++) {
        struct utask *t = &R->ut[i];
        if (t->returned && !t->r->is_ready)
            eng_fail("the result of task %d is not there, though its function returned it, and all were awaited", i);
        if (!t->returned && t->r->is_ready)
            eng_fail("there is a result of task %d, though its function returned none", i);
        if (t->returned && ut_value(t) != 1000 + t->v)
            eng_fail("the result of task %d is %d, not %d", i, ut_value(t), 1000 + t->v);
    }
}

/* What could not be awaited for want of memory. */
static void ut_again(void) {
    trk_suspend(1);
    try {
        thrd_sync(R->us[2].pool);
    } catch_any {
        (void)err;
    } end_try;
    ut_check();
    trk_suspend(0);
}

/* by the default scope */
static void on_us(void *arg) {
    int k = (int)((struct uscope *)arg - R->us), i;
    struct uscope *u = arg;
    trk_suspend(1);
    if (k == 2) {
        ev(EV_SCOPE, k, 0);
        ut_again();
        trk_suspend(1);
        thrd_destroy(u->pool);
        u->pool = NULL;
        R->nut = 0;
        trk_suspend(0);
        return;
    }
    us_check(k);
    ev(EV_SCOPE, k, u->np);
    if (k == 1)
        free_arena(u->s);
    else
        raii_delete(u->s);
    for (i = 0; k == 0 && i < u->np; i++)
        if (trk_is_live(u->p[i]))
            eng_fail("block %d of %d of a scope is allocated after the scope was deleted", i, u->np);
    u->s = NULL;
    u->np = 0;
    trk_suspend(0);
}

static void us_own(int k) {
    trk_suspend(1);
    raii_deferred(raii_init(), on_us, &R->us[k]);
    trk_suspend(0);
}

static void *thread_value(args_t a) {
    raii_values_t *v = (raii_values_t *)a;
    int k;
    for (k = 0; k < v->value.integer % 4; k++)
        memset(malloc_default(10 + k), 1, 10 + k);
    if (v->value.integer & 4) {
        guard {
            memset(_malloc(33), 2, 33);
        } guarded
    }
    return thrd_value(1000 + v->value.integer);
}

static void *spawned_value(args_t a) {
    struct utask *t = (struct utask *)a;
    void *v;
    int k;
    for (k = 0; k < t->v % 4; k++)
        memset(malloc_default(10 + k), 1, 10 + k);
    if (t->v & 4) {
        guard {
            memset(_malloc(33), 2, 33);
        } guarded
    }
    v = thrd_value(1000 + t->v);
    t->returned = 1;
    return v;
}

static void *spawned_args(args_t a) {
    struct utask *volatile t = args_in(a, 1).object;
    void *v;
    int *p, i;
    try {
        if (get_args(a, 0).integer != t->v)
            eng_fail("the first argument of a task is wrong");
    } catch_any {
        args_free(a);
        rethrow();
    } end_try;
    if (t->kind == 1)
        return spawned_value((args_t)t);
    p = try_malloc(OBJ(t) * sizeof *p);
    p[0] = 1000 + t->v;
    for (i = 1; i < OBJ(t); i++)
        p[i] = t->v + i;
    v = thrd_returning(a, p, OBJ(t) * sizeof *p);
    t->returned = 1;
    return v;
}

static void lib_blocks(node *n, int k) {
    struct uscope *u = &R->us[k];
    int i, j;
    raii_init();
    if (!u->s) {
        op_begin();
        u->s = k ? unique_init_arena() : unique_init();
        R->P->pend = -1;
        u->np = 0;
        us_own(k);
    }
    for (i = 0; i < n->b && u->np < UMAX; i++) {
        unsigned char *p;
        int z = i & 1, size = k ? n->c * 40 + i : n->c + i;
        op_begin();
        p = z ? calloc_by(u->s, 1, size) : malloc_by(u->s, size);
        R->P->pend = -1;
        if (!p)
            eng_fail("a request through %s gives nothing, and raises nothing", k ? "an arena" : "a scope");
        if (!trk_owns(p, size))
            eng_fail("a request for %d bytes through %s gives less", size, k ? "an arena" : "a scope");
        for (j = 0; z && j < size; j++)
            if (p[j])
                eng_fail("a zeroed request through %s is not zero", k ? "an arena" : "a scope");
        for (j = 0; j < size; j++)
            p[j] = fill(j, u->np + 7 * k);
        u->p[u->np] = p;
        u->n[u->np++] = size;
    }
    us_check(k);
    ev(EV_LIB, n->id, u->np);
}

static __attribute__((noinline)) void lib_args(node *n) {
    volatile args_t a = NULL;
    const char *volatile text = "a text";
    raii_init();
    op_begin();
    a = n->b & 1 ? args_for("isdp", 7, text, (int64_t)-5, (void *)R) : raii_args_for(raii_init(), "isdp", 7, text, (int64_t)-5, (void *)R);
    R->P->pend = -1;
    op_begin();
    try {
        if (get_args(a, 0).integer != 7)
            eng_fail("the first argument is wrong");
    } catch_any {
        args_free(a);
        rethrow();
    } end_try;
    R->P->pend = -1;
    if (strcmp(get_args(a, 1).char_ptr, "a text") || get_args(a, 2).long_long != -5 || args_in(a, 3).object != (void *)R)
        eng_fail("an argument is wrong");
    ev(EV_LIB, n->id, 4);
}

static void lib_future(node *n) {
    static __thread raii_values_t raw;
    future f;
    int v;
    raw.value.integer = n->b;
    raii_init();
    op_begin();
    f = thrd_async(thread_value, &raw);
    v = thrd_get(f).integer;
    R->P->pend = -1;
    ev(EV_LIB, n->id, v);
}

static void lib_spawn(node *n) {
    struct uscope *u = &R->us[2];
    int i, sum = 0;
    raii_init();
    if (!u->pool) {
        op_begin();
        u->pool = thrd_scope();
        R->P->pend = -1;
        u->spoiled = R->nut = R->claimed = 0;
        us_own(2);
    }
    if (u->spoiled)
        ut_again();
    if (R->claimed + n->b > NUT)
        return;
    R->claimed += n->b;
    u->spoiled = 1;
    op_begin();
    for (i = 0; i < n->b; i++) {
        struct utask *t = &R->ut[R->nut];
        t->v = n->c + i;
        t->returned = 0;
        t->kind = n->c / 7 == 3 ? i % 3 : n->c / 7;
        t->r = t->kind ? thrd_spawn_ex(spawned_args, "ip", t->v, t) : thrd_spawn(spawned_value, t);
        R->nut++;
    }
    thrd_sync(u->pool);
    R->P->pend = -1;
    u->spoiled = 0;
    for (i = 0; i < n->b; i++)
        sum += ut_value(&R->ut[R->nut - n->b + i]);
    ut_check();
    ev(EV_LIB, n->id, sum);
}

static void lib_text(node *n) {
    static const char *const field[] = { "a", "", "bb", "a longer one, to be sure", "c" };
    int count = 0, i;
    char **f;
    const char *t = NULL, *want = NULL;
    op_begin();
    switch (n->a) {
        case 0:
            f = raii_split("a::::bb::a longer one, to be sure::c", "::", &count);
            R->P->pend = -1;
            if (!f || count != 5 || f[5])
                eng_fail("splitting gives %d fields, not 5", count);
            for (i = 0; i < 5; i++)
                if (strcmp(f[i], field[i]))
                    eng_fail("field %d is \"%s\", not \"%s\"", i, f[i], field[i]);
            break;
        case 1: t = raii_replace("one two one", "one", "three"); want = "three two three"; break;
        case 2: t = (char *)raii_encode64((u_string_t)"light work."); want = "bGlnaHQgd29yay4="; break;
        case 3: t = (char *)raii_decode64((u_string_t)"bGlnaHQgd29yay4="); want = "light work."; break;
        default: t = raii_concat(3, "one", "", " two"); want = "one two"; break;
    }
    R->P->pend = -1;
    if (want && (!t || strcmp(t, want)))
        eng_fail("a string helper gives \"%s\", not \"%s\"", t ? t : "(null)", want);
    ev(EV_LIB, n->id, 1);
}

/* More than there can be. */
static void lib_huge(node *n) {
    static const volatile size_t sizes[] = { (size_t)-1, (size_t)-16, ((size_t)-1 >> 1) + 1, (size_t)-1 >> 1 };
    static const volatile size_t per[] = { (size_t)1 << 34, ((size_t)1 << 34) + 8, (size_t)1 << 62, (size_t)-1 };
    struct uscope *u = &R->us[n->c >> 4 & 1];
    memory_t *m = u->s ? u->s : raii_init();
    int k = n->c >> 2 & 3;
    void *p;
    switch (n->c & 3) {
        case 0: p = malloc_by(m, sizes[k]); break;
        case 1: p = calloc_by(m, 1 << 30, per[k]); break;
        case 2: p = malloc_default(sizes[k]); break;
        default: p = calloc_full(m, 1 << 30, per[k], RAII_FREE); break;
    }
    eng_fail("a request for more memory than there is gives %p", p);
}

/* Memory that belongs to no scope, resized. */
static __attribute__((noinline)) void lib_try(node *n) {
    unsigned char *volatile p = NULL;
    int i, size = n->c, then = n->b * 5 + 1;
    raii_init();
    op_begin();
    p = n->c & 1 ? try_malloc(size) : try_calloc(size, 1);
    R->P->pend = -1;
    if (!p || !trk_owns(p, size))
        eng_fail("a request for %d bytes gives less", size);
    for (i = 0; !(n->c & 1) && i < size; i++)
        if (p[i])
            eng_fail("a zeroed request is not zero");
    for (i = 0; i < size; i++)
        p[i] = fill(i, n->id);
    op_begin();
    try {
        p = try_realloc(p, then);
    } catch_any {
        for (i = 0; i < size; i++)
            if (p[i] != fill(i, n->id))
                eng_fail("a block that could not be resized has changed at offset %d", i);
        RAII_FREE(p);
        rethrow();
    } end_try;
    R->P->pend = -1;
    if (!p || !trk_owns(p, then))
        eng_fail("a block resized to %d bytes has less", then);
    for (i = 0; i < size && i < then; i++)
        if (p[i] != fill(i, n->id))
            eng_fail("a resized block has changed at offset %d", i);
    RAII_FREE(p);
    ev(EV_LIB, n->id, then);
}

static void do_lib(node *n) {
    switch (n->a) {
        case 0: case 1: case 2: case 3: case 4: lib_text(n); break;
        case 5: lib_args(n); break;
        case 6: lib_blocks(n, 0); break;
        case 7: lib_blocks(n, 1); break;
        case 8: lib_future(n); break;
        case 9: lib_spawn(n); break;
        case 10: lib_huge(n); break;
        case 11: lib_try(n); break;
    }
}

#define RUN_H(K) do { if (run_list(HANDLER(n, K)) == C_RETHROW) rethrow(); } while (0)
#define ENTER() (R->fr = &fr, R->inst = fr.upinst, fr.nopen = 0)
#define LEAVE() (R->fr = fr.up, R->inst = fr.upinst)
#define H(K) ENTER(); caught_event(n, K, err, err_file, err_line, err_backtrace, 0); RUN_H(K);
#define HIF(K) caught_event(n, K, err, err_file, err_line, err_backtrace, 1); RUN_H(K);
#define FINALLY() LEAVE(); ev(EV_FIN, n->id, 0); run_list(n->k[5]);
#define TRY_FN(NAME, CLAUSES)                               \
    static __attribute__((noinline)) void NAME(node *n) {   \
        frame fr;                                           \
        memset(&fr, 0, sizeof fr);                          \
        fr.up = R->fr;                                      \
        fr.upinst = R->inst;                                \
        try {                                               \
            R->fr = &fr;                                    \
            run_list(n->k[0]);                              \
        } CLAUSES end_try;                                  \
        LEAVE();                                            \
        ev(EV_AFTER, n->id, 0);                             \
    }

TRY_FN(try_full, catch(range_error) { H(0) } catch(logic_error) { H(1) } catch_any { H(2) } finally { FINALLY() })
TRY_FN(try_any, catch_any { H(0) })
TRY_FN(try_fin, finally { FINALLY() })
TRY_FN(try_one, catch(range_error) { H(0) })
TRY_FN(try_twofin, catch(logic_error) { H(0) } catch(range_error) { H(1) } finally { FINALLY() })
TRY_FN(try_panic, catch(panic) { H(0) } catch(prog_custom_x) { H(1) } catch(prog_custom) { H(2) })
#define ELSE() { ev(EV_ELSE, n->id, 0); if (run_list(n->k[4]) == C_RETHROW) rethrow(); }
TRY_FN(try_if, catch_if { ENTER(); if (caught(range_error)) { HIF(0) } else if (caught(boom)) { HIF(1) } else ELSE() })
TRY_FN(try_iffin, catch_if { ENTER(); if (caught(oops)) { HIF(0) } else if (caught(sig_segv)) { HIF(1) }
    else if (caught(prog_custom)) { HIF(2) } else ELSE() } finally { FINALLY() })
TRY_FN(try_finality, finality { FINALLY() })
TRY_FN(try_sigs, catch(sig_segv) { H(0) } catch(sig_abrt) { H(1) } catch(sig_fpe) { H(2) } catch(sig_ill) { H(3) }
    catch(sig_int) { H(4) } catch(sig_term) { H(5) } catch(sig_quit) { H(6) } catch(sig_hup) { H(7) }
    catch(sig_winch) { H(8) } catch(sig_trap) { H(9) } catch(sig_alrm) { H(10) } catch(sig_bus) { H(11) })
TRY_FN(try_sigany, catch(sig_segv) { H(0) } catch(sig_fpe) { H(1) } catch_any { H(2) } finally { FINALLY() })
TRY_FN(try_dup, catch(out_of_range) { H(0) } catch(out_of_range) { H(1) } catch_any { H(2) })
TRY_FN(try_customfin, catch(prog_custom) { H(0) } finally { FINALLY() })
TRY_FN(try_none, NONE)
TRY_FN(try_anyfirst, catch_any { H(0) } catch(range_error) { H(1) })

/* two pointers protected with the macros: n->a the first id, n->b bits */
#define PROT_FN(NAME, CLAUSES)                              \
    static __attribute__((noinline)) void NAME(node *n) {   \
        frame fr;                                           \
        memset(&fr, 0, sizeof fr);                          \
        fr.up = R->fr;                                      \
        fr.upinst = R->inst;                                \
        try {                                               \
            R->fr = &fr;                                    \
            void *p0 = PTR(n->a), *p1 = NULL;               \
            protected(p0, n->b & 1 ? rel1 : rel0);          \
            if (n->b & 2)                                   \
                p0 = PTR(n->a + 1);                         \
            protected(p1, n->b & 4 ? rel0 : rel1);          \
            run_list(n->k[0]);                              \
            p1 = n->b & 8 ? NULL : PTR(n->a + 2);           \
            run_list(n->k[2]);                              \
            if (n->b & 16) {                                \
                unprotected(p1);                            \
                run_list(n->k[3]);                          \
                if (n->b & 32) {                            \
                    unprotected(p0);                        \
                    run_list(n->k[4]);                      \
                }                                           \
            }                                               \
        } CLAUSES end_try;                                  \
        LEAVE();                                            \
        ev(EV_AFTER, n->id, 0);                             \
    }
#undef RUN_H
#define RUN_H(K) do { if (run_list(n->k[1]) == C_RETHROW) rethrow(); } while (0)
PROT_FN(try_prot, catch(range_error) { H(0) } catch_any { H(1) })
PROT_FN(try_protfin, catch(logic_error) { H(0) } finally { FINALLY() })

static void (*const try_fns[SH_COUNT])(node *) = { try_full, try_any, try_fin, try_one, try_twofin, try_panic, try_if,
    try_iffin, try_finality, try_sigs, try_sigany, try_dup, try_customfin, try_none, try_prot, try_protfin, try_anyfirst };

/* --- guards --------------------------------------------------------------------------- */
static int run_stmt(node *n);

#define GUARD_BODY                                                          \
        R->P->pend = -1;                                                    \
        _assign_ptr(own);                                                   \
        gi->scope = own;                                                    \
        R->fr = fr;                                                         \
        R->inst = gi;                                                       \
        for (st = n->k[0]; st; st = st->next) {                             \
            if (st->kind == N_DEFER && st->a == 0) {                        \
                trk_suspend(1);                                             \
                _defer(on_defer, mk(st, gi));                               \
                trk_suspend(0);                                             \
            } else if (st->kind == N_ALLOC && st->a <= 1 && R->nblk < NBLK) { \
                void *p;                                                    \
                op_begin();                                                 \
                if (st->a == 0)                                             \
                    p = _malloc(st->d * st->b);                                     \
                else                                                        \
                    p = _calloc(st->d, st->b);                                  \
                op_end(st, p, (size_t)st->d * st->b, st->a == 1, 0);                        \
            } else if ((code = run_stmt(st)) != C_NORMAL)                   \
                break;                                                      \
        }                                                                   \
        if (code == C_BREAK)                                                \
            break;                                                          \
        if (code == C_RETURN) {                                             \
            _return(n->c)                                                   \
        }

static __attribute__((noinline)) int guard_plain(node *n, frame *fr, ginst *gi) {
    int code = C_NORMAL;
    node *st;
    guard {
        GUARD_BODY
    } guarded;
    return -1;
}

static __attribute__((noinline)) int guard_value(node *n, frame *fr, ginst *gi) {
    int code = C_NORMAL;
    node *st;
    guard {
        GUARD_BODY
    } unguarded(-1)
}

static block(int, guard_block, node *n, frame *fr, ginst *gi)
    int code = C_NORMAL;
    node *st;
    GUARD_BODY
unblocked(-1)

static void run_guard(node *n) {
    frame fr;
    ginst *gi;
    int v;
    if (R->ninst >= NINST) {
        R->P->overflow = 1;
        _exit(98);
    }
    memset(&fr, 0, sizeof fr);
    fr.up = R->fr;
    fr.upinst = R->inst;
    gi = &R->insts[R->ninst++];
    gi->up = R->inst;
    op_begin();
    v = n->a == 0 ? guard_plain(n, &fr, gi) : n->a == 1 ? guard_value(n, &fr, gi) : guard_block(n, &fr, gi);
    LEAVE();
    ev(EV_AFTER, n->id, v);
}

/* --- statements ------------------------------------------------------------------------ */
static __attribute__((noinline)) void do_throw(int t) {
    prog *P = R->P;
    trace_throw();
    switch (t) {
        case T_range_error: P->lines[0] = __LINE__; throw(range_error); break;
        case T_logic_error: P->lines[1] = __LINE__; throw(logic_error); break;
        case T_out_of_range: P->lines[2] = __LINE__; throw(out_of_range); break;
        case T_domain_error: P->lines[3] = __LINE__; throw(domain_error); break;
        case T_prog_custom: P->lines[4] = __LINE__; throw(prog_custom); break;
        case T_prog_custom_x: P->lines[5] = __LINE__; throw(prog_custom_x); break;
        case T_out_of_memory: P->lines[6] = __LINE__; throw(out_of_memory); break;
        case T_panic: P->lines[7] = __LINE__; throw(panic); break;
    }
    eng_fail("throw returned to the program");
}

/* as if in another file */
#line 100001 "elsewhere.c"
static __attribute__((noinline)) void do_panic(int t, int form) {
    prog *P = R->P;
    trace_throw();
    if (form) {
        P->lines[8] = __LINE__; _panic(prog_text[t]);
    } else {
        P->lines[9] = __LINE__; raii_panic(prog_text[t]);
    }
    eng_fail("panic returned to the program");
}

#line 761 "prog.c"
static volatile int zero_;
static int *volatile nowhere;
static void do_raise(int s, int form) {
    if (form) {
        switch (prog_sig[s]) {
            case SIGSEGV: *nowhere = 1; return;
            case SIGFPE: zero_ = 7 / zero_; return;
            case SIGILL: __asm__ volatile("ud2"); return;
            case SIGTRAP: __asm__ volatile("int3"); return;
        }
    }
    if (form == 2 && !R->P->threads)
        kill(getpid(), prog_sig[s]);
    else
        raise(prog_sig[s]);
}

static int handled(int sig) {
    struct sigaction sa;
    return sigaction(sig, NULL, &sa) == 0 && sa.sa_handler != SIG_DFL && sa.sa_handler != SIG_IGN;
}

static const char *name_of(int t) {
    switch (t) {
        case T_range_error: return EX_NAME(range_error);
        case T_logic_error: return EX_NAME(logic_error);
        case T_out_of_range: return EX_NAME(out_of_range);
        case T_domain_error: return EX_NAME(domain_error);
        case T_prog_custom: return EX_NAME(prog_custom);
        case T_sig_hup: return EX_NAME(sig_hup);
        default: return EX_NAME(sig_term);
    }
}

static __attribute__((noinline)) int do_call(node *n) {
    char pad[64 + 16 * 8];
    memset(pad, n->id, sizeof pad);
    __asm__ volatile("" : : "r"(pad) : "memory");
    return run_list(n->k[0]);
}

static int run_stmt(node *n) {
    frame *fr = R->fr;
    ginst *g;
    size_t i, j;
    int k, code;
    switch (n->kind) {
        case N_STEP: ev(EV_STEP, n->id, 0); break;
        case N_THROW: do_throw(n->a); break;
        case N_PANIC: do_panic(n->a, n->b); break;
        case N_RAISE:
            if (!handled(prog_sig[n->a]) && prog_sig[n->a] != SIGWINCH)
                break;
            do_raise(n->a, n->b);
            break;
        case N_CALL: return do_call(n);
        case N_LOOP:
            for (k = 0; k < n->a; k++)
                if ((code = run_list(n->k[0])) != C_NORMAL)
                    return code;
            break;
        case N_TRY: try_fns[n->c](n); break;
        case N_GUARD: run_guard(n); break;
        case N_DEFER:
            g = inst_up(n->b);
            trk_suspend(1);
            if (n->a == 2)
                raii_deferred(g->scope, on_defer, mk(n, g));
            else
                raii_recover_by(g->scope, on_defer, mk(n, g));
            trk_suspend(0);
            break;
        case N_DEFCANCEL:
        case N_DEFFIRE:
            g = R->inst;
            trk_suspend(1);
            if (n->b) {                    /* one that might recover, too */
                i = raii_deferred_count(g->scope);
                raii_recover_by(g->scope, on_defer2, mk(n, g));
            } else
                i = raii_deferred(g->scope, on_defer2, mk(n, g));
            if (n->a)
                j = raii_deferred(g->scope, on_defer, mk(n, g));
            trk_suspend(0);
            if (n->kind == N_DEFCANCEL)
                raii_deferred_cancel(g->scope, i);
            else
                raii_deferred_fire(g->scope, i);
            break;
        case N_ALLOC: {
            void *p;
            size_t size = (size_t)n->d * n->b;
            if (R->nblk >= NBLK)
                break;
            g = n->a <= 1 ? R->inst : inst_up(n->c);
            op_begin();
            switch (n->a) {
                case 2: p = malloc_by(g->scope, size); break;
                case 3: p = calloc_by(g->scope, n->d, n->b); break;
                case 1: case 4: p = calloc_full(g->scope, n->d, n->b, RAII_FREE); break;
                default: p = malloc_full(g->scope, size, RAII_FREE); break;
            }
            op_end(n, p, size, n->a == 1 || n->a == 3 || n->a == 4, 0);
            break;
        }
        case N_FLUSH: raii_deferred_free(R->inst->scope); break;
        case N_EXIT:
            op_settle();
            R->fr = &R->base;
            R->inst = NULL;
            ev_at(EV_END, n->id)->m = mask_ok();
            exit(n->a);
        case N_BREAK: return C_BREAK;
        case N_RETURN: return C_RETURN;
        case N_RETHROW: return C_RETHROW;
        case N_RECOVER: k = n->a == T_range_error ? _is_caught(range_error) : n->a == T_sig_segv ? _is_caught(sig_segv) : _recover(prog_text[n->a]); ev(EV_REC, n->id, k); break;
        case N_MESSAGE: k = canon(text_of(_get_message())); ev(EV_MSG, n->id, k); break;
        case N_PROTECT:
            if (fr->n >= NSLOT)
                break;
            k = fr->n++;
            fr->pv[k] = n->b ? NULL : PTR(n->a);
            fr->opened[fr->nopen++] = k;
            /* what protected() does, for a pointer of this frame */
            fr->prot[k] = ex_protect_ptr(&fr->prot[k], &fr->pv[k], rels[n->c]);
            break;
        case N_UNPROTECT:
            /* what unprotected() does, in reverse order */
            if (fr->nopen > 0) {
                k = fr->opened[--fr->nopen];
                if (n->a)
                    ex_unprotected_ptr(&fr->prot[k]);
                else
                    ex_local()->stack = fr->prot[k].next;
            }
            break;
        case N_CHANGE:
            if (fr->n)
                fr->pv[n->c % fr->n] = n->b ? NULL : PTR(n->a);
            break;
        case N_DDEFER:
            trk_suspend(1);
            if (n->a)
                raii_deferred(raii_init(), on_ddefer, mk(n, NULL));
            else {
                raii_init();
                raii_defer(on_ddefer, mk(n, NULL));
            }
            trk_suspend(0);
            break;
        case N_DALLOC: {
            void *p;
            static char src[] = "the text";
            if (R->nblk >= NBLK)
                break;
            op_begin();
            switch (n->a) {
                case 0: p = malloc_default(n->d * n->b); break;
                case 1: p = calloc_default(n->d, n->b); break;
                case 2: p = raii_concat(2, "some ", src); break;
                default: p = raii_memdup(src, sizeof src - 1); break;
            }
            if (n->a >= 2 && p && strcmp(p, n->a == 2 ? "some the text" : src))
                eng_fail("a string helper gives the wrong text");
            op_end(n, p, n->a == 2 ? 14 : n->a == 3 ? 9 : n->d * n->b, n->a == 1, n->a >= 2);
            break;
        }
        case N_DCLEAN:
            raii_init();
            if (n->a == 0)
                raii_deferred_clean();
            else if (n->a == 1)
                raii_destroy();
            else
                raii_deferred_free(raii_init());
            break;
        case N_SIGDEFAULT: {
            k = 0;
            if (n->a)
                ex_signal_reset(prog_sig[n->a - 1]);
            else
                ex_signal_default();
            for (i = 0; i < NSIGX; i++)
                k |= (int)((unsigned)handled(prog_sig[i]) << i);
            ev(EV_DEFAULT, n->id, k);
            break;
        }
        case N_SIGSET:
            if (!exception_signal_set)
                break;
            for (i = 0; i < n->c; i++)
                ex_signal(prog_sig[n->a - i], name_of(SIG_NAME(n, i)));
            k = 0;
            for (i = 0; i < NSIGX; i++)
                k |= (int)((unsigned)handled(prog_sig[i]) << i);
            ev(EV_DEFAULT, n->id, k);
            break;
        case N_LIB: do_lib(n); break;
        case N_HOOK: do_hook(n->a); break;
    }
    return C_NORMAL;
}

static int run_list(node *n) {
    int code;
    for (; n; n = n->next)
        if ((code = run_stmt(n)) != C_NORMAL)
            return code;
    return C_NORMAL;
}

static void run_reset(prog *P) {
    P->nact = 0;
    P->overflow = 0;
    memset(P->failed, 0, sizeof P->failed);
    P->pend = -1;
    P->nops = 0;
}

void prog_run(prog *P) {
    if (R && R->hook)
        do_hook(0);
    R = calloc(1, sizeof *R);
    R->P = P;
    R->fr = &R->base;
    run_reset(P);
    pthread_sigmask(SIG_BLOCK, NULL, &R->mask);
    if (!P->threads) {
        int i;
        for (i = 0; i < NSIGX; i++)
            signal(prog_sig[i], SIG_DFL);
    }
    if (P->ctrlc)
        exception_ctrl_c_func = on_ctrlc;
    if (P->callback)
        exception_terminate_func = on_terminate;
    if (P->uses_raii_init)
        raii_init();
    run_list(P->top);
    R->fr = &R->base;
    R->inst = NULL;
    op_settle();
    ev_at(EV_END, 0)->m = mask_ok();
}

void prog_settle(prog *P) {
    if (P->pend >= 0 && trk_failed() > P->pend_failed)
        P->failed[P->pend] = 1;
    P->pend = -1;
}

/* --- the model ------------------------------------------------------------------------ */
typedef struct mframe mframe;
struct mframe {
    mframe *up;
    struct minst *upinst;
    int base, n;
    int slot[NSLOT + 2];         /* pointer ids; 0 is null; two are protected by the block itself */
    int func[NSLOT + 2];
    int st[NSLOT + 2], nst;          /* protected slots */
};
typedef struct { node *st; int which, blk; } mentry;     /* st NULL: a block */
typedef struct minst {
    struct minst *up;
    int exceptional, recovered, dead;
    exc err;
    mentry s[NPUSH];
    int n;
} minst;
typedef struct {
    prog *P;
    mframe base, *fr;
    minst *inst;
    minst *insts[NINST];
    int ninst;
    mentry d[NPUSH];
    int nd;
    int nop, nblk, live;
    exc e;
    int ended, toolong, sigset, atbase, raii, atexit_;
    int signame[NSIGX];              /* T_NONE: not handled */
    int gotint;
    int us[3], usn[3], claimed;
    int depth, hook, hook_in, ntr;
} model;
static __thread model *M;

static int m_list(node *n);

static event *m_ev(int kind, int id, int a) {
    static __thread event spill;
    prog *P = M->P;
    event *e = &spill;
    if (M->ended)
        return e;
    if (P->nexp >= NEVENT - 8)
        M->toolong = M->ended = 1;
    else
        e = &P->exp[P->nexp++];
    memset(e, 0, sizeof *e);
    e->kind = kind;
    e->id = id;
    e->a = a;
    e->live = M->live;
    return e;
}

static void m_setup(void) {
    int i;
    if (M->sigset)
        return;
    M->sigset = 1;
    for (i = 0; i < NSIG_; i++)
        M->signame[i] = T_SIG0 + i;
}

static int m_handled(void) {
    int i, k = 0;
    for (i = 0; i < NSIGX; i++)
        k |= (int)((unsigned)(M->signame[i] != T_NONE) << i);
    return k;
}

static void m_raii_init(void) {
    if (!M->raii)
        m_setup();
    M->raii = 1;
}

static int m_text(const exc *e) { return e->msg >= 0 ? e->msg : e->name; }

static int m_uncaught(void);

/* The program's own functions. */
static void m_hooked_throw(int name, int step);

static void m_hook_setup(exc e) {
    event *v;
    if (!M->hook)
        return;
    M->P->nhooked++;
    v = m_ev(EV_HOOK, 1, canon(e.name));
    v->b = canon(e.msg);
    v->d = e.unknown == 1 ? 0 : e.line;
    v->f = e.unknown;
    if (e.wild)
        v->wild |= W_B | W_D | W_F;
}

static void m_hook_unwind(exc e) {
    event *v;
    if (M->hook < 2 || M->hook == 4)
        return;
    M->P->nunhooked++;
    m_ev(EV_HOOK, 2, 0);
    if (M->hook == 2)
        return;
    v = m_ev(EV_HOOK, 3, 2);
    v->b = canon(m_text(&e));
    if (e.wild)
        v->wild |= W_B;
    if (!M->hook_in) {
        M->hook_in = 1;
        m_setup();
        m_hooked_throw(T_domain_error, 9998);
        M->hook_in = 0;
    }
    v = m_ev(EV_HOOK, 3, 1);
    v->b = canon(m_text(&e));
    if (e.wild)
        v->wild |= W_B;
}

/* A throw caught at once, in a function the library calls. */
static void m_hooked_throw(int name, int step) {
    exc e = { name, T_NONE, 0, 1, 0 };
    int in = M->hook_in;
    m_hook_setup(e);
    m_hook_unwind(e);
    m_ev(EV_STEP, step, 0);
}

static int m_throw(exc e) {
    mframe *f = M->fr;
    if (M->ended)
        return C_EXC;
    M->e = e;
    M->P->nthrown++;
    m_hook_setup(e);
    while (f->nst > 0) {
        int k = f->st[--f->nst];
        if (f->slot[k]) {
            m_ev(EV_REL, f->slot[k], f->func[k]);
            M->P->nreleased++;
            if (f->func[k] == 2) {
                m_setup();               /* by its try block */
                m_hooked_throw(T_range_error, 9999);
            }
            if (f->func[k] == 3) {           /* throws while unwinding: the end */
                exc x = { T_out_of_range, T_NONE, 0, 0, 0 };
                M->P->relthrown = 1;
                M->P->last[M->P->nlast++ & 7] = e;
                M->e = x;
                f->nst = 0;
                return m_uncaught();
            }
        }
    }
    m_hook_unwind(e);
    if (f->base)
        return m_uncaught();
    return C_EXC;
}

static int m_default(void) {
    while (M->nd > 0 && !M->ended) {
        mentry t = M->d[--M->nd];
        if (t.st) {
            minst *i = M->inst;
            m_ev(EV_DDEFER, t.st->id, 0);
            M->inst = NULL;
            if (m_list(t.st->k[0]) == C_EXC)
                return C_EXC;
            M->inst = i;
        } else if (t.which >= 2) {
            int k = t.which - 2;
            m_ev(EV_SCOPE, k, M->usn[k]);
            if (k == 2)
                m_setup();               /* by its try block */
            M->us[k] = M->usn[k] = 0;
        } else
            M->live--;
    }
    return C_NORMAL;
}

static void m_exit(int id) {
    M->inst = NULL;
    M->fr = &M->base;
    m_ev(EV_END, id, 0)->m = 1;
    M->atexit_ = 1;
    m_default();
    if (M->P->ended_uncaught)
        M->toolong = 1;    /* exit() from exit() is undefined */
}

static int m_uncaught(void) {
    M->P->last[M->P->nlast++ & 7] = M->e;
    M->fr = &M->base;
    M->atbase++;
    m_default();
    if (!M->ended) {
        if (M->P->ctrlc && M->gotint)
            m_ev(EV_CTRLC, 0, 0);
        if (M->P->callback)
            m_ev(EV_TERM, 0, 0);
        M->P->ended_uncaught = 1;
        M->ended = 1;
    }
    return C_EXC;
}

static exc m_lib_panic(void) {
    exc e = { T_panic, T_OTHER, 0, 1, 0 };
    return e;
}

static int m_op(void) {
    int k = M->nop++;
    return k < NOPS && M->P->failed[k];
}

static void m_catch_event(node *n, int clause, exc e, int isif) {
    event *v = m_ev(EV_CATCH, n->id, clause);
    v->b = canon(e.name);
    v->c = isif ? canon(m_text(&e)) : T_NONE;
    v->d = e.unknown == 1 ? 0 : e.line;
    v->f = e.unknown;
    v->m = 1;
    v->t = e.ord;
    if (e.wild)
        v->wild |= W_C | W_D | W_F;
    if (M->atbase)
        v->wild |= W_M;
    M->P->ncaught++;
}

static int m_try(node *n) {
    mframe fr;
    int sh = n->c, c, k, pending = 0;
    exc e = { 0 };
    memset(&fr, 0, sizeof fr);
    fr.up = M->fr;
    fr.upinst = M->inst;
    if (M->fr != &M->base || M->inst)
        M->P->nnestedtry++;
    M->fr = &fr;
    m_setup();
    if (shape[sh].prot) {
        fr.slot[NSLOT] = n->a;
        fr.func[NSLOT] = n->b & 1 ? 1 : 0;
        fr.st[fr.nst++] = NSLOT;
        if (n->b & 2)
            fr.slot[NSLOT] = n->a + 1;
        fr.slot[NSLOT + 1] = 0;
        fr.func[NSLOT + 1] = n->b & 4 ? 0 : 1;
        fr.st[fr.nst++] = NSLOT + 1;
        M->P->nprot += 2;
        c = m_list(n->k[0]);
        if (c == C_NORMAL) {
            fr.slot[NSLOT + 1] = n->b & 8 ? 0 : n->a + 2;
            c = m_list(n->k[2]);
        }
        if (c == C_NORMAL && (n->b & 16)) {
            fr.nst = 1;
            c = m_list(n->k[3]);
            if (c == C_NORMAL && (n->b & 32)) {
                fr.nst = 0;
                c = m_list(n->k[4]);
            }
        }
    } else
        c = m_list(n->k[0]);
    if (M->ended)
        return C_EXC;
    if (c == C_EXC) {
        e = M->e;
        pending = 1;
        M->fr = &fr;
        M->inst = fr.upinst;
        for (k = 0; shape[sh].cl[k] != CL_END; k++) {
            int t = shape[sh].cl[k];
            if (t == CL_ANY || (shape[sh].isif ? (!e.wild && same_text(t, m_text(&e))) : e.name == t))
                break;
        }
        if (shape[sh].cl[k] != CL_END) {
            pending = 0;
            if (sh != SH_FINALITY) {
                m_catch_event(n, k, e, shape[sh].isif);
                c = m_list(shape[sh].prot ? n->k[1] : HANDLER(n, k));
                if (c == C_RETHROW) {
                    M->P->nrethrown++;
                    c = m_throw(e);
                }
                if (c == C_EXC)
                    pending = 1, e = M->e;
            } else
                M->P->ncaught++;
        } else if (shape[sh].isif) {
            m_ev(EV_ELSE, n->id, 0);
            c = m_list(n->k[4]);
            if (c == C_RETHROW) {
                M->P->nrethrown++;
                c = m_throw(e);
            }
            if (c == C_EXC)
                e = M->e;
        }
    }
    if (M->ended)
        return C_EXC;
    M->fr = fr.up;
    M->inst = fr.upinst;
    if (shape[sh].fin) {
        m_ev(EV_FIN, n->id, 0);
        M->P->nfin++;
        if (m_list(n->k[5]) == C_EXC)
            return C_EXC;
    }
    if (pending)
        return m_throw(e);
    m_ev(EV_AFTER, n->id, 0);
    return C_NORMAL;
}

/* Unwinds what is bound to a guard. */
static int m_unwind(minst *g) {
    while (g->n > 0 && !M->ended) {
        mentry t = g->s[--g->n];
        if (t.st) {
            minst *i = M->inst;
            m_ev(EV_DEFER, t.st->id, t.which);
            M->P->ndeferred++;
            M->inst = g;
            if (m_list(t.st->k[t.which ? 1 : 0]) == C_EXC)
                return C_EXC;
            M->inst = i;
        } else
            M->live--;
    }
    return C_NORMAL;
}

static int m_guard(node *n) {
    mframe fr;
    minst *g;
    int c, pending = 0, value = -1;
    exc e = { 0 };
    int hook = M->hook;
    m_setup();
    M->raii = 1;
    if (m_op())
        return m_throw(m_lib_panic());
    M->hook = 0;                     /* the guard's own are in their place */
    if (M->ninst >= NINST) {
        M->toolong = M->ended = 1;
        return C_EXC;
    }
    g = M->insts[M->ninst++] = calloc(1, sizeof *g);
    memset(&fr, 0, sizeof fr);
    fr.up = M->fr;
    fr.upinst = M->inst;
    g->up = M->inst;
    M->fr = &fr;
    M->inst = g;
    M->P->nscopes++;
    c = m_list(n->k[0]);
    if (M->ended)
        return C_EXC;
    if (c != C_EXC) {
        if (c == C_RETURN)
            value = n->c, M->P->nreturned++;
        c = m_unwind(g);
        if (c == C_EXC) {
            M->P->ndefthrow++;
            value = -1;
        }
    }
    while (c == C_EXC && !M->ended) {
        e = M->e;
        g->exceptional = 1;
        g->recovered = 0;
        g->err = e;
        M->fr = &fr;
        M->inst = g;
        c = m_unwind(g);
        if (c == C_EXC)
            M->P->ndefthrow++;
        pending = !g->recovered;
    }
    if (M->ended)
        return C_EXC;
    M->fr = fr.up;
    M->inst = fr.upinst;
    g->dead = 1;
    M->hook = hook;
    if (pending)
        return m_throw(e);
    m_ev(EV_AFTER, n->id, value);
    return C_NORMAL;
}

static int m_push(mentry *s, int *n, node *st, int which) {
    if (*n >= NPUSH) {
        M->toolong = M->ended = 1;
        return C_EXC;
    }
    s[*n].st = st;
    s[*n].which = which;
    (*n)++;
    return C_NORMAL;
}

static minst *m_up(int k) {
    minst *g = M->inst;
    while (k-- > 0 && g && g->up)
        g = g->up;
    return g;
}

static int m_stmt(node *n) {
    prog *P = M->P;
    mframe *f = M->fr;
    minst *g;
    exc e = { 0 };
    int k, c;
    event *v;
    if (M->ended)
        return C_EXC;
    switch (n->kind) {
        case N_STEP: m_ev(EV_STEP, n->id, 0); break;
        case N_THROW:
            e.name = n->a;
            e.msg = T_NONE;
            e.line = P->lines[n->a];
            e.ord = ++M->ntr < NTRACE ? M->ntr : 0;
            return m_throw(e);
        case N_PANIC:
            e.name = T_panic;
            e.msg = n->a;
            e.line = P->lines[n->b ? 8 : 9];
            e.unknown = 4;
            e.ord = ++M->ntr < NTRACE ? M->ntr : 0;
            return m_throw(e);
        case N_RAISE:
            if (M->signame[n->a] == T_NONE)
                break;
            if (prog_sig[n->a] == SIGINT)
                M->gotint = 1;
            e.name = M->signame[n->a];
            e.msg = T_NONE;
            e.unknown = 1;
            P->nsignal++;
            return m_throw(e);
        case N_CALL: return m_list(n->k[0]);
        case N_LOOP:
            for (k = 0; k < n->a; k++)
                if ((c = m_list(n->k[0])) != C_NORMAL)
                    return c;
            break;
        case N_TRY: return m_try(n);
        case N_GUARD: return m_guard(n);
        case N_DEFER:
            g = m_up(n->a == 0 ? 0 : n->b);
            return m_push(g->s, &g->n, n, 0);
        case N_DEFCANCEL:
            g = M->inst;
            return n->a ? m_push(g->s, &g->n, n, 0) : C_NORMAL;
        case N_DEFFIRE:
            g = M->inst;
            if (n->a && m_push(g->s, &g->n, n, 0))
                return C_EXC;
            m_ev(EV_DEFER, n->id, 2);
            P->ndeferred++;
            return m_list(n->k[1]) == C_EXC ? C_EXC : C_NORMAL;
        case N_ALLOC:
            if (M->nblk >= NBLK)
                break;
            g = n->a <= 1 ? M->inst : m_up(n->c);
            if (m_op())
                return m_throw(m_lib_panic());
            M->nblk++;
            P->nblocks++;
            M->live++;
            return m_push(g->s, &g->n, NULL, 0);
        case N_FLUSH:
            c = m_unwind(M->inst);
            return c;
        case N_EXIT:
            if (M->atexit_ || M->atbase || M->ended)
                M->toolong = 1;      /* not from what runs at the end */
            P->exited = 1;
            P->status = n->a;
            m_exit(n->id);
            M->ended = 1;
            return C_EXC;
        case N_BREAK: return C_BREAK;
        case N_RETURN: return C_RETURN;
        case N_RETHROW: return C_RETHROW;
        case N_RECOVER:
            g = M->inst;
            v = m_ev(EV_REC, n->id, 0);
            if (!g->exceptional || g->recovered)
                v->wild |= W_A;
            else if (!g->err.wild && same_text(n->a, m_text(&g->err))) {
                v->a = 1;
                g->recovered = 1;
                P->nrecovered++;
            }
            break;
        case N_MESSAGE:
            g = M->inst;
            v = m_ev(EV_MSG, n->id, canon(m_text(&g->err)));
            if (!g->exceptional || g->recovered || g->err.wild)
                v->wild |= W_A;
            break;
        case N_PROTECT:
            if (f->n >= NSLOT)
                break;
            f->slot[f->n] = n->b ? 0 : n->a;
            f->func[f->n] = n->c;
            f->st[f->nst++] = f->n++;
            P->nprot++;
            break;
        case N_UNPROTECT:
            if (f->nst > 0)
                f->nst--;
            break;
        case N_CHANGE:
            if (f->n)
                f->slot[n->c % f->n] = n->b ? 0 : n->a;
            break;
        case N_DDEFER: m_raii_init(); return m_push(M->d, &M->nd, n, 0);
        case N_DALLOC:
            if (M->nblk >= NBLK)
                break;
            m_raii_init();
            if (m_op())
                return m_throw(m_lib_panic());
            M->nblk++;
            P->nblocks++;
            M->live++;
            return m_push(M->d, &M->nd, NULL, 0);
        case N_DCLEAN: m_raii_init(); P->ndclean++; return m_default();
        case N_SIGDEFAULT:
            M->sigset = 0;
            for (k = 0; k < NSIG_; k++)
                if (n->a == 0 || n->a - 1 == k)
                    M->signame[k] = T_NONE;
            if (n->a)
                M->signame[n->a - 1] = T_NONE;
            m_ev(EV_DEFAULT, n->id, m_handled());
            break;
        case N_SIGSET:
            if (!M->sigset)
                break;
            P->nsigset++;
            for (k = 0; k < n->c; k++)
                M->signame[n->a - k] = SIG_NAME(n, k);
            if (n->c > 15)
                P->manysigs = 1;
            m_ev(EV_DEFAULT, n->id, m_handled());
            break;
        case N_HOOK: M->hook = n->a; break;
        case N_LIB:
            m_raii_init();
            P->nlib++;
            if (n->a <= 4) {
                if (m_op())
                    return m_throw(m_lib_panic());
                m_ev(EV_LIB, n->id, 1);
            } else if (n->a == 5) {
                if (m_op())
                    return m_throw(m_lib_panic());
                m_setup();
                if (m_op())
                    return m_throw(m_lib_panic());
                m_ev(EV_LIB, n->id, 4);
            } else if (n->a <= 7) {
                int u = n->a - 6;
                if (!M->us[u]) {
                    if (m_op())
                        return m_throw(m_lib_panic());
                    M->us[u] = 1;
                    M->usn[u] = 0;
                    if (m_push(M->d, &M->nd, NULL, 2 + u))
                        return C_EXC;
                }
                for (k = 0; k < n->b && M->usn[u] < UMAX; k++) {
                    if (m_op())
                        return m_throw(m_lib_panic());
                    M->usn[u]++;
                }
                m_ev(EV_LIB, n->id, M->usn[u]);
            } else if (n->a == 10) {
                return m_throw(m_lib_panic());
            } else if (n->a == 11) {
                if (m_op())
                    return m_throw(m_lib_panic());
                m_setup();
                if (m_op())
                    return m_throw(m_lib_panic());
                m_ev(EV_LIB, n->id, n->b * 5 + 1);
            } else if (n->a == 8) {
                if (m_op())
                    return m_throw(m_lib_panic());
                m_ev(EV_LIB, n->id, 1000 + n->b);
            } else {
                if (!M->us[2]) {
                    if (m_op())
                        return m_throw(m_lib_panic());
                    M->us[2] = 1;
                    M->claimed = 0;
                    if (m_push(M->d, &M->nd, NULL, 4))
                        return C_EXC;
                }
                if (M->claimed + n->b > NUT)
                    break;
                M->claimed += n->b;
                if (m_op())
                    return m_throw(m_lib_panic());
                m_ev(EV_LIB, n->id, n->b * (1000 + n->c) + n->b * (n->b - 1) / 2);
            }
            break;
    }
    return C_NORMAL;
}

static int m_list(node *n) {
    int c;
    for (; n; n = n->next)
        if ((c = m_stmt(n)) != C_NORMAL)
            return c;
    return C_NORMAL;
}

void prog_model(prog *P) {
    int i;
    M = calloc(1, sizeof *M);
    M->P = P;
    M->fr = &M->base;
    M->base.base = 1;
    for (i = 0; i < NSIGX; i++)
        M->signame[i] = T_NONE;
    if (P->threads)
        m_setup();
    if (P->uses_raii_init)
        m_raii_init();
    P->nexp = 0;
    P->ended_uncaught = P->exited = P->status = P->relthrown = P->nlast = 0;
    P->nthrown = P->ncaught = P->nrecovered = P->ndeferred = P->nreleased = P->nreturned = P->nrethrown = P->nsignal =
        P->nnestedtry = P->nfin = P->ndefthrow = P->nblocks = P->nscopes = P->nprot = P->ndclean =
        P->nsigset = P->manysigs = P->nlib = P->nhooked = P->nunhooked = 0;
    m_list(P->top);
    if (!M->ended)
        m_exit(0);
    P->overflow = M->toolong;
    for (i = 0; i < M->ninst; i++)
        free(M->insts[i]);
    free(M);
    M = NULL;
}

/* --- comparison --------------------------------------------------------------------------- */
static const char *ev_name(int k) {
    static const char *const n[] = { "?", "step", "catch", "finally", "deferred function", "recover", "message", "release",
        "after", "mask", "terminate callback", "end", "signals handled", "no clause", "null allocation", "default scope's function", "corrupt",
        "interrupt callback", "result", "deletion of the program's own scope",
        "function for exceptions" };
    return k > 0 && k < (int)(sizeof n / sizeof *n) ? n[k] : "?";
}

static void ev_print(const event *e, char *b, size_t n) {
    switch (e->kind) {
        case EV_CATCH:
            snprintf(b, n, "catch in %d, clause %d, %s, message %s, line %d%s%s, %d blocks live", e->id, e->a, e->b >= 0 ? prog_text[e->b] : "(unknown)",
                e->c >= 0 ? prog_text[e->c] : "-", e->d, e->f == 1 ? " of unknown file" : e->f ? " of a wrong file" : "", e->m ? "" : ", signals blocked", e->live);
            break;
        case EV_MSG:
            snprintf(b, n, "message %d: %s, %d blocks live", e->id, e->a >= 0 ? prog_text[e->a] : "(other)", e->live);
            break;
        case EV_HOOK:
            snprintf(b, n, "%s %d, %s, %d, line %d%s, %d blocks live", e->id == 1 ? "set-up function" : e->id == 2 ? "unwind function" : "function deferred to the program's scope",
                e->a, e->id == 1 && e->a >= 0 ? prog_text[e->a] : "", e->b, e->d, e->f == 1 ? " of unknown file" : e->f ? " of a wrong file" : "", e->live);
            break;
        case EV_END:
            snprintf(b, n, "end%s, %d blocks live", e->m ? "" : ", signals blocked", e->live);
            break;
        default:
            snprintf(b, n, "%s %d (%d), %d blocks live", ev_name(e->kind), e->id, e->a, e->live);
    }
}

const char *prog_compare(prog *P) {
    static __thread char buf[700];
    char a[300], x[300];
    int i;
    for (i = 0; i < P->nexp || i < P->nact; i++) {
        const event *e = &P->exp[i], *t = &P->act[i];
        if (i >= P->nexp) {
            ev_print(t, a, sizeof a);
            snprintf(buf, sizeof buf, "event %d should not happen: %s", i, a);
            return buf;
        }
        ev_print(e, x, sizeof x);
        if (i >= P->nact) {
            snprintf(buf, sizeof buf, "event %d does not happen: %s", i, x);
            return buf;
        }
        if (e->kind != t->kind || e->id != t->id || (e->a != t->a && !(e->wild & W_A)) || (e->b != t->b && !(e->wild & W_B)) ||
            (e->c != t->c && !(e->wild & W_C)) || (e->d != t->d && !(e->wild & W_D)) || (e->f != t->f && !(e->wild & W_F)) ||
            (e->m != t->m && !(e->wild & W_M)) || e->live != t->live) {
            ev_print(t, a, sizeof a);
            snprintf(buf, sizeof buf, "event %d should be \"%s\", is \"%s\"", i, x, a);
            return buf;
        }
        if (P->traces && e->kind == EV_CATCH && e->t > 0 && P->same[e->t] != t->t) {
            snprintf(buf, sizeof buf, "event %d: the backtrace a handler sees is not that of throw %d but of %d (\"%s\")", i, e->t, t->t, x);
            return buf;
        }
    }
    return NULL;
}

/* --- generation ----------------------------------------------------------------------------- */
enum { F_FRAME = 1, F_GUARD = 2, F_HANDLER = 4, F_DEFER = 8, F_NOSIG = 16, F_NOTHROW = 32, F_NOEXIT = 64, F_NO = F_NOSIG | F_NOTHROW | F_NOEXIT };
static prog *gP;
static const gen_cfg *G;
static int gbudget, gptr, grel;    /* grel: release functions that throw, so the default scope's must not */

static node *g_new(int kind) {
    node *n;
    if (gP->nn >= NNODE)
        return NULL;
    n = &gP->nodes[gP->nn];
    memset(n, 0, sizeof *n);
    n->kind = kind;
    n->id = gP->nn++;
    return n;
}

static int g_ptr(void) { gptr += 3; return gptr - 2; }

static node *g_list(int depth, int flags, int guards, int maxlen);

static int g_panic_text(void) { return T_MSG0 + (int)d_u(T_COUNT - T_MSG0 - 1); }
static int g_any_text(void) {
    return d_p(1, 2) ? T_MSG0 + (int)d_u(T_COUNT - T_MSG0 - 1) : G->signals && d_p(1, 2) ? T_SIG0 + (int)d_u(NSIG_ - 1) : (int)d_u(NTHROW - 1);
}

static void g_size(node *n) {
    n->b = d_p(1, gP->big ? 6 : 200) ? d_in(41, 100000) : d_in(1, 40);
    n->d = n->b <= 40 && d_p(1, 3) ? d_in(2, 9) : 1;
}

static node *g_stmt(int depth, int flags, int guards) {
    int kind, k, sh;
    node *n, *m;
    if (gbudget <= 0)
        return NULL;
    gbudget--;
    kind = d_w(G->w);
    if (depth <= 0 && (kind == N_CALL || kind == N_LOOP || kind == N_TRY || kind == N_GUARD || kind == N_DEFER || kind == N_DDEFER ||
        kind == N_DEFCANCEL || kind == N_DEFFIRE))
        kind = N_STEP;
    /* where they have no meaning, others take their place */
    if (!guards && (kind == N_DEFER || kind == N_DEFCANCEL || kind == N_DEFFIRE || kind == N_ALLOC))
        kind = depth > 0 ? N_GUARD : N_STEP;
    if (!(flags & F_GUARD) && (kind == N_BREAK || kind == N_RETURN || kind == N_FLUSH))
        kind = N_STEP;
    if (!(flags & F_HANDLER) && kind == N_RETHROW)
        kind = N_THROW;
    if (!(flags & F_DEFER) && (kind == N_RECOVER || kind == N_MESSAGE))
        kind = N_STEP;
    if (!(flags & F_FRAME) && (kind == N_PROTECT || kind == N_UNPROTECT || kind == N_CHANGE))
        kind = depth > 0 ? N_TRY : N_STEP;
    if (kind == N_RAISE && (!G->signals || (flags & F_NOSIG)))
        kind = N_THROW;
    if ((kind == N_SIGDEFAULT || kind == N_SIGSET) && (!G->signals || (flags & F_NOSIG)))
        kind = N_STEP;
    if (kind == N_HOOK && (guards || (flags & F_NOSIG)))
        kind = N_THROW;
    if ((flags & F_NOTHROW) && (kind == N_THROW || kind == N_PANIC || kind == N_RETHROW || kind == N_RAISE))
        kind = N_STEP;
    if (kind == N_EXIT && (flags & F_NOEXIT))
        kind = N_STEP;
    if (!(n = g_new(kind)))
        return NULL;
    switch (kind) {
        case N_THROW: n->a = (int)d_u(NTHROW - 1); break;
        case N_PANIC: n->a = g_panic_text(); n->b = d_p(1, 2); break;
        case N_RAISE: n->a = (int)d_u(!G->custom ? NSIG_ - 1 : d_p(1, gP->sigs ? 2 : 8) ? NSIGX - 1 : NSIG_ + 1); n->b = d_w("532"); break;
        case N_CALL: n->k[0] = g_list(depth - 1, flags & (F_DEFER | F_NO), guards, 4); break;
        case N_LOOP:
            n->a = d_in(1, 3);
            if (gP->big && d_p(1, 2))
                n->a = d_in(4, d_p(1, 3) ? 300 : 40);
            n->k[0] = g_list(depth - 1, flags & ~F_FRAME & ~F_HANDLER, guards, 3);
            break;
        case N_TRY:
            sh = G->signals ? (int)d_w("55333243333432233") : (int)d_w("55333343300331332");
            n->c = sh;
            if (shape[sh].prot) {
                n->a = g_ptr();
                n->b = (int)d_u(63);
                n->k[0] = g_list(depth - 1, flags & F_NO, guards, 3);
                n->k[2] = g_list(depth - 1, flags & F_NO, guards, 2);
                n->k[3] = g_list(depth - 1, flags & F_NO, guards, 2);
                n->k[4] = g_list(depth - 1, flags & F_NO, guards, 2);
                n->k[1] = g_list(depth - 1, (flags & F_NO) | F_HANDLER | F_FRAME, guards, 3);
            } else {
                n->k[0] = g_list(depth - 1, (flags & F_NO) | F_FRAME, guards, 5);
                for (k = 1; k <= 3; k++)
                    if (shape[sh].cl[0] != CL_END && sh != SH_FINALITY && (k <= 1 || (shape[sh].cl[1] != CL_END && (k == 2 || shape[sh].cl[2] != CL_END))))
                        n->k[k] = g_list(depth - 1, (flags & F_NO) | F_HANDLER | F_FRAME, guards, 3);
                if (shape[sh].isif)
                    n->k[4] = g_list(depth - 1, (flags & F_NO) | F_HANDLER | F_FRAME, guards, 2);
            }
            if (shape[sh].fin)
                n->k[5] = g_list(depth - 1, flags & F_NO, guards, 2);
            break;
        case N_GUARD:
            n->a = (int)d_u(2);
            n->c = d_in(1, 1000);
            n->k[0] = g_list(depth - 1, (flags & F_NO) | F_FRAME | F_GUARD, guards + 1, 6);
            break;
        case N_DEFER:
            n->a = d_in(0, 2);
            n->b = n->a && d_p(1, 3) ? (int)d_u(guards - 1) : 0;
            n->k[0] = g_list(depth - 1, (flags & F_NO) | (n->a == 2 ? 0 : F_DEFER), guards - n->b, 3);
            break;
        case N_DEFCANCEL:
        case N_DEFFIRE:
            n->a = d_p(1, 2);
            if (n->a)
                n->k[0] = g_list(depth - 1, flags & F_NO, guards, 2);
            if (kind == N_DEFFIRE)
                n->k[1] = g_list(depth - 1, flags & F_NO, guards, 2);
            n->b = d_p(1, 2);
            break;
        case N_ALLOC:
            n->a = d_in(0, 5);
            g_size(n);
            n->c = d_p(1, 3) ? (int)d_u(guards - 1) : 0;
            break;
        case N_RECOVER: n->a = g_any_text(); break;
        case N_PROTECT:
            n->a = g_ptr();
            n->b = d_p(1, 6);
            n->c = grel ? d_w("4321") : d_w("431");
            if (gP->big)
                for (k = d_in(0, 16), m = n; k > 0 && (m->next = g_new(kind)); k--) {
                    m = m->next;
                    m->a = g_ptr();
                    m->b = d_p(1, 6);
                    m->c = d_w("431");
                }
            break;
        case N_UNPROTECT: n->a = d_p(1, 3); break;
        case N_CHANGE: n->a = g_ptr(); n->b = d_p(1, 4); n->c = (int)d_u(NSLOT - 1); break;
        case N_DDEFER:
            n->a = d_p(1, 2);
            n->k[0] = g_list(depth - 1, F_NOSIG | (grel ? F_NOTHROW : 0) | (strlen(G->w) > N_EXIT && G->w[N_EXIT] != '0' && d_p(1, 4) ? 0 : F_NOEXIT), 0, 3);
            break;
        case N_EXIT: n->a = d_p(1, 3) ? (int)d_u(255) : 0; break;
        case N_DALLOC: n->a = (int)d_u(3); g_size(n); break;
        case N_DCLEAN: n->a = (int)d_u(2); break;
        case N_SIGDEFAULT: n->a = d_p(1, 2) ? 1 + (int)d_u(d_p(1, 6) ? NSIGX - 1 : NSIG_ + 1) : 0; break;
        case N_SIGSET: {
            int any = d_p(1, 6);
            n->a = any ? NSIGX - 1 - (int)d_u(NSIGX - 1) : NSIG_ + 1 - (int)d_u(d_p(1, 2) ? 1 : NSIG_ + 1);
            n->b = (int)d_u(6);
            n->c = 1;
            if (d_p(1, 6)) {           /* as many as there can be */
                n->a = NSIGX - 1;
                n->c = d_p(1, 2) ? NSIGX - NSIG_ : d_in(1, NSIGX);
                gP->sigs = 1;
            }
            break;
        }
        case N_HOOK: n->a = d_w("23452"); break;
        case N_LIB:
            n->a = G->lib == 9 && d_p(1, 8) ? 10 + (int)d_u(1) : (int)d_u(G->lib);
            n->b = n->a == 8 ? (int)d_u(7) : n->a == 9 ? d_in(1, 4) : d_in(1, 30);
            n->c = n->a == 9 ? (int)d_u(27) : d_in(1, 60);
            break;
        default: break;
    }
    return n;
}

static node *g_list(int depth, int flags, int guards, int maxlen) {
    node *first = NULL, **at = &first;
    int n = (int)d_u(maxlen);
    while (n-- > 0) {
        node *s = g_stmt(depth, flags, guards);
        if (!s)
            break;
        *at = s;
        while (s->next)
            s = s->next;
        at = &s->next;
        if (s->kind == N_THROW || s->kind == N_PANIC || s->kind == N_BREAK || s->kind == N_RETURN || s->kind == N_RETHROW) {
            /* what follows must not run: one step tells */
            if (n > 0 && (s = g_new(N_STEP)))
                *at = s;
            break;
        }
    }
    return first;
}

/* A program within so many layers of blocks. */
static node *g_deep(int layers, int flags, int guards) {
    static const int shapes[] = { SH_FULL, SH_ANY, SH_FIN, SH_ONE, SH_TWOFIN, SH_PANIC, SH_IF, SH_IFFIN, SH_ANYFIRST };
    node *n, *t;
    int sh;
    if (!layers)
        return g_list(G->depth, flags, guards, 8);
    switch (d_w("442")) {
        case 0:
            if (!(n = g_new(N_TRY)))
                return NULL;
            n->c = sh = shapes[d_u(8)];
            if (sh == SH_ANY && d_p(1, 2)) {
                /* in the handler */
                if (!(t = g_new(N_THROW)))
                    return NULL;
                t->a = (int)d_u(NTHROW - 1);
                n->k[0] = t;
                n->k[1] = g_deep(layers - 1, (flags & F_NO) | F_HANDLER | F_FRAME, guards);
            } else if (shape[sh].fin && d_p(1, 3))
                n->k[5] = g_deep(layers - 1, flags & F_NO, guards);
            else {
                n->k[0] = g_deep(layers - 1, (flags & F_NO) | F_FRAME, guards);
                n->k[1] = g_list(1, (flags & F_NO) | F_HANDLER | F_FRAME, guards, 2);
                if (shape[sh].fin)
                    n->k[5] = g_list(1, flags & F_NO, guards, 1);
            }
            break;
        case 1:
            if (!(n = g_new(N_GUARD)))
                return NULL;
            n->a = (int)d_u(2);
            n->c = d_in(1, 1000);
            if (d_p(1, 2) && (t = g_new(N_DEFER))) {
                t->a = d_in(0, 2);
                t->k[0] = g_list(1, (flags & F_NO) | (t->a == 2 ? 0 : F_DEFER), guards + 1, 2);
                t->next = g_deep(layers - 1, (flags & F_NO) | F_FRAME | F_GUARD, guards + 1);
                n->k[0] = t;
            } else
                n->k[0] = g_deep(layers - 1, (flags & F_NO) | F_FRAME | F_GUARD, guards + 1);
            break;
        default:
            if (!(n = g_new(N_CALL)))
                return NULL;
            n->k[0] = g_deep(layers - 1, flags & (F_DEFER | F_NO), guards);
            break;
    }
    if (d_p(1, 5))
        n->next = g_list(1, flags, guards, 2);
    return n;
}

static node *g_top(void) { return gP->deep ? g_deep(gP->deep, F_FRAME, 0) : g_list(G->depth, F_FRAME, 0, 8); }

void prog_gen(prog *P, const gen_cfg *g) {
    memset(&P->nn, 0, offsetof(prog, act) - offsetof(prog, nn));
    memset(&P->nact, 0, sizeof *P - offsetof(prog, nact));
    gP = P;
    G = g;
    gbudget = 4 + (int)d_u(g->budget);
    gptr = 1;
    grel = g->relthrow && d_p(1, 2);
    P->big = d_p(1, 60);
    P->sigs = 0;
    if (d_p(1, 80)) {
        P->deep = d_in(8, d_p(1, 3) ? 60 : 20);
        gbudget += P->deep;
    }
    P->uses_raii_init = d_p(1, 2);
    P->callback = d_p(1, 2);
    P->use_signals = g->signals;
    P->ctrlc = g->signals && d_p(1, 2);
#if defined(USE_DEBUG)
    P->traces = g->traces;
#endif
    if ((int)d_u(9) < g->wrap) {
        node *t = g_new(N_TRY), *s = g_new(N_STEP);
        t->c = SH_ANY;
        t->k[0] = g_top();
        t->next = s;
        P->top = t;
    } else
        P->top = g_top();
    if (g->hooks && d_p(2, 3)) {
        node *h = g_new(N_HOOK);
        h->a = 1 + d_w("3451");
        h->next = P->top;
        P->top = h;
    }
    /* so that it is not the last statement's business alone */
}

/* --- printing ---------------------------------------------------------------------------------- */
static void p_list(node *n, int ind);
static void p_sub(const char *what, node *n, int ind) {
    if (!n)
        return;
    NOTE("%*s%s\n", ind, "", what);
    p_list(n, ind + 4);
}

static const char *const libname[] = { "raii_split", "raii_replace", "raii_encode64", "raii_decode64", "raii_concat", "args_for",
    "unique_init", "unique_init_arena", "thrd_async", "thrd_spawn", "request for more memory than there is",
    "try_realloc" };
static void p_list(node *n, int ind) {
    int k, sh;
    for (; n; n = n->next) {
        switch (n->kind) {
            case N_STEP: NOTE("%*s%d: step\n", ind, "", n->id); break;
            case N_THROW: NOTE("%*s%d: throw(%s)\n", ind, "", n->id, prog_text[n->a]); break;
            case N_PANIC: NOTE("%*s%d: panic(\"%s\")\n", ind, "", n->id, prog_text[n->a]); break;
            case N_RAISE: NOTE("%*s%d: raise %s%s\n", ind, "", n->id, n->a < NSIG_ ? prog_text[T_SIG0 + n->a] : strsignal(prog_sig[n->a]), n->b == 1 ? " (by the fault itself)" : ""); break;
            case N_CALL: NOTE("%*s%d: call\n", ind, "", n->id); p_list(n->k[0], ind + 4); break;
            case N_LOOP: NOTE("%*s%d: %d times\n", ind, "", n->id, n->a); p_list(n->k[0], ind + 4); break;
            case N_TRY:
                sh = n->c;
                NOTE("%*s%d: try%s\n", ind, "", n->id, shape[sh].prot ? " (protecting two pointers)" : "");
                if (shape[sh].prot)
                    NOTE("%*s(pointer %d%s; pointer null, then %s)\n", ind + 4, "", n->a, n->b & 2 ? ", then changed" : "", n->b & 8 ? "null" : "set");
                p_list(n->k[0], ind + 4);
                if (shape[sh].prot) {
                    p_sub("(second pointer set)", n->k[2], ind + 2);
                    if (n->b & 16)
                        p_sub("(second unprotected)", n->k[3], ind + 2);
                    if ((n->b & 48) == 48)
                        p_sub("(first unprotected)", n->k[4], ind + 2);
                }
                for (k = 0; shape[sh].cl[k] != CL_END && sh != SH_FINALITY; k++) {
                    char b[80];
                    snprintf(b, sizeof b, "%s %s", shape[sh].isif ? "catch_if caught" : "catch", shape[sh].cl[k] == CL_ANY ? "any" : prog_text[shape[sh].cl[k]]);
                    NOTE("%*s%s%s\n", ind, "", b, k >= 3 ? " (as above)" : "");
                    if (k < 3)
                        p_list(shape[sh].prot ? n->k[1] : HANDLER(n, k), ind + 4);
                }
                if (shape[sh].isif)
                    p_sub("else", n->k[4], ind);
                if (shape[sh].fin) {
                    NOTE("%*s%s\n", ind, "", sh == SH_FINALITY ? "finality" : "finally");
                    p_list(n->k[5], ind + 4);
                }
                NOTE("%*send_try\n", ind, "");
                break;
            case N_GUARD:
                NOTE("%*s%d: guard\n", ind, "", n->id);
                p_list(n->k[0], ind + 4);
                NOTE("%*s%s\n", ind, "", n->a == 0 ? "guarded" : n->a == 1 ? "unguarded" : "unblocked");
                break;
            case N_DEFER: NOTE("%*s%d: defer (form %d, %d guards out)\n", ind, "", n->id, n->a, n->b); p_list(n->k[0], ind + 4); break;
            case N_DEFCANCEL: NOTE("%*s%d: defer%s, %scancel it\n", ind, "", n->id, n->b ? " (may recover)" : "", n->a ? "defer another, " : ""); p_list(n->k[0], ind + 4); break;
            case N_DEFFIRE:
                NOTE("%*s%d: defer%s, %sfire it\n", ind, "", n->id, n->b ? " (may recover)" : "", n->a ? "defer another, " : "");
                p_sub("the other", n->k[0], ind);
                p_sub("the fired", n->k[1], ind);
                break;
            case N_ALLOC: NOTE("%*s%d: allocate %d x %d (form %d, %d guards out)\n", ind, "", n->id, n->d, n->b, n->a, n->a <= 1 ? 0 : n->c); break;
            case N_FLUSH: NOTE("%*s%d: unwind the guard's scope now\n", ind, "", n->id); break;
            case N_BREAK: NOTE("%*s%d: break\n", ind, "", n->id); break;
            case N_RETURN: NOTE("%*s%d: return value of the guard\n", ind, "", n->id); break;
            case N_RETHROW: NOTE("%*s%d: rethrow\n", ind, "", n->id); break;
            case N_RECOVER: NOTE("%*s%d: recover(\"%s\")\n", ind, "", n->id, prog_text[n->a]); break;
            case N_MESSAGE: NOTE("%*s%d: read the message\n", ind, "", n->id); break;
            case N_PROTECT: NOTE("%*s%d: protect pointer %d%s (function %d)\n", ind, "", n->id, n->a, n->b ? " as null" : "", n->c); break;
            case N_UNPROTECT: NOTE("%*s%d: unprotect the last\n", ind, "", n->id); break;
            case N_CHANGE: NOTE("%*s%d: change pointer no %d to %d%s\n", ind, "", n->id, n->c, n->a, n->b ? " (null)" : ""); break;
            case N_DDEFER: NOTE("%*s%d: defer to the default scope\n", ind, "", n->id); p_list(n->k[0], ind + 4); break;
            case N_DALLOC: NOTE("%*s%d: allocate from the default scope (form %d)\n", ind, "", n->id, n->a); break;
            case N_DCLEAN: NOTE("%*s%d: clean the default scope (form %d)\n", ind, "", n->id, n->a); break;
            case N_SIGDEFAULT: NOTE("%*s%d: default handling of signal %d (0: all)\n", ind, "", n->id, n->a ? prog_sig[n->a - 1] : 0); break;
            case N_SIGSET: NOTE("%*s%d: name signals %d..%d %s...\n", ind, "", n->id, prog_sig[n->a], prog_sig[n->a - n->c + 1], prog_text[SIG_NAME(n, 0)]); break;
            case N_HOOK: NOTE("%*s%d: functions for exceptions, form %d (0: none)\n", ind, "", n->id, n->a); break;
            case N_EXIT: NOTE("%*s%d: exit %d\n", ind, "", n->id, n->a); break;
            case N_LIB: NOTE("%*s%d: library %s %d %d\n", ind, "", n->id, libname[n->a], n->b, n->c); break;
        }
    }
}

void prog_print(prog *P) {
    NOTE("program%s%s%s:\n", P->uses_raii_init ? " (raii_init first)" : "", P->ctrlc ? " (interrupt callback)" : "", P->callback ? " (terminate callback)" : "");
    p_list(P->top, 2);
}
