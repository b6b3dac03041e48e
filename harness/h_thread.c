/* C20, C21: generated trees of tasks run as futures and in spawn scopes, with delays, against the
 * outcome each task must have. */
#include "eng.h"
#include "raii.h"
#include <string.h>
#include <stdio.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>

#define NT 300
#define FEW 28                         /* of an ordinary case */
#define NST 14
#define NMARK 40
#define NSTEPS 1400
#define NPOOL 3                        /* spawn scopes of a thread at a time */

enum { S_DEFER, S_ALLOC, S_GUARD, S_TRY, S_DELAY, S_ASYNC, S_WAIT, S_POLL, S_GET, S_OPEN, S_SPAWN, S_SYNC, S_RESULT, S_THEN,
    S_ISFIN, S_DESTROY, S_CLEAN, S_NOSCOPE, S_NOTSYNC, S_TAKE, S_KINDS };
enum { E_NONE, E_VALUE, E_OBJ, E_THROW, E_PANIC, E_DEEP, E_PROP };
enum { A_GET, A_FREE, A_RAW, A_SCOPED, A_EX };
enum { X_NOTHING, X_VALUE, X_OBJ, X_EXC };

static const char *const names[] = { "range_error", "logic_error", "out_of_range", "domain_error", "panic" };
static const char *const msgs[] = { "boom", "oops", "went wrong" };

typedef struct { int kind, child, a, b, pool, wait; } step;
typedef struct task {
    int id, used;
    int mode, end;
    long value;
    size_t size;
    int name, pre, post;               /* delays */
    int nst;
    step st[NSTEPS];
    /* what it must end with */
    int out, oname, omsg;
    long ovalue;
    size_t osize;
    struct task *otask;                /* whose object */
    /* the run */
    volatile int started, ended;
    int ndef;
    volatile int nmark;
    void *blk[12];
    size_t blkn[12];
    int nblk;
    args_t args;
    raii_values_t raw;
    future f;
    result_t res;
    int synced;
    int given;                         /* its future is gotten by another task than its creator */
    unsigned char *obj;                /* as received */
    size_t objn;
    int objid;
    char text[24];
} task;

static task T[NT];
static int nT;
static const task *cur_main;
static __thread int fail_create;
static volatile int ncreated;
static int predelay[32];
static int most;                       /* tasks of this case */
static int crowd;                      /* started in one go by the main thread */
static int storm;                      /* many objects returned while the main thread is at its scope */
static int slow;                       /* microseconds that one task takes, or more */
static int large;                      /* sizes of objects */

static void delay(int n) {
    int k;
    if (n <= 0)
        return;
    if (n < 20)
        for (k = 0; k < n; k++)
            sched_yield();
    else if (n < 60)
        for (k = 0; k < n * 200; k++)
            __asm__ volatile("" ::: "memory");
    else
        usleep(n);
}

/* the C library's, with delays, and failing when told to */
typedef struct { thrd_start_t fn; void *arg; int wait; } starter;
static void *start(void *p) {
    starter s = *(starter *)p;
    free(p);
    delay(s.wait);
    return (void *)(intptr_t)s.fn(s.arg);
}
int thrd_create(thrd_t *t, thrd_start_t fn, void *arg) {
    starter *s;
    pthread_t th;
    if (fail_create) {
        fail_create = 0;
        return thrd_nomem;
    }
    s = malloc(sizeof *s);
    s->fn = fn;
    s->arg = arg;
    s->wait = predelay[__sync_fetch_and_add(&ncreated, 1) & 31];
    if (pthread_create(&th, NULL, start, s)) {
        free(s);
        return thrd_error;
    }
    *t = (thrd_t)th;
    return thrd_success;
}

int thrd_detach(thrd_t t) { return pthread_detach((pthread_t)t) ? thrd_error : thrd_success; }
int thrd_join(thrd_t t, int *res) {
    void *r;
    if (pthread_join((pthread_t)t, &r))
        return thrd_error;
    if (res)
        *res = (int)(intptr_t)r;
    return thrd_success;
}

static unsigned char pat(int id, size_t i) { return (unsigned char)(id * 41 + i * 13 + 7); }

static void check_obj(const task *c) {
    size_t i;
    for (i = 0; i < c->objn; i++)
        CHECK(c->obj[i] == pat(c->objid, i), "the object returned by task %d changed at offset %zu of %zu before its scope was unwound", c->id, i, c->objn);
}

typedef struct { task *t; int k; } mark;
static mark marks[NT][NMARK];

static void on_mark(void *arg) {
    mark *m = arg;
    task *t = m->t;
    CHECK(t->nmark < t->ndef, "a deferred function of task %d runs again", t->id);
    CHECK(m->k == t->ndef - 1 - t->nmark, "deferred function %d of task %d runs out of order (%d of %d have run)", m->k, t->id, t->nmark, t->ndef);
    t->nmark++;
}

static __thread int gcount;
static void on_gmark(void *arg) { gcount = gcount * 4 + (int)(intptr_t)arg; }

static void throw_name(int k) {
    switch (k) {
        case 0: throw(range_error);
        case 1: throw(logic_error);
        case 2: throw(out_of_range);
        default: throw(domain_error);
    }
}

/* a guard of the task's own, left normally or by an exception caught outside of it, or not at all */
static void guarded_part(const step *s, int leave) {
    volatile int caught_it = 0;
    gcount = 0;
    try {
        guard {
            unsigned char *p = _malloc(s->a % 50 + 1);
            memset(p, 0x33, s->a % 50 + 1);
            _defer(on_gmark, (void *)(intptr_t)1);
            _defer(on_gmark, (void *)(intptr_t)2);
            if (s->b & 1)
                throw_name(s->b >> 1 & 3);
        } guarded
    } catch_any {
        caught_it = 1;
        CHECK(!strcmp(err, names[s->b >> 1 & 3]), "a task's own exception %s arrives as %s", names[s->b >> 1 & 3], err);
    } end_try;
    CHECK(gcount == 9, "deferred functions of a task's guard run wrongly (%x)", gcount);
    CHECK(caught_it == (s->b & 1), "a task's own exception is %s", caught_it ? "caught though not thrown" : "lost");
}

static void on_extra(void *arg) { ++*(volatile int *)arg; }

/* Of the thread's scope, to which the threads it started add what they return: functions cancelled and fired, blocks
 * taken out of it or released. */
static void take_back(const step *s) {
    int i;
    raii_init();
    for (i = 0; i < s->b; i++) {
        static __thread volatile int ran;
        int n = 1 + (s->a + i * 7) % 60, how = (s->a + i) % 4;
        if (how < 2) {
            size_t at;
            ran = 0;
            at = raii_defer(on_extra, (void *)&ran);
            delay(i % 5 == 0 ? s->wait : i % 3);
            if (how)
                raii_defer_fire(at);
            else
                raii_defer_cancel(at);
            CHECK(ran == how, "a deferred function of a thread ran %d times when it was %s", ran, how ? "fired" : "cancelled");
        } else {
            unsigned char *p = malloc_default(n);
            memset(p, 0x5a, n);
            delay(i % 5 == 0 ? s->wait : i % 3);
            if (how == 2) {
                raii_defer_cancel(raii_mid());
                CHECK(trk_is_live(p) && p[n - 1] == 0x5a, "a block of a thread is released when that was cancelled");
                trk_free(p);
            } else {
                raii_defer_fire(raii_mid());
                CHECK(!trk_is_live(p), "a block of a thread is still allocated when its release was fired");
            }
        }
    }
}

static int body(task *t);
static void *entry_fn(args_t args);

/* everything of it has run, and its memory is released */
static void check_done(const task *c, const char *when) {
    int k;
    CHECK(c->started == 1 && c->ended == 1, "task %d has %s when %s", c->id, c->started ? "not ended" : "not run", when);
    CHECK(c->nmark == c->ndef, "%d of the %d functions deferred in the thread of task %d have run when %s", c->nmark, c->ndef, c->id, when);
    for (k = 0; k < c->nblk; k++)
        CHECK(!trk_is_live(c->blk[k]), "memory of the thread of task %d is still allocated when %s", c->id, when);
    if (c->args && (c->mode == A_GET || c->mode == A_FREE))
        CHECK(!trk_is_live(c->args), "the arguments of task %d are still allocated when %s", c->id, when);
}

static void check_value(task *c, values_type v, const char *how) {
    switch (c->out) {
        case X_NOTHING: CHECK(v.object == NULL && v.long_long == 0, "task %d returned nothing, %s gives %llx", c->id, how, (unsigned long long)v.long_long); break;
        case X_VALUE: CHECK(v.long_long == c->ovalue, "task %d returned %ld, %s gives %lld", c->id, c->ovalue, how, (long long)v.long_long); break;
        case X_OBJ: {
            size_t i;
            unsigned char *p = v.object;
            CHECK(p && trk_is_live(p), "the object returned by task %d is not allocated when it arrives with %s", c->id, how);
            CHECK(trk_size(p) >= c->osize, "the object returned by task %d is too small with %s", c->id, how);
            for (i = 0; i < c->osize; i++)
                CHECK(p[i] == pat(c->otask->id, i), "the object returned by task %d arrives changed at offset %zu with %s", c->id, i, how);
            c->obj = p;
            c->objn = c->osize;
            c->objid = c->otask->id;
            break;
        }
        default: CHECK(0, "task %d ended by %s, %s gives a value", c->id, names[c->oname], how);
    }
}

static void check_exc(const task *c, const char *err, const char *msg, const char *how) {
    CHECK(c->out == X_EXC, "task %d ended normally, %s raises %s (%s)", c->id, how, err, msg ? msg : "-");
    CHECK(err && !strcmp(err, names[c->oname]), "task %d ended by %s, %s raises %s", c->id, names[c->oname], how, err ? err : "-");
    if (c->oname == 4)
        CHECK(msg && !strcmp(msg, msgs[c->omsg]), "task %d ended by panic \"%s\", %s raises \"%s\"", c->id, msgs[c->omsg], how, msg ? msg : "-");
}

static int my_yields;
static void my_yield(void) { __sync_fetch_and_add(&my_yields, 1); sched_yield(); }

static void pack(task *c) {
    c->args = NULL;
    memset(&c->raw, 0, sizeof c->raw);
    snprintf(c->text, sizeof c->text, "task %d", c->id);
    if (c->mode == A_RAW)
        c->raw.value.integer = c->id;
    else if (c->mode == A_SCOPED)
        c->args = raii_args_for(raii_init(), "isd", c->id, c->text, (int64_t)c->id * 1000003);
    else
        c->args = args_for("isd", c->id, c->text, (int64_t)c->id * 1000003);
}

static void get_child(task *c) {
    volatile int raised = 0;
    try {
        const values_type v = thrd_get(c->f);
        raised = -1;
        check_value(c, v, "thrd_get");
    } catch_any {
        CHECK(raised == 0, "");
        raised = 1;
        check_exc(c, err, raii_message(), "thrd_get");
    } end_try;
    CHECK(raised != 0, "thrd_get neither returns nor raises");
    check_done(c, "its value was gotten");
}

typedef struct { task *owner; int *order, n, at; void *self; } then_ctx;
static __thread then_ctx *TC;
static void *on_then(void *result, size_t id, values_type v) {
    CHECK(TC->at < TC->n, "the callback is called for more results than there are");
    CHECK(result == (char *)TC + TC->at, "the callback is not given what it returned before");
    task *c = &T[TC->order[TC->at]];
    CHECK(id == (size_t)c->synced - 1, "the callback is called for result %zu, not %d", id, c->synced - 1);
    check_value(c, v, "thrd_then");
    TC->at++;
    return (char *)TC + TC->at;
}

static void check_children(const task *t) {
    int k;
    for (k = 0; k < t->nst; k++)
        if ((t->st[k].kind == S_SPAWN || t->st[k].kind == (T[t->st[k].child].given ? S_GET : S_ASYNC)) && T[t->st[k].child].obj)
            check_obj(&T[t->st[k].child]);
}

/* the statements of a task; its last may raise what a child raised */
static int body(task *t) {
    volatile int k;
    future_t volatile pools[NPOOL] = { NULL };
    int orders[NPOOL][NT], seq[NT];
    volatile int nsps[NPOOL] = { 0 };
    for (k = 0; k < t->nst; k++) {
        const step *s = &t->st[k];
        task *c = s->child >= 0 ? &T[s->child] : NULL;
        future_t const pool = pools[s->pool];
        int *const order = orders[s->pool];
        const int nsp = nsps[s->pool];
        switch (s->kind) {
            case S_DEFER: {
                mark *m;
                raii_init();
                if (t->ndef >= NMARK)
                    break;
                m = &marks[t->id][t->ndef];
                m->t = t;
                m->k = t->ndef++;
                raii_defer(on_mark, m);
                break;
            }
            case S_ALLOC:
                if (t->nblk < 12) {
                    void *p = malloc_default(s->a % 300 + 1);
                    memset(p, t->id + 1, s->a % 300 + 1);
                    t->blkn[t->nblk] = s->a % 300 + 1;
                    t->blk[t->nblk++] = p;
                }
                break;
            case S_GUARD: guarded_part(s, 0); break;
            case S_TRY: {
                volatile int ok = 0;
                try {
                    throw_name(s->a & 3);
                } catch_any {
                    ok = !strcmp(err, names[s->a & 3]);
                } finally {
                    ok += 2;
                } end_try;
                CHECK(ok == 3, "a task's own exception is not caught as thrown");
                break;
            }
            case S_DELAY: delay(s->a); break;
            case S_TAKE: take_back(s); break;
            case S_ASYNC:
                pack(c);
                if (s->b) {
                    volatile int ok = 0;
                    fail_create = 1;
                    try {
                        thrd_async(entry_fn, c->args ? (void_t)c->args : (void_t)&c->raw);
                    } catch_any {
                        ok = !strcmp(err, "future_error");
                    } end_try;
                    CHECK(ok, "a thread that can not be started raises no future_error");
                }
                c->f = thrd_async(entry_fn, c->args ? (void_t)c->args : (void_t)&c->raw);
                CHECK(c->f != NULL, "thrd_async gives nothing");
                break;
            case S_WAIT:
                thrd_wait(c->f, s->a & 1 ? thrd_yield : my_yield);
                CHECK(thrd_is_done(c->f), "thrd_wait returns before task %d is done", c->id);
                check_done(c, "thrd_wait returned");
                break;
            case S_POLL:
                if (thrd_is_done(c->f)) {
                    check_done(c, "it is reported done");
                    CHECK(thrd_is_done(c->f), "a done future is no longer done");
                }
                break;
            case S_GET: get_child(c); break;
            case S_OPEN: {
                int i;
                pools[s->pool] = thrd_scope();
                nsps[s->pool] = 0;
                for (i = 0; i < NPOOL; i++)
                    CHECK(i == s->pool || pools[i] != pools[s->pool], "thrd_scope gives a scope that exists already");
                break;
            }
            case S_SPAWN:
                if (c->mode == A_EX) {
                    c->raw.value.integer = 0;
                    snprintf(c->text, sizeof c->text, "task %d", c->id);
                    c->args = NULL;
                    if (s->b) {
                        volatile int ok = 0;
                        fail_create = 1;
                        try {
                            thrd_spawn_ex(entry_fn, "isd", c->id, c->text, (int64_t)c->id * 1000003);
                        } catch_any {
                            ok = !strcmp(err, "future_error");
                        } end_try;
                        CHECK(ok, "a thread that can not be started raises no future_error");
                    }
                    c->res = thrd_spawn_ex(entry_fn, "isd", c->id, c->text, (int64_t)c->id * 1000003);
                } else {
                    pack(c);
                    if (s->b) {
                        volatile int ok = 0;
                        fail_create = 1;
                        try {
                            thrd_spawn(entry_fn, c->args ? (void_t)c->args : (void_t)&c->raw);
                        } catch_any {
                            ok = !strcmp(err, "future_error");
                        } end_try;
                        CHECK(ok, "a thread that can not be started raises no future_error");
                    }
                    c->res = thrd_spawn(entry_fn, c->args ? (void_t)c->args : (void_t)&c->raw);
                }
                CHECK(c->res != NULL, "thrd_spawn gives nothing");
                order[nsps[s->pool]++] = c->id;
                break;
            case S_NOTSYNC: {                       /* read too early */
                volatile int ok = 0;
                try {
                    thrd_result(c->res);
                } catch_any {
                    ok = !strcmp(err, "logic_error");
                } end_try;
                CHECK(ok, "reading a result that is not synchronised raises no logic_error");
                break;
            }
            case S_SYNC: {
                volatile int raised = 0, fails = 0, i, match = 0;
                char e[40] = "", m[60] = "";
                for (i = 0; i < nsp; i++)
                    if (!T[order[i]].synced && T[order[i]].out == X_EXC)
                        fails++;
                try {
                    CHECK(thrd_sync(pool) == pool, "thrd_sync gives another scope");
                } catch_any {
                    raised = 1;
                    snprintf(e, sizeof e, "%s", err);
                    snprintf(m, sizeof m, "%s", raii_message());
                } end_try;
                CHECK(raised == (fails > 0), fails ? "synchronising raises nothing though a task ended by an exception" : "synchronising raises %s though no task did", e);
                for (i = 0; i < nsp; i++) {
                    c = &T[order[i]];
                    check_done(c, "thrd_sync returned");
                    if (!c->synced && c->out == X_EXC && !strcmp(e, names[c->oname]) && (c->oname != 4 || !strcmp(m, msgs[c->omsg])))
                        match = 1;
                    if (!c->synced)
                        c->synced = i + 1;
                }
                CHECK(!raised || match, "synchronising raises %s (%s), which no task did", e, m);
                CHECK(thrd_is_finish(pool), "a synchronised scope is not finished");
                break;
            }
            case S_RESULT: {
                volatile int raised = 0;
                try {
                    const values_type v = thrd_result(c->res);
                    raised = -1;
                    check_value(c, v, "thrd_result");
                } catch_any {
                    raised = 1;
                    CHECK(c->out == X_EXC, "the result of task %d is not available after synchronising (%s)", c->id, err);
                } end_try;
                CHECK(raised > 0 || c->out != X_EXC, "task %d ended by an exception and has a result", c->id);
                break;
            }
            case S_THEN: {
                struct { then_ctx c; char pad[NT + 8]; } x;
                int i, n = 0;
                for (i = 0; i < nsp; i++)
                    if (T[order[i]].synced && T[order[i]].out != X_EXC)
                        seq[n++] = order[i];
                memset(&x, 0, sizeof x);
                x.c.order = seq;
                x.c.n = n;
                TC = &x.c;
                thrd_then(on_then, pool, (char *)TC);
                CHECK(x.c.at == n, "the callback is called for %d of %d results", x.c.at, n);
                break;
            }
            case S_ISFIN:
                if (thrd_is_finish(pool)) {
                    int i;
                    for (i = 0; i < nsp; i++)
                        check_done(&T[order[i]], "its scope is reported finished");
                }
                break;
            case S_DESTROY: {
                int i;
                void *res[NT];
                for (i = 0; i < nsp; i++) {
                    res[i] = T[order[i]].res;
                    if (T[order[i]].obj)
                        check_obj(&T[order[i]]);
                }
                thrd_destroy(pool);
                CHECK(!trk_is_live((void *)pool), "a destroyed spawn scope is still allocated");
                for (i = 0; i < nsp; i++) {
                    c = &T[order[i]];
                    CHECK(!trk_is_live(res[i]), "a result is still allocated after its spawn scope was destroyed");
                    CHECK(!c->obj || !trk_is_live(c->obj), "an object is still allocated after its spawn scope was destroyed");
                    CHECK(c->mode != A_EX || !c->args || !trk_is_live(c->args), "arguments are still allocated after their spawn scope was destroyed");
                    c->obj = NULL;
                }
                pools[s->pool] = NULL;
                for (i = 0; i < t->nblk; i++) {
                    CHECK(trk_is_live(t->blk[i]) && ((unsigned char *)t->blk[i])[t->blkn[i] - 1] == (unsigned char)(t->id + 1),
                        "memory of the thread is released by destroying a spawn scope");
                }
                CHECK(t->nmark == 0, "a deferred function of the thread runs when a spawn scope is destroyed");
                {
                    int o;
                    for (o = 0; o < NPOOL; o++)
                        for (i = 0; o != s->pool && pools[o] && i < nsps[o]; i++) {
                            CHECK(trk_is_live((void *)pools[o]), "destroying a spawn scope releases another");
                            CHECK(trk_is_live(T[orders[o][i]].res), "destroying a spawn scope releases a result of another");
                        }
                }
                break;
            }
            case S_CLEAN: {
                int i;
                raii_init();
                raii_deferred_clean();
                CHECK(t->nmark == t->ndef, "%d of %d deferred functions have run when the thread's scope is cleaned", t->nmark, t->ndef);
                for (i = 0; i < t->nblk; i++)
                    CHECK(!trk_is_live(t->blk[i]), "memory of the thread is still allocated when its scope is cleaned");
                t->nmark = t->ndef = t->nblk = 0;
                for (i = 0; i < k; i++)
                    if (t->st[i].kind == S_ASYNC) {
                        c = &T[t->st[i].child];
                        if (c->obj)
                            CHECK(!trk_is_live(c->obj), "the object of task %d is still allocated when its creator's scope is cleaned", c->id);
                        if (c->mode == A_SCOPED)
                            CHECK(!trk_is_live(c->args), "arguments are still allocated when the scope they are bound to is cleaned");
                        c->obj = NULL;
                    }
                break;
            }
            case S_NOSCOPE: {
                volatile int ok = 0;
                try {
                    if (s->a)
                        thrd_spawn_ex(entry_fn, "isd", t->id, "a text", (int64_t)7);
                    else
                        thrd_spawn(entry_fn, (void_t)&t->raw);
                } catch_any {
                    ok = !strcmp(err, "panic");
                } end_try;
                CHECK(ok, "spawning without a scope raises no panic");
                break;
            }
            default: break;
        }
        check_children(t);
    }
    return 0;
}

static void *entry_fn(args_t args) {
    /* who am I: by the arguments, or by the value */
    const raii_values_t *raw = (const raii_values_t *)args;
    task *t = NULL;
    int k, id;
    for (k = 1; k < nT; k++)
        if (raw == &T[k].raw)
            t = &T[k];
    if (t)
        id = get_arg((void_t)args).integer;
    else {
        id = args_in(args, 0).integer;
        CHECK(id > 0 && id < nT, "a thread reads task number %d from its arguments", id);
        t = &T[id];
        if (t->mode == A_EX)
            t->args = args;
        CHECK(args == t->args, "task %d is given other arguments", id);
        if (t->mode != A_FREE) {
            CHECK(get_args(args, 0).integer == id, "the first argument of task %d is wrong", id);
            CHECK(get_args(args, 2).long_long == (int64_t)id * 1000003, "the third argument of task %d is wrong", id);
            CHECK(!strcmp(get_args(args, 1).char_ptr, t->text), "the text argument of task %d is wrong", id);
        } else
            CHECK(!strcmp(args_in(args, 1).char_ptr, t->text), "the text argument of task %d is wrong", id);
    }
    CHECK(id == t->id, "task %d is given the number %d", t->id, id);
    CHECK(__sync_fetch_and_add(&t->started, 1) == 0, "task %d runs twice", id);
    delay(t->pre);
    body(t);
    delay(t->post);
    t->ended = 1;
    if (t->end == E_OBJ) {
        raii_values_t *r;
        unsigned char *p = try_malloc(t->size);
        size_t i;
        for (i = 0; i < t->size; i++)
            p[i] = pat(id, i);
        r = thrd_returning(args, p, t->size);
        if (t->mode == A_FREE)
            args_free(args);
        return r;
    }
    if (t->mode == A_FREE)
        args_free(args);
    switch (t->end) {
        case E_VALUE: return thrd_value(t->value);
        case E_THROW: throw_name(t->name);
        case E_PANIC: raii_panic(msgs[t->name % 3]);
        case E_DEEP:
            guard {
                _defer(on_gmark, (void *)(intptr_t)1);
                _malloc(100);
                throw_name(t->name);
            } guarded
            break;
        case E_PROP: {
            task *c = &T[t->st[t->nst].child];
            const values_type v = thrd_get(c->f);
            check_value(c, v, "thrd_get");
            break;
        }
        default: break;
    }
    return NULL;
}

/* --- generation --------------------------------------------------------------------------- */
static int which;                     /* 20 or 21 */

static step *add(task *t, int kind, int child) {
    step *s = &t->st[t->nst++];
    CHECK(t->nst < NSTEPS, "harness: too many steps");
    s->kind = kind;
    s->child = child;
    return s;
}

static int pick(const int *list, int n) { return list[d_u(n - 1)]; }
static void out_of(task *t, const int *run, int nrun);

static int g_delay(void) {
    switch (d_w("5321")) {
        case 0: return 0;
        case 1: return d_in(1, 19);
        case 2: return d_in(20, 59);
        default: return d_in(60, 400);
    }
}

static task *gen(int depth, int spawned, int gift);

/* one of the futures of a task, for another to get; -1 none */
static int give(int *run, int *nrun) {
    int i, id;
    if (!*nrun || !d_p(1, 5))
        return -1;
    i = (int)d_u(*nrun - 1);
    id = run[i];
    run[i] = run[--*nrun];
    T[id].given = 1;
    return id;
}

static void add_take(task *t, int most) {
    step *s = add(t, S_TAKE, -1);
    s->a = (int)d_u(240);
    s->b = 1 + d_len(most);
    s->wait = g_delay();
}

static void gen_steps(task *t, int depth, int gift) {
    int run[NT], nrun = 0, sps[NPOOL][NT], nsps[NPOOL] = { 0 }, open[NPOOL] = { 0 }, nunsyncs[NPOOL] = { 0 }, k, n, synceds[NPOOL] = { 0 }, j,
        nopen = 0, cur = -1;
    int k2;
    if (gift >= 0)
        run[nrun++] = gift;
    n = storm && t->id ? 0 : d_in(0, t->id ? (depth > 0 ? 6 : 3) : NST);
    if (!t->id && crowd) {
        int m = crowd, at = which == 20 ? 0 : 1;
        step *s;
        if (at) {
            add(t, S_OPEN, -1)->pool = 0;
            open[0] = nopen = 1;
            cur = 0;
        }
        while (m-- > 0) {
            task *c = gen(0, at, give(run, &nrun));
            s = add(t, at ? S_SPAWN : S_ASYNC, c->id);
            if (at) {
                sps[0][nsps[0]++] = c->id;
                nunsyncs[0]++;
            } else
                run[nrun++] = c->id;
            if (storm && d_p(1, 3))
                add_take(t, 12);
        }
        if (storm)
            add_take(t, 400);
        n = d_in(0, 3);
    }
    for (k = 0; k < n; k++) {
        int kind = d_w(which == 20 ? "2212390381" : "2212320290");
        step *s;
        switch (kind) {
            case 0: add(t, S_DEFER, -1); break;
            case 1: add(t, S_ALLOC, -1)->a = (int)d_u(999); break;
            case 2: s = add(t, S_GUARD, -1); s->a = (int)d_u(99); s->b = (int)d_u(7); break;
            case 3: add(t, S_TRY, -1)->a = (int)d_u(3); break;
            case 4: add(t, S_DELAY, -1)->a = g_delay(); break;
            case 5:
                if (nT < most && depth > 0) {
                    task *c = gen(depth - 1, 0, give(run, &nrun));
                    s = add(t, S_ASYNC, c->id);
                    s->b = d_p(1, 12);
                    run[nrun++] = c->id;
                }
                break;
            case 7:
                if (nrun) {
                    int i = (int)d_u(nrun - 1);
                    s = add(t, d_w("223") == 0 ? S_WAIT : d_p(1, 2) ? S_POLL : S_GET, run[i]);
                    s->a = (int)d_u(1);
                    if (s->kind == S_GET)
                        run[i] = run[--nrun];
                } else if (!nunsyncs[0] && !nunsyncs[1] && !nunsyncs[2] && d_p(1, 2) && t->mode != A_GET)     /* bound to the scope, in use to the end */
                    add(t, S_CLEAN, -1);
                break;
            case 8:
                if (nopen < NPOOL && (!nopen || d_p(1, 8))) {
                    if (!nopen && d_p(1, 5))
                        add(t, S_NOSCOPE, -1)->a = (int)d_u(1);
                    if (depth > 0) {
                        for (j = 0; open[j]; j++);
                        add(t, S_OPEN, -1)->pool = j;
                        open[j] = 1;
                        nsps[j] = nunsyncs[j] = synceds[j] = 0;
                        nopen++;
                        cur = j;
                    }
                    break;
                }
                j = (int)d_u(nopen - 1);
                for (k2 = 0; !open[k2] || j-- > 0; k2++);
                j = k2;
                switch (d_w("9321112")) {
                    case 0: {
                        int m = which == 21 ? d_in(1, 5) : 1;
                        while (cur >= 0 && m-- > 0 && nT < most) {
                            task *c = gen(depth - 1, 1, give(run, &nrun));
                            s = add(t, S_SPAWN, c->id);
                            s->b = d_p(1, 12);
                            s->pool = cur;
                            sps[cur][nsps[cur]++] = c->id;
                            nunsyncs[cur]++;
                        }
                        break;
                    }
                    case 1: add(t, S_SYNC, -1)->pool = j; nunsyncs[j] = 0; synceds[j] = nsps[j]; break;
                    case 2: if (synceds[j]) add(t, S_RESULT, sps[j][d_u(synceds[j] - 1)])->pool = j; break;
                    case 3: add(t, S_THEN, -1)->pool = j; break;
                    case 4: add(t, S_ISFIN, -1)->pool = j; break;
                    case 5: if (nunsyncs[j]) add(t, S_NOTSYNC, sps[j][nsps[j] - 1])->pool = j; break;
                    default:
                        if (nunsyncs[j])
                            add(t, S_SYNC, -1)->pool = j;
                        for (; nsps[j] > 0 && d_p(2, 3); )
                            add(t, S_RESULT, sps[j][--nsps[j]])->pool = j;
                        add(t, S_DESTROY, -1)->pool = j;
                        open[j] = nunsyncs[j] = 0;
                        nopen--;
                        if (cur == j)
                            cur = -1;
                        break;
                }
                break;
            case 9:
                add_take(t, d_p(1, 10) ? 400 : 40);
                break;
            default: break;
        }
    }
    for (j = 0; j < NPOOL; j++) {
        if (!open[j])
            continue;
        if (nunsyncs[j])
            add(t, S_SYNC, -1)->pool = j;
        if (d_p(1, 2))
            add(t, S_THEN, -1)->pool = j;
        for (k = 0; k < nsps[j]; k++)
            add(t, S_RESULT, sps[j][k])->pool = j;
        add(t, S_DESTROY, -1)->pool = j;
    }
    while (nrun) {
        k = (int)d_u(nrun - 1);
        if (nrun == 1 && t->end == E_PROP) {
            t->st[t->nst].kind = S_KINDS;
            t->st[t->nst].child = run[0];
            break;
        }
        add(t, S_GET, run[k]);
        run[k] = run[--nrun];
    }
    out_of(t, run, nrun);
}

static void out_of(task *t, const int *run, int nrun) {
    if (t->end == E_PROP && !nrun)
        t->end = E_NONE;
    t->otask = t;
    t->osize = t->size;
    switch (t->end) {
        case E_NONE: t->out = X_NOTHING; break;
        case E_VALUE: t->out = t->value ? X_VALUE : X_NOTHING; t->ovalue = t->value; break;
        case E_OBJ: t->out = X_OBJ; break;
        case E_PANIC: t->out = X_EXC; t->oname = 4; t->omsg = t->name % 3; break;
        case E_PROP: {
            task *c = &T[run[0]];
            t->out = c->out == X_EXC ? X_EXC : X_NOTHING;
            t->oname = c->oname;
            t->omsg = c->omsg;
            break;
        }
        default: t->out = X_EXC; t->oname = t->name; break;
    }
}

static task *gen(int depth, int spawned, int gift) {
    task *t = &T[nT];
    t->id = nT++;
    t->end = d_w(depth > 0 || gift >= 0 ? "2332112" : "2332110");
    t->mode = d_w(spawned ? "22114" : "32210");
    if (t->end == E_OBJ && t->mode == A_RAW)
        t->end = E_VALUE;
    t->value = (long)d_u64();
    t->size = 1 + d_len(large);
    t->name = (int)d_u(3);
    t->pre = g_delay();
    t->post = g_delay();
    if (storm && t->id) {
        t->end = E_OBJ;
        t->mode = A_GET;
        t->size = 1 + t->size % 40;
        t->pre = d_p(1, 2) ? 0 : d_in(0, 19);
        t->post = 0;
    }
    if (slow && d_p(1, 3)) {
        *(d_p(1, 2) ? &t->pre : &t->post) = slow;
        slow = 0;
    }
    gen_steps(t, depth, gift);
    return t;
}

static const char *const sname[] = { "defer", "allocate", "guard", "try", "delay", "thrd_async", "thrd_wait", "thrd_is_done", "thrd_get",
    "thrd_scope", "thrd_spawn", "thrd_sync", "thrd_result", "thrd_then", "thrd_is_finish", "thrd_destroy", "clean the default scope",
    "spawn without scope", "thrd_result too early", "defer and take back", "" };
static const char *const ename[] = { "nothing", "a value", "an object", "throw", "panic", "throw in a guard", "a child's exception" };
static const char *const mname[] = { "args_for", "args_for, freed by itself", "a value", "args of its creator's scope", "thrd_spawn_ex" };

static void print(void) {
    int i, k;
    for (i = 0; i < nT; i++) {
        if (i)
            NOTE("task %d (%s) ends with %s %ld; size %zu, delays %d %d\n", i, mname[T[i].mode], ename[T[i].end],
                T[i].end == E_VALUE ? T[i].value : (long)T[i].name, T[i].size, T[i].pre, T[i].post);
        else
            NOTE("main\n");
        for (k = 0; k < T[i].nst; k++) {
            const step *s = &T[i].st[k];
            if (s->child >= 0)
                NOTE("    %s task %d%s%s\n", sname[s->kind], s->child, s->pool == 1 ? " (scope 1)" : s->pool ? " (scope 2)" : "", s->b && (s->kind == S_ASYNC || s->kind == S_SPAWN) ? ", no thread at first" : "");
            else
                NOTE("    %s %d\n", sname[s->kind], s->kind >= S_OPEN && s->kind <= S_DESTROY ? s->pool : s->a);
        }
    }
}

static void run(int w) {
    task *m;
    int k, inguard, exc = 0, obj = 0, sp = 0, as = 0, given = 0;
    which = w;
    nT = 0;
    most = FEW;
    large = d_p(1, 40) ? 100000 : 600;
    if (d_p(1, 3)) {
        /* on fewer processors */
        cpu_set_t all, some;
        int want = d_in(1, 4), i;
        sched_getaffinity(0, sizeof all, &all);
        CPU_ZERO(&some);
        for (i = 0; i < CPU_SETSIZE && want > 0; i++)
            if (CPU_ISSET(i, &all)) {
                CPU_SET(i, &some);
                want--;
            }
        sched_setaffinity(0, sizeof some, &some);
        NOTE("on %d processors\n", CPU_COUNT(&some));
    }
    if (d_p(1, 300)) {
        crowd = d_in(8, d_p(1, 6) ? 250 : 70);
        most = NT;
    }
    if (w == 20 && d_p(1, 30)) {
        storm = 1;
        crowd = d_in(3, 16);
    }
    if (!storm && d_p(1, 400))
        slow = d_p(1, 12) ? d_in(500000, 1500000) : d_in(20000, 400000);
    for (k = 0; k < 32; k++)
        predelay[k] = d_p(1, 3) ? g_delay() : 0;
    if (slow && d_p(1, 4)) {
        predelay[d_u(3)] = slow;
        slow = 0;
    }
    inguard = d_w("211");
    m = &T[nT];
    m->id = nT++;
    m->end = E_NONE;
    gen_steps(m, 2, -1);
    print();
    for (k = 1; k < nT; k++) {
        exc += T[k].out == X_EXC;
        obj += T[k].out == X_OBJ;
        given += T[k].given;
    }
    for (k = 0; k < m->nst; k++) {
        sp += m->st[k].kind == S_SPAWN;
        as += m->st[k].kind == S_ASYNC;
    }
    if (w == 20 ? as >= 2 : sp >= 2)
        eng_nontrivial();
    if (exc) eng_label("tasks that end by an exception");
    if (obj) eng_label("tasks that return an object");
    if (given) eng_label("futures gotten by another thread");
    if (storm) eng_label("objects returned to a scope at work");
    if (crowd && !storm) eng_label("many tasks at once");
    if (nT > 6) eng_label("more than 5 threads");
    if (nT > 1 + as + sp) eng_label("threads that create threads");
    m->started = 1;
    raii_init();
    if (inguard == 0)
        body(m);
    else if (inguard == 1) {
        guard {
            body(m);
        } guarded
    } else {
        try {
            body(m);
        } catch_any {
            CHECK(0, "the main thread gets an exception nobody raised in it: %s", err);
        } end_try;
    }
    m->ended = 1;
    raii_deferred_clean();
    CHECK(m->nmark == m->ndef, "%d of %d functions deferred in the main thread have run when its scope is cleaned", m->nmark, m->ndef);
    for (k = 1; k < nT; k++)
        check_done(&T[k], "the program ends");
    trk_check();
    if (trk_live()) {
        char b[300];
        trk_describe_live(b, sizeof b);
        eng_fail("%zu blocks are still allocated when everything was unwound: %s", trk_live(), b);
    }
    exit(0);
}

static void c20(void) { run(20); }
static void c21(void) { run(21); }

static const eng_prop props[] = {
    { "C20", ENG_ISO, 1, c20, NULL, "generated trees of up to 27 tasks (now and then hundreds, objects of up to 100000 bytes, tasks that take up to 1.5 s, one to four processors only) run as futures (arguments passed in each way, generated delays before, within and after, threads that can not be started at first), which defer, allocate, use guards and exceptions, start futures themselves, and end with nothing, a value, an object, a throw, a panic or a child's exception; gotten, waited for and polled in any order; each outcome, everything deferred and all memory is checked; non-trivial: at least two futures at the top" },
    { "C21", ENG_ISO, 1, c21, NULL, "as C20 with spawn scopes: tasks spawned in each way, synchronised once or several times, results read before and after, callbacks, destroyed, nested in tasks; non-trivial: at least two tasks spawned at the top" },
};

int main(int argc, char **argv) { return eng_main(argc, argv, props, 2); }
