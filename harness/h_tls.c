/* C24: sequences of operations on thread-local variables, made by several threads in a generated
 * order (or at once), each against its own model. */
#include "eng.h"
#include "raii.h"
#include "tls_vars.h"
#include <string.h>
#include <stdio.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <unistd.h>

/* --- the variables ------------------------------------------------------------- */
static int sentinel;
thrd_static(int, v_int, 0)
thrd_static(tls_rec, v_rec, NULL)
thrd_static(long, v_sent, (long *)&sentinel)
thrd_static_plain(int, v_pi, 0)
thrd_static_plain(unsigned, v_pu, 25)
thrd_static_plain(void *, v_pp, NULL)
thrd_static_plain(int64_t, v_p5, -5)
thrd_static(short, v_tied, NULL)

enum { P_VINT, P_VREC, P_VSENT, P_WINT, P_WREC, P_TIED, NPTR };
enum { Q_PI, Q_PU, Q_PP, Q_P5, Q_LONG, Q_BYTE, NPLAIN };
#define NVAR (NPTR + NPLAIN)
static const size_t psize[NPTR] = { sizeof(int), sizeof(tls_rec), sizeof(long), sizeof(int), sizeof(tls_rec), sizeof(short) };
static const char *const vname[NVAR] = { "static int, from 0", "static record", "static long, from an address", "global int", "global record", "static short",
    "plain static int", "plain static unsigned, from 25", "plain static pointer", "plain static int64_t, from -5", "plain global long, from 7", "plain global unsigned char" };

static void *pget(int v) {
    switch (v) {
        case P_VINT: return v_int();
        case P_VREC: return v_rec();
        case P_VSENT: return v_sent();
        case P_WINT: return w_int();
        case P_WREC: return w_rec();
        default: return v_tied();
    }
}
static void pset(int v, void *p) {
    switch (v) {
        case P_VINT: v_int_update(p); break;
        case P_VREC: v_rec_update(p); break;
        case P_VSENT: v_sent_update(p); break;
        case P_WINT: w_int_update(p); break;
        case P_WREC: w_rec_update(p); break;
        default: v_tied_update(p); break;
    }
}
static void *pinit(int v) { return v == P_VSENT ? (void *)&sentinel : NULL; }
/* plain values travel as 64 bits */
static uint64_t qget(int v) {
    switch (v) {
        case Q_PI: return (uint64_t)(int64_t)v_pi();
        case Q_PU: return v_pu();
        case Q_PP: return (uint64_t)(uintptr_t)v_pp();
        case Q_P5: return (uint64_t)v_p5();
        case Q_LONG: return (uint64_t)w_long();
        default: return w_byte();
    }
}
static void qset(int v, uint64_t x) {
    switch (v) {
        case Q_PI: v_pi_update((int)x); break;
        case Q_PU: v_pu_update((unsigned)x); break;
        case Q_PP: v_pp_update((void *)(uintptr_t)x); break;
        case Q_P5: v_p5_update((int64_t)x); break;
        case Q_LONG: w_long_update((long)x); break;
        default: w_byte_update((unsigned char)x); break;
    }
}
static uint64_t qinit(int v) { return v == Q_PU ? 25 : v == Q_P5 ? (uint64_t)-5 : v == Q_LONG ? 7 : 0; }
static uint64_t qfit(int v, uint64_t x) {
    switch (v) {
        case Q_PI: return (uint64_t)(int64_t)(int)x;
        case Q_PU: return (unsigned)x;
        case Q_BYTE: return (unsigned char)x;
        default: return x;
    }
}
static int vempty(int v) {
    switch (v) {
        case P_VINT: return is_v_int_empty();
        case P_VREC: return is_v_rec_empty();
        case P_VSENT: return is_v_sent_empty();
        case P_WINT: return is_w_int_empty();
        case P_WREC: return is_w_rec_empty();
        case P_TIED: return is_v_tied_empty();
        case NPTR + Q_PI: return is_v_pi_empty();
        case NPTR + Q_PU: return is_v_pu_empty();
        case NPTR + Q_PP: return is_v_pp_empty();
        case NPTR + Q_P5: return is_v_p5_empty();
        case NPTR + Q_LONG: return is_w_long_empty();
        default: return is_w_byte_empty();
    }
}
static void vdel(int v) {
    switch (v) {
        case P_VINT: v_int_del(); break;
        case P_VREC: v_rec_del(); break;
        case P_VSENT: v_sent_del(); break;
        case P_WINT: w_int_del(); break;
        case P_WREC: w_rec_del(); break;
        case P_TIED: v_tied_del(); break;
        case NPTR + Q_PI: v_pi_del(); break;
        case NPTR + Q_PU: v_pu_del(); break;
        case NPTR + Q_PP: v_pp_del(); break;
        case NPTR + Q_P5: v_p5_del(); break;
        case NPTR + Q_LONG: w_long_del(); break;
        default: w_byte_del(); break;
    }
}

/* --- a thread ------------------------------------------------------------------- */
#define NT 8
#define NGEN 40                       /* threads in all */
#define NOP 160
enum { O_EMPTY, O_GET, O_WRITE, O_UPDATE, O_INITIAL, O_DEL, O_RAII, O_LEAVE, O_YIELD };
typedef struct { int slot, op, var; uint64_t val; } op;
static op ops[NOP];
static int nops, nslot;

typedef struct {
    void *ptr;                        /* what it points to: NULL when in its initial state */
    void *own;                        /* its own storage, once seen */
    unsigned char data[sizeof(tls_rec)];
    int known;                        /* data is what is there */
    uint64_t val;
} var;

typedef struct thr {
    int id, slot, generation;
    pthread_t th;
    int live;
    var v[NVAR];
    unsigned char other[NPTR][2][sizeof(tls_rec)];   /* storage it may point its variables to */
    unsigned char odata[NPTR][2][sizeof(tls_rec)];
    memory_t *scope;
    int ended;
    long done;
} thr;
static thr *ths[NGEN];
static int nths;

/* as the other threads see it: whose storage is where */
static pthread_mutex_t reg = PTHREAD_MUTEX_INITIALIZER;
static struct { char *p; size_t n; int id, var; } area[NGEN * NPTR];
static int narea;

static void area_add(thr *T, int v, char *p) {
    int i;
    pthread_mutex_lock(&reg);
    for (i = 0; i < narea; i++)
        if (p < area[i].p + area[i].n && area[i].p < p + psize[v])
            eng_fail("thread %d's storage for \"%s\" is shared with %s's for \"%s\"", T->id, vname[v], area[i].id == T->id ? "its own" : "another thread", vname[area[i].var]);
    area[narea].p = p; area[narea].n = psize[v]; area[narea].id = T->id; area[narea].var = v;
    narea++;
    pthread_mutex_unlock(&reg);
}
static void area_drop(thr *T) {
    int i;
    pthread_mutex_lock(&reg);
    for (i = 0; i < narea; )
        if (area[i].id == T->id) area[i] = area[--narea]; else i++;
    pthread_mutex_unlock(&reg);
}

static void start_state(thr *T) {
    int v;
    for (v = 0; v < NVAR; v++) {
        T->v[v].ptr = T->v[v].own = NULL;
        T->v[v].known = 1;
        memset(T->v[v].data, 0, sizeof T->v[v].data);
        T->v[v].val = v < NPTR ? 0 : qinit(v - NPTR);
    }
}

#define WHO "thread %d (after %ld of its operations), \"%s\": "
#define WHOA T->id, T->done, vname[v]

/* where the data its variable points to should be */
static unsigned char *expected(thr *T, int v, int *known) {
    int i;
    for (i = 0; i < 2; i++)
        if (T->v[v].ptr == T->other[v][i]) {
            *known = 1;
            return T->odata[v][i];
        }
    *known = T->v[v].known;
    return T->v[v].data;
}

static unsigned char *access_(thr *T, int v) {
    unsigned char *p = pget(v), *e;
    var *x = &T->v[v];
    int known;
    CHECK(p, WHO "gives NULL", WHOA);
    if (!x->ptr) {
        /* the first access, and each after it was set back, gives its own storage */
        if (!x->own) {
            area_add(T, v, (char *)p);
            x->own = p;
        }
        CHECK(p == x->own, WHO "its storage moved", WHOA);
        x->ptr = p;
    }
    CHECK(p == x->ptr, WHO "gives %p, and it was last set to %p", WHOA, p, x->ptr);
    e = expected(T, v, &known);
    if (known)
        CHECK(!memcmp(p, e, psize[v]), WHO "does not hold what the thread stored", WHOA);
    return p;
}

static void step(thr *T, const op *o) {
    int v = o->var;
    var *x = &T->v[v];
    uint64_t y;
    switch (o->op) {
        case O_EMPTY:
            if (v < NPTR)
                CHECK(!!vempty(v) == !x->ptr, WHO "%s", WHOA, x->ptr ? "is said to be in its initial state, and is not" : "is said not to be in its initial state, and is");
            else
                CHECK(!!vempty(v) == (x->val == qinit(v - NPTR)), WHO "its state is misjudged", WHOA);
            break;
        case O_GET:
            if (v < NPTR)
                access_(T, v);
            else {
                y = qget(v - NPTR);
                CHECK(y == x->val, WHO "holds %llx, and the thread stored %llx", WHOA, (unsigned long long)y, (unsigned long long)x->val);
            }
            break;
        case O_WRITE:
            if (v < NPTR) {
                unsigned char *p = access_(T, v), *e;
                int known;
                size_t i;
                e = expected(T, v, &known);
                for (i = 0; i < psize[v]; i++)
                    p[i] = e[i] = (unsigned char)(o->val >> (i & 7) * 8) + (unsigned char)(i * 7 + T->id);
                if (e == x->data)
                    x->known = 1;
                break;
            }
            /* fall through */
        case O_UPDATE:
            if (v < NPTR) {
                x->ptr = o->val % 3 == 2 && x->own ? x->own : (void *)T->other[v][o->val & 1];
                pset(v, x->ptr);
            } else {
                x->val = qfit(v - NPTR, o->val + (uint64_t)T->id);
                qset(v - NPTR, x->val);
            }
            break;
        case O_INITIAL:
            if (v < NPTR) {
                pset(v, pinit(v));
                x->ptr = NULL;
            } else
                qset(v - NPTR, x->val = qinit(v - NPTR));
            break;
        case O_DEL:
            vdel(v);
            x->ptr = NULL;
            x->known = 0;
            x->val = v < NPTR ? 0 : qinit(v - NPTR);
            break;
        case O_RAII: {
            memory_t *s = raii_init();
            int i;
            CHECK(s && s == raii_local(), "thread %d: its scope is not its own", T->id);
            CHECK(!T->scope || T->scope == s, "thread %d: its scope changed", T->id);
            pthread_mutex_lock(&reg);
            for (i = 0; i < nths; i++)
                CHECK(ths[i] == T || ths[i]->ended || ths[i]->scope != s, "threads %d and %d have the same scope", T->id, i);
            T->scope = s;
            pthread_mutex_unlock(&reg);
            break;
        }
        case O_YIELD: sched_yield(); break;
        default: break;
    }
    T->done++;
}

/* a last look at everything */
static void look(thr *T) {
    int v;
    op o = { 0 };
    for (v = 0; v < NVAR; v++) {
        o.var = v;
        o.op = O_EMPTY;
        step(T, &o);
        o.op = O_GET;
        step(T, &o);
    }
}

/* --- in the generated order -------------------------------------------------------- */
static sem_t go[NGEN], back;
static const op *cur[NGEN];
static int started_in_order, tsd_look;
static pthread_key_t key;
static thr *mainT;

static void tsd_end(void *p) { look((thr *)p); }

static int body(void *p) {
    thr *T = p;
    int i;
    if (tsd_look)
        pthread_setspecific(key, T);
    if (started_in_order) {
        for (;;) {
            sem_wait(&go[T->id]);
            if (!cur[T->id] || cur[T->id]->op == O_LEAVE)
                break;
            step(T, cur[T->id]);
            sem_post(&back);
        }
    } else
        for (i = 0; i < nops; i++)
            if (ops[i].slot == T->slot) {
                if (ops[i].op == O_LEAVE)
                    break;
                step(T, &ops[i]);
            }
    if (!tsd_look)
        look(T);
    pthread_mutex_lock(&reg);
    T->ended = 1;
    pthread_mutex_unlock(&reg);
    return 0;
}
static void *body_p(void *p) { body(p); return NULL; }

static thr *new_thr(int slot) {
    thr *T = calloc(1, sizeof *T);
    pthread_mutex_lock(&reg);
    T->id = nths;
    T->slot = slot;
    ths[nths++] = T;
    pthread_mutex_unlock(&reg);
    start_state(T);
    return T;
}
static thr *launch(int slot) {
    thr *T = new_thr(slot);
    int k;
    sem_init(&go[T->id], 0, 0);
    for (k = 0; k < NPTR; k++) {
        memset(T->other[k], T->id * 3 + k, sizeof T->other[k]);
        memset(T->odata[k], T->id * 3 + k, sizeof T->odata[k]);
    }
    if (pthread_create(&T->th, NULL, body_p, T))
        eng_fail("no thread");
    T->live = 1;
    return T;
}
static void finish(thr *T) {
    if (started_in_order) {
        cur[T->id] = NULL;
        sem_post(&go[T->id]);
    }
    pthread_join(T->th, NULL);
    area_drop(T);
    T->live = 0;
}

static void c24(void) {
    thr *slot[NT] = { 0 };
    int i, s, switches = 0, last = -1, vars = 0, changed = 0;
    started_in_order = !d_p(1, 5);
    tsd_look = d_p(1, 4);
    nslot = 1 + d_in(1, NT - 1);
    nops = 2 + (int)d_u(d_p(1, 3) ? NOP - 3 : 30);
    for (i = 0; i < nops; i++) {
        op *o = &ops[i];
        o->slot = (int)d_u((uint32_t)nslot - 1);
        o->op = d_w("388822111");
        o->var = (int)d_u(NVAR - 1);
        o->val = o->op == O_WRITE || o->op == O_UPDATE ? d_u64() : 0;
        if (o->slot != last)
            switches++;
        last = o->slot;
        if (o->op == O_WRITE || o->op == O_UPDATE || o->op == O_DEL) {
            changed |= 1 << o->slot;
            vars |= 1 << o->var;
        }
        NOTE("%d. slot %d: %s %s %llx", i, o->slot, (const char *[]){ "empty?", "get", "write", "update", "set back", "delete", "scope", "end thread", "yield" }[o->op],
            o->op < O_RAII ? vname[o->var] : "", (unsigned long long)o->val);
    }
    if (switches > 2 && (changed & (changed - 1)))
        eng_nontrivial();
    eng_label(started_in_order ? "generated order" : "at once");
    nths = narea = 0;
    sem_init(&back, 0, 0);
    if (!key)
        pthread_key_create(&key, tsd_end);
    if (started_in_order) {
        /* slot 0 is the main thread: it goes on from case to case */
        if (!mainT)
            mainT = calloc(1, sizeof *mainT), start_state(mainT);
        mainT->id = nths;
        ths[nths++] = mainT;
        for (i = 0; i < NVAR; i++) {
            op o = { 0, O_INITIAL, i, 0 };
            step(mainT, &o);
            if (i < NPTR && mainT->v[i].own)
                area_add(mainT, i, mainT->v[i].own);
        }
        for (i = 0; i < nops; i++) {
            op *o = &ops[i];
            if (!o->slot) {
                step(mainT, o);
                continue;
            }
            if (!slot[o->slot]) {
                if (nths >= NGEN)
                    continue;
                slot[o->slot] = launch(o->slot);
            }
            if (o->op == O_LEAVE) {
                finish(slot[o->slot]);
                slot[o->slot] = NULL;
                continue;
            }
            cur[slot[o->slot]->id] = o;
            sem_post(&go[slot[o->slot]->id]);
            sem_wait(&back);
        }
        look(mainT);
    } else
        for (s = 1; s < nslot; s++)
            slot[s] = launch(s);
    for (s = 1; s < nslot; s++)
        if (slot[s])
            finish(slot[s]);
    for (i = 0; i < nths; i++)
        if (ths[i] != mainT)
            free(ths[i]);
}

static const eng_prop props[] = {
    { "C24", ENG_BATCH, 1, c24, NULL, "up to 160 operations (state query, access, write, update, setting back, deletion, own scope) by up to 8 threads at a time and 40 in all on 12 thread-local variables (static, global, plain, from NULL, an address or a value), in a generated order or at once, with a look at every variable at the end of a thread or from its destructors, against a model per thread; storage of threads alive together is disjoint; non-trivial: the operations alternate between threads of which two change variables" },
};

int main(int argc, char **argv) { return eng_main(argc, argv, props, 1); }
