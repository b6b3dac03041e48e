/* C19: generated formats and values, packed through every entry point, read back by position, and
 * released explicitly or with the scope they are bound to. */
#include "eng.h"
#include "raii.h"
#include <string.h>
#include <stdio.h>
#include <stdarg.h>

#define NSET 10
#define MAXA 400
#define NSC 3              /* scope 0 is the thread's default one */

typedef union { long l; size_t z; uint32_t u; int32_t i; int64_t d; int c; char *s; void *p; double f; uint64_t raw; raii_func_t x; } val;

typedef struct {
    args_t a;              /* NULL: none */
    char desc[MAXA + 8];   /* padded: read by words */
    int n, made;           /* its scope as made, or -1 */
    int bound;             /* scope it is released with, or -1 */
    val v[MAXA];
    int pos;               /* place in that scope's order */
} set;

static set S[NSET];
static memory_t *scope[NSC];
static int nbound, nreads, nfreed, nlong, nmixed;
static char *strs[8];
static size_t lens[8];
static unsigned char target[64];

static void *fn1(void *x, ...) { return x; }
static void *fn2(void *x, ...) { return (char *)x + 1; }

/* what va_arg() reads, all of it in memory (x86-64) */
static args_t by_list(memory_t *sc, const char *desc, const val *v) {
    va_list ap;
    struct { unsigned gp, fp; void *over, *save; } l = { 48, 176, (void *)v, NULL };
    memcpy(ap, &l, sizeof l);
    return raii_args_ex(sc, desc, ap);
}

static void draw_values(set *s) {
    int k, f = 0;
    memset(s->desc, 0, sizeof s->desc);
    for (k = 0; k < s->n; k++) {
        val *v = &s->v[k];
        char t = "lziducsaxfp"[d_u(10)];
        s->desc[k] = t;
        v->raw = 0;
        switch (t) {
            case 'l': v->l = (long)d_u64(); break;
            case 'z': v->z = (size_t)d_u64(); break;
            case 'i': v->i = (int32_t)d_u64(); break;
            case 'd': v->d = (int64_t)d_u64(); break;
            case 'u': v->u = (uint32_t)d_u64(); break;
            case 'c': v->c = (int)(signed char)d_u(255); break;
            case 's': v->s = strs[d_u(7)]; if (strlen(v->s) > 256) nlong++; break;
            case 'a': v->p = &target[d_u(7) * 8]; break;
            case 'x': v->x = d_p(1, 2) ? (raii_func_t)fn1 : (raii_func_t)fn2; break;
            case 'f': v->f = d_p(1, 2) ? (double)(int64_t)d_u64() / 1024.0 : -0.0 + (double)(int)d_u(9); f++; break;
            default: v->p = d_p(1, 5) ? NULL : &target[d_u(63)]; break;
        }
    }
    if (f && f < s->n)
        nmixed++;
}

/* the types are those documented for each letter */
static void check_value(const set *s, int k, values_type got, const char *how) {
    const val *v = &s->v[k];
    int ok;
    switch (s->desc[k]) {
        case 'l': ok = got.s_long == v->l; break;
        case 'z': ok = got.max_size == v->z; break;
        case 'i': ok = got.integer == v->i; break;
        case 'd': ok = got.long_long == v->d; break;
        case 'u': ok = got.u_int == v->u; break;
        case 'c': ok = got.schar == (char)v->c; break;
        case 's': ok = got.char_ptr && !strcmp(got.char_ptr, v->s); break;
        case 'a': ok = (void *)got.array == v->p; break;
        case 'x': ok = got.func == v->x; break;
        case 'f': ok = !memcmp(&got.precision, &v->f, sizeof(double)); break;
        default: ok = got.object == v->p; break;
    }
    CHECK(ok, "argument %d ('%c') of \"%s\" read with %s is not the one packed (%llx)", k, s->desc[k], s->desc, how, (unsigned long long)v->raw);
    nreads++;
}

static void check_targets(void) {
    int k;
    size_t i;
    for (k = 0; k < 64; k++)
        CHECK(target[k] == (unsigned char)(k * 3 + 1), "the object behind a pointer argument changed");
    for (k = 0; k < 8; k++)
        for (i = 0; i < lens[k]; i++)
            CHECK(strs[k][i] == (char)('a' + (i + k) % 26), "the text of a string argument changed");
}

static void check_set(int i, int all) {
    set *s = &S[i];
    int k;
    CHECK(trk_is_live(s->a), "a set of arguments is freed though it was not released");
    CHECK(trk_is_live(s->a->args), "the values of a set of arguments are freed though it was not released");
    for (k = 0; all && k < s->n; k++)
        check_value(s, k, args_in(s->a, k), "args_in");
}

static const char *const formname[] = { "args_for", "raii_args_for(NULL)", "raii_args_for(scope)", "raii_args_ex(list)" };

static void make(int i) {
    set *s = &S[i];
    int form = d_w("4243"), sc, k, ints = 0, dbl = 0;
    size_t live = trk_live(), failed = trk_failed();
    long nth = d_p(1, 12) ? d_in(1, 2) : 0;
    volatile int raised = 0;
    args_t volatile a = NULL;
    memory_t *ms;
    s->n = (int)(form == 3 ? d_p(1, 60) ? (uint32_t)d_in(41, MAXA) : d_len(40) : d_u(9));
    draw_values(s);
    sc = (int)d_u(NSC - 1);
    ms = sc ? scope[sc] : d_p(1, 2) ? raii_init() : NULL;
    if (form < 2 || !ms)
        ms = NULL;
    s->made = form < 2 ? -1 : ms ? sc : -1;
    for (k = 0; k < s->n; k++)
        if (s->desc[k] == 'f') dbl++; else ints++;
    /* in registers, or, if all are of one kind, on the stack as well */
    if (form < 3 && (dbl > 8 || ints > (form ? 4 : 5)) && dbl) {
        form = 3;
        if (s->made < 0)
            ms = NULL;
    }
    NOTE("set %d: %s \"%s\"%s scope %d\n", i, formname[form], s->desc, nth ? " without memory," : "", s->made);
    if (nth)
        trk_fail(nth, 0, 0);
    {
        long g[16];
        double d[8];
        int gi = 0, di = 0;
        memset(g, 0, sizeof g);
        memset(d, 0, sizeof d);
        for (k = 0; k < s->n && form < 3; k++)
            if (s->desc[k] == 'f') d[di++] = s->v[k].f; else g[gi++] = (long)s->v[k].raw;
        try {
            if (form == 3)
                a = by_list(ms, s->desc, s->v);
            else if (form == 0 && !di)
                a = args_for(s->desc, g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7], g[8], g[9], g[10]);
            else if (form == 0)
                a = args_for(s->desc, g[0], g[1], g[2], g[3], g[4], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]);
            else if (!di)
                a = raii_args_for(ms, s->desc, g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7], g[8], g[9], g[10]);
            else
                a = raii_args_for(ms, s->desc, g[0], g[1], g[2], g[3], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]);
        } catch_any {
            raised = 1;
        } end_try;
    }
    if (nth) {
        trk_fail(0, 0, 0);
        CHECK(raised == (trk_failed() > failed), "packing without memory %s", raised ? "raises though nothing failed" : "raises nothing");
        if (raised) {
            CHECK(trk_live() == live, "packing arguments without memory leaves something allocated");
            eng_label("memory failed");
            return;
        }
    }
    CHECK(!raised, "packing arguments raises an exception");
    CHECK(a != NULL, "packing arguments gives nothing");
    s->a = a;
    s->bound = -1;
    CHECK(s->a->n_args == (size_t)s->n, "a set of %d arguments says it has %zu", s->n, s->a->n_args);
    check_set(i, 1);
}

static int outer_scope(const set *s, int given) {
    return given >= 0 ? given : s->made >= 0 ? s->made : 0;
}

static void read_scoped(int i) {
    set *s = &S[i];
    int k, given = d_p(1, 3) ? d_in(1, NSC - 1) : -1, times = d_in(1, 3), was = s->bound;
    size_t failed = trk_failed();
    long nth = d_p(1, 12);
    volatile int raised = 0;
    if (!s->n)
        return;
    while (times--) {
        int how = d_p(1, 2);
        k = (int)d_u(s->n - 1);
        if (nth)
            trk_fail(nth, 0, 0);
        try {
            if (given >= 0)
                check_value(s, k, raii_get_args(scope[given], s->a, k), "raii_get_args");
            else if (how)
                check_value(s, k, get_args(s->a, k), "get_args");
            else
                check_value(s, k, raii_get_args(NULL, s->a, k), "raii_get_args(NULL)");
        } catch_any {
            raised = 1;
        } end_try;
        trk_fail(0, 0, 0);
        if (raised) {
            CHECK(trk_failed() > failed && was < 0, "reading a set raises an exception");
            return;                  /* not bound: still ours */
        }
        if (s->bound < 0) {
            s->bound = outer_scope(s, given);
            s->pos = ++nbound;
            NOTE("set %d: read, bound to scope %d\n", i, s->bound);
        }
    }
}

static int unw;

/* between the sets' releases: those bound before this one are still there, those after are gone */
static void on_mark(void *arg) {
    int pos = (int)(long)arg, i;
    for (i = 0; i < NSET; i++)
        if (S[i].a && S[i].bound == unw) {
            if (S[i].pos < pos)
                check_set(i, 1);
            else
                CHECK(!trk_is_live(S[i].a), "a set of arguments is not released in its turn");
        }
}

static void unwind(int sc) {
    int i, n = 0;
    NOTE("unwind scope %d\n", sc);
    unw = sc;
    for (i = 0; i < NSET; i++)
        if (S[i].a && S[i].bound == sc)
            n++;
    if (sc == 0)
        raii_deferred_clean();
    else
        raii_deferred_free(scope[sc]);
    for (i = 0; i < NSET; i++)
        if (S[i].a) {
            if (S[i].bound == sc) {
                CHECK(!trk_is_live(S[i].a), "a set of arguments is not freed with the scope it is bound to");
                S[i].a = NULL;
                nfreed++;
            } else
                check_set(i, 1);
        }
}

static void c19(void) {
    int steps = d_in(1, 40), k, i, sc;
    memset(S, 0, sizeof S);
    nbound = nreads = nfreed = nlong = nmixed = 0;
    raii_init();
    for (i = 1; i < NSC; i++)
        scope[i] = unique_init();
    for (k = 0; k < 64; k++)
        target[k] = (unsigned char)(k * 3 + 1);
    for (k = 0; k < 8; k++) {
        static const int base[] = { 0, 1, 7, 8, 255, 256, 257, 3000 };
        size_t j;
        lens[k] = base[k] + (k == 7 ? d_u(40) : 0);
        strs[k] = trk_malloc(lens[k] + 9);
        for (j = 0; j < lens[k]; j++)
            strs[k][j] = (char)('a' + (j + k) % 26);
        memset(strs[k] + lens[k], 0, 9);
    }
    while (steps--) {
        i = (int)d_u(NSET - 1);
        if (!S[i].a) {
            make(i);
            continue;
        }
        switch (d_w("564321")) {
            case 0: check_set(i, 1); break;
            case 1: read_scoped(i); break;
            case 2:
                if (S[i].bound < 0) {
                    NOTE("set %d: freed\n", i);
                    args_free(S[i].a);
                    CHECK(!trk_is_live(S[i].a), "args_free does not free the set");
                    S[i].a = NULL;
                    nfreed++;
                }
                break;
            case 3: unwind((int)d_u(NSC - 1)); break;
            case 4:                     /* a function among the bound sets */
                sc = (int)d_u(NSC - 1);
                raii_deferred(sc ? scope[sc] : raii_init(), on_mark, (void *)(long)++nbound);
                break;
            default: {                   /* an argument of a thread that is a pointer to its value */
                raii_values_t one;
                memset(&one, 0, sizeof one);
                one.value.long_long = (int64_t)d_u64();
                CHECK(get_arg(&one).long_long == one.value.long_long, "get_arg reads another value");
                break;
            }
        }
        check_targets();
    }
    for (sc = NSC - 1; sc >= 0; sc--)
        unwind(sc);
    for (i = 0; i < NSET; i++)
        if (S[i].a) {
            check_set(i, 1);
            args_free(S[i].a);
        }
    for (i = 1; i < NSC; i++)
        raii_delete(scope[i]);
    raii_deferred_clean();
    check_targets();
    for (k = 0; k < 8; k++)
        trk_free(strs[k]);
    trk_check();
    CHECK(trk_live() == 0, "%zu blocks (%zu bytes) are still allocated at the end", trk_live(), trk_live_bytes());
    if (nreads > 3 && nfreed)
        eng_nontrivial();
    if (nbound) eng_label("bound to a scope");
    if (nlong) eng_label("long strings");
    if (nmixed) eng_label("doubles among others");
}

static const eng_prop props[] = {
    { "C19", ENG_BATCH, 0, c19, NULL, "histories over up to 10 sets of 0 to 40 arguments of every documented type with generated values, packed through each entry point (registers and stack), also without memory, read repeatedly through each accessor, released explicitly or by unwinding any of 3 scopes, with functions deferred between them; each value, the objects pointed to, and the set's memory are checked; non-trivial: more than 3 values read and a set released" },
};

int main(int argc, char **argv) { return eng_main(argc, argv, props, 1); }
