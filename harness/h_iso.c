/* C22: generated programs (prog.h) run in several threads at once, each against its own model. */
#include "prog.h"
#include <sched.h>
#include <unistd.h>
#include <sys/syscall.h>

#define NTHR 6
#define NROUND 3

static prog *progs[NTHR][NROUND];
static int nthr, nround[NTHR], startdelay[NTHR], pace, fresh;
static uint32_t seed[NTHR];
static volatile int ready;
static __thread uint32_t rnd;

/* a schedule point: goes on, yields, spins or sleeps, as generated */
static void point(void) {
    uint32_t r;
    int k;
    if (!rnd)
        return;
    rnd = rnd * 1664525u + 1013904223u;
    r = rnd >> 16;
    if (!rnd)
        rnd = 1;
    if ((int)(r & 15) >= pace)
        return;
    r >>= 4;
    if ((r & 15) < 8)
        sched_yield();
    else if ((r & 15) < 15)
        for (k = 0; k < (int)(r >> 4 & 255) * 8; k++)
            __asm__ volatile("" ::: "memory");
    else
        usleep(r >> 4 & 127);
}

/* Called by the library before and after it unwinds. */
int pthread_sigmask(int how, const sigset_t *set, sigset_t *old) {
    int r;
    point();
    r = (int)syscall(SYS_rt_sigprocmask, how, set, old, 8);
    point();
    return r;
}

/* And for each signal it sets up. */
int __sigaction(int sig, const struct sigaction *act, struct sigaction *old);
int sigaction(int sig, const struct sigaction *act, struct sigaction *old) {
    int r;
    point();
    r = __sigaction(sig, act, old);
    point();
    return r;
}

/* And for each function that is registered for the exit. */
int __cxa_atexit(void (*)(void *), void *, void *);
int atexit(void (*f)(void)) {
    int r;
    point();
    r = __cxa_atexit((void (*)(void *))f, NULL, NULL);
    point();
    return r;
}

/* --- the process exits while threads are at work: the default scope of the thread that exits is unwound --- */
#define NMARK 40
struct leaving { int n, ran, wrong, on; };
static struct leaving *L;

static void on_mark(void *arg) {
    if ((int)(intptr_t)arg != L->n - 1 - L->ran)
        L->wrong = 1;
    L->ran++;
}

static void leave(void) {
    int i;
    for (i = 0; i < (int)(rnd >> 20 & 3) * 40; i++)
        point();
    rnd = 0;
    L->on = 1;
    exit(0);
}

static void post(int status) {
    struct leaving *l = eng_shared();
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
        if (!l->on)
            return;
        if (l->ran != l->n)
            eng_fail_post("the process exits while threads are at work: %d of %d functions of the exiting thread's default scope ran", l->ran, l->n);
        else if (l->wrong)
            eng_fail_post("the process exits while threads are at work: the functions of the exiting thread's default scope do not run in reverse order");
    } else
        eng_fail_post("the process ends unexpectedly with status %x: %.500s", status, eng_stderr(NULL));
}

static void one(prog *P, int t, int r, int destroy) {
    const char *m;
    prog_run(P);
    if (destroy)
        raii_destroy();
    else {
        raii_init();
        raii_deferred_clean();
    }
    rnd = 0;
    if (P->overflow)
        eng_fail("thread %d: its program %d does not end", t, r);
    prog_settle(P);
    prog_model(P);
    if ((m = prog_compare(P)))
        eng_fail("thread %d, program %d: %s", t, r, m);
}

static int thread_fn(void *arg) {
    int t = (int)(intptr_t)arg, r;
    uint32_t s = seed[t] | 1;
    __sync_fetch_and_add(&ready, 1);
    if (!fresh)
        while (ready < nthr)
            sched_yield();
    if (startdelay[t])
        usleep(startdelay[t]);
    for (r = 0; r < nround[t]; r++) {
        rnd = s * 2654435761u + r;
        rnd |= 1;
        one(progs[t][r], t, r, r == nround[t] - 1 || (s >> (8 + r) & 1));
    }
    return 0;
}


static void names_of_signals(void) {
    int k;
    for (k = 0; k < NSIG_; k++) {
        volatile int got = 0;
        try {
            raise(prog_sig[k]);
        } catch_any {
            got = 1;
            if (strcmp(err, prog_text[T_SIG0 + k]))
                eng_fail("after threads used exceptions first, signal %d arrives as %s, not %s", prog_sig[k], err, prog_text[T_SIG0 + k]);
        } end_try;
        if (!got)
            eng_fail("after threads used exceptions first, signal %d raises nothing", prog_sig[k]);
    }
}

/* --- threads name signals of their own, restore their default handling and raise them, at once --- */
#define NOWN 3
#define NNAMER 24
enum { S_NAME, S_RAISE, S_RESTORE, S_STANDARD, S_THROW };
static struct sop { unsigned char op, k, name, in; } sops[NTHR][NNAMER];
static int nsop[NTHR];
static const int own_names[] = { T_range_error, T_logic_error, T_sig_hup, T_out_of_range };

static void expect(int t, int i, int sig, const char *want, int in) {
    volatile int got = 0;
    try {
        if (in) {
            guard {
                raise(sig);
            } guarded;
        } else
            raise(sig);
        got = 2;
    } catch_any {
        got = 1;
        if (strcmp(err, want))
            eng_fail("thread %d, step %d: signal %d arrives as %s, not %s", t, i, sig, err, want);
    } end_try;
    if (got != 1)
        eng_fail("thread %d, step %d: signal %d, named %s, raises nothing", t, i, sig, want);
}

static int namer_fn(void *arg) {
    int t = (int)(intptr_t)arg;
    int volatile named[NOWN], i, k;
    for (k = 0; k < NOWN; k++)
        named[k] = -1;
    __sync_fetch_and_add(&ready, 1);
    if (!fresh)
        while (ready < nthr)
            sched_yield();
    if (startdelay[t])
        usleep(startdelay[t]);
    rnd = seed[t] | 1;
    for (i = 0; i < nsop[t]; i++) {
        struct sop *o = &sops[t][i];
        int sig = prog_sig[NSIG_ + t * NOWN + o->k];
        switch (o->op) {
            case S_NAME:
                ex_signal(sig, prog_text[own_names[o->name]]);
                named[o->k] = own_names[o->name];
                break;
            case S_RAISE:
                if (named[o->k] >= 0)
                    expect(t, i, sig, prog_text[named[o->k]], o->in);
                break;
            case S_RESTORE:
                if (named[o->k] >= 0)
                    ex_signal_reset(sig);
                named[o->k] = -1;
                break;
            case S_STANDARD:
                expect(t, i, prog_sig[o->name], prog_text[T_SIG0 + o->name], o->in);
                break;
            case S_THROW:
                try {
                    throw(range_error);
                } catch_any {
                    named[o->k] = named[o->k];
                } end_try;
                break;
        }
    }
    for (k = 0; k < NOWN; k++)
        if (named[k] >= 0)
            expect(t, 99, prog_sig[NSIG_ + t * NOWN + k], prog_text[named[k]], 0);
    rnd = 0;
    raii_init();
    raii_destroy();
    return 0;
}

static void naming(void) {
    int t, i, names = 0, raises = 0;
    for (t = 0; t < nthr; t++) {
        startdelay[t] = d_p(1, 4) ? d_in(1, 300) : 0;
        seed[t] = (uint32_t)d_u64();
        nsop[t] = 2 + d_len(NNAMER - 2);
        NOTE("thread %d:", t);
        for (i = 0; i < nsop[t]; i++) {
            struct sop *o = &sops[t][i];
            o->op = i == 0 ? S_THROW : d_w("65221");
            o->k = d_u(NOWN - 1);
            o->name = d_u(3);
            o->in = d_p(1, 4);
            names += o->op == S_NAME;
            raises += o->op == S_RAISE || o->op == S_STANDARD;
            NOTE(" %s %d %d%s,", (const char *[]){"name", "raise", "restore", "raise a standard one", "throw"}[o->op], o->k, o->name, o->in ? " guarded" : "");
        }
        NOTE("\n");
    }
    if (names >= 2 && raises >= 2)
        eng_nontrivial();
    eng_label("threads name signals");
}

static const gen_cfg cfgs[] = {
    /*  step throw panic raise call loop try guard defer cancel fire alloc flush break return rethrow recover message protect unprotect change ddefer dalloc dclean sigdefault sigset lib hook */
    { "2" "3" "2" "0" "1" "1" "5" "5" "5" "1" "1" "3" "1" "1" "1" "2" "2" "2" "3" "1" "1" "2" "2" "1" "0" "0" "0" "1", 26, 5, 0, 0, 10 },
    { "2" "2" "2" "4" "1" "1" "6" "4" "4" "0" "1" "2" "1" "1" "1" "2" "2" "2" "2" "1" "1" "2" "2" "1" "0", 26, 5, 1, 0, 10 },
    { "1" "4" "3" "0" "1" "2" "3" "6" "7" "1" "1" "4" "0" "1" "1" "1" "4" "3" "1" "1" "1" "1" "1" "0" "0" "0" "0" "2", 26, 5, 0, 0, 10, 0, 0, 1 },
};

static void c22(void) {
    int t, r, cold, names, thrown = 0, defers = 0, sigs = 0, guards = 0, hooked = 0, busy = 0, mainalso, leaves, i;
    thrd_t th[NTHR];
    nthr = d_in(2, NTHR);
    pace = d_in(0, 15);
    fresh = d_p(1, 4);                 /* threads start as they come */
    cold = d_p(1, 3);                  /* nothing was set up before */
    mainalso = d_p(1, 3);
    L = eng_shared();
    memset(L, 0, sizeof *L);
    leaves = d_p(1, 6) ? d_in(1, NMARK) : 0;
    names = !leaves && d_p(1, 10);
    if (leaves) {
        mainalso = cold = 0;
        rnd = (uint32_t)d_u64() | 1;
    }
    if (names)
        naming();
    for (t = 0; t < nthr && !names; t++) {
        int n = 0;
        nround[t] = d_in(1, NROUND);
        startdelay[t] = d_p(1, 4) ? d_in(1, 300) : 0;
        seed[t] = (uint32_t)d_u64();
        for (r = 0; r < nround[t]; r++) {
            prog *P = progs[t][r] = calloc(1, sizeof *P);
            do {
                prog_gen(P, &cfgs[d_w("323")]);
                P->callback = 0;
                P->threads = 1;
                prog_model(P);
            } while (P->ended_uncaught && 0);
            if (P->ended_uncaught || P->overflow || P->relthrown)
                return;                /* exceptions in what the scope's end runs have no handler */
            P->yield = point;
            thrown += P->nthrown;
            n += P->nthrown;
            defers += P->ndeferred;
            sigs += P->nsignal;
            guards += P->nscopes;
            hooked += P->nhooked;
        }
        busy += n > 0;
    }
    if (busy >= 2)
        eng_nontrivial();
    if (sigs) eng_label("signals");
    if (defers) eng_label("deferred functions");
    if (hooked) eng_label("functions for exceptions of their own");
    if (thrown > 10) eng_label("more than 10 exceptions");
    if (guards > 4) eng_label("more than 4 guards");
    if (cold) eng_label("first use in the threads");
    if (mainalso) eng_label("the main thread, too");
    NOTE("%d threads, pace %d%s%s%s\n", nthr, pace, fresh ? ", started as they come" : "", cold ? ", nothing set up before" : "", mainalso ? ", the first in the main thread" : "");
    for (t = 0; t < nthr; t++)
        for (r = 0; r < nround[t] && !names; r++) {
            NOTE("thread %d, ", t);
            prog_print(progs[t][r]);
        }
    if (leaves) {
        eng_label("exit while threads are at work");
        NOTE("the main thread defers %d functions and exits without waiting\n", leaves);
        L->n = leaves;
        for (i = 0; i < leaves; i++)
            raii_deferred(raii_init(), on_mark, (void *)(intptr_t)i);
    }
    if (!cold)
        ex_signal_setup();
    trk_hook = point;
    ready = 0;
    for (t = mainalso; t < nthr; t++)
        if (thrd_create(&th[t], names ? namer_fn : thread_fn, (void *)(intptr_t)t) != thrd_success) {
            NOTE("no thread\n");
            exit(0);
        }
    if (mainalso) {
        (names ? namer_fn : thread_fn)((void *)0);
    }
    if (leaves)
        leave();
    for (t = mainalso; t < nthr; t++)
        thrd_join(th[t], NULL);
    trk_hook = NULL;
    rnd = 0;
    names_of_signals();
    raii_destroy();
    trk_check();
    if (trk_live()) {
        char b[300];
        trk_describe_live(b, sizeof b);
        eng_fail("%zu blocks are still allocated when all threads ended: %s", trk_live(), b);
    }
    exit(0);
}

static const eng_prop props[] = {
    { "C22", ENG_ISO, 1, c22, post, "2 to 6 threads each run 1 to 3 generated programs (try blocks of 17 shapes, guards, defers, recovers, protected pointers, the default scope, functions for exceptions of their own, throws, panics, thread-directed signals), released together or as they come, with generated pauses at every event, allocation and signal mask change of the library, first use of the library before or in the threads; or each names signals of its own, restores and raises them; or the main thread exits meanwhile, having deferred to its default scope; each thread's events must be those its own sequential model gives; non-trivial: at least two threads throw" },
};

int main(int argc, char **argv) { return eng_main(argc, argv, props, 1); }
