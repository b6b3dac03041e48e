/* prog.h - generated programs over try/catch/finally, guard, defer, recover, protected pointers,
 * signals and the thread's default scope: their syntax trees, an interpreter that runs them with the
 * library's own macros, and a model that says which events they shall produce. */
#ifndef PROG_H
#define PROG_H
#include "eng.h"
#include "raii.h"
#include <signal.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <stddef.h>
#include <pthread.h>

#define NNODE 900
#define NEVENT 6000
#define NBLK 120
#define NINST 1000
#define NPUSH 1200
#define NSLOT 20
#define NOPS 1024
#define NTRACE 300

/* --- names -------------------------------------------------------------------- */
#define NAMES(X) X(range_error) X(logic_error) X(out_of_range) X(domain_error) X(prog_custom) X(prog_custom_x) \
    X(out_of_memory) X(panic)
#define SIGNAMES(X) X(sig_segv, SIGSEGV) X(sig_abrt, SIGABRT) X(sig_fpe, SIGFPE) X(sig_ill, SIGILL) \
    X(sig_int, SIGINT) X(sig_term, SIGTERM) X(sig_quit, SIGQUIT) X(sig_hup, SIGHUP) \
    X(sig_winch, SIGWINCH) X(sig_trap, SIGTRAP) X(sig_alrm, SIGALRM) X(sig_bus, SIGBUS)
#define MSGS(X) X(boom) X(oops) X(fatal) X(logic_error)

enum {
#define X(n) T_##n,
    NAMES(X)
#undef X
#define X(n, s) T_##n,
    SIGNAMES(X)
#undef X
#define X(n) T_msg_##n,
    MSGS(X)
#undef X
    T_msg_long, T_msg_long2, T_msg_percent, T_msg_empty, T_msg_part, T_msg_case,      /* messages that are no words */
    T_COUNT, T_OTHER = -2, T_NONE = -1
};
#define T_SIG0 T_sig_segv
#define T_MSG0 T_msg_boom
#define NTHROW 8                    /* the first names are thrown with throw() */
#define NSIG_ 12
#define NSIGX 32                    /* with those that have no name but what the program gives them */
#define RT_SIG 40

extern const char *const prog_text[T_COUNT];
extern const int prog_sig[NSIGX];

/* --- syntax --------------------------------------------------------------------- */
enum {
    N_STEP, N_THROW, N_PANIC, N_RAISE, N_CALL, N_LOOP, N_TRY, N_GUARD, N_DEFER, N_DEFCANCEL, N_DEFFIRE,
    N_ALLOC, N_FLUSH, N_BREAK, N_RETURN, N_RETHROW, N_RECOVER, N_MESSAGE, N_PROTECT, N_UNPROTECT,
    N_CHANGE, N_DDEFER, N_DALLOC, N_DCLEAN, N_SIGDEFAULT, N_SIGSET, N_LIB, N_HOOK, N_EXIT, N_KINDS
};
enum { C_NORMAL, C_BREAK, C_RETURN, C_RETHROW, C_EXC };

typedef struct node node;
struct node {
    short kind;
    short id;
    int a, b, c, d;
    node *next;
    node *k[6];
};

/* --- events ----------------------------------------------------------------------- */
enum { EV_STEP = 1, EV_CATCH, EV_FIN, EV_DEFER, EV_REC, EV_MSG, EV_REL, EV_AFTER, EV_MASK, EV_TERM, EV_END,
    EV_DEFAULT, EV_ELSE, EV_NULL, EV_DDEFER, EV_CORRUPT, EV_CTRLC, EV_LIB, EV_SCOPE, EV_HOOK };
enum { W_A = 1, W_B = 2, W_C = 4, W_D = 8, W_F = 16, W_M = 32 };     /* not compared */
typedef struct {
    unsigned char kind, wild;
    short id;
    short a, b, c, live;
    signed char f, m;       /* file, signal mask */
    int d;
    short t;                /* whose backtrace: the number of a throw */
} event;

/* --- one program, its run and its model -------------------------------------------- */
typedef struct {
    short name, msg;        /* texts; msg T_NONE for throw */
    short unknown;          /* 1: file "unknown", line 0; 4: the other file */
    short wild;             /* a panic of the library: message, file and line are not told */
    int line;
    short ord;              /* number of the throw; 0 unknown */
} exc;

typedef struct {
    node nodes[NNODE];
    int nn;
    node *top;
    int uses_raii_init;     /* call raii_init() first */
    int callback;           /* install a terminate callback */
    int ctrlc;              /* install an interrupt callback */
    int use_signals;
    int threads;            /* other threads run, too */
    void (*yield)(void);    /* called at each event */
    event act[NEVENT], exp[NEVENT];
    int nact, nexp;
    int overflow;
    int traces;              /* handlers look at the backtrace */
    short same[NTRACE];     /* of each throw: the first with the same backtrace */
    int lines[16];          /* where each throw() is written */
    unsigned char failed[NOPS];   /* operations whose allocation was made to fail */
    int pend;
    size_t pend_failed;
    int nops;
    /* model's verdict */
    int ended_uncaught, exited, status;
    int sigs;               /* many signals are named */
    int big, deep;          /* generated with: long loops, large blocks; nested deeply */
    int relthrown;          /* by a release function that throws */
    exc last[8];
    int nlast;
    int nthrown, ncaught, nrecovered, ndeferred, nreleased, nreturned, nrethrown, nsignal, nnestedtry, nfin,
        ndefthrow, nblocks, nscopes, nprot, ndclean, nsigset, manysigs, nlib, nhooked, nunhooked;
} prog;

/* generation */
typedef struct {
    const char *w;           /* weights of statement kinds, N_KINDS of them */
    int budget, depth;
    int signals;             /* raise signals */
    int relthrow;            /* release functions may throw */
    int wrap;                /* in 10: wrapped in a try that catches all */
    int custom;              /* signals named by the program */
    int traces;
    int hooks;               /* functions for exceptions are set from the start, often */
    int lib;                 /* the last of the library operations used */
} gen_cfg;
void prog_gen(prog *P, const gen_cfg *g);
void prog_print(prog *P);

void prog_run(prog *P);                /* in the thread that shall run it */
void prog_model(prog *P);              /* P->failed tells of injected failures */
const char *prog_compare(prog *P);     /* NULL if what happened is what shall happen */
void prog_settle(prog *P);             /* after the run: which operation failed last */
#endif
