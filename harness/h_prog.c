/* C03 - C10: generated programs (prog.h) run with the real macros, against the model's events. */
#include "prog.h"
#include <sys/wait.h>
#include <unistd.h>

#define P ((prog *)eng_shared())

/*                         step throw panic raise call loop try guard defer cancel fire alloc flush break return rethrow recover message
                           protect unprotect change ddefer dalloc dclean sigdefault sigset lib hook exit */
static const gen_cfg cfg[] = {
    /* C03 */ { "2" "2" "1" "0" "1" "0" "3" "3" "2" "0" "0" "1" "0" "1" "1" "1" "1" "0" "1" "0" "0" "6" "6" "3" "0" "0" "3" "0" "2", 34, 5, 0, 0, 6, 0, 0, 0, 4 },
    /* C04 */ { "2" "2" "1" "0" "1" "1" "2" "5" "9" "1" "1" "5" "1" "1" "2" "1" "1" "0" "1" "0" "0" "0" "0" "0" "0", 40, 6, 0, 0, 9 },
    /* C05 */ { "1" "2" "4" "0" "1" "0" "2" "5" "9" "0" "0" "1" "0" "1" "1" "1" "6" "5" "0" "0" "0" "0" "0" "0" "0", 36, 6, 0, 0, 8 },
    /* C06 */ { "2" "4" "2" "0" "1" "1" "9" "1" "1" "0" "0" "0" "0" "0" "0" "3" "0" "0" "0" "0" "0" "0" "0" "0" "0", 36, 6, 0, 0, 9, 0, 1 },
    /* C07 */ { "2" "1" "1" "6" "1" "1" "7" "3" "3" "0" "0" "1" "0" "1" "1" "2" "2" "1" "1" "0" "0" "0" "0" "0" "1" "1", 36, 6, 1, 0, 9, 1 },
    /* C08 */ { "1" "3" "1" "0" "1" "1" "5" "1" "1" "0" "0" "0" "0" "0" "0" "2" "0" "0" "9" "3" "3" "0" "0" "0" "0", 36, 5, 0, 0, 8 },
    /* C09 */ { "2" "3" "2" "2" "1" "0" "2" "4" "5" "0" "0" "2" "0" "0" "1" "1" "1" "0" "2" "0" "0" "3" "2" "1" "0", 30, 5, 1, 1, 0 },
    /* C10 */ { "1" "1" "1" "0" "1" "1" "3" "5" "4" "0" "0" "9" "1" "1" "1" "1" "2" "1" "1" "0" "0" "1" "4" "1" "0" "0" "6", 36, 5, 0, 0, 8, 0, 0, 0, 9 },
    /* C25 */ { "2" "4" "2" "1" "1" "1" "6" "4" "3" "0" "0" "1" "0" "1" "1" "2" "2" "1" "3" "1" "0" "2" "2" "1" "0" "0" "0" "4", 40, 5, 1, 1, 7, 0, 0, 1 },
};

static void labels(prog *p) {
    if (p->ended_uncaught) eng_label("ends uncaught");
    if (p->relthrown) eng_label("a release function throws");
    if (p->nthrown >= 2) eng_label("2 or more exceptions");
    if (p->nthrown >= 6) eng_label("6 or more exceptions");
    if (p->ncaught) eng_label("caught");
    if (p->nrethrown) eng_label("rethrown");
    if (p->nfin) eng_label("finally");
    if (p->nrecovered) eng_label("recovered");
    if (p->ndeferred) eng_label("deferred functions");
    if (p->ndefthrow) eng_label("a deferred function throws");
    if (p->nreturned) eng_label("early return");
    if (p->nreleased) eng_label("protected pointers released");
    if (p->nsignal) eng_label("signals");
    if (p->nscopes > 1) eng_label("several guards");
    if (p->nblocks) eng_label("allocations");
    if (p->ndclean) eng_label("default scope cleaned");
    if (p->nsigset) eng_label("signals named by the program");
    if (p->manysigs) eng_label("as many signals named as there can be");
    if (p->nlib) eng_label("library operations");
    if (p->nhooked) eng_label("functions for exceptions called");
    if (p->exited) eng_label("calls exit");
    if (p->big) eng_label("long loops, large blocks");
    if (p->deep) eng_label("nested deeply");
    if (p->nunhooked) eng_label("functions to unwind called");
}

/* Draws a program; 0 if it is out of the domain (too long, or throwing from exit handlers). */
static int draw(int which) {
    prog_gen(P, &cfg[which]);
    prog_model(P);
    if (P->overflow)
        return 0;
    labels(P);
    return 1;
}

static void go(int which, int nontrivial) {
    if (nontrivial)
        eng_nontrivial();
    prog_print(P);
    prog_run(P);
    exit(0);
}

#define NT(e) do { prog *p = P; go(w, e); } while (0)
static void c03(void) { int w = 0; if (!draw(w)) { P->nn = -1; return; } NT(p->nexp > 4 && p->nexp - p->nthrown > 2 && (p->ndclean || p->ended_uncaught || p->nthrown || p->nblocks)); }
static void c04(void) { int w = 1; if (!draw(w)) { P->nn = -1; return; } NT(p->nscopes && p->ndeferred && (p->nthrown || p->nreturned || p->nscopes > 1)); }
static void c05(void) { int w = 2; if (!draw(w)) { P->nn = -1; return; } NT(p->nthrown && p->ndeferred && p->nscopes); }
static void c06(void) { int w = 3; if (!draw(w)) { P->nn = -1; return; } NT(p->nthrown && p->nnestedtry && p->nexp > 4); }
static void c07(void) { int w = 4; if (!draw(w)) { P->nn = -1; return; } NT(p->nsignal >= 1); }
static void c08(void) { int w = 5; if (!draw(w)) { P->nn = -1; return; } NT(p->nprot && p->nthrown); }
static void c09(void) { int w = 6; if (!draw(w)) { P->nn = -1; return; } NT(p->ended_uncaught); }
static void c25(void) { int w = 8; if (!draw(w)) { P->nn = -1; return; } NT(p->nhooked && (p->nunhooked || p->nhooked > 2)); }

/* the end of a program: its events, its status, its diagnostic, and what it left */
static const char *verdict(prog *p, int status, const char *err) {
    static char buf[900];
    const char *m;
    int i;
    if (p->overflow)
        return "the program does not end";
    prog_settle(p);
    prog_model(p);
    if ((m = prog_compare(p)))
        return m;
    if (p->ended_uncaught) {
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
            return "an uncaught exception ends the program with status 0";
        if (!WIFEXITED(status) || WEXITSTATUS(status) != EXIT_FAILURE) {
            snprintf(buf, sizeof buf, "an uncaught exception ends the program with wait status %d", status);
            return buf;
        }
        if (err) {
            int ok = 0;
            for (i = 0; i < p->nlast && i < 8; i++) {
                const exc *e = &p->last[i];
                if (e->wild || strstr(err, prog_text[e->msg >= 0 ? e->msg : e->name]))
                    ok = 1;
            }
            if (!ok) {
                snprintf(buf, sizeof buf, "the diagnostic does not name the exception %s: %.300s",
                    prog_text[p->last[0].msg >= 0 ? p->last[0].msg : p->last[0].name], err);
                return buf;
            }
        }
    } else if (!WIFEXITED(status) || WEXITSTATUS(status) != (p->exited ? p->status : 0)) {
        snprintf(buf, sizeof buf, "the program ends with wait status %d", status);
        return buf;
    }
    if (trk_live() && !p->relthrown && !p->exited) {
        char b[400];
        trk_describe_live(b, sizeof b);
        snprintf(buf, sizeof buf, "%zu blocks (%zu bytes) are still allocated at the end: %s", trk_live(), trk_live_bytes(), b);
        return buf;
    }
    return NULL;
}

static void post(int status) {
    const char *m;
    if (P->nn < 0)
        return;
    if ((m = verdict(P, status, eng_stderr(NULL))))
        eng_fail_post("%s", m);
}

/* --- C10: every allocation of the program is made to fail in turn, then some combinations --------- */
static void fault(int n, uint64_t more, int from, size_t budget) {
    pid_t pid;
    int status;
    const char *m;
    trk_reset();
    pid = fork();
    if (pid == 0) {
        int i;
        for (i = 1; i < 32; i++)
            if (i != SIGKILL && i != SIGSTOP)
                signal(i, SIG_DFL);
        trk_fail(n, more, from);
        prog_run(P);
        exit(0);
    }
    if (pid < 0 || waitpid(pid, &status, 0) != pid)
        return;
    if (eng_failed())
        _exit(99);
    if (WIFSIGNALED(status))
        eng_fail("with allocation %d failing (then %llx, from %d): the program is killed by signal %d", n, (unsigned long long)more, from, WTERMSIG(status));
    if ((m = verdict(P, status, NULL)))
        eng_fail("with allocation %d failing (then %llx, from %d): %s", n, (unsigned long long)more, from, m);
}

static void c10(void) {
    int w = 7, n, k, combos;
    size_t count, all;
    if (!draw(w))
        return;
    prog_print(P);
    combos = 4;
    uint64_t mask[8];
    int at[8], far[12];
    for (k = 0; k < combos; k++) {
        mask[k] = d_u64() & d_u64();
        at[k] = d_p(1, 2) ? (int)d_u(30) : (int)d_u(5000);
    }
    for (k = 0; k < 12; k++)
        far[k] = (int)d_u(100000);
    fault(0, 0, 0, 0);
    count = trk_count();
    if (count >= 2)
        eng_nontrivial();
    all = count;
    if (count > 48) {
        count = 48;
        eng_label("more than 48 allocations");
        for (k = 0; k < 12; k++)
            fault(49 + far[k] % (int)(all - 48), 0, 0, 0);
        eng_count(12);
    }
    eng_count(count + combos * 2);
    for (n = 1; n <= (int)count; n++)
        fault(n, 0, 0, 0);
    for (k = 0; k < combos && count; k++) {
        fault(1 + at[k] % (int)all, mask[k], 0, 0);
        fault(0, 0, 1 + at[k] % (int)all, 0);
    }
}

#define COMMON "a generated program (nested try blocks of 17 shapes, guards of 3 forms, defers, recovers, protected pointers, throws, panics%s) is run with the real macros in a process of its own; the model gives the exact sequence of steps, handlers, deferred and release functions and the number of live allocations at each; non-trivial: "
static const eng_prop props[] = {
    { "C03", ENG_ISO, 0, c03, post, "generated programs that defer to, allocate from and clean the thread's default scope among try blocks, guards and exceptions, run in a process of their own until its end, a call of exit anywhere, or an uncaught exception; the model gives every event in order and the live allocations at each; non-trivial: the default scope is used, and cleaned, or exceptions pass, or blocks are bound" },
    { "C04", ENG_ISO, 0, c04, post, "generated programs of nested guards (3 forms) with defers to their own and outer scopes, cancelled and fired ones, allocations, break, early return, throws from bodies, handlers and deferred functions; the model gives every event in order, each return value and the live allocations at each event; non-trivial: deferred functions run, and there is an exception, an early return or nesting" },
    { "C05", ENG_ISO, 0, c05, post, "generated programs of nested guards whose deferred functions read the message, recover right or wrong errors, panic, throw or use exceptions themselves; the model gives every event, what is read and recovered; non-trivial: an exception passes a guard with deferred functions" },
    { "C06", ENG_ISO, 0, c06, post, "generated programs of nested try blocks in 17 shapes (clauses in several orders, conditional ones, with and without finally) with throws, panics and rethrows from bodies, handlers and finally parts; the model gives every event, and the name, message, file and line each handler sees; non-trivial: an exception in nested blocks" },
    { "C07", ENG_ISO, 0, c07, post, "as C06 with guards, and 12 signals and 2 named by the program, raised and by real faults, mixed with throws, naming signals anew, restoring default handling of one or all and setting it up again; handlers also check that no signal is blocked; non-trivial: at least one signal arrives as an exception" },
    { "C08", ENG_ISO, 0, c08, post, "generated programs that protect pointers (changing, nulling and unprotecting them) in try blocks, handlers and guards, with exceptions leaving them or not; the model gives each release with its function and value, in order; non-trivial: pointers are protected and an exception is thrown" },
    { "C09", ENG_ISO, 0, c09, post, "generated programs without an outermost handler, with guards, default scope, protected pointers, signals, deferred and release functions that throw; the events up to the end, exit status, diagnostic, callbacks and remaining memory are checked after the process ended; non-trivial: the program ends by an uncaught exception" },
    { "C10", ENG_ISO, 0, c10, NULL, "for a generated program (also using scopes, arenas, string helpers, packed arguments, futures and spawn scopes of its own) every one of its first 48 allocations is made to fail in turn, 12 of the later ones, and 8 combinations of several (a mask, or all from one on), each in a process of its own; the model, told which operation failed, gives every event; memory is checked at the end; non-trivial: the program allocates at least twice" },
    { "C25", ENG_ISO, 0, c25, post, "generated programs that install, change and remove their own functions for exceptions (told only; asking to unwind; unwinding a scope of their own, whose deferred functions read the message and use exceptions), among try blocks, guards, protected pointers, the default scope, signals and rethrows, ending normally or not; the model gives every call with name, message, line and file, in order with all other events; non-trivial: they are called, and unwind or are called more than twice" },
};

int main(int argc, char **argv) {
    return eng_main(argc, argv, props, sizeof props / sizeof *props);
}
