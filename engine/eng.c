/* eng.c - see eng.h */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "eng.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <poll.h>
#include <time.h>
#include <dirent.h>
#include <execinfo.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <pthread.h>
#include <sys/prctl.h>
#include <sys/syscall.h>

#ifndef ENG_VARIANT
#define ENG_VARIANT "A"
#endif
#define TMAX (1u << 17)
#define NLAB 96
#define NSAMP 3
#define STMAX 4096            /* longest tape kept as a sample */
#define NOTEMAX (1u << 17)
#define HISTMAX 256
#define HASHN (1u << 22)

typedef struct {
    /* case */
    uint64_t rng[2];
    uint32_t nin, pos, nout;
    int replay;
    volatile int failed;
    int nontrivial;
    uint64_t key;
    uint64_t extra;
    uint64_t case_no;
    uint64_t labels[2];
    uint32_t nnote;
    char msg[8192];
    /* worker */
    uint64_t evals, cases, nontriv, distinct, labcount[NLAB];
    char labname[NLAB][40];
    uint32_t nlab;
    uint64_t unreproduced;
    uint32_t nsamp;
    struct { uint32_t n; uint32_t v[STMAX]; } samp[NSAMP];
    int found;
    uint64_t found_case;
    uint32_t found_n;
    uint32_t hist_n;              /* cases run before it in the same process, and it */
    uint64_t hist[HISTMAX];
    char found_msg[8192];
    uint32_t tin[TMAX], tout[TMAX], found_tape[TMAX];
    char note[NOTEMAX];
    unsigned char user[ENG_SHARED_SIZE];
} shm_t;

typedef struct {
    volatile int stop;
    volatile uint64_t distinct;
    uint64_t hash[HASHN];
} glob_t;

static shm_t *S;
static glob_t *G;
static int errfd = -1;
int eng_verbose;
static int tier, cpu_limit = 20, in_child;
static double t_start;

static double now(void) {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

uint64_t eng_mix(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

static uint64_t hstr(const char *s) {
    uint64_t h = 1469598103934665603ull;
    while (*s)
        h = (h ^ (unsigned char)*s++) * 1099511628211ull;
    return h;
}

static uint64_t rnd(void) {
    S->rng[0] += 0x9E3779B97F4A7C15ull;
    return eng_mix(S->rng[0] ^ S->rng[1]);
}

/* --- draws --------------------------------------------------------------------- */
uint32_t d_u(uint32_t max) {
    uint32_t v;
    if (S->nout >= TMAX)
        return 0;
    if (S->replay)
        v = S->pos < S->nin ? S->tin[S->pos++] : 0;
    else
        v = (uint32_t)(rnd() >> 32);
    if (max != 0xffffffffu && (!S->replay || v > max))
        v = S->replay ? v % (max + 1) : (uint32_t)(((uint64_t)v * ((uint64_t)max + 1)) >> 32);
    S->tout[S->nout++] = v;
    return v;
}

int d_in(int lo, int hi) { return lo + (int)d_u((uint32_t)(hi - lo)); }

int d_p(int num, int den) {
    /* the last `num` of `den` values are true: 0 is false */
    return (int)d_u((uint32_t)den - 1) >= den - num;
}

uint64_t d_u64(void) {
    uint64_t a, b, v;
    switch (d_u(5)) {
        case 0: return d_u(255);
        case 1: a = d_u(0xffffffffu); return a;
        case 2: /* any number of bits */
            a = d_u(0xffffffffu), b = d_u(0xffffffffu);
            v = a << 32 | b;
            return v >> d_u(63);
        case 3: /* near a power of two */
            v = 1ull << d_u(63);
            a = d_u(4);
            return v + a - 2;
        case 4: { /* near a power of ten */
            uint32_t k = d_u(19);
            for (v = 1; k--; )
                v *= 10;
            a = d_u(4);
            return v + a - 2;
        }
        default:
            a = d_u(0xffffffffu), b = d_u(0xffffffffu);
            return a << 32 | b;
    }
}

int d_w(const char *w) {
    int sum = 0, i, n;
    for (i = 0; w[i]; i++)
        sum += w[i] - '0';
    n = (int)d_u((uint32_t)sum - 1);
    for (i = 0; w[i]; i++) {
        n -= w[i] - '0';
        if (n < 0)
            return i;
    }
    return 0;
}

uint32_t d_len(uint32_t max) {
    static const uint32_t special[] = { 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 49, 63, 64, 65,
        127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537 };
    uint32_t v;
    switch (d_w("83321")) {
        case 0: v = d_u(max < 12 ? max : 12); break;
        case 1: v = d_u(max < 40 ? max : 40); break;
        case 2: {
            uint32_t n = 0;
            while (n + 1 < sizeof special / sizeof *special && special[n + 1] <= max)
                n++;
            v = special[d_u(n)];
            break;
        }
        case 3: v = d_u(max < 300 ? max : 300); break;
        default: v = d_u(max); break;
    }
    return v > max ? max : v;
}

/* --- reporting ------------------------------------------------------------------- */
void eng_fail(const char *fmt, ...) {
    va_list ap;
    if (__sync_bool_compare_and_swap(&S->failed, 0, 2)) {
        va_start(ap, fmt);
        vsnprintf(S->msg, sizeof S->msg, fmt, ap);
        va_end(ap);
        __sync_synchronize();
        S->failed = 1;
    } else {
        int i;
        for (i = 0; S->failed == 2 && i < 1000000; i++)
            sched_yield();
    }
    _exit(99);
}

void eng_fail_post(const char *fmt, ...) {
    va_list ap;
    if (S->failed)
        return;
    va_start(ap, fmt);
    vsnprintf(S->msg, sizeof S->msg, fmt, ap);
    va_end(ap);
    S->failed = 1;
}

int eng_failed(void) { return S->failed; }

void eng_note(const char *fmt, ...) {
    va_list ap;
    int n;
    if (S->nnote + 2 >= NOTEMAX)
        return;
    va_start(ap, fmt);
    n = vsnprintf(S->note + S->nnote, NOTEMAX - S->nnote, fmt, ap);
    va_end(ap);
    S->nnote += n;
    if (S->nnote >= NOTEMAX)
        S->nnote = NOTEMAX - 1;
}

void eng_label(const char *name) {
    uint32_t i;
    for (i = 0; i < S->nlab; i++)
        if (!strcmp(S->labname[i], name))
            break;
    if (i == S->nlab) {
        if (i == NLAB)
            return;
        snprintf(S->labname[i], sizeof S->labname[i], "%s", name);
        S->nlab++;
    }
    S->labels[i / 64] |= 1ull << (i % 64);
}

void eng_nontrivial(void) { S->nontrivial = 1; }
void eng_key(uint64_t k) { S->key = eng_mix(S->key ^ k); }
void eng_count(uint64_t n) { S->extra += n; }
const char *eng_variant(void) { return ENG_VARIANT; }
int eng_tier(void) { return tier; }
void *eng_shared(void) { return S->user; }

const char *eng_stderr(size_t *len) {
    static char buf[1 << 16];
    ssize_t n = errfd < 0 ? 0 : pread(errfd, buf, sizeof buf - 1, 0);
    if (n < 0)
        n = 0;
    buf[n] = 0;
    if (len)
        *len = n;
    return buf;
}

/* --- one case -------------------------------------------------------------------- */
static void case_begin(void) {
    S->pos = S->nout = 0;
    S->failed = 0;
    S->nontrivial = 0;
    S->key = 0;
    S->extra = 0;
    S->labels[0] = S->labels[1] = 0;
    S->nnote = 0;
    S->note[0] = S->msg[0] = 0;
}

static int hset(uint64_t h) {
    uint32_t i = (uint32_t)(h % HASHN), k;
    if (!h)
        h = 1;
    for (k = 0; k < 64; k++, i = (i + 1) % HASHN) {
        uint64_t o = __sync_val_compare_and_swap(&G->hash[i], 0, h);
        if (o == 0) {
            __sync_fetch_and_add(&G->distinct, 1);
            return 1;
        }
        if (o == h)
            return 0;
    }
    return 0;
}

static void case_account(void) {
    uint32_t i;
    uint64_t h = 7 ^ S->key;
    S->cases++;
    S->evals += 1 + S->extra;
    for (i = 0; i < S->nlab; i++)
        if (S->labels[i / 64] >> (i % 64) & 1)
            S->labcount[i]++;
    if (!S->nontrivial)
        return;
    S->nontriv++;
    for (i = 0; i < S->nout; i++)
        h = eng_mix(h ^ S->tout[i]);
    if (hset(h) && S->nsamp < NSAMP && S->nout <= STMAX && S->cases > 3 * S->nsamp) {
        S->samp[S->nsamp].n = S->nout;
        memcpy(S->samp[S->nsamp].v, S->tout, S->nout * 4);
        S->nsamp++;
    }
}

static void seed_case(uint64_t seed, const char *prop, uint64_t no) {
    S->rng[0] = eng_mix(seed ^ hstr(prop) ^ eng_mix(hstr(ENG_VARIANT)));
    S->rng[1] = eng_mix(no + 0x1234567ull);
    S->rng[0] = eng_mix(S->rng[0] ^ S->rng[1]);
    S->case_no = no;
}

static void arm(void) {
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = cpu_limit;
    setitimer(ITIMER_PROF, &it, NULL);
}

static void child_setup(void) {
    int i;
    struct rlimit r = { 0, 0 };
    sigset_t none;
    in_child = 1;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setrlimit(RLIMIT_CORE, &r);
    for (i = 1; i < 32; i++)
        if (i != SIGKILL && i != SIGSTOP)
            signal(i, SIG_DFL);
    sigemptyset(&none);
    sigprocmask(SIG_SETMASK, &none, NULL);
    if (errfd >= 0) {
        if (ftruncate(errfd, 0) == 0)
            lseek(errfd, 0, SEEK_SET);
        dup2(errfd, 2);
    }
    arm();
}

/* all threads asleep? */
static int idle(pid_t pid, unsigned long long *cpu) {
    char path[64], buf[1024], *p;
    DIR *d;
    struct dirent *e;
    int asleep = 1;
    unsigned long long ut, stt;
    *cpu = 0;
    snprintf(path, sizeof path, "/proc/%d/task", (int)pid);
    if (!(d = opendir(path)))
        return 0;
    while ((e = readdir(d))) {
        char q[400], s;
        int fd, n;
        if (e->d_name[0] == '.')
            continue;
        snprintf(q, sizeof q, "%s/%s/stat", path, e->d_name);
        if ((fd = open(q, O_RDONLY)) < 0) {
            asleep = 0;
            continue;
        }
        n = read(fd, buf, sizeof buf - 1);
        close(fd);
        if (n <= 0) {
            asleep = 0;
            continue;
        }
        buf[n] = 0;
        p = strrchr(buf, ')');
        if (!p || sscanf(p + 1, " %c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %llu %llu", &s, &ut, &stt) != 3) {
            asleep = 0;
            continue;
        }
        *cpu += ut + stt;
        if (s != 'S')
            asleep = 0;
    }
    closedir(d);
    return asleep;
}

/* wait for a child; returns its status, or -1 if it hung and was killed */
static int wait_child(pid_t pid) {
    int status = 0, fd, still = 0, hung = 0;
    int limit = cpu_limit < 20 ? 6 : 25;
    unsigned long long cpu, last = ~0ull;
    if (waitpid(pid, &status, WNOHANG) == pid)
        return status;
    fd = (int)syscall(SYS_pidfd_open, pid, 0);
    for (;;) {
        if (fd >= 0) {
            struct pollfd p = { fd, POLLIN, 0 };
            poll(&p, 1, 1000);
            if (p.revents) {
                while (waitpid(pid, &status, 0) < 0 && errno == EINTR) { }
                break;
            }
        } else {
            int k;
            for (k = 0; k < 5000; k++) {
                if (waitpid(pid, &status, WNOHANG) == pid)
                    return hung ? -1 : status;
                usleep(k < 100 ? 50 : 1000);
            }
        }
        if (idle(pid, &cpu) && cpu == last)
            still++;
        else
            still = 0;
        last = cpu;
        if (still >= limit) {
            hung = 1;
            kill(pid, SIGKILL);
        }
    }
    if (fd >= 0)
        close(fd);
    return hung ? -1 : status;
}

static void describe(int status, char *b, size_t n) {
    if (status == -1)
        snprintf(b, n, "the program hangs: every thread waits, nothing makes progress");
    else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGPROF)
        snprintf(b, n, "the program does not end (%d s of CPU time used)", cpu_limit);
    else if (WIFSIGNALED(status))
        snprintf(b, n, "the program is killed by signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status)));
    else {
        const char *e = eng_stderr(NULL), *a = strstr(e, "WARNING: ThreadSanitizer");
        snprintf(b, n, "the program ends unexpectedly with status %d: %.1500s", WEXITSTATUS(status), a ? a : e);
    }
}

/* Runs the case prepared in S in a child. 1 if it fails. */
static int run_iso(const eng_prop *p) {
    pid_t pid;
    int status;
    case_begin();
    trk_reset();
    pid = fork();
    if (pid < 0) {
        perror("fork");
        _exit(2);
    }
    if (pid == 0) {
        child_setup();
        p->run();
        _exit(0);
    }
    status = wait_child(pid);
    if (S->failed)
        return 1;
    if (status == -1 || WIFSIGNALED(status)) {
        char b[4096];
        describe(status, b, sizeof b);
        eng_fail_post("%s", b);
        return 1;
    }
    if (p->post)
        p->post(status);
    else if (!WIFEXITED(status) || WEXITSTATUS(status)) {
        char b[4096];
        describe(status, b, sizeof b);
        eng_fail_post("%s", b);
    }
    return S->failed != 0;
}

static int load_tape(const uint32_t *t, uint32_t n) {
    S->replay = 1;
    S->nin = n;
    memmove(S->tin, t, n * 4);
    return 0;
}

static int run_tape(const eng_prop *p, const uint32_t *t, uint32_t n) {
    load_tape(t, n);
    return run_iso(p);
}

/* --- worker ------------------------------------------------------------------------ */
static void record_failure(void) {
    S->found = 1;
    S->found_case = S->case_no;
    S->found_n = S->nout;
    memcpy(S->found_tape, S->tout, S->nout * 4);
    snprintf(S->found_msg, sizeof S->found_msg, "%s", S->msg);
}

static void open_err(void) {
    errfd = (int)syscall(SYS_memfd_create, "err", 0);
    if (errfd < 0) {
        FILE *f = tmpfile();
        errfd = f ? fileno(f) : -1;
    }
    if (errfd >= 0)
        fcntl(errfd, F_SETFL, fcntl(errfd, F_GETFL) | O_APPEND);
}

/* A failure counts only if its tape fails again: all 3 times, or, if schedule dependent, once in many. */
static int confirmed(const eng_prop *p) {
    int i, bad = 0, tries = p->flaky ? 200 : 3;
    double t0 = now();
    char msg[8192];
    uint32_t n = S->found_n;
    static uint32_t tape[TMAX];
    memcpy(tape, S->found_tape, n * 4);
    snprintf(msg, sizeof msg, "%s", S->found_msg);
    for (i = 0; i < tries; i++) {
        if (run_tape(p, tape, n)) {
            bad++;
            if (p->flaky)
                break;
        }
        if (p->flaky && now() - t0 > 60)
            break;
    }
    S->replay = 0;
    S->found_n = n;
    memcpy(S->found_tape, tape, n * 4);
    snprintf(S->found_msg, sizeof S->found_msg, "%s", msg);
    return p->flaky ? bad > 0 : bad == 3;
}

/* Cases of a batch, one after another in one process: what an earlier one left behind may matter. */
static int keep_notes;

static int run_history(const eng_prop *p, uint64_t seed, const uint64_t *list, uint32_t n) {
    pid_t pid;
    int status;
    uint32_t k;
    S->replay = 0;
    case_begin();
    pid = fork();
    if (pid == 0) {
        child_setup();
        for (k = 0; k < n; k++) {
            uint32_t nn = S->nnote;
            seed_case(seed, p->name, list[k]);
            case_begin();
            if (keep_notes && nn < NOTEMAX / 2) {
                S->nnote = nn;
                eng_note("--- case %u of %u in one process\n", k + 1, n);
            }
            trk_reset();
            arm();
            p->run();
        }
        _exit(0);
    }
    status = wait_child(pid);
    if (!S->failed && status != 0) {
        char b[4096];
        describe(status, b, sizeof b);
        eng_fail_post("%s", b);
    }
    return S->failed != 0;
}

static int confirmed_history(const eng_prop *p, uint64_t seed, const uint64_t *list, uint32_t n) {
    int i, bad = 0;
    for (i = 0; i < 3; i++)
        bad += run_history(p, seed, list, n);
    return bad == 3;
}

/* fewer cases that still fail together */
static void shrink_history(const eng_prop *p, uint64_t seed, uint64_t *list, uint32_t *n) {
    static uint64_t c[HISTMAX];
    uint32_t sz, i;
    double t0 = now();
    for (sz = *n / 2 ? *n / 2 : 1; sz && now() - t0 < 60; sz /= 2)
        for (i = 0; i + sz <= *n && now() - t0 < 60;) {
            memcpy(c, list, i * sizeof *c);
            memcpy(c + i, list + i + sz, (*n - i - sz) * sizeof *c);
            if (*n - sz > 0 && run_history(p, seed, c, *n - sz)) {
                *n -= sz;
                memcpy(list, c, *n * sizeof *c);
            } else
                i += sz;
        }
}

static void worker(const eng_prop *p, uint64_t seed, uint64_t from, uint64_t to, uint64_t step, double max_wall) {
    uint64_t no = from;
    int batch = 256, flaky_seen = 0;
    trk_reset();
    open_err();
    while (no < to && !G->stop && now() - t_start < max_wall) {
        int bad;
        uint64_t first = no;
        S->replay = 0;
        if (p->mode == ENG_ISO) {
            seed_case(seed, p->name, no);
            bad = run_iso(p);
            if (!bad) {
                case_account();
                no += step;
                continue;
            }
        } else {
            pid_t pid;
            int status;
            pid = fork();
            if (pid == 0) {
                int k;
                child_setup();
                for (k = 0; k < batch && no < to && !G->stop; k++, no += step) {
                    seed_case(seed, p->name, no);
                    case_begin();
                    trk_reset();
                    arm();
                    p->run();
                    case_account();
                }
                S->case_no = no;
                _exit(0);
            }
            status = wait_child(pid);
            bad = S->failed || status != 0;
            no = S->case_no;
            if (!bad)
                continue;
            if (!S->failed) {
                char b[4096];
                describe(status, b, sizeof b);
                eng_fail_post("%s", b);
            }
        }
        record_failure();
        /* replay in a process of its own */
        if (confirmed(p)) {
            G->stop = 1;
            break;
        }
        if (p->mode == ENG_BATCH && !p->flaky && S->found_case > first) {
            char msg[8192];
            uint64_t k;
            S->hist_n = 0;
            for (k = first; k <= S->found_case && S->hist_n < HISTMAX; k += step)
                S->hist[S->hist_n++] = k;
            snprintf(msg, sizeof msg, "%s", S->found_msg);
            if (confirmed_history(p, seed, S->hist, S->hist_n)) {
                snprintf(S->found_msg, sizeof S->found_msg, "%s", msg);
                G->stop = 1;
                break;
            }
            S->hist_n = 0;
            snprintf(S->found_msg, sizeof S->found_msg, "%s", msg);
        }
        S->found = 0;
        S->unreproduced++;
        fprintf(stderr, "note: case %llu failed (%.300s) but not when replayed\n",
            (unsigned long long)S->found_case, S->found_msg);
        if (p->flaky && ++flaky_seen >= 2) {   /* seen twice: real, only hard to replay */
            S->found = 1;
            G->stop = 1;
            break;
        }
        no += step;
    }
    _exit(0);
}

/* --- shrinking ----------------------------------------------------------------------- */
static uint32_t best[TMAX], cand[TMAX];
static uint32_t nbest;
static const eng_prop *sp;
static int budget;
static double t_shrink;

static int try_cand(uint32_t n) {
    int k, tries = sp->flaky ? 6 : 1;
    if (budget <= 0 || now() - t_shrink > 60)
        return 0;
    for (k = 0; k < tries; k++) {
        budget--;
        if (run_tape(sp, cand, n)) {
            /* keep what was really consumed */
            nbest = S->nout < n ? S->nout : n;
            memcpy(best, S->tout, nbest * 4);
            return 1;
        }
    }
    return 0;
}

static void shrink(const eng_prop *p) {
    int progress = 1;
    uint32_t sz, i;
    sp = p;
    budget = p->flaky ? 600 : 4000;
    t_shrink = now();
    cpu_limit = 3;
    while (progress && budget > 0 && now() - t_shrink < 60) {
        progress = 0;
        for (sz = nbest / 2 ? nbest / 2 : 1; sz; sz /= 2)
            for (i = 0; i + sz <= nbest; ) {
                memcpy(cand, best, i * 4);
                memcpy(cand + i, best + i + sz, (nbest - i - sz) * 4);
                if (try_cand(nbest - sz))
                    progress = 1;
                else
                    i += sz > 4 ? sz / 2 : 1;
                if (budget <= 0)
                    return;
            }
        for (sz = nbest / 2 ? nbest / 2 : 1; sz; sz /= 2)
            for (i = 0; i + sz <= nbest; i += sz) {
                uint32_t k, nz = 0;
                for (k = 0; k < sz; k++)
                    nz |= best[i + k];
                if (!nz)
                    continue;
                memcpy(cand, best, nbest * 4);
                memset(cand + i, 0, sz * 4);
                if (try_cand(nbest))
                    progress = 1;
            }
        for (i = 0; i < nbest; i++) {
            uint32_t lo = 0;
            while (i < nbest && best[i] > lo) {
                uint32_t mid = lo + (best[i] - lo) / 2, old = best[i];
                memcpy(cand, best, nbest * 4);
                cand[i] = mid;
                if (try_cand(nbest)) {
                    if (i >= nbest || best[i] >= old)
                        break;
                    progress = 1;
                } else
                    lo = mid + 1;
                if (budget <= 0)
                    return;
            }
        }
    }
}

/* --- output --------------------------------------------------------------------------- */
static void jstr(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\')
            fprintf(f, "\\%c", c);
        else if (c == '\n')
            fputs("\\n", f);
        else if (c < 32 || c > 126)
            fprintf(f, "\\u%04x", c);
        else
            fputc(c, f);
    }
    fputc('"', f);
}

static void write_replay(const char *path, const char *harness, const eng_prop *p, const uint32_t *t, uint32_t n,
    uint64_t seed, const uint64_t *hist, uint32_t nhist) {
    FILE *f = fopen(path, "w");
    uint32_t i;
    if (!f)
        return;
    fprintf(f, "property %s\nharness %s\nvariant %s\nfailure ", p->name, harness, ENG_VARIANT);
    for (i = 0; S->msg[i]; i++)
        fputc(S->msg[i] == '\n' ? ' ' : S->msg[i], f);
    if (nhist) {
        fprintf(f, "\nhistory %llu %u", (unsigned long long)seed, nhist);
        for (i = 0; i < nhist; i++)
            fprintf(f, " %llu", (unsigned long long)hist[i]);
    } else
        fprintf(f, "\ntape %u", n);
    for (i = 0; i < n && !nhist; i++)
        fprintf(f, " %u", t[i]);
    fprintf(f, "\n--- case\n%s", S->note);
    fclose(f);
}

static int do_replay(const eng_prop *p, const char *path) {
    FILE *f = fopen(path, "r");
    char line[256];
    uint32_t n = 0, i;
    static uint32_t t[TMAX];
    int c, bad, k, tries;
    if (!f) {
        perror(path);
        return 2;
    }
    for (;;) {
        if (fscanf(f, "%255s", line) != 1)
            return 2;
        if (!strcmp(line, "tape"))
            break;
        if (!strcmp(line, "history")) {
            unsigned long long seed, v;
            static uint64_t hist[HISTMAX];
            if (fscanf(f, "%llu %u", &seed, &n) != 2 || n > HISTMAX)
                return 2;
            for (i = 0; i < n; i++) {
                if (fscanf(f, "%llu", &v) != 1)
                    return 2;
                hist[i] = v;
            }
            fclose(f);
            eng_verbose = keep_notes = 1;
            bad = run_history(p, seed, hist, n);
            printf("%s", S->note);
            printf(bad ? "FAILS: %s\n" : "passes\n", S->msg);
            return bad;
        }
        while ((c = fgetc(f)) != '\n' && c != EOF) { }
    }
    if (fscanf(f, "%u", &n) != 1 || n > TMAX)
        return 2;
    for (i = 0; i < n; i++)
        if (fscanf(f, "%u", &t[i]) != 1)
            return 2;
    fclose(f);
    eng_verbose = 1;
    tries = p->flaky ? 300 : 1;
    for (bad = 0, k = 0; k < tries && !bad; k++)
        bad = run_tape(p, t, n);
    printf("%s", S->note);
    if (bad) {
        printf("FAILS: %s\n", S->msg);
        return 1;
    }
    printf("passes\n");
    return 0;
}

/* of the race detector, in the build that has it: a race ends the case */
const char *__tsan_default_options(void) {
    return "halt_on_error=1:exitcode=66:report_thread_leaks=0:report_signal_unsafe=0:report_destroy_locked=0:"
        "report_mutex_bugs=0:detect_deadlocks=0:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0";
}

/* a flag that only ever leads to the handlers' being installed once more, under a lock */
const char *__tsan_default_suppressions(void) {
    return "race:exception_signal_set\n";
}

static void *nothing(void *p) { return p; }

/* whether a child with a second thread runs at all in this build and environment */
static int selftest(void) {
    int status = 0;
    pid_t pid = fork();
    if (pid == 0) {
        pthread_t t;
        _exit(pthread_create(&t, NULL, nothing, NULL) || pthread_join(t, NULL) ? 1 : 0);
    }
    if (pid < 0 || waitpid(pid, &status, 0) != pid || !WIFEXITED(status) || WEXITSTATUS(status))
        return 1;
    printf("selftest ok\n");
    return 0;
}

int eng_main(int argc, char **argv, const eng_prop *props, int np) {
    const char *prop = NULL, *out = NULL, *replay = NULL, *rout = "replay.txt";
    uint64_t seed = 1, cases = 1000;
    int workers = 8, i, j, w;
    double max_wall = 1e9;
    const eng_prop *p = NULL;
    shm_t **W;
    const char *harness = strrchr(argv[0], '/') ? strrchr(argv[0], '/') + 1 : argv[0];
    void *bt[4];

    /* the same addresses in every run */
    if (!getenv("ENG_NOASLR")) {
        setenv("ENG_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    for (i = 1; i + 1 < argc; i += 2) {
        if (!strcmp(argv[i], "--prop")) prop = argv[i + 1];
        else if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[i + 1], NULL, 10);
        else if (!strcmp(argv[i], "--cases")) cases = strtoull(argv[i + 1], NULL, 10);
        else if (!strcmp(argv[i], "--workers")) workers = atoi(argv[i + 1]);
        else if (!strcmp(argv[i], "--out")) out = argv[i + 1];
        else if (!strcmp(argv[i], "--replay")) replay = argv[i + 1];
        else if (!strcmp(argv[i], "--replay-out")) rout = argv[i + 1];
        else if (!strcmp(argv[i], "--max-wall")) max_wall = atof(argv[i + 1]);
        else if (!strcmp(argv[i], "--selftest")) return selftest();
        else if (!strcmp(argv[i], "--tier")) tier = !strcmp(argv[i + 1], "thorough");
        else {
            fprintf(stderr, "unknown option %s\n", argv[i]);
            return 2;
        }
    }
    for (i = 0; i < np; i++)
        if (prop && !strcmp(props[i].name, prop))
            p = &props[i];
    if (!p) {
        fprintf(stderr, "unknown property\n");
        return 2;
    }
    t_start = now();
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    i = backtrace(bt, 4);         /* loads what backtrace() needs, once */
    G = mmap(NULL, sizeof *G, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    W = calloc(workers + 1, sizeof *W);
    for (w = 0; w <= workers; w++) {
        W[w] = mmap(NULL, sizeof(shm_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if ((void *)W[w] == MAP_FAILED || (void *)G == MAP_FAILED) {
            perror("mmap");
            return 2;
        }
    }
    i = open("/dev/null", O_RDWR);
    if (replay) {
        int save = dup(1);
        dup2(i, 1);
        S = W[workers];
        trk_reset();
        open_err();
        stdout = fdopen(save, "w");
        return do_replay(p, replay);
    }
    fflush(NULL);
    for (w = 0; w < workers; w++) {
        pid_t pid = fork();
        if (pid == 0) {
            dup2(i, 1);
            S = W[w];
            worker(p, seed, w, cases, workers, max_wall);
        }
    }
    for (w = 0; w < workers; ) {
        int st;
        pid_t pid = wait(&st);
        if (pid < 0)
            break;
        w++;
        if (st) {
            fprintf(stderr, "a worker failed (status %x)\n", st);
            G->stop = 2;
        }
    }
    if (G->stop == 2)
        return 2;
    /* results */
    {
        uint64_t evals = 0, nontriv = 0, unrep = 0, distinct = G->distinct, ran = 0;
        static struct { char n[40]; uint64_t c; } lab[NLAB * 2];
        int nlab = 0, found = -1, nsamp = 0;
        char *samples[4] = { 0 };
        char vmsg[8192] = "";
        FILE *f;
        for (w = 0; w < workers; w++) {
            evals += W[w]->evals;
            ran += W[w]->cases;
            nontriv += W[w]->nontriv;
            unrep += W[w]->unreproduced;
            for (i = 0; i < (int)W[w]->nlab; i++) {
                for (j = 0; j < nlab; j++)
                    if (!strcmp(lab[j].n, W[w]->labname[i]))
                        break;
                if (j == nlab && nlab < NLAB * 2)
                    strcpy(lab[nlab++].n, W[w]->labname[i]);
                if (j < nlab)
                    lab[j].c += W[w]->labcount[i];
            }
            if (W[w]->found && (found < 0 || W[w]->found_n < W[found]->found_n))
                found = w;
        }
        S = W[workers];
        trk_reset();
        open_err();
        {
            int nul = open("/dev/null", O_RDWR), save = dup(1);
            dup2(nul, 1);
            stdout = fdopen(save, "w");
        }
        if (found >= 0) {
            int k;
            nbest = W[found]->found_n;
            memcpy(best, W[found]->found_tape, nbest * 4);
            snprintf(vmsg, sizeof vmsg, "%s", W[found]->found_msg);
            if (W[found]->hist_n)
                shrink_history(p, seed, W[found]->hist, &W[found]->hist_n);
            else
                shrink(p);
            cpu_limit = 20;
            eng_verbose = keep_notes = 1;
            if (W[found]->hist_n) {
                if (run_history(p, seed, W[found]->hist, W[found]->hist_n))
                    snprintf(vmsg, sizeof vmsg, "%s (case %u of %u in one process)", S->msg, W[found]->hist_n, W[found]->hist_n);
            } else
            for (k = 0; k < (p->flaky ? 300 : 1); k++)
                if (run_tape(p, best, nbest)) {
                    snprintf(vmsg, sizeof vmsg, "%s", S->msg);
                    break;
                }
            if (!S->failed)
                snprintf(S->msg, sizeof S->msg, "%s", vmsg);
            write_replay(rout, harness, p, best, nbest, seed, W[found]->hist, W[found]->hist_n);
        } else {
            eng_verbose = 1;
            for (w = 0; w < workers && nsamp < 4; w++)
                if (W[w]->nsamp) {
                    int k = w % W[w]->nsamp;
                    run_tape(p, W[w]->samp[k].v, W[w]->samp[k].n);
                    S->note[S->nnote > 3000 ? 3000 : S->nnote] = 0;
                    samples[nsamp++] = strdup(S->note);
                }
        }
        f = out ? fopen(out, "w") : stdout;
        if (!f) {
            perror(out);
            return 2;
        }
        fprintf(f, "{\"property\":\"%s\",\"harness\":\"%s\",\"variant\":\"%s\",\"cases\":%llu,\"evaluations\":%llu,"
            "\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"unreproduced\":%llu,\"wall_s\":%.2f,\"rule\":",
            p->name, harness, ENG_VARIANT, (unsigned long long)ran, (unsigned long long)evals,
            (unsigned long long)nontriv, (unsigned long long)distinct, (unsigned long long)unrep, now() - t_start);
        jstr(f, p->rule);
        fprintf(f, ",\"labels\":{");
        for (j = 0; j < nlab; j++) {
            if (j)
                fputc(',', f);
            jstr(f, lab[j].n);
            fprintf(f, ":%llu", (unsigned long long)lab[j].c);
        }
        fprintf(f, "},\"samples\":[");
        for (j = 0; j < nsamp; j++) {
            if (j)
                fputc(',', f);
            jstr(f, samples[j]);
        }
        fprintf(f, "],\"violation\":");
        if (found >= 0)
            jstr(f, vmsg);
        else
            fprintf(f, "null");
        fprintf(f, "}\n");
        if (out)
            fclose(f);
        fflush(stdout);
        return found >= 0 ? 1 : 0;
    }
}
