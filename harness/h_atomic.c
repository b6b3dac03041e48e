/* C23: atomic operations one at a time against their definitions, and by several threads against
 * what no schedule may break. */
#include "eng.h"
#include "raii.h"
#include <string.h>
#include <stdio.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <math.h>

enum { O_TAS, O_CLEAR, O_STORE, O_LOAD, O_XCHG, O_CAS_S, O_CAS_W, O_CASVAL, O_ADD, O_SUB, O_OR, O_XOR, O_AND, O_KINDS };
static const char *const oname[] = { "test_and_set", "clear", "store", "load", "exchange", "compare_exchange_strong",
    "compare_exchange_weak", "compare_and_swap", "fetch_add", "fetch_sub", "fetch_or", "fetch_xor", "fetch_and" };
static const int orders[] = { memory_order_seq_cst, memory_order_relaxed, memory_order_acquire, memory_order_release, memory_order_acq_rel };

/* One operation of a width: form 0 implicit, 1 explicit, 2 signed, 3 signed explicit; 4, 5 the generic macros (64 bits).
 * The value it gives, as it comes, in *ret; whether it succeeded. */
#define WIDTH(W, U, I)                                                                                           \
static __attribute__((noinline)) int do_##W(volatile U *p, int op, int form, int order, U arg, U *exp, long long *ret) { \
    volatile I *s = (volatile I *)p;                                                                             \
    int lo = order == memory_order_release || order == memory_order_acq_rel ? memory_order_acquire : order;      \
    int so = order == memory_order_acquire || order == memory_order_acq_rel ? memory_order_release : order;      \
    *ret = 0;                                                                                                    \
    switch (op * 8 + form) {                                                                                     \
        case O_TAS * 8: *ret = c89atomic_test_and_set_##W(p); break;                                             \
        case O_TAS * 8 + 1: *ret = c89atomic_test_and_set_explicit_##W(p, order); break;                         \
        case O_TAS * 8 + 2: *ret = c89atomic_test_and_set_i##W(s); break;                                        \
        case O_TAS * 8 + 3: *ret = c89atomic_test_and_set_explicit_i##W(s, order); break;                        \
        case O_CLEAR * 8: c89atomic_clear_##W(p); break;                                                         \
        case O_CLEAR * 8 + 1: c89atomic_clear_explicit_##W(p, so); break;                                        \
        case O_CLEAR * 8 + 2: c89atomic_clear_i##W(s); break;                                                    \
        case O_CLEAR * 8 + 3: c89atomic_clear_explicit_i##W(s, so); break;                                       \
        case O_STORE * 8: c89atomic_store_##W(p, arg); break;                                                    \
        case O_STORE * 8 + 1: c89atomic_store_explicit_##W(p, arg, so); break;                                   \
        case O_STORE * 8 + 2: c89atomic_store_i##W(s, (I)arg); break;                                            \
        case O_STORE * 8 + 3: c89atomic_store_explicit_i##W(s, (I)arg, so); break;                               \
        case O_LOAD * 8: *ret = c89atomic_load_##W(p); break;                                                    \
        case O_LOAD * 8 + 1: *ret = c89atomic_load_explicit_##W(p, lo); break;                                   \
        case O_LOAD * 8 + 2: *ret = c89atomic_load_i##W(s); break;                                               \
        case O_LOAD * 8 + 3: *ret = c89atomic_load_explicit_i##W(s, lo); break;                                  \
        case O_XCHG * 8: *ret = c89atomic_exchange_##W(p, arg); break;                                           \
        case O_XCHG * 8 + 1: *ret = c89atomic_exchange_explicit_##W(p, arg, order); break;                       \
        case O_XCHG * 8 + 2: *ret = c89atomic_exchange_i##W(s, (I)arg); break;                                   \
        case O_XCHG * 8 + 3: *ret = c89atomic_exchange_explicit_i##W(s, (I)arg, order); break;                   \
        case O_CAS_S * 8: return c89atomic_compare_exchange_strong_##W(p, exp, arg);                             \
        case O_CAS_S * 8 + 1: return c89atomic_compare_exchange_strong_explicit_##W(p, exp, arg, order, lo);     \
        case O_CAS_S * 8 + 2: return c89atomic_compare_exchange_strong_i##W(s, (I *)exp, (I)arg);                \
        case O_CAS_S * 8 + 3: return c89atomic_compare_exchange_strong_explicit_i##W(s, (I *)exp, (I)arg, order, lo); \
        case O_CAS_W * 8: return c89atomic_compare_exchange_weak_##W(p, exp, arg);                               \
        case O_CAS_W * 8 + 1: return c89atomic_compare_exchange_weak_explicit_##W(p, exp, arg, order, lo);       \
        case O_CAS_W * 8 + 2: return c89atomic_compare_exchange_weak_i##W(s, (I *)exp, (I)arg);                  \
        case O_CAS_W * 8 + 3: return c89atomic_compare_exchange_weak_explicit_i##W(s, (I *)exp, (I)arg, order, lo); \
        case O_CASVAL * 8: case O_CASVAL * 8 + 1: *ret = c89atomic_compare_and_swap_##W(p, *exp, arg); break;    \
        case O_CASVAL * 8 + 2: case O_CASVAL * 8 + 3: *ret = c89atomic_compare_and_swap_i##W(s, *(I *)exp, (I)arg); break; \
        FETCH(W, U, I, O_ADD, add) FETCH(W, U, I, O_SUB, sub) FETCH(W, U, I, O_OR, or) FETCH(W, U, I, O_XOR, xor) \
        FETCH(W, U, I, O_AND, and)                                                                               \
        GENERIC##W                                                                                               \
        default: CHECK(0, "no such operation");                                                                  \
    }                                                                                                            \
    return 1;                                                                                                    \
}
#define FETCH(W, U, I, O, N)                                                                                     \
        case O * 8: *ret = c89atomic_fetch_##N##_##W(p, arg); break;                                             \
        case O * 8 + 1: *ret = c89atomic_fetch_##N##_explicit_##W(p, arg, order); break;                         \
        case O * 8 + 2: *ret = c89atomic_fetch_##N##_i##W(s, (I)arg); break;                                     \
        case O * 8 + 3: *ret = c89atomic_fetch_##N##_explicit_i##W(s, (I)arg, order); break;
#define GENERIC8
#define GENERIC16
#define GENERIC32
#define GFETCH(O, N)                                                                                             \
        case O * 8 + 4: *ret = atomic_fetch_##N(p, arg); break;                                                  \
        case O * 8 + 5: *ret = atomic_fetch_##N##_explicit(p, arg, order); break;
#define GENERIC64                                                                                                \
        case O_STORE * 8 + 4: if (order == memory_order_relaxed) atomic_init(p, arg); else atomic_store(p, arg); break; \
        case O_STORE * 8 + 5: atomic_store_explicit(p, arg, so); break;                                          \
        case O_LOAD * 8 + 4: *ret = order == memory_order_relaxed ? atomic_get(long long, p) : (long long)atomic_load(p); break; \
        case O_LOAD * 8 + 5: *ret = atomic_load_explicit(p, lo); break;                                          \
        case O_XCHG * 8 + 4: *ret = atomic_exchange(p, arg); break;                                              \
        case O_XCHG * 8 + 5: *ret = atomic_exchange_explicit(p, arg, order); break;                              \
        case O_CAS_S * 8 + 4: return atomic_compare_exchange_strong(p, exp, arg);                                \
        case O_CAS_S * 8 + 5: return atomic_compare_exchange_strong_explicit(p, exp, arg, order, lo);            \
        case O_CAS_W * 8 + 4: return atomic_compare_exchange_weak(p, exp, arg);                                  \
        case O_CAS_W * 8 + 5: return atomic_compare_exchange_weak_explicit(p, exp, arg, order, lo);              \
        case O_CASVAL * 8 + 4: return atomic_cas(p, exp, arg);                                                   \
        case O_CASVAL * 8 + 5: return atomic_swap(p, exp, arg);                                                  \
        GFETCH(O_ADD, add) GFETCH(O_SUB, sub) GFETCH(O_OR, or) GFETCH(O_XOR, xor) GFETCH(O_AND, and)

WIDTH(8, c89atomic_uint8, c89atomic_int8)
WIDTH(16, c89atomic_uint16, c89atomic_int16)
WIDTH(32, c89atomic_uint32, c89atomic_int32)
WIDTH(64, c89atomic_uint64, c89atomic_int64)

static int do_w(int w, volatile void *p, int op, int form, int order, uint64_t arg, uint64_t *exp, long long *ret) {
    int r;
    c89atomic_uint8 e8 = (c89atomic_uint8)*exp;
    c89atomic_uint16 e16 = (c89atomic_uint16)*exp;
    c89atomic_uint32 e32 = (c89atomic_uint32)*exp;
    c89atomic_uint64 e64 = *exp;
    switch (w) {
        case 8: r = do_8(p, op, form, order, (c89atomic_uint8)arg, &e8, ret); *exp = e8; return r;
        case 16: r = do_16(p, op, form, order, (c89atomic_uint16)arg, &e16, ret); *exp = e16; return r;
        case 32: r = do_32(p, op, form, order, (c89atomic_uint32)arg, &e32, ret); *exp = e32; return r;
        default: r = do_64(p, op, form, order, arg, &e64, ret); *exp = e64; return r;
    }
}

static uint64_t mask(int w) { return w == 64 ? ~0ull : (1ull << w) - 1; }
static long long as(int w, int form, uint64_t v) {
    v &= mask(w);
    if ((form == 2 || form == 3) && w < 64 && (v >> (w - 1)))
        v |= ~mask(w);
    return (long long)v;
}

static uint64_t g_val(int w) {
    switch (d_w("2342222")) {
        case 0: return 0;
        case 1: return d_u(3);
        case 2: return d_u64();
        case 3: return ~0ull - d_u(2);
        case 4: return (1ull << (w - 1)) - 1 + d_u(2);
        case 5: return 1ull << d_u(w - 1);
        default: return d_u64() & (1ull << d_in(1, 63)) - 1;
    }
}

static uint64_t get(const unsigned char *m, int w, int i) {
    uint64_t v = 0;
    memcpy(&v, m + i * (w / 8), w / 8);
    return v;
}

/* the valid forms of an operation */
static int g_form(int w, int op) {
    int f = (int)d_u(w == 64 && op > O_CLEAR ? 5 : 3);
    return f;
}

/* --- one at a time ------------------------------------------------------------------ */
#define CELLS 5
static void sequential(void) {
    int w = 8 << d_u(3), n = d_in(1, 40), k, kinds = 0, seen = 0;
    unsigned char mem[CELLS * 8 + 16] __attribute__((aligned(16)));
    uint64_t model[CELLS];
    for (k = 0; k < CELLS; k++) {
        model[k] = g_val(w) & mask(w);
        memcpy(mem + k * (w / 8), &model[k], w / 8);
    }
    memset(mem + CELLS * (w / 8), 0x5A, sizeof mem - CELLS * (w / 8));
    NOTE("%d bits: %llx %llx %llx %llx %llx\n", w, (long long)model[0], (long long)model[1], (long long)model[2], (long long)model[3], (long long)model[4]);
    while (n-- > 0) {
        int i = (int)d_u(CELLS - 1), op = (int)d_u(O_KINDS - 1), form = g_form(w, op), order = orders[d_u(4)], ok, wok = 1;
        uint64_t old = model[i], arg = g_val(w), exp = d_p(1, 2) ? old : d_p(1, 4) && w < 64 ? old ^ 1ull << d_u(w - 1) : g_val(w), e0, nv = old;
        long long ret, wret = 0;
        int chkret = 1;
        arg &= mask(w);
        exp &= mask(w);
        e0 = exp;
        if (form >= 4 && op == O_CASVAL && 0)
            continue;
        NOTE("%s form %d order %d of %d: %llx (expected %llx)\n", oname[op], form, order, i, (unsigned long long)arg, (unsigned long long)exp);
        switch (op) {
            case O_TAS: nv = 1; wret = as(w, form, old); break;
            case O_CLEAR: nv = 0; chkret = 0; break;
            case O_STORE: nv = arg; chkret = 0; break;
            case O_LOAD: wret = as(w, form, old); break;
            case O_XCHG: nv = arg; wret = as(w, form, old); break;
            case O_CAS_S: case O_CAS_W: wok = old == exp; if (wok) nv = arg; chkret = 0; break;
            case O_CASVAL:
                if (form >= 4) { wok = old == exp; if (wok) nv = arg; chkret = 0; break; }
                if (old == exp) nv = arg;
                wret = as(w, form, old);
                break;
            case O_ADD: nv = (old + arg) & mask(w); wret = as(w, form, old); break;
            case O_SUB: nv = (old - arg) & mask(w); wret = as(w, form, old); break;
            case O_OR: nv = old | arg; wret = as(w, form, old); break;
            case O_XOR: nv = old ^ arg; wret = as(w, form, old); break;
            case O_AND: nv = old & arg; wret = as(w, form, old); break;
        }
        ok = do_w(w, mem + i * (w / 8), op, form, order, arg, &exp, &ret);
        if (op == O_CAS_S || op == O_CAS_W || (op == O_CASVAL && form >= 4)) {
            if (op == O_CAS_W && wok && !ok) {     /* a weak one may fail */
                CHECK(get(mem, w, i) == old, "a weak compare-exchange fails and stores");
                continue;
            }
            CHECK(!!ok == wok, "%s (%d bits, form %d) of %llx, expecting %llx, %s", oname[op], w, form, (unsigned long long)old, (unsigned long long)e0, ok ? "succeeds" : "fails");
            CHECK(exp == (wok ? e0 : old), "%s (%d bits, form %d) leaves %llx as the expected value, the value was %llx", oname[op], w, form, (unsigned long long)exp, (unsigned long long)old);
        }
        CHECK(!chkret || ret == wret, "%s (%d bits, form %d) of %llx and %llx gives %llx, not %llx", oname[op], w, form, (unsigned long long)old, (unsigned long long)arg, ret, wret);
        CHECK(get(mem, w, i) == nv, "%s (%d bits, form %d) of %llx and %llx stores %llx, not %llx", oname[op], w, form, (unsigned long long)old, (unsigned long long)arg, (unsigned long long)get(mem, w, i), (unsigned long long)nv);
        model[i] = nv;
        for (k = 0; k < CELLS; k++)
            CHECK(get(mem, w, k) == model[k], "%s (%d bits, form %d) changes another object", oname[op], w, form);
        for (k = CELLS * (w / 8); k < (int)sizeof mem; k++)
            CHECK(mem[k] == 0x5A, "%s (%d bits, form %d) writes past an object", oname[op], w, form);
        if (!(seen >> op & 1))
            kinds++;
        seen |= 1 << op;
    }
    if (kinds >= 3)
        eng_nontrivial();
}

/* --- floating point, pointers, flags ------------------------------------------------------ */
static double g_num(void) {
    switch (d_w("34212")) {
        case 0: return d_in(-9, 9);
        case 1: return d_in(-1000000, 1000000) / 64.0;
        case 2: return ldexp((double)d_in(-1000, 1000), d_in(-30, 30));
        case 3: return d_p(1, 2) ? 0.0 : -0.0;
        default: return d_in(0, 7) * 0.1;
    }
}

#define FLOATS(F, T, U)                                                                                   \
static __attribute__((noinline)) void do_##F(int n) {                                                     \
    struct { T a; volatile T x; T b; } s = { (T)7, 0, (T)9 };                                             \
    T m = (T)g_num(), a, e, r, want;                                                                      \
    U bm, ba, bw;                                                                                         \
    c89atomic_store_##F(&s.x, m);                                                                         \
    while (n-- > 0) {                                                                                     \
        int op = (int)d_u(11), ex = d_p(1, 2), ok;                                                        \
        a = (T)g_num();                                                                                   \
        memcpy(&bm, &m, sizeof m);                                                                        \
        memcpy(&ba, &a, sizeof a);                                                                        \
        want = m;                                                                                         \
        r = m;                                                                                            \
        NOTE(#F ": operation %d%s of %g and %g\n", op, ex ? " explicit" : "", (double)m, (double)a);      \
        switch (op) {                                                                                     \
            case 0: if (ex) c89atomic_store_explicit_##F(&s.x, a, memory_order_release); else c89atomic_store_##F(&s.x, a); m = a; break; \
            case 1: r = ex ? c89atomic_load_explicit_##F(&s.x, memory_order_acquire) : c89atomic_load_##F(&s.x); break; \
            case 2: r = ex ? c89atomic_exchange_explicit_##F(&s.x, a, memory_order_acq_rel) : c89atomic_exchange_##F(&s.x, a); m = a; break; \
            case 3: case 4:                                                                               \
                e = d_p(1, 2) ? m : a;                                                                    \
                ok = memcmp(&e, &m, sizeof e) == 0;                                                       \
                if (op == 3)                                                                              \
                    r = c89atomic_compare_and_swap_##F(&s.x, e, (T)(a + 1));                              \
                else {                                                                                    \
                    int did = ex ? c89atomic_compare_exchange_strong_explicit_##F(&s.x, &e, (T)(a + 1), memory_order_seq_cst, memory_order_relaxed) \
                        : c89atomic_compare_exchange_strong_##F(&s.x, &e, (T)(a + 1));                    \
                    CHECK(!!did == ok, "a compare-exchange of " #F " %s", did ? "succeeds" : "fails");    \
                    CHECK(memcmp(&e, &m, sizeof e) == 0, "a compare-exchange of " #F " leaves %g as expected, the value was %g", (double)e, (double)m); \
                }                                                                                         \
                if (ok) m = (T)(a + 1);                                                                   \
                break;                                                                                    \
            case 5: case 6: r = ex ? c89atomic_fetch_add_explicit_##F(&s.x, a, memory_order_relaxed) : c89atomic_fetch_add_##F(&s.x, a); m = (T)(m + a); break; \
            case 7: case 8: r = ex ? c89atomic_fetch_sub_explicit_##F(&s.x, a, memory_order_relaxed) : c89atomic_fetch_sub_##F(&s.x, a); m = (T)(m - a); break; \
            case 9: r = c89atomic_fetch_or_##F(&s.x, a); bw = bm | ba; memcpy(&m, &bw, sizeof m); break;  \
            case 10: r = c89atomic_fetch_xor_##F(&s.x, a); bw = bm ^ ba; memcpy(&m, &bw, sizeof m); break; \
            default: r = c89atomic_fetch_and_##F(&s.x, a); bw = bm & ba; memcpy(&m, &bw, sizeof m); break; \
        }                                                                                                 \
        CHECK(memcmp(&r, &want, sizeof r) == 0, "operation %d of " #F " gives %g, the value was %g", op, (double)r, (double)want); \
        { T now = s.x; CHECK(memcmp(&now, &m, sizeof m) == 0, "operation %d of " #F " stores %g, not %g", op, (double)now, (double)m); } \
        CHECK(s.a == 7 && s.b == 9, "operation %d of " #F " changes another object", op);                 \
        if (!(m > -1e30 && m < 1e30)) {                                                                   \
            m = 1;                                                                                        \
            c89atomic_store_##F(&s.x, m);                                                                 \
        }                                                                                                 \
    }                                                                                                     \
}
FLOATS(f32, float, c89atomic_uint32)
FLOATS(f64, double, c89atomic_uint64)

static void pointers(int n) {
    static char room[64];
    void *m = NULL, *e, *r, *a;
    struct { void *a; void *x; void *b; } s = { room, NULL, room + 1 };
    while (n-- > 0) {
        int op = (int)d_u(6), ok, did;
        a = d_p(1, 6) ? NULL : room + d_u(63);
        e = d_p(1, 2) ? m : (void *)(room + d_u(63));
        ok = e == m;
        r = m;
        NOTE("pointers: operation %d\n", op);
        switch (op) {
            case 0: c89atomic_store_ptr(&s.x, a); m = a; break;
            case 1: r = c89atomic_load_ptr(&s.x); CHECK(r == m, "a pointer is loaded wrong"); break;
            case 2: r = c89atomic_exchange_ptr(&s.x, a); CHECK(r == m, "a pointer is exchanged wrong"); m = a; break;
            case 3: r = c89atomic_compare_and_swap_ptr((volatile void **)&s.x, e, a); CHECK(r == m, "compare-and-swap of a pointer gives another"); if (ok) m = a; break;
            case 4: case 5: case 6:
                did = op == 4 ? c89atomic_compare_exchange_strong_ptr(&s.x, &e, a) : op == 5 ? atomic_swap((atomic_ptr_t *)&s.x, &e, a) :
                    c89atomic_compare_exchange_weak_ptr(&s.x, &e, a);
                if (op == 6 && ok && !did)
                    break;
                CHECK(!!did == ok, "a compare-exchange of a pointer %s", did ? "succeeds" : "fails");
                CHECK(e == m, "a compare-exchange leaves another pointer as the expected one");
                if (ok) m = a;
                break;
        }
        CHECK(s.x == m, "operation %d of a pointer stores another", op);
        CHECK(s.a == room && s.b == room + 1, "operation %d of a pointer changes another object", op);
    }
}

static void flags(int n) {
    struct { unsigned char a; c89atomic_flag f; unsigned char b; } s = { 0x11, 0, 0x22 };
    struct { unsigned char a; atomic_spinlock l; unsigned char b; } l = { 0x33, 0, 0x44 };
    int m = 0;
    while (n-- > 0) {
        int op = (int)d_u(6), r;
        NOTE("flag: operation %d\n", op);
        switch (op) {
            case 0: r = atomic_flag_test_and_set(&s.f); CHECK(!!r == m, "test-and-set of a flag gives %d", r); m = 1; break;
            case 1: r = atomic_flag_test_and_set_explicit(&s.f, memory_order_acquire); CHECK(!!r == m, "test-and-set of a flag gives %d", r); m = 1; break;
            case 2: atomic_flag_clear(&s.f); m = 0; break;
            case 3: atomic_flag_clear_explicit(&s.f, memory_order_release); m = 0; break;
            case 4: r = atomic_flag_load(&s.f); CHECK(!!r == m, "a flag reads as %d", r); break;
            case 5: r = atomic_flag_load_explicit(&s.f, memory_order_acquire); CHECK(!!r == m, "a flag reads as %d", r); break;
            default:
                atomic_lock(&l.l);
                CHECK(atomic_flag_load(&l.l), "a locked spinlock is not set");
                atomic_unlock(&l.l);
                CHECK(!atomic_flag_load(&l.l), "an unlocked spinlock is set");
                break;
        }
        CHECK(s.a == 0x11 && s.b == 0x22 && l.a == 0x33 && l.b == 0x44, "operation %d of a flag changes another object", op);
    }
}

/* --- several threads ----------------------------------------------------------------------- */
#define NTH 8
#ifdef __SANITIZE_THREAD__
#define RACES 1                                     /* the build with the race detector */
#else
#define RACES 0
#endif
#define NITER 3000
enum { K_ADD, K_TICKET, K_XOR, K_BITS, K_TOKENS, K_CASLOOP, K_CASVAL, K_FLAG, K_SPIN, K_TAS, K_FLOAT, K_STACK, K_DEKKER, K_PUBLISH, K_COUNT };
static const char *const kname[] = { "additions", "tickets", "exclusive or", "bits", "tokens", "compare-exchange loops", "compare-and-swap loops",
    "flag", "spinlocks", "test-and-set", "floating point additions", "pointer stack", "store and load", "publication" };

static struct {
    char pad0[128];
    volatile uint64_t x __attribute__((aligned(64)));
    volatile uint64_t y __attribute__((aligned(64)));
    c89atomic_flag flag __attribute__((aligned(64)));
    atomic_spinlock spin[3] __attribute__((aligned(64)));
    volatile float f __attribute__((aligned(64)));
    volatile double d __attribute__((aligned(64)));
    void *top __attribute__((aligned(64)));
    long cnt[3], cnt2[3];
    volatile int inside[3];
    volatile int go, round[2];
    char pad1[128];
} G;
static int kind, cw, cform, corder, iters, cth, cpause;
static uint64_t targ[NTH][4], tsum[NTH], tstart;
static unsigned char *seen;
static int bad[NTH];
static char why[NTH][160];
static struct snode { struct snode *next; int owner, no; } snodes[NTH][64];
static uint64_t took[NTH][NITER];
static volatile int dx[2][NITER];

static void wait_go(void) {
    __sync_fetch_and_add(&G.go, 1);
    while (__atomic_load_n(&G.go, __ATOMIC_ACQUIRE) < cth) {
        __asm__ volatile("pause");
        if (cth > 4)
            sched_yield();
    }
}

/* Whose turn it is, told by an object of one of five kinds, whose value of turn n is: */
static int hkind, hop[2], hwait[2], hform[2], hwform[2], horder[2], hworder[2];
static uint64_t hstep;
enum { H_VALUE, H_BIT, H_FLAG, H_PTR, H_FLOAT, H_DOUBLE, H_KINDS };
static const char *const hkname[] = { "values", "a bit", "a flag", "a pointer", "a float", "a double" };
static const char *hname(int op) { return hkind <= H_BIT ? oname[op] : "an operation"; }
static uint64_t turn(int n) { return (hkind == H_BIT ? n & 1 : tstart + n * hstep) & mask(cw); }

static int turn_is(int n) {
    long long ret;
    uint64_t v = turn(n), exp = v;
    int t = n & 1, o = hworder[t], ex = hwform[t] & 1, k = hwait[t];
    switch (hkind) {
        case H_FLAG: return !!(ex ? atomic_flag_load_explicit(&G.flag, o) : atomic_flag_load(&G.flag)) == (n & 1);
        case H_PTR: {
            void *e = &snodes[0][0] + (n & 31), *was = e;
            volatile void **p = (volatile void **)&G.top;
            return k & 1 ? (ex ? c89atomic_compare_exchange_strong_explicit_ptr(p, &e, was, memory_order_acq_rel, memory_order_acquire) : k & 2 ? c89atomic_compare_exchange_weak_ptr(p, &e, was) : c89atomic_compare_and_swap_ptr(p, e, was) == was)
                : (ex ? c89atomic_load_explicit_ptr(p, o) : c89atomic_load_ptr(p)) == was;
        }
        case H_FLOAT: return (k == O_OR ? c89atomic_fetch_or_explicit_f32(&G.f, 0, o == memory_order_seq_cst ? o : memory_order_acq_rel) : k == O_XOR ? c89atomic_fetch_xor_explicit_f32(&G.f, 0, memory_order_acq_rel) : k & 1 ? ex ? c89atomic_fetch_add_explicit_f32(&G.f, 0, memory_order_seq_cst) : c89atomic_fetch_sub_f32(&G.f, 0) : ex ? c89atomic_load_explicit_f32(&G.f, o) : c89atomic_load_f32(&G.f)) == (float)n;
        case H_DOUBLE: return (k == O_OR ? c89atomic_fetch_or_explicit_f64(&G.d, 0, o == memory_order_seq_cst ? o : memory_order_acq_rel) : k == O_XOR ? c89atomic_fetch_xor_explicit_f64(&G.d, 0, memory_order_acq_rel) : k & 1 ? ex ? c89atomic_fetch_sub_explicit_f64(&G.d, 0, memory_order_seq_cst) : c89atomic_fetch_add_f64(&G.d, 0) : ex ? c89atomic_load_explicit_f64(&G.d, o) : c89atomic_load_f64(&G.d)) == (double)n;
    }
    switch (k) {
        case O_CAS_S: case O_CAS_W: return do_w(cw, &G.x, k, hwform[t], o, v, &exp, &ret);
        case O_CASVAL:
            k = do_w(cw, &G.x, k, hwform[t], o, v, &exp, &ret);
            return hwform[t] >= 4 ? k : ((uint64_t)ret & mask(cw)) == v;
    }
    do_w(cw, &G.x, k, hwform[t], o, k == O_AND ? mask(cw) : 0, &exp, &ret);
    return ((uint64_t)ret & mask(cw)) == v;
}

static void turn_set(int n, int t, int i) {
    long long ret;
    uint64_t v = turn(n), next = turn(n + 1), exp = v, arg = next;
    int o = horder[t], ex = hform[t] & 1, k = hop[t];
    switch (hkind) {
        case H_FLAG:
            if (n & 1)
                if (ex) atomic_flag_clear_explicit(&G.flag, o == memory_order_acq_rel ? memory_order_release : o); else atomic_flag_clear(&G.flag);
            else
                (void)(ex ? atomic_flag_test_and_set_explicit(&G.flag, o) : atomic_flag_test_and_set(&G.flag));
            return;
        case H_PTR: {
            void *w = &snodes[0][0] + (n + 1 & 31), *e = &snodes[0][0] + (n & 31);
            volatile void **p = (volatile void **)&G.top;
            switch (k % 4) {
                case 0: if (ex) c89atomic_store_explicit_ptr(p, w, o == memory_order_acq_rel ? memory_order_release : o); else c89atomic_store_ptr(p, w); break;
                case 1: if (ex) c89atomic_exchange_explicit_ptr(p, w, o); else c89atomic_exchange_ptr(p, w); break;
                case 2: if (ex) c89atomic_compare_exchange_strong_explicit_ptr(p, &e, w, o, memory_order_acquire); else c89atomic_compare_exchange_strong_ptr(p, &e, w); break;
                default: if (ex) atomic_swap((atomic_ptr_t *)p, &e, w); else c89atomic_compare_and_swap_ptr(p, e, w); break;
            }
            return;
        }
#define TURN(F, T, x)                                                                                     \
            switch (k % 4) {                                                                              \
                case 0: if (ex) c89atomic_store_explicit_##F(&x, (T)(n + 1), o == memory_order_acq_rel ? memory_order_release : o); else c89atomic_store_##F(&x, (T)(n + 1)); break; \
                case 1: if (ex) c89atomic_exchange_explicit_##F(&x, (T)(n + 1), o); else c89atomic_exchange_##F(&x, (T)(n + 1)); break; \
                case 2: { T e = (T)n; if (ex) c89atomic_compare_exchange_strong_explicit_##F(&x, &e, (T)(n + 1), o, memory_order_acquire); else c89atomic_compare_and_swap_##F(&x, e, (T)(n + 1)); break; } \
                default: if (ex) c89atomic_fetch_add_explicit_##F(&x, 1, o); else c89atomic_fetch_sub_##F(&x, -1); break; \
            }                                                                                             \
            return;
        case H_FLOAT: TURN(f32, float, G.f)
        case H_DOUBLE: TURN(f64, double, G.d)
        case H_BIT:
            k = n & 1 ? i & 1 ? O_CLEAR : O_AND : i & 1 ? O_TAS : O_OR;
            arg = k == O_OR ? 1 : mask(cw) - 1;
            do_w(cw, &G.x, k, i & 1 ? hform[t] & 3 : hform[t], o, arg, &exp, &ret);
            return;
    }
    switch (k) {
        case O_ADD: arg = next - v; break;
        case O_SUB: arg = v - next; break;
        case O_XOR: arg = v ^ next; break;
        case O_CAS_W:
            while (!do_w(cw, &G.x, k, hform[t], o, arg, &exp, &ret))
                exp = v;
            return;
    }
    do_w(cw, &G.x, k, hform[t], o, arg & mask(cw), &exp, &ret);
}

#define WRONG(...) do { snprintf(why[t], sizeof why[t], __VA_ARGS__); bad[t] = 1; return NULL; } while (0)

static void *worker(void *arg) {
    int t = (int)(intptr_t)arg, i, k;
    uint64_t exp = 0;
    long long ret;
    wait_go();
    for (i = 0; i < iters; i++) {
        if (cpause && (i * 7 + t) % cpause == 0)
            sched_yield();
        switch (kind) {
            case K_ADD:
                exp = 0;
                k = (i + t) & 3;
                do_w(cw, &G.x, k & 1 ? O_SUB : O_ADD, cform, corder, targ[t][k], &exp, &ret);
                tsum[t] += k & 1 ? -targ[t][k] : targ[t][k];
                break;
            case K_TICKET:
                do_w(cw, &G.x, O_ADD, cform, corder, 1, &exp, &ret);
                took[t][i] = (uint64_t)ret & mask(cw);
                break;
            case K_XOR:
                do_w(cw, &G.x, O_XOR, cform, corder, targ[t][i & 3] * (i + 1), &exp, &ret);
                tsum[t] ^= targ[t][i & 3] * (i + 1);
                break;
            case K_BITS: {                        /* each has a bit of its own */
                uint64_t b = 1ull << t;
                do_w(cw, &G.x, O_OR, cform, corder, b, &exp, &ret);
                if (ret & b) WRONG("a bit this thread had cleared is set");
                do_w(cw, &G.x, O_AND, cform, corder, ~b, &exp, &ret);
                if (!(ret & b)) WRONG("a bit this thread had set is cleared");
                break;
            }
            case K_TOKENS: {
                uint64_t mine = tsum[t];
                do_w(cw, &G.x, O_XCHG, cform, corder, mine, &exp, &ret);
                tsum[t] = (uint64_t)ret & mask(cw);
                break;
            }
            case K_CASLOOP:
                do_w(cw, &G.x, O_LOAD, 0, corder, 0, &exp, &ret);
                exp = (uint64_t)ret & mask(cw);
                for (;;) {
                    uint64_t e = exp;
                    if (do_w(cw, &G.x, (i + t) & 1 ? O_CAS_S : O_CAS_W, cform, corder, (e + 1) & mask(cw), &exp, &ret))
                        break;
                }
                break;
            case K_CASVAL:
                for (;;) {
                    uint64_t e = __atomic_load_n(&G.x, __ATOMIC_RELAXED) & mask(cw), x2 = e;
                    if (do_w(cw, &G.x, O_CASVAL, cform & 3, corder, (e + 3) & mask(cw), &x2, &ret), ((uint64_t)ret & mask(cw)) == e)
                        break;
                }
                break;
            case K_FLAG:
                while (cform & 1 ? atomic_flag_test_and_set_explicit(&G.flag, memory_order_acquire) : atomic_flag_test_and_set(&G.flag))
                    if (cth > 4) sched_yield();
                G.cnt[0]++;
                if (G.cnt2[0] + 1 != G.cnt[0]) WRONG("two threads are between test-and-set and clear");
                G.cnt2[0]++;
                if (cform & 2) atomic_flag_clear_explicit(&G.flag, memory_order_release); else atomic_flag_clear(&G.flag);
                break;
            case K_SPIN:
                k = (int)((i * targ[t][0] >> 7) % 3);
                atomic_lock(&G.spin[k]);
                if (G.inside[k]) WRONG("two threads have a spinlock");
                G.inside[k] = 1;
                G.cnt[k]++;
                if (G.cnt2[k] + 1 != G.cnt[k]) WRONG("what was written under a spinlock is not seen by the next");
                G.cnt2[k]++;
                if ((i & 63) == 5)
                    sched_yield();
                G.inside[k] = 0;
                atomic_unlock(&G.spin[k]);
                if (cth > 4) sched_yield();
                break;
            case K_TAS:
                do_w(cw, &G.x, O_TAS, cform & 3, corder, 0, &exp, &ret);
                if (((uint64_t)ret & mask(cw)) == 0) {
                    __sync_fetch_and_add(&G.cnt[0], 1);
                    __sync_fetch_and_add(&G.cnt[1], 1);
                    if (__atomic_load_n(&G.cnt[1], __ATOMIC_RELAXED) != 1) WRONG("two threads test-and-set the same object");
                    __sync_fetch_and_add(&G.cnt[1], -1);
                    do_w(cw, &G.x, O_CLEAR, cform & 3, corder, 0, &exp, &ret);
                } else if (cth > 4)
                    sched_yield();
                break;
            case K_FLOAT:
                if (cform & 1) {
                    if (i & 1) c89atomic_fetch_sub_f32(&G.f, -1.0f); else c89atomic_fetch_add_f32(&G.f, 1.0f);
                } else {
                    if (i & 1) c89atomic_fetch_sub_f64(&G.d, -1.0); else c89atomic_fetch_add_f64(&G.d, 1.0);
                }
                break;
            case K_STACK: {                     /* pushes all, of which another takes all */
                struct snode *n = &snodes[t][i & 63], *head = NULL, *all;
                if (i < 64) {
                    do {
                        head = c89atomic_load_ptr(&G.top);
                        n->next = head;
                    } while (!(i & 1 ? c89atomic_compare_exchange_strong_ptr(&G.top, &head, n) : atomic_swap((atomic_ptr_t *)&G.top, &head, (void *)n)));
                }
                if ((i & 15) == t) {
                    for (all = c89atomic_exchange_ptr(&G.top, NULL); all; all = all->next)
                        if (__sync_fetch_and_add(&seen[all->owner * 64 + all->no], 1)) WRONG("a node is taken twice");
                }
                break;
            }
            case K_DEKKER:                      /* sequentially consistent: at least one sees the other's store */
                if (t > 1)
                    return NULL;
                while (__atomic_load_n(&G.round[!t], __ATOMIC_ACQUIRE) < i)
                    __asm__ volatile("pause");
                for (k = 0; k < (int)(targ[t][i & 3] & 31); k++)
                    __asm__ volatile("" ::: "memory");
                if (cform & 4) {
                    (t ? &G.y : &G.x)[0] = i + 1;
                    atomic_thread_fence(memory_order_seq_cst);
                    dx[t][i] = (t ? G.x : G.y) == (uint64_t)i + 1;
                } else if (cform & 2) {
                    atomic_store(t ? &G.y : &G.x, i + 1);
                    dx[t][i] = atomic_load(t ? &G.x : &G.y) == (uint64_t)i + 1;
                } else if (cform & 1) {
                    c89atomic_store_32((volatile c89atomic_uint32 *)(t ? &G.y : &G.x), i + 1);
                    dx[t][i] = c89atomic_load_32((volatile c89atomic_uint32 *)(t ? &G.x : &G.y)) == (uint32_t)i + 1;
                } else {
                    atomic_exchange(t ? &G.y : &G.x, i + 1);
                    dx[t][i] = atomic_load(t ? &G.x : &G.y) == (uint64_t)i + 1;
                }
                __sync_synchronize();
                __atomic_store_n(&G.round[t], i + 1, __ATOMIC_RELEASE);
                while (__atomic_load_n(&G.round[!t], __ATOMIC_ACQUIRE) < i + 1)
                    __asm__ volatile("pause");
                if (!dx[0][i] && !dx[1][i]) WRONG("of two threads that each store, then load what the other stores, both read the old value");
                break;
            case K_PUBLISH:                     /* in turns, each writes plain data and hands over by an atomic object */
                if (t > 1)
                    return NULL;
                for (k = 0; !turn_is(2 * i + t); k++)
                    if (k > 200) sched_yield();
                if (G.cnt[0] != 2 * i + t || G.cnt[1] != 2 * (2 * i + t)) WRONG("what was written before %s is not seen after %s", hname(hop[!t]), hname(hwait[t]));
                G.cnt[0]++;
                G.cnt[1] += 2;
                turn_set(2 * i + t, t, i);
                break;
        }
    }
    return NULL;
}

static void concurrent(void) {
    pthread_t th[NTH];
    int t, k, i;
    uint64_t x, y, final;
    memset(&G, 0, sizeof G);
    memset(bad, 0, sizeof bad);
    kind = d_w("33333333321327");
    cw = 8 << d_u(3);
    cth = d_in(2, NTH);
    if (kind == K_DEKKER)
        cth = 2, cw = 64;
    if (kind == K_PUBLISH) {
        static const int ops[] = { O_STORE, O_STORE, O_XCHG, O_CAS_S, O_CAS_W, O_CASVAL, O_ADD, O_SUB, O_XOR };
        static const int waits[] = { O_LOAD, O_LOAD, O_LOAD, O_CAS_S, O_CAS_W, O_CASVAL, O_ADD, O_SUB, O_OR, O_XOR, O_AND };
        static const int rel[] = { memory_order_release, memory_order_acq_rel, memory_order_seq_cst };
        static const int acq[] = { memory_order_acquire, memory_order_acq_rel, memory_order_seq_cst };
        cth = 2;
        hkind = d_w("622122");
        hstep = d_u64() | 1;
        for (t = 0; t < 2; t++) {
            hop[t] = ops[d_u(8)];
            hwait[t] = waits[d_u(10)];
            hform[t] = (int)d_u(cw == 64 ? 5 : 3);
            hwform[t] = (int)d_u(cw == 64 ? 5 : 3);
            horder[t] = rel[d_u(2)];
            hworder[t] = acq[d_u(2)];
            if (hwait[t] == O_LOAD && hworder[t] == memory_order_acq_rel || hkind > H_BIT && hworder[t] == memory_order_acq_rel)
                hworder[t] = memory_order_acquire;
            NOTE("by %s: %s form %d order %d, awaited by %s form %d order %d\n", hkname[hkind], hname(hop[t]), hform[t], horder[t], hname(hwait[t]), hwform[t], hworder[t]);
        }
        eng_label(hkname[hkind]);
    }
    cform = (int)d_u(kind == K_DEKKER ? (RACES ? 3 : 7) : cw == 64 ? 5 : 3);
    corder = orders[d_u(4)];
    iters = RACES ? d_in(20, 400) : d_in(200, NITER);
    if ((kind == K_FLAG || kind == K_SPIN) && cth > 4)
        iters = iters / 6;
    cpause = d_p(1, 3) ? d_in(1, 300) : 0;
    if (kind == K_TAS || kind == K_CASVAL)
        cform &= 3;
    tstart = g_val(cw) & mask(cw);
    for (t = 0; t < NTH; t++)
        for (k = 0; k < 4; k++)
            targ[t][k] = g_val(cw) & mask(cw);
    seen = calloc(1, NTH * 64);
    memset(tsum, 0, sizeof tsum);
    switch (kind) {
        case K_BITS: case K_TAS: case K_DEKKER: tstart = 0; break;
        case K_PUBLISH: if (hkind == H_BIT) tstart = 0; break;
    }
    if (kind == K_TOKENS) {
        tstart = 0;
        for (t = 0; t < cth; t++)
            tsum[t] = t + 1;
    }
    for (t = 0; t < NTH; t++)
        for (k = 0; k < 64; k++)
            snodes[t][k].owner = t, snodes[t][k].no = k, snodes[t][k].next = NULL;
    G.x = tstart;
    G.top = kind == K_PUBLISH ? &snodes[0][0] : NULL;
    NOTE("%d threads, %s, %d bits, form %d, order %d, %d times each, from %llx%s\n", cth, kname[kind], cw, cform, corder, iters, (unsigned long long)tstart, cpause ? ", yielding" : "");
    eng_label(kname[kind]);
    eng_label("several threads");
    eng_nontrivial();
    eng_key(((uint64_t)kind << 56) ^ ((uint64_t)cw << 48) ^ ((uint64_t)cth << 40) ^ ((uint64_t)cform << 32) ^ (corder << 28) ^ iters ^ (tstart << 12));
    for (t = 0; t < cth; t++)
        if (pthread_create(&th[t], NULL, worker, (void *)(intptr_t)t)) {
            eng_fail("no thread");
        }
    for (t = 0; t < cth; t++)
        pthread_join(th[t], NULL);
    for (t = 0; t < cth; t++)
        CHECK(!bad[t], "%s (%d bits, form %d): %s", kname[kind], cw, cform, why[t]);
    final = G.x & mask(cw);
    CHECK((G.x & ~mask(cw)) == 0, "%s (%d bits) changes memory outside of the object", kname[kind], cw);
    x = tstart;
    switch (kind) {
        case K_ADD:
            for (t = 0; t < cth; t++)
                x += tsum[t];
            CHECK(final == (x & mask(cw)), "additions from %d threads end with %llx, not %llx", cth, (unsigned long long)final, (unsigned long long)(x & mask(cw)));
            break;
        case K_XOR:
            for (t = 0; t < cth; t++)
                x ^= tsum[t];
            CHECK(final == (x & mask(cw)), "exclusive ors from %d threads end with %llx, not %llx", cth, (unsigned long long)final, (unsigned long long)(x & mask(cw)));
            break;
        case K_TICKET: {
            static unsigned short count[65536];
            uint64_t total = (uint64_t)cth * iters;
            CHECK(final == ((tstart + total) & mask(cw)), "%llu tickets end with %llx, from %llx", (unsigned long long)total, (unsigned long long)final, (unsigned long long)tstart);
            memset(count, 0, sizeof count);
            for (t = 0; t < cth; t++)
                for (i = 0; i < iters; i++)
                    count[((took[t][i] - tstart) & mask(cw)) & 65535]++;
            y = cw == 8 ? 256 : 65536;
            for (k = 0; k < (int)y; k++)
                CHECK(count[k] == total / y + ((uint64_t)k < total % y), "ticket %d was given %d times", k, count[k]);
            break;
        }
        case K_BITS: CHECK(final == 0, "bits stay set: %llx", (unsigned long long)final); break;
        case K_TOKENS: {
            int got[NTH + 1] = { 0 };
            for (t = 0; t < cth; t++) {
                CHECK(tsum[t] <= (uint64_t)cth, "a thread got %llx, which none put there", (unsigned long long)tsum[t]);
                got[tsum[t]]++;
            }
            CHECK(final <= (uint64_t)cth, "%llx is left, which none put there", (unsigned long long)final);
            got[final]++;
            for (k = 0; k <= cth; k++)
                CHECK(got[k] == 1, "token %d is there %d times", k, got[k]);
            break;
        }
        case K_CASLOOP:
            x += (uint64_t)cth * iters;
            CHECK(final == (x & mask(cw)), "%d successes from %llx end with %llx", cth * iters, (unsigned long long)tstart, (unsigned long long)final);
            break;
        case K_CASVAL:
            x += (uint64_t)cth * iters * 3;
            CHECK(final == (x & mask(cw)), "%d successes from %llx end with %llx", cth * iters, (unsigned long long)tstart, (unsigned long long)final);
            break;
        case K_FLAG: CHECK(G.cnt[0] == (long)cth * iters && G.cnt2[0] == G.cnt[0], "%ld of %d counts made under a flag are left", G.cnt[0], cth * iters); break;
        case K_SPIN: CHECK(G.cnt[0] + G.cnt[1] + G.cnt[2] == (long)cth * iters, "%ld of %d counts made under spinlocks are left", G.cnt[0] + G.cnt[1] + G.cnt[2], cth * iters); break;
        case K_TAS: CHECK(final == 0 && G.cnt[0] > 0, "test-and-set was never won"); break;
        case K_FLOAT:
            CHECK((cform & 1 ? (double)G.f : G.d) == (double)cth * iters, "%d additions of 1 end with %g", cth * iters, cform & 1 ? (double)G.f : G.d);
            break;
        case K_STACK: {
            struct snode *s;
            for (s = G.top; s; s = s->next)
                CHECK(!seen[s->owner * 64 + s->no]++, "a node is left and was taken");
            for (k = 0; k < cth * 64; k++)
                CHECK(seen[k] == 1 || (k & 63) >= iters, "a node is lost");
            break;
        }
    }
    free(seen);
}

static void c23(void) {
    switch (d_w("90421")) {
        case 0: sequential(); break;
        case 2: if (d_p(1, 2)) do_f32(d_in(1, 20)); else do_f64(d_in(1, 20)); eng_nontrivial(); break;
        case 3: pointers(d_in(1, 20)); break;
        case 4: flags(d_in(1, 30)); break;
        default: break;
    }
    if (d_p(1, RACES ? 2 : 40))
        concurrent();
}

static const eng_prop props[] = {
    { "C23", ENG_BATCH, 1, c23, NULL, "sequences of generated operations (13 kinds, 4 widths, unsigned, signed and generic forms, implicit and with each order, edge operands) on neighbouring objects, floats, pointers and flags against their definitions; in 1 of 40 cases (1 of 2 with the race detector) 2 to 8 threads add, draw tickets, toggle and set bits, exchange tokens, loop over compare-exchange, lock flags and spinlocks, push and take nodes, store and load crosswise, hand plain data to each other in turns by every operation, order and kind of object, against conservation laws; non-trivial: three kinds of operations, or several threads" },
};

int main(int argc, char **argv) { return eng_main(argc, argv, props, 1); }
