/* trk.c - tracked allocator: every block has red zones, freed memory is never reused within a
 * case, so that double frees, invalid frees, overruns, and writes to freed memory are seen. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "eng.h"
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <sys/mman.h>

/* address space; what is freed of it is given back */
static size_t REGION = 1ull << 34;
/* of a freed block this large only the ends are kept */
#define HUGE_BLOCK (256u << 10)
#define ENDS 8192
#define RZ 32
#define M_LIVE 0x4c49564531425f4bull
#define M_FREE 0x4652454544425f4bull

typedef struct hdr {
    uint64_t magic;
    size_t size;
    size_t total;            /* whole block, header included */
    void *self;
    uint32_t seq;
    uint32_t pad;
    unsigned char rz[RZ - 8];
} hdr;                        /* 64 bytes */

static unsigned char *region, *top;
static struct {
    size_t live, live_bytes, count, frees, failed;
    long nth, from;
    uint64_t more;
    int suspended;
} *st;
static int lockv;
void (*trk_hook)(void);

static void lock(void) { while (__sync_lock_test_and_set(&lockv, 1)) { } }
static void unlock(void) { __sync_lock_release(&lockv); }

static void init(void) {
    if (region)
        return;
    do
        region = mmap(NULL, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    while (region == MAP_FAILED && (REGION /= 2) >= 1ull << 28);
    st = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (region == MAP_FAILED || (void *)st == MAP_FAILED) {
        fprintf(stderr, "trk: mmap failed\n");
        _Exit(2);
    }
    top = region;
}

void trk_reset(void) {
    init();
    if ((size_t)(top - region) > (8u << 20))
        madvise(region, top - region, MADV_DONTNEED);
    top = region;
    memset(st, 0, sizeof *st);
    lockv = 0;
}

/* 1 if this request shall fail */
static int inject(void) {
    long k;
    st->count++;
    if (st->suspended || (!st->nth && !st->from && !st->more))
        return 0;
    if (st->from && (st->from == 1 || --st->from == 1)) {
        st->failed++;
        return 1;
    }
    if (st->nth) {
        k = --st->nth;
        if (k == 0) {
            st->failed++;
            return 1;
        }
        return 0;
    }
    if (st->more) {
        int b = st->more & 1;
        st->more >>= 1;
        if (b)
            st->failed++;
        return b;
    }
    return 0;
}

void trk_fail(long nth, uint64_t more, long from) {
    init();
    st->nth = nth;
    st->more = more;
    st->from = from;
}

void trk_suspend(int on) { init(); st->suspended = on; }
size_t trk_failed(void) { init(); return st->failed; }

static void *get(size_t n, size_t align) {
    hdr *h;
    unsigned char *u;
    size_t total;
    if (n > (256u << 20)) {
        errno = ENOMEM;
        return NULL;
    }
    if (align < 16)
        align = 16;
    u = (unsigned char *)(((uintptr_t)top + sizeof(hdr) + align - 1) & ~(uintptr_t)(align - 1));
    /* keep blocks contiguous: the header always starts at `top` */
    if (u - sizeof(hdr) != top) {
        hdr *f = (hdr *)top;
        /* filler so that the walk stays aligned */
        f->magic = M_FREE;
        f->size = 0;
        f->total = u - sizeof(hdr) - top;
        f->self = NULL;
        if (f->total < sizeof(hdr)) {
            u += align < sizeof(hdr) ? sizeof(hdr) : align;
            f->total = u - sizeof(hdr) - top;
        }
        top = u - sizeof(hdr);
    }
    total = (sizeof(hdr) + n + RZ + 15) & ~(size_t)15;
    if (top + total > region + REGION) {
        errno = ENOMEM;
        return NULL;
    }
    h = (hdr *)top;
    top += total;
    h->magic = M_LIVE;
    h->size = n;
    h->total = total;
    h->self = u;
    h->seq = (uint32_t)st->count;
    memset(h->rz, 0xFB, sizeof h->rz);
    memset(u, 0xA5, n);
    memset(u + n, 0xFB, (unsigned char *)h + total - (u + n));
    st->live++;
    st->live_bytes += n;
    return u;
}

static hdr *find(const void *p, const char *what) {
    hdr *h = (hdr *)((unsigned char *)p - sizeof(hdr));
    if ((unsigned char *)p < region + sizeof(hdr) || (unsigned char *)p >= top || ((uintptr_t)p & 15) ||
        (h->magic != M_LIVE && h->magic != M_FREE) || h->self != p)
        eng_fail("%s of %p, which is no allocated block", what, p);
    if (h->magic == M_FREE)
        eng_fail("%s of a block (%zu bytes, allocation no %u) that is already freed", what, h->size, h->seq);
    return h;
}

static void intact(hdr *h) {
    unsigned char *u = h->self, *e = (unsigned char *)h + h->total, *q;
    size_t i;
    for (i = 0; i < sizeof h->rz; i++)
        if (h->rz[i] != 0xFB)
            eng_fail("memory before a block (%zu bytes, allocation no %u) was overwritten", h->size, h->seq);
    for (q = u + h->size; q < e; q++)
        if (*q != 0xFB)
            eng_fail("memory past a block (%zu bytes, allocation no %u) was overwritten at offset %zu",
                h->size, h->seq, (size_t)(q - u));
    if (h->magic == M_FREE)
        for (q = u; q < u + h->size; q++) {
            if (h->size >= HUGE_BLOCK && q == u + ENDS)
                q = u + h->size - ENDS;
            if (*q != 0xDD)
                eng_fail("freed block (%zu bytes, allocation no %u) was written at offset %zu",
                    h->size, h->seq, (size_t)(q - u));
        }
}

static void drop(hdr *h) {
    intact(h);
    h->magic = M_FREE;
    if (h->size >= HUGE_BLOCK) {
        unsigned char *u = h->self, *e = u + h->size, *lo, *hi;
        memset(u, 0xDD, ENDS);
        memset(e - ENDS, 0xDD, ENDS);
        lo = (unsigned char *)(((uintptr_t)u + ENDS + 4095) & ~(uintptr_t)4095);
        hi = (unsigned char *)(((uintptr_t)e - ENDS) & ~(uintptr_t)4095);
        madvise(lo, hi - lo, MADV_DONTNEED);
    } else
        memset(h->self, 0xDD, h->size);
    st->live--;
    st->live_bytes -= h->size;
    st->frees++;
}

void *trk_malloc(size_t n) {
    void *p;
    if (trk_hook)
        trk_hook();
    init();
    lock();
    p = inject() ? NULL : get(n, 16);
    unlock();
    if (!p)
        errno = ENOMEM;
    return p;
}

void *trk_memalign(size_t a, size_t n) {
    void *p;
    if (trk_hook)
        trk_hook();
    init();
    lock();
    p = inject() ? NULL : get(n, a);
    unlock();
    if (!p)
        errno = ENOMEM;
    return p;
}

void *trk_calloc(size_t c, size_t n) {
    void *p;
    if (trk_hook)
        trk_hook();
    init();
    if (n && c > (size_t)-1 / n) {
        errno = ENOMEM;
        return NULL;
    }
    lock();
    p = inject() ? NULL : get(c * n, 16);
    unlock();
    if (p)
        memset(p, 0, c * n);
    else
        errno = ENOMEM;
    return p;
}

/* A huge block that is the last one grows where it is, or a list of many thousands of entries that
 * grows by a few at a time would use up the region. */
static int widen(hdr *h, size_t n) {
    size_t old = h->size, total = (sizeof(hdr) + n + RZ + 15) & ~(size_t)15;
    unsigned char *u = h->self;
    if (old < HUGE_BLOCK || n <= old || (unsigned char *)h + h->total != top ||
        u != (unsigned char *)h + sizeof(hdr) || n > (256u << 20) ||
        (unsigned char *)h + total > region + REGION)
        return 0;
    intact(h);
    top = (unsigned char *)h + total;
    h->size = n;
    h->total = total;
    memset(u + old, 0xA5, n - old);
    memset(u + n, 0xFB, top - (u + n));
    st->live_bytes += n - old;
    return 1;
}

void *trk_realloc(void *o, size_t n) {
    void *p;
    hdr *h;
    if (trk_hook)
        trk_hook();
    init();
    lock();
    if (inject()) {
        unlock();
        errno = ENOMEM;
        return NULL;
    }
    if (!o) {
        p = get(n, 16);
        unlock();
        return p;
    }
    h = find(o, "realloc");
    p = widen(h, n) ? o : get(n, 16);
    if (p && p != o) {
        memcpy(p, o, h->size < n ? h->size : n);
        drop(h);
    }
    unlock();
    return p;
}

void trk_free(void *p) {
    if (!p)
        return;
    if (trk_hook)
        trk_hook();
    init();
    lock();
    drop(find(p, "free"));
    unlock();
}

void trk_check(void) {
    unsigned char *q;
    init();
    lock();
    for (q = region; q < top; ) {
        hdr *h = (hdr *)q;
        if (h->magic != M_LIVE && h->magic != M_FREE)
            eng_fail("a block's header was overwritten");
        if (h->self)
            intact(h);
        q += h->total;
    }
    unlock();
}

size_t trk_live(void) { init(); return st->live; }
size_t trk_live_bytes(void) { init(); return st->live_bytes; }
size_t trk_count(void) { init(); return st->count; }
size_t trk_frees(void) { init(); return st->frees; }

int trk_is_live(const void *p) {
    const hdr *h = (const hdr *)((const unsigned char *)p - sizeof(hdr));
    init();
    if ((unsigned char *)p < region + sizeof(hdr) || (unsigned char *)p >= top || ((uintptr_t)p & 15))
        return 0;
    return h->magic == M_LIVE && h->self == p;
}

size_t trk_size(const void *p) {
    return trk_is_live(p) ? ((const hdr *)((const unsigned char *)p - sizeof(hdr)))->size : 0;
}

int trk_owns(const void *p, size_t n) {
    unsigned char *q;
    int r = 0;
    init();
    lock();
    for (q = region; q < top; ) {
        hdr *h = (hdr *)q;
        unsigned char *u = h->self;
        if (u && h->magic == M_LIVE && (unsigned char *)p >= u && (unsigned char *)p + n <= u + h->size) {
            r = 1;
            break;
        }
        q += h->total;
    }
    unlock();
    return r;
}

void trk_describe_live(char *buf, size_t n) {
    unsigned char *q;
    size_t o = 0;
    init();
    buf[0] = 0;
    for (q = region; q < top && o + 40 < n; ) {
        hdr *h = (hdr *)q;
        if (h->magic == M_LIVE)
            o += snprintf(buf + o, n - o, " [no %u: %zu bytes]", h->seq, h->size);
        q += h->total;
    }
}
