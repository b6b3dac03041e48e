/* C12-C16: the branch-free string/number functions against byte-by-byte definitions. */
#include "eng.h"
#include "raii.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include "edge.h"

/* Names documented in swar.h, whose prototypes are inline. */
#define PADB 48
#define LARGE 300000
static char raw[PADB + LARGE + 3 * PADB + 32], raw2[PADB + LARGE + 3 * PADB + 32];

/* Surround with noise: what lies around a text must not matter. */
static void noise(char *b, size_t n, int kind) {
    static const char sets[4][18] = { "00000000000000000", "0123456789.+-aFx9", "99999999999999999", "\0\x01\x7f\x80\xff.-+ 0009\0\0\xfe" };
    size_t i;
    uint32_t r = kind == 4 ? d_u(0xffffffffu) : 0;
    for (i = 0; i < n; i++)
        b[i] = kind == 4 ? (char)(eng_mix(r + i) >> 20) : sets[kind][(i * 7 + i / 16) % 17];
}

static char *place(char *b, size_t len) {
    int kind = (int)d_u(4);
    size_t off = d_u(15);
    char *s;
    (void)len;
    noise(b, PADB + len + 2 * PADB, kind);
    s = b + PADB;
    s = (char *)(((uintptr_t)s + 15) & ~(uintptr_t)15);
    return s + off;
}

static void hexnote(const char *what, const char *s, size_t n) {
    size_t i;
    if (!eng_verbose)
        return;
    eng_note("%s (%zu bytes):", what, n);
    for (i = 0; i < n && i < 400; i++) {
        unsigned char c = s[i];
        if (c > 32 && c < 127 && c != '\\')
            eng_note("%c", c);
        else
            eng_note("\\x%02x", c);
    }
    eng_note("%s\n", n > 400 ? "..." : "");
}

/* ---------------------------------------------------------------- C12 */
/* digits: 0 random, 1 all nines, 2 one digit repeated, 3 1 then zeros, 4 leading zeros */
static void put_digits(char *s, int n) {
    int i, k = (int)d_u(5), c;
    switch (k) {
        case 1: memset(s, '9', n); break;
        case 2: c = '0' + (int)d_u(9); memset(s, c, n); break;
        case 3: memset(s, '0', n); if (n) s[0] = '1'; break;
        case 4: {
            int z = n ? (int)d_u(n) : 0;
            memset(s, '0', z);
            for (i = z; i < n; i++)
                s[i] = '0' + (int)d_u(9);
            break;
        }
        default:
            for (i = 0; i < n; i++)
                s[i] = '0' + (int)d_u(9);
    }
}

static uint64_t ref_u(const char *s, int n, int *over) {
    unsigned __int128 v = 0;
    int i;
    *over = 0;
    for (i = 0; i < n; i++) {
        v = v * 10 + (s[i] - '0');
        if (v > (unsigned __int128)UINT64_MAX)
            *over = 1;
    }
    return (uint64_t)v;
}

static void c12(void) {
    int fn = (int)d_u(4), n, i, over;
    char *s = place(raw, 24);
    uint64_t want, got;
    int edge = (int)d_u(3);
#define EDGE if (edge < 2) s = at_edge(0, s, n, edge)
    switch (fn) {
        case 0:
            n = (int)d_u(8);
            put_digits(s, n);
            want = ref_u(s, n, &over);
            hexnote("atou8", s, n);
            EDGE;
            got = atou8(s, n);
            CHECK(got == want, "atou8(\"%.*s\", %d) is %llu", n, s, n, (unsigned long long)got);
            eng_label("atou8");
            break;
        case 1:
            n = (int)d_u(20);
            put_digits(s, n);
            want = ref_u(s, n, &over);
            if (over) {         /* 20 digits: make it fit */
                s[0] = '1';
                if (s[1] > '7') s[1] = '7';
                want = ref_u(s, n, &over);
            }
            if (n == 20 && d_p(1, 4)) {
                memcpy(s, "18446744073709551615", 20);
                s[19] -= (char)d_u(5);
                want = ref_u(s, n, &over);
            }
            hexnote("simd_atou", s, n);
            EDGE;
            got = simd_atou(s, n);
            CHECK(got == want, "simd_atou(\"%.*s\", %d) is %llu", n, s, n, (unsigned long long)got);
            eng_label("simd_atou");
            break;
        case 2: {
            int sg = (int)d_u(2), neg = sg == 1;
            int64_t g, w;
            int nd = (int)d_u(sg ? 19 : 20);
            char *d = s + (sg ? 1 : 0);
            if (sg)
                s[0] = sg == 1 ? '-' : '+';
            put_digits(d, nd);
            want = ref_u(d, nd, &over);
            if (over || want > (uint64_t)INT64_MAX + (neg ? 1 : 0)) {
                int k;
                /* bring it into range: near the extremes */
                for (k = 0; k < nd - 19; k++)
                    d[k] = '0';
                memcpy(d + nd - 19, neg ? "9223372036854775808" : "9223372036854775807", 19);
                d[nd - 1] -= (char)d_u(5);
                want = ref_u(d, nd, &over);
            }
            n = nd + (sg ? 1 : 0);
            w = neg ? (int64_t)(0 - want) : (int64_t)want;
            hexnote("simd_atoi", s, n);
            EDGE;
            g = simd_atoi(s, n);
            CHECK(g == w, "simd_atoi(\"%.*s\", %d) is %lld", n, s, n, (long long)g);
            eng_label("simd_atoi");
            break;
        }
        default: {
            static const char hx[] = "0123456789abcdefABCDEF";
            int max = fn == 3 ? 8 : 16, k = (int)d_u(2);
            n = (int)d_u(max);
            for (i = 0; i < n; i++)
                s[i] = k == 1 ? "fF9A"[d_u(3)] : hx[d_u(21)];
            for (want = 0, i = 0; i < n; i++)
                want = want << 4 | (s[i] <= '9' ? s[i] - '0' : (s[i] | 32) - 'a' + 10);
            hexnote(fn == 3 ? "htou8" : "simd_htou", s, n);
            EDGE;
            got = fn == 3 ? htou8(s, n) : simd_htou(s, n);
            CHECK(got == want, "%s(\"%.*s\", %d) is %llx", fn == 3 ? "htou8" : "simd_htou", n, s, n, (unsigned long long)got);
            eng_label(fn == 3 ? "htou8" : "simd_htou");
        }
    }
    if (n > 1)
        eng_nontrivial();
    if (n > 8)
        eng_label("longer than a word");
    if (n == 0)
        eng_label("empty");
}

/* ---------------------------------------------------------------- C13 */
static void canary(const char *b, size_t from, size_t to, const char *what) {
    for (; from < to; from++)
        CHECK((unsigned char)b[from] == 0xC7, "%s writes outside its buffer at offset %d", what, (int)from - 64);
}

static int64_t d_i64(void) {
    uint64_t v = d_u64();
    switch (d_u(7)) {
        case 0: return (int64_t)(v & INT64_MAX);
        case 1: return -(int64_t)(v & INT64_MAX);
        case 2: return INT64_MIN + (int64_t)d_u(3);
        case 3: return INT64_MAX - (int64_t)d_u(3);
        default: return (int64_t)v;
    }
}

static void c13(void) {
    char b[192], want[64], *s = b + 64 + (int)d_u(7);
    int fn = (int)d_u(3), base = (int)(s - b);
    uint32_t len;
    memset(b, 0xC7, sizeof b);
    switch (fn) {
        case 0: {
            int64_t x = d_i64();
            NOTE("simd_itoa(%lld)\n", (long long)x);
            len = simd_itoa(x, s);
            sprintf(want, "%lld", (long long)x);
            CHECK(len == strlen(want), "simd_itoa(%lld) returns length %u", (long long)x, len);
            CHECK(!strcmp(s, want), "simd_itoa(%lld) writes \"%.22s\"", (long long)x, s);
            canary(b, 0, base, "simd_itoa");
            canary(b, base + 22, sizeof b, "simd_itoa");
            /* round trip */
            memset(s + len + 1, '7', 12);
            CHECK(simd_atoi(s, len) == x, "simd_atoi(simd_itoa(%lld)) is %lld", (long long)x, (long long)simd_atoi(s, len));
            if (x > 9999999999ll || x < -9999999999ll)
                eng_label("more than 10 digits");
            if (x < 0)
                eng_label("negative");
            if (len > 2)
                eng_nontrivial();
            eng_label("simd_itoa");
            break;
        }
        case 1: {
            int32_t x;
            switch (d_u(3)) {
                case 0: x = (int32_t)d_u(99999999); break;
                case 1: {
                    int e = (int)d_u(7);
                    for (x = 1; e--; )
                        x *= 10;
                    x += (int32_t)d_u(4) - 2;
                    break;
                }
                case 2: x = (int32_t)d_u(1200); break;
                default: x = (int32_t)(d_u(0x7fffffff) % 100000000); break;
            }
            if (d_u(1))
                x = -x;
            NOTE("itoa8(%d)\n", x);
            len = itoa8(x, s);
            sprintf(want, "%d", x);
            CHECK(len == strlen(want), "itoa8(%d) returns length %u", x, len);
            CHECK(!strcmp(s, want), "itoa8(%d) writes \"%.10s\"", x, s);
            canary(b, 0, base, "itoa8");
            canary(b, base + 10, sizeof b, "itoa8");
            CHECK(simd_atoi(s, len) == x, "simd_atoi(itoa8(%d)) differs", x);
            if (x < 0)
                eng_label("negative");
            if (len > 2)
                eng_nontrivial();
            eng_label("itoa8");
            break;
        }
        case 2: {
            int N = d_in(1, 20), i;
            unsigned __int128 lim = 1;
            uint64_t x = d_u64();
            char *r;
            for (i = 0; i < N; i++)
                lim *= 10;
            if (d_u(3) == 1)
                x = (uint64_t)-1;
            if ((unsigned __int128)x >= lim)
                x = d_u(2) == 1 ? (uint64_t)(lim - 1) : (uint64_t)(x % lim);
            NOTE("utoap(%d, %llu)\n", N, (unsigned long long)x);
            r = utoap(N, x, s);
            sprintf(want, "%0*llu", N, (unsigned long long)x);
            CHECK(r == s && !strcmp(s, want), "utoap(%d, %llu) writes \"%.25s\"", N, (unsigned long long)x, s);
            canary(b, 0, base, "utoap");
            canary(b, base + 25, sizeof b, "utoap");
            memset(s + N + 1, '3', 8);
            CHECK(simd_atou(s, N) == x, "simd_atou(utoap(%d, %llu)) differs", N, (unsigned long long)x);
            if (N > 2)
                eng_nontrivial();
            if (N > 16)
                eng_label("three words");
            eng_label("utoap");
            break;
        }
        default: {
            int x = (int)d_u(99);
            uint16_t t;
            NOTE("utoa2p(%d)\n", x);
            sprintf(want, "%02d", x);
            t = utoa2p(x);
            utoa2p_ex(x, s);
            CHECK(!memcmp(&t, want, 2), "utoa2p(%d) is %x", x, t);
            CHECK(!memcmp(s, want, 2), "utoa2p_ex(%d) writes \"%.2s\"", x, s);
            canary(b, 0, base, "utoa2p_ex");
            canary(b, base + 2, sizeof b, "utoa2p_ex");
            eng_nontrivial();
            eng_label("utoa2p");
        }
    }
}

/* ---------------------------------------------------------------- C14 */
static void c14(void) {
    int sg = (int)d_u(2), ni = d_in(0, 18), dot, nd = 0, n, i;
    char *s = place(raw, 80), copy[128];
    double want, got, tol;
    char *p = s;
    dot = !d_p(1, 5);
    if (!dot && ni == 0)
        ni = 1;
    if (sg)
        *p++ = sg == 1 ? '-' : '+';
    put_digits(p, ni);
    p += ni;
    if (dot) {
        nd = d_u(3) ? (int)d_u(22) : (int)d_u(50);
        *p++ = '.';
        put_digits(p, nd);
        p += nd;
    }
    n = (int)(p - s);
    memcpy(copy, s, n);
    copy[n] = 0;
    hexnote("simd_atod", s, n);
    if (ni + nd == 0)
        return;
    want = strtod(copy, NULL);
    if ((i = (int)d_u(3)) < 2)
        s = at_edge(0, s, n, i);
    got = simd_atod(s, n);
    if (!dot) {
        CHECK(got == want, "simd_atod(\"%s\") is %.20g", copy, got);
        eng_label("no point");
    } else {
        /* a few roundings of the sum and of each part; decimals past the 18th do not count */
        tol = fabs(want) * 4 * 2.3e-16 + 2e-18;
        for (i = 0; i < nd; i++)
            if (copy[n - nd + i] != '0') {
                double dp = pow(10, -i);
                tol += dp * 4 * 2.3e-16;
                break;
            }
        CHECK(fabs(got - want) <= tol, "simd_atod(\"%s\") is %.20g instead of %.20g", copy, got, want);
        CHECK(!(sg == 1 && got > 0) && !(sg != 1 && got < 0), "simd_atod(\"%s\") has the wrong sign: %g", copy, got);
        eng_label("with point");
        if (nd > 18)
            eng_label("over 18 decimals");
        if (sg == 1)
            eng_label("negative");
    }
    if (n > 2)
        eng_nontrivial();
}

/* ---------------------------------------------------------------- C15 */
static uint64_t word_of(const char *s) { uint64_t x; memcpy(&x, s, 8); return x; }

static void fill_bytes(char *s, size_t n, int c, int printable, int density) {
    size_t i;
    uint32_t r = d_u(0xffffffffu);
    for (i = 0; i < n; i++) {
        uint64_t h = eng_mix(r * 1000003ull + i);
        int b;
        switch (density) {
            case 0: b = c ^ (1 << (h % 8)); break;           /* neighbours of c: one bit off */
            case 1: b = c + 1 - 2 * (int)(h & 1); break;      /* one more or less */
            case 2: b = (int)(h >> 11) & 0xff; break;
            case 3: b = (h & 3) == 0 ? c : (int)(h >> 8) & 0xff; break;
            case 4: h = eng_mix(r + i / (1 + r % 24)); b = h % 7 == 0 ? c ^ 0x80 : h % 7 == 1 ? c ^ 1 : h % 7 == 2 ? 0x80 : h % 7 == 3 ? 0xff : h % 7 == 4 ? 0 : h % 7 == 5 ? c + 1 : 0x7f; break;   /* runs */
            default: b = h % 5 == 0 ? 0 : h % 5 == 1 ? 0x80 : h % 5 == 2 ? 0xff : h % 5 == 3 ? 0x7f : 1;
        }
        b &= 0xff;
        if (printable)
            b &= 0x7f;
        s[i] = (char)b;
    }
}

static void c15(void) {
    static const unsigned char cs[] = { 0, 1, 0x7f, 0x80, 0x81, 0xff, 0xfe, 'a', '.', 0x20 };
    int printable = d_p(1, 3), c = d_u(2) ? cs[d_u(9)] : (int)d_u(255);
    uint32_t n = d_p(1, 2000) ? (uint32_t)d_in(3000, LARGE) : d_len(3000), i, first = (uint32_t)-1, last = (uint32_t)-1;
    char *s = place(raw, n);
    int density = (int)d_u(5), want = (int)d_u(2), edge;
    const char *r;
    if (printable)
        c &= 0x7f;
    /* the bytes around are c themselves in some cases */
    if (d_u(1)) {
        for (i = 1; i <= 8; i++)
            s[-(int)i] = (char)c;
        for (i = 0; i < 16; i++)
            s[n + i] = (char)c;
    }
    fill_bytes(s, n, c, printable, density);
    /* printable text may be followed by anything that is text too */
    if (printable) {
        for (i = 0; i < 8 + PADB; i++)
            s[n + i] &= 0x7f;
        for (i = 1; i <= 8; i++)
            s[-(int)i] &= 0x7f;
    }
    if (want != 2)
        for (i = 0; i < n; i++)
            if ((unsigned char)s[i] == c)
                s[i] ^= 1;
    if (want == 1 && n) {
        uint32_t k = d_in(1, 3);
        while (k--)
            s[d_u(3) == 1 ? n - 1 - d_u(n - 1 < 7 ? n - 1 : 7) : d_u(n - 1)] = (char)c;
    }
    for (i = 0; i < n; i++)
        if ((unsigned char)s[i] == c) {
            if (first == (uint32_t)-1)
                first = i;
            last = i;
        }
    if (eng_verbose) {
        eng_note("search 0x%02x at alignment %d, first %d, last %d, ", c, (int)((uintptr_t)s & 7), (int)first, (int)last);
        hexnote("in", s, n);
    }
    if ((i = d_u(3)) < 2)
        s = at_edge(0, s, n, (int)i);
    else
        i = 2;
    edge = (int)i;
    r = simd_memchr(s, c, n);
    CHECK(r == (first == (uint32_t)-1 ? NULL : s + first), "simd_memchr(len %u, 0x%02x) gives %ld instead of %d",
        n, c, r ? (long)(r - s) : -1l, (int)first);
    r = simd_memrchr(s, c, n);
    CHECK(r == (last == (uint32_t)-1 ? NULL : s + last), "simd_memrchr(len %u, 0x%02x) gives %ld instead of %d",
        n, c, r ? (long)(r - s) : -1l, (int)last);
    if (first != (uint32_t)-1) {
        uint32_t g;
        CHECK((g = memchrk(s, n, c)) == first, "memchrk gives %u instead of %u", g, first);
        CHECK((g = memrchrk(s, n, c)) == last, "memrchrk gives %u instead of %u", g, last);
        if (printable) {
            CHECK((g = pmemchrk(s, n, c)) == first, "pmemchrk gives %u instead of %u", g, first);
            CHECK((g = pmemrchrk(s, n, c)) == last, "pmemrchrk gives %u instead of %u", g, last);
        }
        eng_label("present");
    } else
        eng_label("absent");
    if (printable) {
        uint32_t g;
        CHECK((g = pmemchr(s, n, c)) == first, "pmemchr(len %u) gives %d instead of %d", n, (int)g, (int)first);
        CHECK((g = pmemrchr(s, n, c)) == last, "pmemrchr(len %u) gives %d instead of %d", n, (int)g, (int)last);
        eng_label("printable");
    }
    /* words */
    {
        char *w = s + (n > 8 ? d_u(n - 8) : 0);
        uint64_t x = n < 8 && edge < 2 ? d_u64() : word_of(w), ext = 0, mask;
        int z = 0, hb = 0, f = -1, k, len;
        if (!d_u(7))
            x = d_u64();
        for (k = 0; k < 8; k++) {
            int b = (int)(x >> (8 * k) & 0xff);
            ext |= (uint64_t)(unsigned char)c << (8 * k);
            if (b == 0)
                z = 1;
            if (b == c) {
                if (f < 0)
                    f = k;
                hb = 1;
            }
        }
        NOTE("word %016llx\n", (unsigned long long)x);
        CHECK(!!haszero(x) == z, "haszero(%016llx) is %d", (unsigned long long)x, haszero(x));
        CHECK(!!hasbyte(x, c) == hb, "hasbyte(%016llx, %02x) is %d", (unsigned long long)x, c, hasbyte(x, c));
        CHECK((uint64_t)extend((char)c) == ext, "extend(%02x) is %llx", c, (unsigned long long)extend((char)c));
        CHECK(memchr8((char *)&x, c) == (uint32_t)f, "memchr8(%016llx, %02x) is %d", (unsigned long long)x, c, (int)memchr8((char *)&x, c));
        if (f >= 0)
            CHECK(memchr8k((char *)&x, c) == (uint32_t)f, "memchr8k(%016llx, %02x) is %d", (unsigned long long)x, c, (int)memchr8k((char *)&x, c));
        len = (int)d_u(8);
        mask = len == 8 ? ~0ull : (1ull << (8 * len)) - 1;
        CHECK((uint64_t)cast8((char *)&x, len) == (x & mask), "cast8(%016llx, %d) is %llx", (unsigned long long)x, len, (unsigned long long)cast8((char *)&x, len));
        if (edge < 2) {
            char *e = at_edge(1, (char *)&x, len, edge);
            CHECK((uint64_t)cast8(e, len) == (x & mask), "cast8(%016llx, %d) is %llx", (unsigned long long)x, len, (unsigned long long)cast8(e, len));
        }
        CHECK((uint64_t)cast((char *)&x) == x, "cast(%016llx)", (unsigned long long)x);
        if (x) {
            int lo = 0, hi = 63;
            while (!(x >> lo & 1)) lo++;
            while (!(x >> hi & 1)) hi--;
            CHECK(countr_zero(x) == lo, "countr_zero(%llx) is %d", (unsigned long long)x, countr_zero(x));
            CHECK(countl_zero(x) == 63 - hi, "countl_zero(%llx) is %d", (unsigned long long)x, countl_zero(x));
            CHECK(countr_index(x) == lo + 1, "countr_index(%llx) is %d", (unsigned long long)x, countr_index(x));
        } else
            CHECK(countr_index(x) == 0, "countr_index(0) is %d", countr_index(x));
    }
    if (n > 0)
        eng_nontrivial();
    if (n > 8)
        eng_label("longer than a word");
    if (n % 8 == 0)
        eng_label("whole words");
}

/* ---------------------------------------------------------------- C16 */
static int sgn(int x) { return (x > 0) - (x < 0); }

static void str_fill(char *s, uint32_t n, int kind) {
    static const unsigned char edge[] = { 0xff, 0x80, 1, 0x7f, 0x81, 0xfe, 2, 'a' };
    uint32_t i, r = d_u(0xffffffffu), run = 1 + (r >> 8) % 24;
    int c1 = edge[r % 8], c2 = edge[r / 8 % 8];
    for (i = 0; i < n; i++) {
        uint64_t h = eng_mix(r * 31ull + (kind == 7 ? i / run : i));
        int b = kind == 5 ? c1 : kind == 6 ? (h & 1 ? c1 : c2) : kind == 7 ? edge[h % 8] : kind == 0 ? 'a' : kind == 1 ? 'a' + (int)(h % 2) : kind == 2 ? 1 + (int)(h % 255) :
            kind == 3 ? 0x80 + (int)(h % 128) : (h & 1 ? 0x80 : 0x81);
        s[i] = (char)b;
    }
    s[n] = 0;
}

static void c16(void) {
    uint32_t n = d_p(1, 2000) ? (uint32_t)d_in(5000, LARGE) : d_len(5000), m, k, i;
    char *a = place(raw, n), *b;
    int kind = (int)d_u(7), how, want, got;
    str_fill(a, n, kind);
    how = d_w("54322");
    if (how == 0) {                      /* equal up to some point */
        b = place(raw2, n);
        memcpy(b, a, n + 1);
        m = n;
        if (n) {
            k = d_u(2) ? d_u(n - 1) : n - 1 - d_u(n - 1 < 9 ? n - 1 : 9);
            b[k] = (char)d_in(1, 255);
        }
        eng_label("same length");
    } else if (how == 1) {               /* prefix */
        m = d_u(1) ? d_u(n) : n - (d_u(n < 9 ? n : 9));
        b = place(raw2, n);
        memcpy(b, a, m);
        b[m] = 0;
        eng_label("prefix");
    } else if (how == 2) {               /* equal */
        b = place(raw2, n);
        memcpy(b, a, n + 1);
        m = n;
        eng_label("equal");
    } else if (how == 3) {               /* extension */
        m = n + d_in(0, 9);
        b = place(raw2, m);
        memcpy(b, a, n);
        for (i = n; i < m; i++)
            b[i] = (char)d_in(1, 255);
        b[m] = 0;
        eng_label("extension");
    } else {
        m = d_len(200);
        b = place(raw2, m);
        str_fill(b, m, kind);
        eng_label("unrelated");
    }
    if (d_p(1, 2)) {                     /* what follows the terminators: the same or not */
        memset(a + n + 1, 'q', 12);
        memset(b + m + 1, d_u(1) ? 'q' : 'r', 12);
    }
    hexnote("a", a, n);
    hexnote("b", b, m);
    if ((k = d_u(3)) < 2)
        a = at_edge(0, a, n + 1, (int)k);
    if ((k = d_u(3)) < 2)
        b = at_edge(1, b, strlen(b) + 1, (int)k);
    CHECK(simd_strlen(a) == n, "simd_strlen of a %u bytes string is %zu", n, simd_strlen(a));
    CHECK(simd_strlen(b) == strlen(b), "simd_strlen of a %zu bytes string is %zu", strlen(b), simd_strlen(b));
    want = sgn(strcmp(a, b));
    got = sgn(simd_strcmp(a, b));
    CHECK(want == got, "simd_strcmp of strings of %u and %zu bytes has sign %d instead of %d", n, strlen(b), got, want);
    got = sgn(simd_strcmp(b, a));
    CHECK(-want == got, "simd_strcmp of strings of %zu and %u bytes has sign %d instead of %d", strlen(b), n, got, -want);
    CHECK(!!is_str_eq(a, b) == (want == 0), "is_str_eq is %d for strings that are %s", is_str_eq(a, b), want ? "different" : "equal");
    CHECK(is_str_eq(a, a), "is_str_eq(a, a) is false");
    CHECK(!is_str_eq(NULL, b) && !is_str_eq(a, NULL) && !is_str_eq(NULL, NULL), "is_str_eq takes NULL as equal");
    CHECK(!!is_str_empty(a) == (n == 0) && !is_str_empty(NULL), "is_str_empty is wrong");
    {   /* containment */
        char *p, save;
        char pat[64];
        uint32_t o, pl;
        int pw;
        if (d_u(2) && n) {
            o = d_u(n - 1);
            pl = d_u(n - o < 40 ? n - o : 40);
            memcpy(pat, a + o, pl);
            pat[pl] = 0;
            if (pl && d_p(1, 3))
                pat[d_u(pl - 1)] = (char)d_in(1, 255);
        } else {
            pl = d_u(3);
            str_fill(pat, pl, kind);
        }
        save = 0;
        (void)save;
        if (n <= 600) {
            p = strstr(a, pat);
            pw = p ? (int)(p - a) : -1;
            hexnote("pattern", pat, strlen(pat));
            got = strpos(a, pat);
            CHECK(pw < 0 ? got < 0 : got == pw, "strpos is %d instead of %d", got, pw);
            if (d_u(1))
                CHECK(!!is_str_in(a, pat) == (pw >= 0), "is_str_in is %d", is_str_in(a, pat));
        }
    }
    if (n > 0)
        eng_nontrivial();
    if (n >= 8)
        eng_label("a word or longer");
}

static const eng_prop props[] = {
    { "C12", ENG_BATCH, 0, c12, NULL, "a parse function, a text of any documented length (random, extreme and zero-led digits, signs, letter case), at any alignment within noise that may continue the number; non-trivial: 2 or more characters" },
    { "C13", ENG_BATCH, 0, c13, NULL, "a format function and a value of its range (any number of bits, near powers of 2 and 10, extremes), any width; text, length and canaries compared with snprintf, then parsed back; non-trivial: 3 or more characters, or a pair" },
    { "C14", ENG_BATCH, 0, c14, NULL, "[sign]0-18 digits[.0-50 digits] at any alignment within noise, against strtod with an error bound of a few roundings; non-trivial: 3 or more characters" },
    { "C15", ENG_BATCH, 0, c15, NULL, "a byte, a buffer of any length and alignment filled with near misses or the byte itself, which also surrounds the buffer; all search functions and word helpers against loops; non-trivial: non-empty buffer" },
    { "C16", ENG_BATCH, 0, c16, NULL, "two strings (one byte changed, prefix, equal, extension or unrelated) of any bytes, lengths, alignments and following bytes, and a pattern; against strlen/strcmp/strstr; non-trivial: non-empty string" },
};

int main(int argc, char **argv) {
    edges(LARGE + 4096);
    return eng_main(argc, argv, props, sizeof props / sizeof *props);
}
