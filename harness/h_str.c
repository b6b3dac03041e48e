/* C17, C18: string helpers against reference implementations, on a tracked allocator. */
#include "eng.h"
#include "raii.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <pthread.h>
#include "edge.h"

#define MAXT 70000
static char A[MAXT + 64], B[MAXT + 64], C[MAXT + 64], A0[MAXT + 64], B0[MAXT + 64], C0[MAXT + 64];
static char ref[2000000];

/* a length: now and then a large one */
static uint32_t length(uint32_t most, uint32_t large) { return d_p(1, 250) ? (uint32_t)d_in(most, large) : d_len(most); }

static void note_s(const char *what, const char *s, size_t n) {
    size_t i;
    if (!eng_verbose)
        return;
    eng_note("  %s (%zu):\"", what, n);
    for (i = 0; i < n && i < 300; i++) {
        unsigned char c = s[i];
        if (c >= 32 && c < 127 && c != '\\' && c != '"')
            eng_note("%c", c);
        else
            eng_note("\\x%02x", c);
    }
    eng_note("\"%s\n", n > 300 ? "..." : "");
}

/* the text, or a copy of it at an edge of memory */
static char *edged(int i, char *s, size_t n) {
    int k = (int)d_u(5);
    return k < 2 ? at_edge(i, s, n, !k) : s;
}

/* text over a small alphabet, so that needles occur; c = alphabet */
static uint32_t text(char *s, uint32_t n, int alpha) {
    static const char al[4][8] = { "ab", "a", "ab,", "a,-.=" };
    uint32_t i, r = d_u(0xffffffffu);
    for (i = 0; i < n; i++) {
        uint64_t h = eng_mix(r * 7919ull + i) >> 9;
        s[i] = alpha < 4 ? al[alpha][h % strlen(al[alpha])] : (char)(1 + h % 255);
    }
    s[n] = 0;
    memset(s + n + 1, 'a', 24);
    return n;
}

/* the scope of a case: 0 the thread's default, 1 an own one, 2 none (the caller frees) */
static memory_t *scope;
static int where;
static size_t base_live;

static memory_t *open_scope(int max) {
    where = (int)d_u(max);
    base_live = 0;
    scope = where == 0 ? raii_init() : where == 1 ? unique_init() : NULL;
    base_live = trk_live();
    return scope;
}

static void close_scope(void **owned, int n) {
    int i;
    if (where == 2) {
        for (i = 0; i < n; i++)
            if (owned[i])
                trk_free(owned[i]);
    } else if (where == 1)
        raii_delete(scope);
    else
        raii_deferred_clean();
    trk_check();
    CHECK(trk_live() == 0, "%zu blocks are still allocated after the scope was released", trk_live());
}

static void fits(const void *p, size_t n, const char *what) {
    CHECK(trk_is_live(p), "%s does not return a block of the allocator", what);
    CHECK(trk_size(p) >= n, "%s returns a block of %zu bytes for %zu", what, trk_size(p), n);
}

static void split_case(void) {
    int alpha = (int)d_u(4), count = -77, n, usenull = 0, isnull;
    uint32_t len = length(3000, MAXT), dl;
    char **r, *delim = B, *a;
    const char *q, *e;
    text(A, len, alpha);
    dl = d_in(1, 4);
    if (d_p(1, 10))
        dl = d_in(1, 20);
    if (d_p(1, 40))
        dl = d_in(20, 300);
    text(B, dl, alpha < 4 ? alpha : 2);
    if (dl >= 20 && len > dl)             /* one that occurs */
        memcpy(B, A + d_u(len - dl), dl);
    if (d_p(1, 12)) {
        usenull = 1;
        delim = NULL;
        strcpy(B, " ");
        dl = 1;
        if (len)
            A[d_u(len - 1)] = ' ';
    }
    if (len > dl && d_p(1, 3)) {          /* delimiters at the ends, or adjacent */
        memcpy(A, B, dl);
        memcpy(A + len - dl, B, dl);
        if (len > 3 * dl)
            memcpy(A + dl, B, dl);
    }
    memcpy(A0, A, len + 1);
    memcpy(B0, B, dl + 1);
    note_s("split", A, len);
    note_s("by", B, dl);
    open_scope(2);
    isnull = d_p(1, 8);
    a = edged(0, A, len + 1);
    if (!usenull)
        delim = edged(1, B, dl + 1);
    r = where == 0 && d_u(1) == 0 ? raii_split(a, delim, isnull ? NULL : &count) : str_split_ex(scope, a, delim, isnull ? NULL : &count);
    CHECK(!memcmp(a, A0, len + 1) && (usenull || !memcmp(delim, B0, dl + 1)) && !memcmp(B, B0, dl + 1), "split modifies its input");
    if (len == 0) {
        CHECK(r == NULL, "splitting an empty string gives a result");
        close_scope((void **)&r, 1);
        return;
    }
    CHECK(r != NULL, "split gives nothing");
    fits(r, 2 * sizeof(char *) + len + 1, "split");
    for (n = 0, q = A; ; n++) {
        size_t fl;
        e = strstr(q, B);
        fl = e ? (size_t)(e - q) : strlen(q);
        CHECK(r[n] != NULL, "split gives only %d fields", n);
        CHECK((char *)r[n] >= (char *)r && r[n] + fl < (char *)r + trk_size(r), "field %d lies outside the result", n);
        CHECK(strlen(r[n]) == fl && !memcmp(r[n], q, fl), "field %d is \"%.60s\" instead of \"%.*s\"", n, r[n], (int)(fl > 60 ? 60 : fl), q);
        if (!e)
            break;
        q = e + strlen(B);
    }
    n++;
    CHECK(r[n] == NULL, "split gives more than the %d fields there are", n);
    if (!isnull)
        CHECK(count == n, "split counts %d fields, there are %d", count, n);
    (void)usenull;
    eng_label("split");
    if (n > 1)
        eng_nontrivial();
    if (n > 32)
        eng_label("split into more than 32");
    close_scope((void **)&r, 1);
}

static char *concat_by(memory_t *m, int n, ...) {
    va_list ap;
    char *r;
    va_start(ap, n);
    r = str_concat_ex(m, n, ap);
    va_end(ap);
    return r;
}

static void concat_case(void) {
    static char part[20][MAXT + 64];
    char keep[20][4], *r, *p[3];
    int n = d_p(1, 8) ? d_in(9, 20) : d_in(1, 8), i;
    size_t tot = 0;
    for (i = 0; i < n; i++) {
        uint32_t l = length(1100, MAXT);
        text(part[i], l, 4);
        memcpy(ref + tot, part[i], l);
        tot += l;
        memcpy(keep[i], part[i], 4);
        note_s("concat", part[i], l);
    }
    ref[tot] = 0;
    open_scope(2);
    for (i = 0; i < 3; i++)
        p[i] = edged(i, part[i], i < n ? strlen(part[i]) + 1 : 1);
#define PP p[0], p[1], p[2], part[3], part[4], part[5], part[6], part[7], part[8], part[9], part[10], part[11], \
    part[12], part[13], part[14], part[15], part[16], part[17], part[18], part[19]
    r = where == 0 && d_u(1) == 0 ? raii_concat(n, PP) : concat_by(scope, n, PP);
    CHECK(r != NULL, "concat gives nothing");
    fits(r, tot + 1, "concat");
    CHECK(strlen(r) == tot && !memcmp(r, ref, tot), "concat of %d strings gives %zu bytes \"%.60s\" instead of %zu", n, strlen(r), r, tot);
    for (i = 0; i < n; i++)
        CHECK(!memcmp(keep[i], part[i], 4) && (i >= 3 || !strcmp(p[i], part[i])), "concat modifies its input");
    eng_label("concat");
    if (n > 1)
        eng_nontrivial();
    close_scope((void **)&r, 1);
}

static void replace_case(void) {
    int alpha = (int)d_u(3), cnt = 0;
    uint32_t len = length(2500, 30000), nl = d_in(1, 4), rl;
    char *r, *a, *b, *c;
    const char *q;
    size_t o = 0;
    text(A, len, alpha);
    text(B, nl, alpha);
    rl = d_u(3) ? d_u(6) : d_u(60);
    if (d_p(1, 60) && len <= 400)
        rl = d_in(60, 4000);
    text(C, rl, d_u(1) ? alpha : 4);
    if (d_p(1, 4) && len > 2 * nl) {
        memcpy(A + len - nl, B, nl);
        memcpy(A, B, nl);
    }
    if (len <= 2500 && d_p(1, 12)) {      /* long needle, cut out of the text */
        nl = len ? d_in(1, len) : 1;
        memcpy(B, A, nl);
        if (!len)
            B[0] = 'x';
        B[nl] = 0;
    }
    memcpy(A0, A, len + 1);
    memcpy(B0, B, nl + 1);
    memcpy(C0, C, rl + 1);
    note_s("replace in", A, len);
    note_s("needle", B, nl);
    note_s("by", C, rl);
    for (q = A; *q; )
        if (!strncmp(q, B, nl)) {
            memcpy(ref + o, C, rl);
            o += rl;
            q += nl;
            cnt++;
        } else
            ref[o++] = *q++;
    ref[o] = 0;
    open_scope(2);
    if (d_p(1, 30)) {
        CHECK(!str_replace_ex(scope, NULL, B, C) && !str_replace_ex(scope, A, NULL, C) && !str_replace_ex(scope, A, B, NULL),
            "replace with a missing argument gives something");
    }
    a = edged(0, A, len + 1);
    b = edged(1, B, nl + 1);
    c = edged(2, C, rl + 1);
    r = where == 0 && d_u(1) == 0 ? raii_replace(a, b, c) : str_replace_ex(scope, a, b, c);
    CHECK(!memcmp(a, A0, len + 1) && !memcmp(b, B0, nl + 1) && !memcmp(c, C0, rl + 1), "replace modifies its input");
    if (cnt == 0) {
        CHECK(r == NULL, "replace gives something where the needle does not occur");
        eng_label("replace nothing");
    } else {
        CHECK(r != NULL, "replace gives nothing for %d occurrences", cnt);
        fits(r, o + 1, "replace");
        CHECK(strlen(r) == o && !memcmp(r, ref, o), "replace gives \"%.80s\" (%zu) instead of \"%.80s\" (%zu)", r, strlen(r), ref, o);
        eng_label("replace");
        if (rl > nl)
            eng_label("replace, growing");
        if (rl == 0)
            eng_label("replace by nothing");
        eng_nontrivial();
    }
    close_scope((void **)&r, 1);
}

static void dup_case(void) {
    uint32_t len = d_len(60000), i;
    char *r, *a;
    char dst[700];
    text(A, len, 4);
    if (d_u(1))
        for (i = 0; i < len; i += 13)
            A[i] = 0;                     /* memory, not text */
    if (d_u(1))
        A[len] = 'x';
    memcpy(A0, A, len + 1);
    open_scope(1);
    note_s("memdup", A, len);
    a = edged(0, A, len);
    r = where == 0 && d_u(1) == 0 ? raii_memdup(a, len) : str_memdup_ex(scope, a, len);
    CHECK(r != NULL, "memdup gives nothing");
    fits(r, len + 1, "memdup");
    CHECK(!memcmp(r, A0, len) && r[len] == 0, "memdup is no terminated copy");
    CHECK(!memcmp(a, A0, len), "memdup modifies its input");
    if (len)
        a[0] ^= 1;
    CHECK(!memcmp(r, A0, len), "memdup shares memory with its source");
    /* str_copy: len bytes, or all of the string if 0 */
    len = d_u(500);
    text(A, len, 4);
    memset(dst, 0x77, sizeof dst);
    i = d_u(1) ? 0 : d_u(len);
    a = edged(0, A, i ? i : len + 1);
    CHECK(str_copy(dst + 64, a, i) == dst + 64, "str_copy returns another pointer");
    if (i == 0)
        i = len;
    CHECK(!memcmp(dst + 64, A, i), "str_copy of %u bytes differs", i);
    for (len = 0; len < 64; len++)
        CHECK(dst[len] == 0x77 && (i + 64 + len >= sizeof dst || dst[64 + i + len] == 0x77), "str_copy writes more than %u bytes", i);
    eng_label("memdup/copy");
    if (i > 0)
        eng_nontrivial();
    close_scope((void **)&r, 1);
}

static void pos_case(void) {
    int alpha = (int)d_u(2), got, want;
    uint32_t len = length(1500, MAXT), pl = d_p(1, 30) ? d_u(600) : d_u(6);
    char *p;
    text(A, len, alpha);
    if (d_u(1) && len) {
        uint32_t o = d_u(len - 1);
        if (pl > len - o)
            pl = len - o;
        if (d_p(1, 4))
            pl = len - o;
        memcpy(B, A + o, pl);
        B[pl] = 0;
    } else
        text(B, pl, alpha);
    note_s("strpos", A, len);
    note_s("pattern", B, pl);
    p = strstr(A, B);
    want = p ? (int)(p - A) : -1;
    got = strpos(edged(0, A, len + 1), edged(1, B, strlen(B) + 1));
    CHECK(want < 0 ? got < 0 : got == want, "strpos is %d instead of %d", got, want);
    if (d_u(1))
        CHECK(!!is_str_in(A, B) == (want >= 0), "is_str_in is %d", is_str_in(A, B));
    eng_label("strpos");
    if (want > 0)
        eng_nontrivial();
}

/* several helpers on one scope keep out of each other's way */
static void many_case(void) {
    char *r[64];
    static char want[64][128];
    int n = d_in(2, 50), i, k;
    open_scope(1);
    for (i = 0; i < n; i++) {
        uint32_t l = d_u(60);
        k = (int)d_u(3);
        text(A, l, 0);
        if (k == 0) {
            r[i] = str_memdup_ex(scope, A, l);
            strcpy(want[i], A);
        } else if (k == 1) {
            r[i] = concat_by(scope, 2, A, "-x", A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A);
            sprintf(want[i], "%s-x", A);
        } else if (k == 2) {
            strcat(A, "%");
            r[i] = str_replace_ex(scope, A, "%", "!!");
            strcpy(want[i], A);
            strcpy(want[i] + l, "!!");
        } else {
            int cnt;
            char **s;
            strcat(A, ";");
            s = str_split_ex(scope, A, ";", &cnt);
            CHECK(s && cnt == 2, "split of \"%s\" gives %d fields", A, s ? cnt : 0);
            r[i] = s[0];
            strcpy(want[i], A);
            want[i][l] = 0;
        }
    }
    for (i = 0; i < n; i++)
        CHECK(r[i] && !strcmp(r[i], want[i]), "result %d of %d became \"%.60s\" instead of \"%.60s\"", i, n, r[i] ? r[i] : "(null)", want[i]);
    NOTE("  %d helper calls on one scope\n", n);
    eng_label("many on one scope");
    eng_nontrivial();
    close_scope(NULL, 0);
}

static void *c17_body(void *x) {
    switch (d_w("4444222")) {
        case 0: split_case(); break;
        case 1: concat_case(); break;
        case 2: replace_case(); break;
        case 3: dup_case(); break;
        case 4: pos_case(); break;
        case 5: many_case(); break;
        default: many_case(); break;
    }
    return x;
}

/* now and then in a thread of its own, which has used no scope before */
static void run_maybe_fresh(void *(*f)(void *)) {
    if (d_p(1, 24)) {
        pthread_t t;
        if (pthread_create(&t, NULL, f, NULL)) {
            f(NULL);
            return;
        }
        pthread_join(t, NULL);
        eng_label("fresh thread");
    } else
        f(NULL);
}

static void c17(void) { run_maybe_fresh(c17_body); }

/* ------------------------------------------------------------------ C18 */
static const char tab[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static size_t ref_enc(char *o, const unsigned char *s, size_t n) {
    size_t i, k = 0;
    for (i = 0; i < n; i += 3) {
        uint32_t v = s[i] << 16 | (i + 1 < n ? s[i + 1] << 8 : 0) | (i + 2 < n ? s[i + 2] : 0);
        o[k++] = tab[v >> 18];
        o[k++] = tab[v >> 12 & 63];
        o[k++] = i + 1 < n ? tab[v >> 6 & 63] : '=';
        o[k++] = i + 2 < n ? tab[v & 63] : '=';
    }
    o[k] = 0;
    return k;
}

static int val(int c) {
    const char *p = c ? strchr(tab, c) : NULL;
    return p ? (int)(p - tab) : -1;
}

static void *c18_body(void *x) {
    uint32_t n, i;
    unsigned char *e, *d;
    size_t k;
    char *a;
    if (d_w("53") == 0) {
        n = d_len(4000);
        if (d_p(1, 40))
            n = d_u(60000);
        text(A, n, 4);
        if (d_p(1, 4)) {                  /* all-ones and all-low sextets */
            int v = "\xff\x01\x3f\xfb"[d_u(3)];
            for (i = 0; i < n; i++)
                A[i] = (char)v;
        }
        memcpy(A0, A, n + 1);
        note_s("encode", A, n);
        k = ref_enc(ref, (unsigned char *)A, n);
        open_scope(1);
        a = edged(0, A, n + 1);
        e = where == 0 && d_u(1) == 0 ? raii_encode64((u_string_t)a) : str_encode64_ex(scope, (u_string_t)a);
        CHECK(e != NULL, "encoding %u bytes gives nothing", n);
        fits(e, k + 1, "encode64");
        CHECK(strlen((char *)e) == k && !strcmp((char *)e, ref), "encoding %u bytes gives \"%.80s\" instead of \"%.80s\"", n, e, ref);
        CHECK(is_base64(e), "the encoded text is not recognised as base64");
        CHECK(!memcmp(a, A0, n + 1), "encode64 modifies its input");
        if (n > 0) {
            int noisy = d_p(1, 3);
            char *src = (char *)e;
            if (noisy) {                  /* white space and other foreign bytes in between */
                size_t o = 0;
                for (i = 0; i < k; i++) {
                    if (d_p(1, 6) && o < MAXT - 8)
                        B[o++] = "\n \t-_*\x80\xff"[d_u(7)];
                    if (o < MAXT - 8)
                        B[o++] = e[i];
                }
                B[o] = 0;
                if (o >= MAXT - 9)
                    noisy = 0;
                else
                    src = B;
                note_s("decode", src, strlen(src));
                eng_label("foreign characters");
            }
            if (noisy)
                src = edged(1, src, strlen(src) + 1);
            d = where == 0 && d_u(1) == 0 ? raii_decode64((u_string_t)src) : str_decode64_ex(scope, (u_string_t)src);
            CHECK(d != NULL, "decoding what %u bytes were encoded to gives nothing", n);
            fits(d, n + 1, "decode64");
            CHECK(!memcmp(d, A0, n) && d[n] == 0, "decoding what %u bytes were encoded to gives other bytes", n);
            CHECK(noisy || !strcmp((char *)e, ref), "decode64 modifies its input");
        }
        eng_label(n % 3 == 0 ? "round trip, no padding" : "round trip, padding");
        if (n > 1)
            eng_nontrivial();
        close_scope(NULL, 0);
    } else {
        /* any text */
        size_t sig = 0, o = 0;
        int eq = 0, isb = 1, v[4], c = 0;
        int style = (int)d_u(3);
        n = length(400, 4000);
        for (i = 0; i < n; i++) {
            int b = style == 0 || style == 3 ? tab[d_u(63)] : style == 1 ? d_in(1, 255) : "AZaz09+/=-\n \x80"[d_u(12)];
            if (style == 3 && d_p(1, 12))
                b = "=*"[d_u(1)];
            A[i] = (char)b;
        }
        A[n] = 0;
        memset(A + n + 1, '=', 16);
        memcpy(A0, A, n + 1);
        for (i = 0; i < n; i++) {
            int w = val((unsigned char)A[i]);
            if (A[i] == '=')
                eq++, sig++;
            else if (w >= 0) {
                sig++;
                v[c++] = w;
                if (c == 4 && !eq) {
                    ref[o++] = (char)(v[0] << 2 | v[1] >> 4);
                    ref[o++] = (char)(v[1] << 4 | v[2] >> 2);
                    ref[o++] = (char)(v[2] << 6 | v[3]);
                    c = 0;
                } else if (c == 4)
                    c = 0;
            } else
                isb = 0;
        }
        note_s("decode any", A, n);
        open_scope(1);
        a = edged(0, A, n + 1);
        CHECK(!!is_base64((u_string_t)a) == isb, "is_base64 is %d", is_base64((u_string_t)a));
        d = where == 0 && d_u(1) == 0 ? raii_decode64((u_string_t)a) : str_decode64_ex(scope, (u_string_t)a);
        if (sig == 0 || sig % 4) {
            CHECK(d == NULL, "decoding %zu significant characters gives something", sig);
            eng_label("nothing to decode");
        } else if (!eq) {
            CHECK(d != NULL, "decoding %zu significant characters gives nothing", sig);
            fits(d, o + 1, "decode64");
            CHECK(!memcmp(d, ref, o) && d[o] == 0, "decoding gives other bytes");
            eng_label("decode, no padding");
            eng_nontrivial();
        } else {
            if (d)
                CHECK(trk_is_live(d), "decode64 does not return a block");
            eng_label("decode, padding anywhere");
            eng_nontrivial();
        }
        CHECK(!memcmp(a, A0, n + 1), "decode64 modifies its input");
        close_scope(NULL, 0);
    }
    return x;
}

static void c18(void) { run_maybe_fresh(c18_body); }

static const eng_prop props[] = {
    { "C17", ENG_BATCH, 0, c17, NULL, "a helper (split, concat, replace, memdup, copy, strpos, or many on one scope), texts over small and full alphabets with delimiters/needles adjacent, at the ends, overlapping, replacements growing, shrinking or empty, with the default, an own or no scope; results compared with reference implementations, then everything must be freed once; non-trivial: 2 or more fields/parts, an occurrence, a non-empty copy" },
    { "C18", ENG_BATCH, 0, c18, NULL, "byte strings of any length encoded and decoded again (also with foreign characters in between) against a reference codec, and arbitrary texts decoded, with the default scope (also a fresh thread's) or an own one; non-trivial: 2 or more bytes, or significant characters to decode" },
};

int main(int argc, char **argv) {
    edges(MAXT + 4096);
    return eng_main(argc, argv, props, sizeof props / sizeof *props);
}
