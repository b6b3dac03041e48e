/* eng.h - property-based testing engine: recorded draws, isolation, shrinking, replay. */
#ifndef ENG_H
#define ENG_H
#include <stdint.h>
#include <stddef.h>

/* --- a property ------------------------------------------------------------ */
enum {
    ENG_BATCH,   /* many cases in one child process */
    ENG_ISO      /* one child process per case */
};

typedef struct {
    const char *name;                 /* property id */
    int mode;
    int flaky;                        /* schedule dependent: a failure may need several replays */
    void (*run)(void);                /* in the child: draw a case, run it, eng_fail() if wrong */
    void (*post)(int status);         /* in the parent, after the child ended (ISO, optional) */
    const char *rule;                 /* how cases are made, what is non-trivial */
} eng_prop;

int eng_main(int argc, char **argv, const eng_prop *props, int n);

/* --- draws (0 is always the simplest choice) -------------------------------- */
uint32_t d_u(uint32_t max);                    /* 0..max */
int      d_in(int lo, int hi);                 /* lo..hi, lo simplest */
int      d_p(int num, int den);                /* true with probability num/den, false simplest */
uint64_t d_u64(void);                          /* mixed magnitudes and bit patterns */
int      d_w(const char *weights);             /* index by weight, e.g. "9531" */
uint32_t d_len(uint32_t max);                  /* mostly small, word/growth boundaries, sometimes large */

/* --- reporting --------------------------------------------------------------- */
void eng_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void eng_fail_post(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  /* from post() */
#define CHECK(c, ...) do { if (!(c)) eng_fail(__VA_ARGS__); } while (0)
extern int eng_verbose;
void eng_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define NOTE(...) do { if (eng_verbose) eng_note(__VA_ARGS__); } while (0)
void eng_label(const char *name);
void eng_nontrivial(void);
void eng_key(uint64_t k);             /* extra identity of a case besides its tape (enumerated faults) */
void eng_count(uint64_t n);           /* n further evaluations made within this case */
int  eng_failed(void);
const char *eng_variant(void);
int  eng_tier(void);                  /* 0 quick, 1 thorough */

/* Shared between the child and post(). */
void *eng_shared(void);
#define ENG_SHARED_SIZE (1u << 20)

/* Text the child wrote to stderr, in post(). */
const char *eng_stderr(size_t *len);

uint64_t eng_mix(uint64_t x);

/* --- tracked allocator --------------------------------------------------------- */
void *trk_malloc(size_t n);
void *trk_calloc(size_t c, size_t n);
void *trk_realloc(void *p, size_t n);
void *trk_memalign(size_t a, size_t n);
void  trk_free(void *p);
void  trk_reset(void);                /* forget everything (start of a case) */
void  trk_check(void);                /* redzones and freed memory intact */
size_t trk_live(void);                /* blocks not freed */
size_t trk_live_bytes(void);
size_t trk_count(void);               /* allocation requests so far */
int   trk_is_live(const void *p);     /* p is a live block's start */
int   trk_owns(const void *p, size_t n); /* [p,p+n) lies in one live block */
size_t trk_size(const void *p);
size_t trk_frees(void);
/* Failure injection: the n-th request from now on (1-based) fails; then `more` bits decide on
 * the following 64; all after `from` (1-based, 0 never) fail. */
void  trk_fail(long nth, uint64_t more, long from);
extern void (*trk_hook)(void);          /* called before every request */
void  trk_suspend(int on);            /* no injection while on */
size_t trk_failed(void);              /* injected failures so far */
void  trk_describe_live(char *buf, size_t n);
#endif
