/* Memory between two pages that cannot be read: what is outside a text is not to be touched. */
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>

#define EDGES 3
static char *edge_lo[EDGES], *edge_hi[EDGES];

static void edges(size_t size) {
    size_t pg = 4096, sz = (size + pg - 1) / pg * pg;
    int i;
    for (i = 0; i < EDGES; i++) {
        char *m = mmap(NULL, sz + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED || mprotect(m, pg, PROT_NONE) || mprotect(m + pg + sz, pg, PROT_NONE)) {
            perror("guard pages");
            exit(3);
        }
        edge_lo[i] = m + pg;
        edge_hi[i] = m + pg + sz;
    }
}

/* A copy of the text that ends, or starts, where readable memory does. */
static char *at_edge(int i, const char *s, size_t n, int end) {
    eng_label("at an edge of memory");
    NOTE("the text %s where readable memory does\n", end ? "ends" : "starts");
    if (end)
        return memcpy(edge_hi[i] - n, s, n);
    memset(edge_lo[i] + n, 'x', 16);
    return memcpy(edge_lo[i], s, n);
}
