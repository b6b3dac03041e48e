/* Variables for h_tls.c, declared as a library's header would: defined in tls_vars.c. */
#include "cthread.h"
typedef struct { unsigned char b[24]; long n; } tls_rec;
thrd_local_extern(int, w_int)
thrd_local_extern(tls_rec, w_rec)
thrd_local_external(long, w_long)
thrd_local_external(unsigned char, w_byte)
extern int w_sentinel;
