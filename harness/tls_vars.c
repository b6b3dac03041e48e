#include "tls_vars.h"
int w_sentinel;
thrd_local(int, w_int, NULL)
thrd_local(tls_rec, w_rec, NULL)
thrd_local_plain(long, w_long, 7)
thrd_local_plain(unsigned char, w_byte, 0)
