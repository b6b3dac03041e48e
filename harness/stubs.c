/* What rpmalloc.c and cthread.c would supply; neither is part of this build. */
int rpmalloc_initialize(void) { return 0; }
int rpmalloc_init(void) { return 0; }
void rpmalloc_thread_initialize(void) { }
void rpmalloc_thread_finalize(int release) { (void)release; }
void rpmalloc_finalize(void) { }
