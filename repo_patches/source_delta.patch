From e19dca7923cbcc658fb2b819d6fb2dabec485123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 01/58] fix: index deferred statements by their array storage

The deferred list is kept through a raii_array_t view of defer_t, but the
index helpers read defer_t.base, so the index returned by raii_deferred()
was garbage and cancel/fire touched the wrong memory.
---
 src/raii.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 9130d51..6849b72 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -342,18 +342,20 @@ static RAII_INLINE void raii_deferred_array_free(defer_t *array) {
     raii_array_free((raii_array_t *)array);
 }
 
-static RAII_INLINE size_t raii_deferred_array_get_index(const defer_t *array, raii_array_t *elem) {
-    RAII_ASSERT(elem >= (raii_array_t *)array->base.base);
-    return (size_t)(elem - (raii_array_t *)array->base.base);
+static RAII_INLINE size_t raii_deferred_array_get_index(const defer_t *array, defer_func_t *elem) {
+    const raii_array_t *defers = (const raii_array_t *)array;
+    RAII_ASSERT(elem >= (defer_func_t *)defers->base);
+    return (size_t)(elem - (defer_func_t *)defers->base);
 }
 
-static RAII_INLINE raii_array_t *raii_deferred_array_get_element(const defer_t *array, size_t index) {
-    RAII_ASSERT(index <= array->base.elements);
-    return &((raii_array_t *)array->base.base)[index];
+static RAII_INLINE defer_func_t *raii_deferred_array_get_element(const defer_t *array, size_t index) {
+    const raii_array_t *defers = (const raii_array_t *)array;
+    RAII_ASSERT(index < defers->elements);
+    return &((defer_func_t *)defers->base)[index];
 }
 
 static RAII_INLINE size_t raii_deferred_array_len(const defer_t *array) {
-    return array->base.elements;
+    return ((const raii_array_t *)array)->elements;
 }
 
 static void deferred_canceled(void *data) {}
@@ -363,7 +365,7 @@ static void raii_deferred_internal(memory_t *scope, defer_func_t *deferred) {
 
     RAII_ASSERT(num_defers != 0 && deferred != NULL);
 
-    if (deferred == (defer_func_t *)raii_deferred_array_get_element(&scope->defer, num_defers - 1)) {
+    if (deferred == raii_deferred_array_get_element(&scope->defer, num_defers - 1)) {
         /* If we're cancelling the last defer we armed, there's no need to waste
          * space of a deferred callback to an empty function like
          * disarmed_defer(). */
@@ -378,13 +380,13 @@ static void raii_deferred_internal(memory_t *scope, defer_func_t *deferred) {
 void raii_deferred_cancel(memory_t *scope, size_t index) {
     RAII_ASSERT(index >= 0);
 
-    raii_deferred_internal(scope, (defer_func_t *)raii_deferred_array_get_element(&scope->defer, index));
+    raii_deferred_internal(scope, raii_deferred_array_get_element(&scope->defer, index));
 }
 
 void raii_deferred_fire(memory_t *scope, size_t index) {
     RAII_ASSERT(index >= 0);
 
-    defer_func_t *deferred = (defer_func_t *)raii_deferred_array_get_element(&scope->defer, index);
+    defer_func_t *deferred = raii_deferred_array_get_element(&scope->defer, index);
     RAII_ASSERT(scope);
 
     deferred->func(deferred->data);
@@ -460,7 +462,7 @@ static size_t raii_deferred_any(memory_t *scope, func_t func, void *data, void *
         deferred->data = data;
         deferred->check = check;
 
-        return raii_deferred_array_get_index(&scope->defer, (raii_array_t *)deferred);
+        return raii_deferred_array_get_index(&scope->defer, deferred);
     }
 }
 
-- 
2.43.0


From e753d6c3e244db4bd4ae46f8ca65df8231c912d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:22 +0000
Subject: [PATCH 02/58] fix: disarm a deferred statement before firing it

raii_deferred_fire() ran the function first, so one that throws ran a second
time while unwinding, and one that defers more could move the array under the
entry being disarmed.
---
 src/raii.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/raii.c b/src/raii.c
index 6849b72..c400452 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -389,9 +389,12 @@ void raii_deferred_fire(memory_t *scope, size_t index) {
     defer_func_t *deferred = raii_deferred_array_get_element(&scope->defer, index);
     RAII_ASSERT(scope);
 
-    deferred->func(deferred->data);
+    func_t func = deferred->func;
+    void *data = deferred->data;
 
+    /* Disarm first, `func` may throw, or add more deferred statements. */
     raii_deferred_internal(scope, deferred);
+    func(data);
 }
 
 static void raii_deferred_run(memory_t *scope, size_t generation) {
-- 
2.43.0


From ed1b090a346fe0b485005da99e0deb969009a65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 03/58] fix: run each deferred statement exactly once while
 unwinding

raii_deferred_run() walked a saved base pointer and set the count only at the
end: statements deferred by a deferred function were dropped (or read through
a freed array), and after one that throws, those already run were run again,
forever if it always throws.
---
 src/raii.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index c400452..1bbca36 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -399,21 +399,20 @@ void raii_deferred_fire(memory_t *scope, size_t index) {
 
 static void raii_deferred_run(memory_t *scope, size_t generation) {
     raii_array_t *array = (raii_array_t *)&scope->defer;
-    defer_func_t *defers = array->base;
     bool defer_ran = false;
-    size_t i;
 
     scope->is_recovered = is_empty(scope->err);
 
-    for (i = array->elements; i != generation; i--) {
-        defer_func_t *defer = &defers[i - 1];
+    while (array->elements > generation) {
+        /* Taken off before it runs: a deferred statement may defer more,
+         * and one that throws must not run again. */
+        defer_func_t defer = ((defer_func_t *)array->base)[--array->elements];
         defer_ran = true;
 
-        if (!is_empty(scope->err) && !is_empty(defer->check))
+        if (!is_empty(scope->err) && !is_empty(defer.check))
             scope->is_recovered = false;
 
-        defer->func(defer->data);
-        defer->data = NULL;
+        defer.func(defer.data);
     }
 
     if (scope->is_protected && !is_empty(scope->protector) && !is_empty(scope->err)) {
@@ -424,7 +423,6 @@ static void raii_deferred_run(memory_t *scope, size_t generation) {
         }
     }
 
-    array->elements = generation;
     if (!is_empty(scope->protector)) {
         ex_unprotected_ptr(scope->protector);
         RAII_FREE(scope->protector);
-- 
2.43.0


From 7cfe0abd213952ef31501732634c8a23beed9a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:56 +0000
Subject: [PATCH 04/58] fix: a scope stays usable after
 raii_deferred_free/raii_deferred_clean

The array's type tag was cleared with it, so whatever was deferred to, or
allocated from, the scope afterwards was never run or freed.
---
 src/raii.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/raii.c b/src/raii.c
index 1bbca36..83e8e74 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -442,6 +442,8 @@ void raii_deferred_free(memory_t *scope) {
     if (is_type(&scope->defer, RAII_DEF_ARR)) {
         raii_deferred_run(scope, 0);
         raii_deferred_array_reset(&scope->defer);
+        /* The scope stays usable, what it's given later is released too. */
+        raii_deferred_init(&scope->defer);
     }
 }
 
-- 
2.43.0


From 787dfe8e1beeec0456a4150967bc98af15e3d26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:07 +0000
Subject: [PATCH 05/58] fix: do not push scope memory on the protected pointer
 stack

The stack holds addresses of pointers; malloc_full/calloc_full pushed the
block itself (again and again, with one node per scope: a cycle), so a throw
ran the release function on the first bytes of user data. The block already is
released by the scope's deferred list.
---
 src/future.c |  5 -----
 src/raii.c   | 26 --------------------------
 2 files changed, 31 deletions(-)

diff --git a/src/future.c b/src/future.c
index 53d67a6..7bba7f8 100644
--- a/src/future.c
+++ b/src/future.c
@@ -209,8 +209,6 @@ future_t thrd_scope(void) {
     pool->cpu_present = thrd_cpu_count();
     pool->futures = NULL;
     pool->results = NULL;
-    ex_protect_ptr(scope->protector, &pool->futures, RAII_FREE);
-    ex_protect_ptr(scope->protector, &pool->results, RAII_FREE);
     pool->type = RAII_SPAWN;
     spawn->arena = pool;
 
@@ -229,7 +227,6 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
 
     promise *p = promise_create();
     future f = future_create(fn);
-    ex_protect_ptr(raii_local()->protector, &f, RAII_FREE);
     future_arg *f_arg = try_calloc(1, sizeof(future_arg));
     f_arg->func = f->func;
     f_arg->arg = args;
@@ -295,11 +292,9 @@ void thrd_then(result_func_t callback, future_t iter, void_t result) {
 void thrd_destroy(future_t f) {
     if (is_type(f, RAII_SPAWN)) {
         memory_t *scope = f->scope;
-        ex_ptr_t *err = scope->protector;
         f->type = -1;
         RAII_FREE(f->futures);
         RAII_FREE(f->results);
-        ex_unprotected_ptr(err);
         raii_delete(scope);
     }
 }
diff --git a/src/raii.c b/src/raii.c
index 83e8e74..598222b 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -219,11 +219,6 @@ unique_t *unique_init_arena(void) {
 
 void *malloc_full(memory_t *scope, size_t size, func_t func) {
     void *arena = try_malloc(size);
-    if (is_empty(scope->protector))
-        scope->protector = try_malloc(sizeof(ex_ptr_t));
-
-    scope->protector->is_emulated = scope->is_emulated;
-    ex_protect_ptr(scope->protector, arena, func);
     scope->is_protected = true;
     scope->mid = raii_deferred(scope, func, arena);
 
@@ -247,11 +242,6 @@ RAII_INLINE void *malloc_arena(memory_t *scope, size_t size) {
 
 void *calloc_full(memory_t *scope, int count, size_t size, func_t func) {
     void *arena = try_calloc(count, size);
-    if (is_empty(scope->protector))
-        scope->protector = try_calloc(1, sizeof(ex_ptr_t));
-
-    scope->protector->is_emulated = scope->is_emulated;
-    ex_protect_ptr(scope->protector, arena, func);
     scope->is_protected = true;
     scope->mid = raii_deferred(scope, func, arena);
 
@@ -399,7 +389,6 @@ void raii_deferred_fire(memory_t *scope, size_t index) {
 
 static void raii_deferred_run(memory_t *scope, size_t generation) {
     raii_array_t *array = (raii_array_t *)&scope->defer;
-    bool defer_ran = false;
 
     scope->is_recovered = is_empty(scope->err);
 
@@ -407,27 +396,12 @@ static void raii_deferred_run(memory_t *scope, size_t generation) {
         /* Taken off before it runs: a deferred statement may defer more,
          * and one that throws must not run again. */
         defer_func_t defer = ((defer_func_t *)array->base)[--array->elements];
-        defer_ran = true;
 
         if (!is_empty(scope->err) && !is_empty(defer.check))
             scope->is_recovered = false;
 
         defer.func(defer.data);
     }
-
-    if (scope->is_protected && !is_empty(scope->protector) && !is_empty(scope->err)) {
-        scope->is_protected = false;
-        if (!defer_ran) {
-            scope->protector->func(*scope->protector->ptr);
-            *scope->protector->ptr = NULL;
-        }
-    }
-
-    if (!is_empty(scope->protector)) {
-        ex_unprotected_ptr(scope->protector);
-        RAII_FREE(scope->protector);
-        scope->protector = NULL;
-    }
 }
 
 size_t raii_deferred_count(memory_t *scope) {
-- 
2.43.0


From 90d1788a1f7b56a243cb71dc4643a36e9c77cce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 06/58] fix: initialize every field of a try block's context

Its flags were stack garbage: whether a throw unwound the thread scope, set its
error, or rethrew with a message depended on what the stack held before.
---
 include/exception.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/exception.h b/include/exception.h
index 7ced475..108fc95 100644
--- a/include/exception.h
+++ b/include/exception.h
@@ -303,7 +303,20 @@ throws an exception of given message. */
     ex_err.next = ex_init();                \
     ex_err.stack = 0;                       \
     ex_err.ex = 0;                          \
+    ex_err.panic = 0;                       \
+    ex_err.file = 0;                        \
+    ex_err.line = 0;                        \
+    ex_err.function = 0;                    \
     ex_err.unstack = 0;                     \
+    ex_err.caught = -1;                     \
+    ex_err.is_unwind = false;               \
+    ex_err.is_rethrown = false;             \
+    ex_err.is_guarded = false;              \
+    ex_err.is_raii = false;                 \
+    ex_err.is_emulated = false;             \
+    ex_err.data = 0;                        \
+    ex_err.prev = 0;                        \
+    ex_err.type = ex_context_st;            \
     /* global context updated */            \
     ex_update(&ex_err);                     \
     /* save jump location */                \
-- 
2.43.0


From 7674878e73d2474d4b72981b2d05ffb8c72b9e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:00 +0000
Subject: [PATCH 07/58] fix: caught()/raii_message() without a thread scope, or
 after another error

They read the thread scope, which is NULL until raii_init() (a crash inside
catch_if, hence an endless loop), and which may hold an earlier error. Use the
exception of the current context.
---
 src/raii.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 598222b..db8e95e 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -461,17 +461,15 @@ RAII_INLINE void raii_recover_by(memory_t *scope, func_t func, void *data) {
 
 bool raii_caught(const char *err) {
     memory_t *scope = raii_local();
-    const char *exception = (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
+    bool is_caught = is_str_eq(err, raii_message());
 
-    if (exception == NULL && is_str_eq(err, ex_local()->ex)) {
-        ex_local()->state = ex_catch_st;
-        return true;
-    }
+    if (!is_empty(scope))
+        scope->is_recovered = is_caught;
 
-    if ((scope->is_recovered = is_str_eq(err, exception)))
+    if (is_caught)
         ex_local()->state = ex_catch_st;
 
-    return scope->is_recovered;
+    return is_caught;
 }
 
 bool raii_is_caught(memory_t *scope, const char *err) {
@@ -484,8 +482,13 @@ bool raii_is_caught(memory_t *scope, const char *err) {
 
 const char *raii_message(void) {
     memory_t *scope = raii_local();
-    const char *exception = (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
-    return exception == NULL ? ex_local()->ex : exception;
+    ex_context_t *ctx = ex_local();
+
+    /* The exception at hand, the scope has the last one that reached it. */
+    if (!is_empty(ctx) && !is_empty((void *)ctx->ex))
+        return !is_empty((void *)ctx->panic) ? ctx->panic : ctx->ex;
+
+    return is_empty(scope) ? NULL : raii_message_by(scope);
 }
 
 RAII_INLINE const char *raii_message_by(memory_t *scope) {
-- 
2.43.0


From 14c059c2d8555369dafa72c551831edd5bb76599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 08/58] fix: attach the thread scope to the thread's outermost
 context

When raii_init() first ran inside a try, that try's exceptions freed the whole
thread scope, although caught.
---
 src/raii.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/raii.c b/src/raii.c
index db8e95e..34c70f6 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -116,6 +116,10 @@ memory_t *raii_init(void) {
         scope->mid = -1;
 
         ex_context_t *ctx = ex_init();
+        /* May be called first inside a `try`, only an uncaught exception ends the thread scope. */
+        while (!is_empty(ctx->next))
+            ctx = ctx->next;
+
         ctx->data = (void *)scope;
         ctx->prev = (void *)scope;
         ctx->is_raii = true;
-- 
2.43.0


From 809728d479e33a6384abaccaaa68832010dee8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 09/58] fix: run a guard's deferred statements at the guard,
 not at the throw

With memory allocated in the guard, ex_throw() emptied the guard's scope before
the jump: a recovery made there was lost (the exception was rethrown), and an
exception caught by an inner try freed memory the guard still uses.
---
 src/raii.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/raii.c b/src/raii.c
index 34c70f6..2ce6320 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -513,7 +513,9 @@ void guard_set(ex_context_t *ctx, const char *ex, const char *message) {
     scope->panic = message;
     ctx->is_guarded = true;
     ex_swap_set(ctx, (void *)scope);
-    ex_unwind_set(ctx, scope->is_protected);
+    /* The guard runs its deferred statements once the jump is made to it, they can
+     * recover there, and an inner `try` that catches must not empty the guard. */
+    ex_unwind_set(ctx, false);
 }
 
 void guard_reset(void *scope, ex_setup_func set, ex_unwind_func unwind) {
-- 
2.43.0


From 29e1892c64932af24a63d3e59b0afceace649552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 10/58] fix: a NULL protected pointer does not end the
 unwinding

The documented contract is that func(ptr) runs for every protected pointer that
is not null; a null one hid those protected before it.
---
 src/except.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/except.c b/src/except.c
index 088d247..d2a0540 100644
--- a/src/except.c
+++ b/src/except.c
@@ -115,15 +115,15 @@ static void ex_unwind_stack(ex_context_t *ctx) {
         raii_deferred_clean();
     } else {
         while (p && p->type == ex_protected_st) {
-            if ((got_uncaught_exception = (temp == *p->ptr)))
-                break;
-
             if (*p->ptr) {
+                if ((got_uncaught_exception = (temp == *p->ptr)))
+                    break;
+
+                temp = *p->ptr;
                 p->type = -1;
                 p->func(*p->ptr);
             }
 
-            temp = *p->ptr;
             p = p->next;
         }
     }
-- 
2.43.0


From 1c9077fa95c66f6035ee7cbc91a7d7c5d92b2735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:03 +0000
Subject: [PATCH 11/58] fix: protected pointers are released by an uncaught
 exception too

With memory in the thread scope only that scope was unwound.
---
 src/except.c | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/except.c b/src/except.c
index d2a0540..a430d50 100644
--- a/src/except.c
+++ b/src/except.c
@@ -109,25 +109,24 @@ static void ex_unwind_stack(ex_context_t *ctx) {
 
     ctx->unstack = 1;
 
-    if (ctx->is_unwind && exception_unwind_func) {
-        exception_unwind_func(ctx->data);
-    } else if (ctx->is_unwind && ctx->is_raii && ctx->data == (void *)raii_local()) {
-        raii_deferred_clean();
-    } else {
-        while (p && p->type == ex_protected_st) {
-            if (*p->ptr) {
-                if ((got_uncaught_exception = (temp == *p->ptr)))
-                    break;
-
-                temp = *p->ptr;
-                p->type = -1;
-                p->func(*p->ptr);
-            }
+    while (p && p->type == ex_protected_st) {
+        if (*p->ptr) {
+            if ((got_uncaught_exception = (temp == *p->ptr)))
+                break;
 
-            p = p->next;
+            temp = *p->ptr;
+            p->type = -1;
+            p->func(*p->ptr);
         }
+
+        p = p->next;
     }
 
+    if (ctx->is_unwind && exception_unwind_func)
+        exception_unwind_func(ctx->data);
+    else if (ctx->is_unwind && ctx->is_raii && ctx->data == (void *)raii_local())
+        raii_deferred_clean();
+
     ctx->unstack = 0;
     ctx->stack = 0;
 }
-- 
2.43.0


From df6a6d9df1a3ba3020aa6a970e1c4517e9e278fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:37 +0000
Subject: [PATCH 12/58] fix: each thread has its own guard unwinding functions

They were process globals saved and restored by every guard, so two threads
with overlapping guards left each other with the wrong ones: an exception in
one future could end the process.
---
 include/exception.h | 7 +++++--
 src/except.c        | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/exception.h b/include/exception.h
index 108fc95..9d579c7 100644
--- a/include/exception.h
+++ b/include/exception.h
@@ -34,6 +34,8 @@
     #endif
 #endif
 
+#include "cthread.h" /* thread_local */
+
 #define EX_MAX_NAME_LEN  256
 #if !defined(RAII_MALLOC) || !defined(RAII_FREE) || !defined(RAII_REALLOC)|| !defined(RAII_CALLOC)
   #include "rpmalloc.h"
@@ -441,8 +443,9 @@ struct ex_ptr_s {
 /* extern declaration
 */
 
-C_API ex_setup_func exception_setup_func;
-C_API ex_unwind_func exception_unwind_func;
+/* Each thread has its own, set by the `guard` section it's in. */
+C_API thread_local ex_setup_func exception_setup_func;
+C_API thread_local ex_unwind_func exception_unwind_func;
 C_API ex_terminate_func exception_terminate_func;
 C_API ex_terminate_func exception_ctrl_c_func;
 C_API bool exception_signal_set;
diff --git a/src/except.c b/src/except.c
index a430d50..a8ddd8d 100644
--- a/src/except.c
+++ b/src/except.c
@@ -63,8 +63,8 @@ static volatile sig_atomic_t got_uncaught_exception = false;
 static volatile sig_atomic_t got_ctrl_c = false;
 static volatile sig_atomic_t can_terminate = true;
 
-ex_setup_func exception_setup_func = NULL;
-ex_unwind_func exception_unwind_func = NULL;
+thread_local ex_setup_func exception_setup_func = NULL;
+thread_local ex_unwind_func exception_unwind_func = NULL;
 ex_terminate_func exception_ctrl_c_func = NULL;
 ex_terminate_func exception_terminate_func = NULL;
 bool exception_signal_set = false;
-- 
2.43.0


From 118c7820f9382407cb54613de6dee0a62a58d310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 13/58] fix: a guard that can not be allocated panics in the
 enclosing scope

The guard's handler was set before it had a scope, and the panic of
unique_init() went through a NULL one.
---
 include/raii.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/raii.h b/include/raii.h
index 2bb3d15..a9a6e94 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -535,11 +535,11 @@ are only valid between these sections.
     void *s##__FUNCTION__ = raii_init()->arena;         \
     ex_setup_func sf##__FUNCTION__ = exception_setup_func;      \
     ex_unwind_func uf##__FUNCTION__ = exception_unwind_func;    \
-    exception_unwind_func = (ex_unwind_func)raii_deferred_free; \
-    exception_setup_func = guard_set;                   \
     unique_t *_$##__FUNCTION__ = unique_init();         \
     (_$##__FUNCTION__)->status = RAII_GUARDED_STATUS;   \
     raii_local()->arena = (void *)_$##__FUNCTION__;     \
+    exception_unwind_func = (ex_unwind_func)raii_deferred_free; \
+    exception_setup_func = guard_set;                   \
     ex_try {                                            \
         do {
 
-- 
2.43.0


From 8f3b74922ebabfbb02f5d94d6013ec544a87004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 14/58] fix: memory that can not be bound to its scope is
 freed, and panics

When the deferred list could not grow, malloc_full/calloc_full returned a block
nothing would ever free.
---
 src/raii.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 2ce6320..967401a 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -221,12 +221,23 @@ unique_t *unique_init_arena(void) {
     return raii;
 }
 
-void *malloc_full(memory_t *scope, size_t size, func_t func) {
-    void *arena = try_malloc(size);
+static void *raii_protected(memory_t *scope, void *ptr, func_t func) {
+    size_t mid = raii_deferred(scope, func, ptr);
+    if (mid == (size_t)-1) {
+        RAII_FREE(ptr);
+        errno = ENOMEM;
+        raii_panic("Deferred memory release failed!");
+    }
+
     scope->is_protected = true;
-    scope->mid = raii_deferred(scope, func, arena);
+    scope->mid = mid;
 
-    return arena;
+    return ptr;
+}
+
+void *malloc_full(memory_t *scope, size_t size, func_t func) {
+    void *arena = try_malloc(size);
+    return raii_protected(scope, arena, func);
 }
 
 RAII_INLINE void *malloc_default(size_t size) {
@@ -246,10 +257,7 @@ RAII_INLINE void *malloc_arena(memory_t *scope, size_t size) {
 
 void *calloc_full(memory_t *scope, int count, size_t size, func_t func) {
     void *arena = try_calloc(count, size);
-    scope->is_protected = true;
-    scope->mid = raii_deferred(scope, func, arena);
-
-    return arena;
+    return raii_protected(scope, arena, func);
 }
 
 RAII_INLINE void *calloc_default(int count, size_t size) {
-- 
2.43.0


From b5d9e16048750f1339642bb36c64530a6bb89cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 15/58] fix: arena_clear/arena_free release the arena's chunks
 once

arena_clear left the arena on chunks it had put on the free list (two later
allocations could share memory) and lost the older ones; arena_free read chunks
it had freed, and turned the free list off for every other arena.
---
 src/arena.c | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/arena.c b/src/arena.c
index 1459b31..d018457 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -32,11 +32,13 @@ void arena_free(arena_t arena) {
         return;
 
     if (is_type(arena, RAII_ARENA + RAII_STRUCT)) {
-        num_free += (int)arena->threshold + 1;
-        if (arena->is_global)
+        if (arena->is_global) {
             RAII_FREE(arena->base);
-        else
+        } else {
+            /* None of the chunks are kept. */
+            arena->threshold = 0;
             arena_clear(arena);
+        }
 
         memset(arena, -1, sizeof(arena_t));
         RAII_FREE(arena);
@@ -109,24 +111,25 @@ void arena_clear(arena_t arena) {
         return;
 
     while (!arena->is_global && arena->next && is_type(arena->next, RAII_ARENA)) {
-        arena_t tmp = arena->next;
+        /* The newest chunk, its header is the arena as it was before the chunk. */
+        arena_t chunk = arena->next;
+        char *limit = arena->limit;
+
+        arena->next = chunk->next;
+        arena->avail = chunk->avail;
+        arena->limit = chunk->limit;
         if (num_free < (int)arena->threshold) {
-            arena->next->next = free_list;
-            free_list = arena->next;
+            chunk->next = free_list;
+            chunk->limit = limit;
+            free_list = chunk;
             num_free++;
-            free_list->limit = arena->limit;
-            if (is_zero(free_list->bytes))
-                arena->avail -= arena->bytes;
-            else
-                arena->avail -= free_list->bytes;
         } else {
-            memset(arena->next, -1, sizeof(arena_t));
-            RAII_FREE(arena->next);
-            arena->next = NULL;
+            memset(chunk, -1, sizeof(arena_t));
+            RAII_FREE(chunk);
         }
-
-        arena = tmp;
     }
+
+    arena->bytes = 0;
 }
 
 void arena_print(const arena_t arena) {
-- 
2.43.0


From c784ea4e2d00496afa8b3bccfa775d0be1a7ba47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 16/58] fix: arena_alloc panics if allocation fails, as
 documented

It returned NULL, which arena_calloc then wrote to, and kept the size counted.
---
 src/arena.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/arena.c b/src/arena.c
index d018457..d99fa6c 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -61,17 +61,18 @@ void *arena_alloc(arena_t arena, long nbytes) {
             limit = ptr->limit;
         } else {
             long m = align_up(sizeof(union header) + nbytes + arena->threshold * 1024, sizeof(u16));
-            arena->total += m;
             if (arena->is_global)
-                ptr = RAII_REALLOC(arena->base, arena->total);
+                ptr = RAII_REALLOC(arena->base, arena->total + m);
             else
-                ptr = RAII_MALLOC(arena->total);
+                ptr = RAII_MALLOC(arena->total + m);
 
             if (ptr == NULL) {
                 errno = ENOMEM;
-                return NULL;
+                raii_panic("Arena allocation failed!");
             }
 
+            arena->total += m;
+
             if (arena->is_global) {
                 arena->base = ptr;
                 limit = (char *)arena->base + arena->total;
-- 
2.43.0


From 22a8f3a96d01ed78c4f77b2fe3da31a7d3002bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 17/58] fix: simd_strcmp compares the terminator, and strings
 of 8 bytes

A string equaled any other it is the start of, and of two strings of 8 bytes
nothing was compared: is_str_eq("sig_segv", "sig_abrt") was true.
---
 src/swar.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 89beccd..4993048 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -394,7 +394,7 @@ RAII_INLINE int simd_strcmp(const char *str0, const char *str1) {
     int offset = (fast - 1) * sizeof(size_t);
     int current_block = 0;
 
-    if (len <= sizeof(size_t)) { fast = 0; }
+    if (len <= sizeof(size_t)) { fast = offset = 0; }
 
     size_t *lstr0 = (size_t *)str0;
     size_t *lstr1 = (size_t *)str1;
@@ -402,7 +402,7 @@ RAII_INLINE int simd_strcmp(const char *str0, const char *str1) {
     while (current_block < fast) {
         if ((lstr0[current_block] ^ lstr1[current_block])) {
             int pos;
-            for (pos = current_block * sizeof(size_t); pos < len; ++pos) {
+            for (pos = current_block * sizeof(size_t); pos <= len; ++pos) {
                 if ((str0[pos] ^ str1[pos]) || (str0[pos] == 0) || (str1[pos] == 0)) {
                     return  (int)((unsigned char)str0[pos] - (unsigned char)str1[pos]);
                 }
@@ -412,7 +412,8 @@ RAII_INLINE int simd_strcmp(const char *str0, const char *str1) {
         ++current_block;
     }
 
-    while (len > offset) {
+    /* The terminator is compared too, `str0` may be only the start of `str1`. */
+    while (len >= offset) {
         if ((str0[offset] ^ str1[offset])) {
             return (int)((unsigned char)str0[offset] - (unsigned char)str1[offset]);
         }
-- 
2.43.0


From 7acc4635d45ff7ad413a6acd7bd14e2c3288239a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:30 +0000
Subject: [PATCH 18/58] fix: simd_itoa converts all of its 64 bits

abs() cut the value to an int.
---
 src/swar.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 4993048..af16ae2 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -267,21 +267,21 @@ RAII_INLINE uint32_t simd_itoa(int64_t x, char *buf) {
     bool neg = x < 0;
     *buf = '-'; // Always write
     buf += neg; // But advance only if negative
-    x = abs(x);
+    uint64_t u = neg ? 0 - (uint64_t)x : (uint64_t)x;
 
     char tmp[20];
     char *p = tmp + 20;
 
-    while (x >= 100) {
+    while (u >= 100) {
         p -= 2;
-        utoa2p_ex(x % 100, p);
-        x /= 100;
+        utoa2p_ex(u % 100, p);
+        u /= 100;
     }
 
     p -= 2;
-    utoa2p_ex(x, p);
+    utoa2p_ex(u, p);
 
-    p += x < 10;
+    p += u < 10;
 
     uint32_t len = tmp + 20 - p;
 
-- 
2.43.0


From d155357f10b5ed8e04cedf7c9e3d19ef4f85bec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:46 +0000
Subject: [PATCH 19/58] fix: simd_memchr and simd_memrchr, and their p/k
 variants

The mask kept the chars past len and dropped those before, short input was read
without end, the reverse search began past the end, and not found was a pointer
4 GB after the start instead of NULL.
---
 src/swar.c | 58 +++++++++++++++++++++++++-----------------------------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index af16ae2..7f21d9f 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -140,34 +140,29 @@ RAII_INLINE uint32_t memchr8k(const char *s, uint8_t c) {
     return _memchr8(false, true, false, s, c);
 }
 
+// The word of up to 8 chars, with the bytes past len being anything but c
+static RAII_INLINE uint64_t _castPart(const char *s, uint32_t len, uint8_t c) {
+    uint64_t mask = len < 8 ? (1ull << (len * 8)) - 1 : ~0ull;
+    return (cast(s) & mask) | (extend(c ^ 1) & ~mask);
+}
+
 // Find char, in reverse, in const binary string
 static RAII_INLINE uint32_t _memrchr(bool Printable, bool Known, const char *s, uint32_t len, uint8_t c) {
     const char *p = s + len;
 
-    // If shorter than 8 bytes, we have to mask away c bytes past len
-    uint32_t partLen = (len & 7) ? (len & 7) : 8;
-    uint64_t partMask = len < 8 ? ~0ull >> (64 - partLen * 8) : 0ull;
-    uint64_t first = cast(p) & ~(partMask & extend(c));
-
-    // Advance to leave multiple of 8 bytes
-    p -= partLen;
-
-    // Check first 8 bytes
-    if (hasbyte(first, c)) {
-        return (p - s) + _memchr8(Printable, true, true, (char *)&first, c);
-    }
-
     // Check words for that byte
-    for (;;) {
-        if (hasbyte(cast(p), c)) {
-            return (p - s) + _memchr8(Printable, true, true, p, c);
-        }
+    while (p - s >= 8) {
         p -= 8;
-        if (!Known) {
-            if (p == s)
-                return -1;
-        }
+        if (hasbyte(cast(p), c))
+            return (p - s) + _memchr8(Printable, true, true, p, c);
     }
+
+    // Check what's left, less than 8 bytes
+    uint64_t last = _castPart(s, p - s, c);
+    if (Known || hasbyte(last, c))
+        return _memchr8(Printable, true, true, (char *)&last, c);
+
+    return -1;
 }
 
 // Find char in const binary string
@@ -175,10 +170,12 @@ static RAII_INLINE uint32_t _memchr(bool Printable, bool Known, const char *s, u
     const char *p = s;
     const char *end = s + len;
 
+    if (!len)
+        return -1;
+
     // If shorter than 8 bytes, we have to mask away c bytes past len
     uint32_t partLen = (len & 7) ? (len & 7) : 8;
-    uint64_t partMask = len < 8 ? ~0ull >> (64 - partLen * 8) : 0ull;
-    uint64_t first = cast(p) & ~(partMask & extend(c));
+    uint64_t first = _castPart(p, partLen, c);
 
     // Check first 8 bytes
     if (hasbyte(first, c))
@@ -188,16 +185,13 @@ static RAII_INLINE uint32_t _memchr(bool Printable, bool Known, const char *s, u
     p += partLen;
 
     // Check words for that byte
-    for (;;) {
+    for (; Known || p != end; p += 8) {
         if (hasbyte(cast(p), c)) {
             return (p - s) + _memchr8(Printable, true, false, p, c);
         }
-        p += 8;
-        if (!Known) {
-            if (p == end)
-                return -1;
-        }
     }
+
+    return -1;
 }
 
 // Convert uint, of less than 100, to %02u, as int 16
@@ -494,11 +488,13 @@ RAII_INLINE size_t simd_strlen(const char *str) {
 }
 
 RAII_INLINE string simd_memchr(const char *s, uint8_t c, uint32_t len) {
-    return (char *)s + _memchr(false, false, s, len, c);
+    uint32_t i = _memchr(false, false, s, len, c);
+    return i == (uint32_t)-1 ? NULL : (char *)s + i;
 }
 
 RAII_INLINE string simd_memrchr(const char *s, uint8_t c, uint32_t len) {
-    return (char *)s + _memrchr(false, false, s, len, c) - 3;
+    uint32_t i = _memrchr(false, false, s, len, c);
+    return i == (uint32_t)-1 ? NULL : (char *)s + i;
 }
 
 // Find char in binary string. Char c is known to be in s + len
-- 
2.43.0


From 504e11b4e1258a5c44ad3cffa27ed02def19c7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 20/58] fix: simd_atod scales and signs the decimals right

3.14 was parsed as 2.986, -0.5 as positive, and more than 18 decimals read past
the table.
---
 src/swar.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 7f21d9f..e1527e2 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -6,14 +6,6 @@
 #define CODE_SECTION
 #endif
 
-// Copy the sign from src to dst that is unsigned.
-// *** dst is up to 63 bit
-static RAII_INLINE int64_t _copySign(int64_t src, uint64_t dst) {
-    // This is better than `src > 0 ? dst : -dst` that is using cmov
-    uint64_t m = ~(src >> 63); // all 1s if >= 0 (opposite of abs)
-    return (dst + m) ^ m; // flip if src negative
-}
-
 RAII_INLINE uintptr_t cast(const char *src) {
     uintptr_t ret;
     memcpy(&ret, src, sizeof(uintptr_t));
@@ -541,20 +533,24 @@ RAII_INLINE double simd_atod(const char *s, uint32_t len) {
     }
 
     // Do the int part
+    bool neg = *s == '-';
     int64_t ipart = simd_atoi(s, ilen);
     s += ilen + 1;
     len -= ilen + 1;
 
+    // More decimals than fit an int 64 are beyond precision
+    len = len > 18 ? 18 : len;
+
     // Int of decimal part
     int64_t dpart = simd_atou(s, len);
 
-    // To add the two parts we need matching signs
-    dpart = _copySign(ipart, dpart);
+    // To add the two parts we need matching signs, "-0.5" has it in neither
+    dpart = neg ? -dpart : dpart;
 
     // Array of 20 * 8 = 160 bytes
     static const CODE_SECTION double scales[20] = {
-        1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10,
-        1e-11, 1e-12, 1e-13, 1e-14, 1e-15, 1e-16, 1e-17, 1e-18, 1e-19, 1e-20};
+        1, 1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10,
+        1e-11, 1e-12, 1e-13, 1e-14, 1e-15, 1e-16, 1e-17, 1e-18, 1e-19};
 
     return ipart + dpart * scales[len];
 }
-- 
2.43.0


From 83d8b03acd99daae0833fe87e33688ac4132a92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 21/58] fix: raii_decode64 sets up the thread scope it
 allocates from

Unlike every other raii_* string function it used a scope that is NULL before
raii_init().
---
 src/raii.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raii.c b/src/raii.c
index 967401a..0c113c0 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -198,7 +198,7 @@ RAII_INLINE u_string raii_encode64(u_string_t src) {
 }
 
 RAII_INLINE u_string raii_decode64(u_string_t src) {
-    return str_decode64_ex(raii_local(), src);
+    return str_decode64_ex(raii_init(), src);
 }
 
 unique_t *unique_init(void) {
-- 
2.43.0


From ca73660b31720070a7f80bb1aee7e9d7bc3008fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 22/58] fix: args_for takes string arguments of any length

One longer than a values_type was copied to a NULL pointer.
---
 src/raii.c | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 0c113c0..644f08b 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -590,7 +590,6 @@ args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
     size_t i, len, count = simd_strlen(desc);
     args_t params = try_calloc(1, sizeof(struct args_s));
     void_t p;
-    string s;
     params->args_size = sizeof(raii_values_t);
     params->args = try_calloc(count, params->args_size);
     params->args_size = params->args_size * count;
@@ -623,15 +622,7 @@ args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
                 break;
             case 's':
                 // string argument
-                s = (char *)va_arg(argp, char *);
-                len = simd_strlen(s);
-                if (len > sizeof(raii_values_t)) {
-                    params->args_size += len + 1;
-                    params->args = try_realloc(params->args, params->args_size);
-                    strncpy(params->args[i].value.char_ptr, s, len);
-                } else {
-                    params->args[i].value.char_ptr = s;
-                }
+                params->args[i].value.char_ptr = (char *)va_arg(argp, char *);
                 break;
             case 'a':
                 // array argument
-- 
2.43.0


From bea3aeaebd5339c98db8888d4a59df0d35b112fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 23/58] fix: args_for's pointer argument does not consume, and
 copy from, the next one

---
 src/raii.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raii.c b/src/raii.c
index 644f08b..410bae2 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -639,6 +639,7 @@ args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
             case 'p':
                 // void pointer (any arbitrary pointer) argument
                 params->args[i].value.object = va_arg(argp, void *);
+                break;
             default:
                 p = va_arg(argp, void *);
                 len = sizeof(p);
-- 
2.43.0


From 54ee28b1b5306aa6a88052335f4ac57deea4fbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 24/58] fix: each promise keeps its own exception

It was kept in the creator's thread scope: lost when another thread started,
thrown again by the next thrd_get() of a future that succeeded.
---
 include/raii.h | 2 ++
 src/future.c   | 7 +++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/raii.h b/include/raii.h
index a9a6e94..e5af32a 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -199,6 +199,8 @@ typedef struct _promise {
     atomic_spinlock mutex;
     memory_t *scope;
     raii_values_t *result;
+    /* What `thrd_get` throws again. */
+    memory_t error[1];
 } promise;
 
 typedef struct {
diff --git a/src/future.c b/src/future.c
index 7bba7f8..2bf1853 100644
--- a/src/future.c
+++ b/src/future.c
@@ -47,8 +47,8 @@ static void promise_close(promise *p) {
         p->type = -1;
         atomic_flag_clear(&p->mutex);
         atomic_flag_clear(&p->done);
-        if (!is_empty(p->scope->err))
-            ex_throw(p->scope->err, "unknown", 0, "thrd_raii_wrapper", p->scope->panic, p->scope->backtrace);
+        if (!is_empty(p->error->err))
+            ex_throw(p->error->err, "unknown", 0, "thrd_raii_wrapper", p->error->panic, p->error->backtrace);
     }
 }
 
@@ -71,12 +71,11 @@ static int thrd_raii_wrapper(void_t arg) {
     future_arg *f = (future_arg *)arg;
     int err = 0;
     void_t res = nullptr;
-    f->value->scope->err = nullptr;
     rpmalloc_init();
 
     guard {
         res = f->func((args_t)f->arg);
-    } guarded_exception(f->value->scope);
+    } guarded_exception(f->value->error);
 
     promise_set(f->value, res, (is_type(f->arg, RAII_ARGS) && ((args_t)f->arg)->is_returning));
     if (is_type(f, RAII_FUTURE_ARG)) {
-- 
2.43.0


From 805e847dfbcac4f32a8c53c5a7d83b6a908f2e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 25/58] fix: thrd_get returns an empty value when the thread
 returned none

It read through NULL, as for the README's `return thrd_value(false)`, after
having read the promise from the future it had freed.
---
 src/future.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/future.c b/src/future.c
index 2bf1853..3735dab 100644
--- a/src/future.c
+++ b/src/future.c
@@ -109,11 +109,12 @@ future thrd_async(thrd_func_t fn, void_t args) {
 
 values_type thrd_get(future f) {
     if (is_type(f, RAII_FUTURE) && !is_empty(f->value) && is_type(f->value, RAII_PROMISE)) {
-        raii_values_t *r = promise_get(f->value);
+        promise *p = f->value;
+        raii_values_t none = {0}, *r = promise_get(p);
         future_close(f);
-        promise_close(f->value);
+        promise_close(p);
         if (is_empty(r))
-            return thrd_value(0)->value;
+            return none.value;
 
         return r->value;
     }
-- 
2.43.0


From bd6b178a80acc47228ef862334ebb0af775fd3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 26/58] fix: thread arguments need not be an args_t,
 thrd_returning takes args_for's

Whatever was passed was read as one: NULL crashed, an int that happens to be
RAII_ARGS made the result be taken for thrd_returning()'s. And that one had no
scope for arguments made by args_for(), as its documentation asks for.
---
 src/future.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/future.c b/src/future.c
index 3735dab..5cb0ef8 100644
--- a/src/future.c
+++ b/src/future.c
@@ -10,6 +10,10 @@ Modified from https://gist.github.com/Geal/8f85e02561d101decf9a
 
 #include "raii.h"
 
+/* The promise of the current thread, and what `thrd_returning` made for it. */
+static thread_local promise *thrd_promise = NULL;
+static thread_local raii_values_t *thrd_returned = NULL;
+
 static promise *promise_create(void) {
     promise *p = calloc_default(1, sizeof(promise));
     p->scope = raii_local();
@@ -72,12 +76,13 @@ static int thrd_raii_wrapper(void_t arg) {
     int err = 0;
     void_t res = nullptr;
     rpmalloc_init();
+    thrd_promise = f->value;
 
     guard {
         res = f->func((args_t)f->arg);
     } guarded_exception(f->value->error);
 
-    promise_set(f->value, res, (is_type(f->arg, RAII_ARGS) && ((args_t)f->arg)->is_returning));
+    promise_set(f->value, res, (!is_empty(res) && res == (void_t)thrd_returned));
     if (is_type(f, RAII_FUTURE_ARG)) {
         memset(f, 0, sizeof(f));
         RAII_FREE(f);
@@ -132,12 +137,14 @@ RAII_INLINE void thrd_wait(future f, wait_func yield) {
 }
 
 RAII_INLINE raii_values_t *thrd_returning(args_t args, void_t value, size_t size) {
-    raii_deferred(args->context, RAII_FREE, value);
-    raii_values_t *result = (raii_values_t *)calloc_full(args->context, 1, sizeof(raii_values_t), RAII_FREE);
+    memory_t *scope = is_empty(args->context) ? thrd_promise->scope : args->context;
+    raii_deferred(scope, RAII_FREE, value);
+    raii_values_t *result = (raii_values_t *)calloc_full(scope, 1, sizeof(raii_values_t), RAII_FREE);
     result->value.object = value;
     result->size = size;
     result->extended = value;
     args->is_returning = true;
+    thrd_returned = result;
     return result;
 }
 
-- 
2.43.0


From 6e1f1c32f003c6575e7849fa9a736ccb7013543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 27/58] fix: a scope's deferred list is not corrupted by
 threads that defer to it

A thread appends to its creator's scope (its result, thrd_returning(),
get_args()), unsynchronized with the creator and with the other threads.
---
 include/raii.h |  3 +++
 src/future.c   |  4 ++--
 src/raii.c     | 29 +++++++++++++++++++++--------
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/raii.h b/include/raii.h
index e5af32a..ac38f6f 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -167,6 +167,8 @@ struct memory_s {
     bool is_emulated;
     int status;
     size_t mid;
+    /* Threads defer to the scope of whom they return `thrd_returning` values to. */
+    atomic_spinlock mutex;
     defer_t defer;
     ex_ptr_t *protector;
     ex_backtrace_t *backtrace;
@@ -199,6 +201,7 @@ typedef struct _promise {
     atomic_spinlock mutex;
     memory_t *scope;
     raii_values_t *result;
+    raii_values_t value[1];
     /* What `thrd_get` throws again. */
     memory_t error[1];
 } promise;
diff --git a/src/future.c b/src/future.c
index 5cb0ef8..71f7b21 100644
--- a/src/future.c
+++ b/src/future.c
@@ -30,8 +30,8 @@ static void promise_set(promise *p, void_t res, bool is_args) {
         if (is_args) {
             p->result = (raii_values_t *)res;
         } else {
-            p->result = (raii_values_t *)calloc_full(p->scope, 1, sizeof(raii_values_t), RAII_FREE);
-            p->result->value.object = res;
+            p->value->value.object = res;
+            p->result = p->value;
         }
     }
 
diff --git a/src/raii.c b/src/raii.c
index 410bae2..1acf125 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -404,10 +404,19 @@ static void raii_deferred_run(memory_t *scope, size_t generation) {
 
     scope->is_recovered = is_empty(scope->err);
 
-    while (array->elements > generation) {
+    for (;;) {
+        defer_func_t defer;
+
         /* Taken off before it runs: a deferred statement may defer more,
          * and one that throws must not run again. */
-        defer_func_t defer = ((defer_func_t *)array->base)[--array->elements];
+        atomic_lock(&scope->mutex);
+        if (array->elements <= generation) {
+            atomic_unlock(&scope->mutex);
+            break;
+        }
+
+        defer = ((defer_func_t *)array->base)[--array->elements];
+        atomic_unlock(&scope->mutex);
 
         if (!is_empty(scope->err) && !is_empty(defer.check))
             scope->is_recovered = false;
@@ -439,20 +448,24 @@ RAII_INLINE void raii_deferred_clean(void) {
 
 static size_t raii_deferred_any(memory_t *scope, func_t func, void *data, void *check) {
     defer_func_t *deferred;
+    size_t index = (size_t)-1;
 
     RAII_ASSERT(func);
 
+    atomic_lock(&scope->mutex);
     deferred = raii_deferred_array_append(&scope->defer);
-    if (UNLIKELY(!deferred)) {
-        RAII_LOG("Could not add new deferred function.");
-        return -1;
-    } else {
+    if (LIKELY(deferred)) {
         deferred->func = func;
         deferred->data = data;
         deferred->check = check;
-
-        return raii_deferred_array_get_index(&scope->defer, deferred);
+        index = raii_deferred_array_get_index(&scope->defer, deferred);
     }
+    atomic_unlock(&scope->mutex);
+
+    if (index == (size_t)-1)
+        RAII_LOG("Could not add new deferred function.");
+
+    return index;
 }
 
 RAII_INLINE size_t raii_deferred(memory_t *scope, func_t func, void *data) {
-- 
2.43.0


From e8a0f036faadb8b30f9716ebb3f1d4c844a21a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 28/58] fix: thrd_scope has its own place in the thread

It took the one of the guard it's called in (every thread runs in one): a throw
then wrote the exception into the pool as if that was the guard's scope. And it
was left dangling by thrd_destroy().
---
 src/future.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/future.c b/src/future.c
index 71f7b21..cad34a7 100644
--- a/src/future.c
+++ b/src/future.c
@@ -14,6 +14,9 @@ Modified from https://gist.github.com/Geal/8f85e02561d101decf9a
 static thread_local promise *thrd_promise = NULL;
 static thread_local raii_values_t *thrd_returned = NULL;
 
+/* The `thrd_scope` of the current thread. */
+static thread_local future_t thrd_spawner = NULL;
+
 static promise *promise_create(void) {
     promise *p = calloc_default(1, sizeof(promise));
     p->scope = raii_local();
@@ -208,7 +211,7 @@ future_t thrd_pool(size_t count, size_t queue_count) {
 }
 
 future_t thrd_scope(void) {
-    unique_t *scope = unique_init(), *spawn = raii_init();
+    unique_t *scope = unique_init();
     future_t pool = (future_t)calloc_full(scope, 1, sizeof(struct future_pool), RAII_FREE);
 
     pool->scope = scope;
@@ -217,16 +220,16 @@ future_t thrd_scope(void) {
     pool->futures = NULL;
     pool->results = NULL;
     pool->type = RAII_SPAWN;
-    spawn->arena = pool;
+    thrd_spawner = pool;
 
     return pool;
 }
 
 result_t thrd_spawn(thrd_func_t fn, void_t args) {
-    if (is_raii_empty() || !is_type(raii_local()->arena, RAII_SPAWN))
+    if (is_empty(thrd_spawner) || !is_type(thrd_spawner, RAII_SPAWN))
         raii_panic("No initialization, No `thrd_scope`!");
 
-    future_t pool = (future_t)raii_local()->arena;
+    future_t pool = thrd_spawner;
     if (pool->thread_count % pool->cpu_present == 0) {
         pool->futures = try_realloc(pool->futures, (pool->thread_count + pool->cpu_present) * sizeof(pool->futures[0]));
         pool->results = try_realloc(pool->results, (pool->thread_count + pool->cpu_present) * sizeof(pool->results[0]));
@@ -299,6 +302,9 @@ void thrd_then(result_func_t callback, future_t iter, void_t result) {
 void thrd_destroy(future_t f) {
     if (is_type(f, RAII_SPAWN)) {
         memory_t *scope = f->scope;
+        if (thrd_spawner == f)
+            thrd_spawner = NULL;
+
         f->type = -1;
         RAII_FREE(f->futures);
         RAII_FREE(f->results);
-- 
2.43.0


From 1d1019c1903552697a077ec7076b88d713b07038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 29/58] fix: thrd_sync waits for every thread, and only ends
 what it started

It read the futures it had freed, and the result of a thread that has none;
threw before the other threads had ended; could not be called for threads
spawned later; and cleaned up all that the caller's thread scope held. What is
spawned is now bound to the `thrd_scope`, until thrd_destroy().
---
 src/future.c | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/future.c b/src/future.c
index cad34a7..1cb12b2 100644
--- a/src/future.c
+++ b/src/future.c
@@ -17,9 +17,9 @@ static thread_local raii_values_t *thrd_returned = NULL;
 /* The `thrd_scope` of the current thread. */
 static thread_local future_t thrd_spawner = NULL;
 
-static promise *promise_create(void) {
-    promise *p = calloc_default(1, sizeof(promise));
-    p->scope = raii_local();
+static promise *promise_create(memory_t *scope) {
+    promise *p = calloc_full(scope, 1, sizeof(promise), RAII_FREE);
+    p->scope = scope;
     atomic_flag_clear(&p->mutex);
     atomic_flag_clear(&p->done);
     p->type = RAII_PROMISE;
@@ -108,7 +108,7 @@ static void thrd_start(future f, promise *value, void_t arg) {
 }
 
 future thrd_async(thrd_func_t fn, void_t args) {
-    promise *p = promise_create();
+    promise *p = promise_create(raii_init());
     future f = future_create(fn);
     f->value = p;
     thrd_start(f, p, args);
@@ -235,7 +235,7 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
         pool->results = try_realloc(pool->results, (pool->thread_count + pool->cpu_present) * sizeof(pool->results[0]));
     }
 
-    promise *p = promise_create();
+    promise *p = promise_create(pool->scope);
     future f = future_create(fn);
     future_arg *f_arg = try_calloc(1, sizeof(future_arg));
     f_arg->func = f->func;
@@ -259,7 +259,7 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
 result_t thrd_spawn_ex(thrd_func_t fn, const char *desc, ...) {
     va_list args;
     va_start(args, desc);
-    args_t params = raii_args_ex(raii_local(), desc, args);
+    args_t params = raii_args_ex(is_empty(thrd_spawner) ? raii_init() : thrd_spawner->scope, desc, args);
     va_end(args);
 
     return thrd_spawn(fn, (void_t)params);
@@ -269,10 +269,19 @@ future_t thrd_sync(future_t v) {
     if (!is_type(v, RAII_SPAWN))
         throw(logic_error);
 
-    int i, x;
+    int i;
+    promise *error = NULL;
     memory_t *scope = v->scope;
     for (i = 0; i < v->thread_count; i++) {
-        raii_values_t *result = promise_get(v->futures[i]->value);
+        /* Those of an earlier call. */
+        if (is_empty(v->futures[i]))
+            continue;
+
+        promise *p = v->futures[i]->value;
+        raii_values_t none = {0}, *result = promise_get(p);
+        if (is_empty(result))
+            result = &none;
+
         size_t size = result->size;
         v->results[i]->result = (raii_values_t *)calloc_full(scope, 1, sizeof(raii_values_t), RAII_FREE);
         if (size > 0) {
@@ -283,12 +292,18 @@ future_t thrd_sync(future_t v) {
             v->results[i]->result->value.array = result->value.array;
         }
 
-        v->results[i]->is_ready = true;
         future_close(v->futures[i]);
-        promise_close(v->futures[i]->value);
+        v->futures[i] = NULL;
+        if (is_empty(p->error->err))
+            v->results[i]->is_ready = true;
+        else if (is_empty(error))
+            error = p;
     }
 
-    raii_deferred_clean();
+    /* Once all threads have ended. */
+    if (!is_empty(error))
+        promise_close(error);
+
     return v;
 }
 
@@ -315,7 +330,7 @@ void thrd_destroy(future_t f) {
 RAII_INLINE bool thrd_is_finish(future_t f) {
     size_t i;
     for (i = 0; i < f->thread_count; i++) {
-        if (!thrd_is_done(f->futures[i]))
+        if (!is_empty(f->futures[i]) && !thrd_is_done(f->futures[i]))
             return false;
     }
 
-- 
2.43.0


From fdce2e35690948100f1fdad7ceda512fb7b644d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 30/58] fix: a guard runs the remaining deferred statements
 after one recovered and throws

---
 include/exception.h | 12 ++++++++++++
 include/raii.h      |  6 +++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/exception.h b/include/exception.h
index 9d579c7..76d329c 100644
--- a/include/exception.h
+++ b/include/exception.h
@@ -274,6 +274,8 @@ throws an exception of given message. */
             if (ex_err.state == ex_throw_st) {  \
                 EX_MAKE_IF();
 
+#define ex_catch_unwind ex_catch_if
+
 #define ex_finality							\
         } __finally {						\
 			EX_MAKE_IF();					\
@@ -344,6 +346,16 @@ throws an exception of given message. */
         {                            \
             EX_MAKE();               \
 
+/* Entered again by each exception thrown inside, until one of them is marked caught. */
+#define ex_catch_unwind                \
+    }                                \
+    }                                \
+    if ((ex_err.state & ex_throw_st) != 0) \
+    {                                \
+        {                            \
+            EX_MAKE();               \
+            ex_err.state = ex_throw_st;
+
 #define ex_finally                          \
     }                                    \
     }                                    \
diff --git a/include/raii.h b/include/raii.h
index ac38f6f..eebb787 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -554,7 +554,7 @@ are only valid between these sections.
 #define unguarded(result)                                           \
             } while (false);                                        \
             raii_deferred_free(_$##__FUNCTION__);                   \
-    } ex_catch_if {                                                 \
+    } ex_catch_unwind {                                             \
         if ((is_type(&(_$##__FUNCTION__)->defer, RAII_DEF_ARR)))    \
             raii_deferred_free(_$##__FUNCTION__);                   \
     } ex_finally {                                                  \
@@ -569,7 +569,7 @@ are only valid between these sections.
 #define guarded                                                     \
         } while (false);                                            \
         raii_deferred_free(_$##__FUNCTION__);                       \
-    } ex_catch_if {                                                 \
+    } ex_catch_unwind {                                             \
         raii_deferred_free(_$##__FUNCTION__);                       \
     } ex_finally {                                                  \
         guard_reset(s##__FUNCTION__, sf##__FUNCTION__, uf##__FUNCTION__);   \
@@ -584,7 +584,7 @@ are only valid between these sections.
 #define guarded_exception(error)                                    \
         } while (false);                                            \
         raii_deferred_free(_$##__FUNCTION__);                       \
-    } ex_catch_if {                                                 \
+    } ex_catch_unwind {                                             \
         raii_deferred_free(_$##__FUNCTION__);                       \
         if (!_$##__FUNCTION__->is_recovered && raii_is_caught(_$##__FUNCTION__, raii_message_by(_$##__FUNCTION__))) { \
             ((memory_t *)error)->err = (void_t)ex_err.ex;                   \
-- 
2.43.0


From 80558305583bb14944614e8f9f81b90ed8631464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 31/58] fix: an exception thrown in catch_if goes on to the
 enclosing block

---
 include/exception.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/exception.h b/include/exception.h
index 76d329c..3b2efb8 100644
--- a/include/exception.h
+++ b/include/exception.h
@@ -341,10 +341,12 @@ throws an exception of given message. */
 #define ex_catch_if                    \
     }                                \
     }                                \
-    if (ex_err.state == ex_throw_st) \
+    /* an exception thrown inside goes on to the next block */ \
+    if (ex_err.state == ex_throw_st && !ex_err.is_rethrown) \
     {                                \
         {                            \
             EX_MAKE();               \
+            ex_err.is_rethrown = true;
 
 /* Entered again by each exception thrown inside, until one of them is marked caught. */
 #define ex_catch_unwind                \
-- 
2.43.0


From 7a540f4f33b49f82a48991e23c11f26fe491a1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:24 +0000
Subject: [PATCH 32/58] fix: what a deferred statement catches itself does not
 replace the guard's exception

---
 include/raii.h |  3 +++
 src/raii.c     | 20 +++++++++++++++-----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/raii.h b/include/raii.h
index eebb787..8bdf01c 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -174,6 +174,8 @@ struct memory_s {
     ex_backtrace_t *backtrace;
     void *volatile err;
     const char *volatile panic;
+    /* The `guard` section that unwinds this scope. */
+    ex_context_t *context;
 };
 
 typedef struct args_s {
@@ -546,6 +548,7 @@ are only valid between these sections.
     exception_unwind_func = (ex_unwind_func)raii_deferred_free; \
     exception_setup_func = guard_set;                   \
     ex_try {                                            \
+        (_$##__FUNCTION__)->context = &ex_err;          \
         do {
 
     /* This ends an scoped guard section, it replaces `}`.
diff --git a/src/raii.c b/src/raii.c
index 1acf125..3b97a54 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -498,8 +498,7 @@ bool raii_caught(const char *err) {
 }
 
 bool raii_is_caught(memory_t *scope, const char *err) {
-    const char *exception = (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
-    if ((scope->is_recovered = is_str_eq(err, exception)))
+    if ((scope->is_recovered = is_str_eq(err, raii_message_by(scope))))
         ex_local()->state = ex_catch_st;
 
     return scope->is_recovered;
@@ -516,7 +515,13 @@ const char *raii_message(void) {
     return is_empty(scope) ? NULL : raii_message_by(scope);
 }
 
-RAII_INLINE const char *raii_message_by(memory_t *scope) {
+const char *raii_message_by(memory_t *scope) {
+    ex_context_t *ctx = ex_local();
+
+    /* A `try` inside the guard handles one of its own. */
+    if (!is_empty(scope->context) && ctx != scope->context && !is_empty((void *)ctx->ex))
+        return !is_empty((void *)ctx->panic) ? ctx->panic : ctx->ex;
+
     return !is_empty((void *)scope->panic) ? scope->panic : scope->err;
 }
 
@@ -530,8 +535,13 @@ RAII_INLINE void raii_defer_fire(size_t index) {
 
 void guard_set(ex_context_t *ctx, const char *ex, const char *message) {
     memory_t *scope = raii_local()->arena;
-    scope->err = (void *)ex;
-    scope->panic = message;
+    /* One thrown in a `try` inside the section is the guard's only once it gets there,
+     * the deferred statements must not see what they have caught themselves. */
+    if (ctx == scope->context) {
+        scope->err = (void *)ex;
+        scope->panic = message;
+    }
+
     ctx->is_guarded = true;
     ex_swap_set(ctx, (void *)scope);
     /* The guard runs its deferred statements once the jump is made to it, they can
-- 
2.43.0


From 80a3a494b198686b1b875ebf5bce35e69d1c6b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:14 +0000
Subject: [PATCH 33/58] fix: raii_concat panics, and loses nothing, if its
 result can not be bound

---
 src/swar.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index e1527e2..4cbea3f 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -667,7 +667,7 @@ string str_concat_ex(memory_t *defer, int num_args, va_list ap_copy) {
     for (i = 0; i < num_args; i++)
         strsize += simd_strlen(va_arg(ap, string));
 
-    string res = try_calloc(1, strsize + 1);
+    string res = defer ? calloc_full(defer, 1, strsize + 1, RAII_FREE) : try_calloc(1, strsize + 1);
     strsize = 0;
 
     va_copy(ap, ap_copy);
@@ -678,9 +678,6 @@ string str_concat_ex(memory_t *defer, int num_args, va_list ap_copy) {
     }
     va_end(ap);
 
-    if (defer)
-        raii_deferred(defer, RAII_FREE, res);
-
     return res;
 }
 
-- 
2.43.0


From 0d0389e845857ac5afbb002f7595bf5639a6e350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 34/58] fix: the thread's scope is also released if the program
 is ended by an exception during unwinding

---
 src/except.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/except.c b/src/except.c
index a8ddd8d..7b6724b 100644
--- a/src/except.c
+++ b/src/except.c
@@ -351,7 +351,8 @@ int ex_uncaught_exception(void) {
 }
 
 void ex_terminate(void) {
-    if (ex_local()->is_raii)
+    /* Also if it ends inside a `try`, by an exception during unwinding. */
+    if (!is_empty(raii_local()))
         raii_destroy();
 
     if (ex_uncaught_exception() || got_uncaught_exception)
-- 
2.43.0


From b8920cdf7461081005cd567be8bbfe58d3c67403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 35/58] fix: a rethrown exception keeps the backtrace of its
 throw

---
 src/except.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/except.c b/src/except.c
index 7b6724b..2ef7061 100644
--- a/src/except.c
+++ b/src/except.c
@@ -385,6 +385,8 @@ void ex_throw(string_t exception, string_t file, int line, string_t function, st
     ex_signal_block(all);
     if (is_empty(dump))
         ex_trace_set(ctx, NULL);
+    else if (dump != ctx->backtrace)
+        ctx->backtrace[0] = *dump;
 
     ctx->ex = exception;
     ctx->file = file;
-- 
2.43.0


From b5108a1126f8fafa39a4fef1023fba5fb365034b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 36/58] fix: unique_init_arena loses nothing if its memory can
 not be allocated

---
 src/raii.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 3b97a54..83e6109 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -201,8 +201,7 @@ RAII_INLINE u_string raii_decode64(u_string_t src) {
     return str_decode64_ex(raii_init(), src);
 }
 
-unique_t *unique_init(void) {
-    unique_t *raii = try_calloc(1, sizeof(unique_t));
+static unique_t *unique_setup(unique_t *raii) {
     if (UNLIKELY(raii_deferred_init(&raii->defer) < 0))
         raii_panic("Deferred initialization failed!");
 
@@ -213,9 +212,21 @@ unique_t *unique_init(void) {
     return raii;
 }
 
+unique_t *unique_init(void) {
+    return unique_setup(try_calloc(1, sizeof(unique_t)));
+}
+
 unique_t *unique_init_arena(void) {
-    unique_t *raii = unique_init();
-    raii->arena = (void *)arena_init(0);
+    arena_t arena = arena_init(0);
+    unique_t *raii = RAII_CALLOC(1, sizeof(unique_t));
+    if (is_empty(raii)) {
+        arena_free(arena);
+        errno = ENOMEM;
+        raii_panic("Calloc failed!");
+    }
+
+    unique_setup(raii);
+    raii->arena = (void *)arena;
     raii->is_arena = true;
 
     return raii;
-- 
2.43.0


From 9a41ef3b96151af263be0290e510a79caf3f9495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 37/58] fix: arenas of different threads can share the list of
 free chunks

---
 src/arena.c | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/arena.c b/src/arena.c
index d99fa6c..902ecb9 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -8,6 +8,38 @@ union header {
 static arena_t free_list = NULL;
 static int num_free = 0;
 
+/* Arenas of any thread share the list. */
+static atomic_spinlock free_lock;
+
+/* Takes a chunk off the list, `NULL` if there is none. */
+static arena_t chunk_get(void) {
+    arena_t chunk;
+    atomic_lock(&free_lock);
+    if ((chunk = free_list) != NULL) {
+        free_list = chunk->next;
+        num_free--;
+    }
+    atomic_unlock(&free_lock);
+
+    return chunk;
+}
+
+/* Keeps the chunk on the list, unless there are `max` already. */
+static bool chunk_put(arena_t chunk, char *limit, int max) {
+    bool is_kept = false;
+    atomic_lock(&free_lock);
+    if (num_free < max) {
+        chunk->next = free_list;
+        chunk->limit = limit;
+        free_list = chunk;
+        num_free++;
+        is_kept = true;
+    }
+    atomic_unlock(&free_lock);
+
+    return is_kept;
+}
+
 /**
  * Will allow to translate back and forth between the pointer
  * and the container we use for managing the data.
@@ -55,9 +87,7 @@ void *arena_alloc(arena_t arena, long nbytes) {
     while (nbytes > arena->limit - arena->avail) {
         arena_t ptr;
         char *limit;
-        if ((ptr = free_list) != NULL) {
-            free_list = free_list->next;
-            num_free--;
+        if ((ptr = chunk_get()) != NULL) {
             limit = ptr->limit;
         } else {
             long m = align_up(sizeof(union header) + nbytes + arena->threshold * 1024, sizeof(u16));
@@ -119,12 +149,7 @@ void arena_clear(arena_t arena) {
         arena->next = chunk->next;
         arena->avail = chunk->avail;
         arena->limit = chunk->limit;
-        if (num_free < (int)arena->threshold) {
-            chunk->next = free_list;
-            chunk->limit = limit;
-            free_list = chunk;
-            num_free++;
-        } else {
+        if (!chunk_put(chunk, limit, (int)arena->threshold)) {
             memset(chunk, -1, sizeof(arena_t));
             RAII_FREE(chunk);
         }
-- 
2.43.0


From ed96da1224874baa9ca8a16cc24988c54b719da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 38/58] fix: args_for and get_args lose nothing if memory can
 not be allocated or bound

---
 src/raii.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 83e6109..468f169 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -596,11 +596,15 @@ values_type raii_get_args(memory_t *scope, void_t params, int item) {
     args_t args = (args_t)params;
     memory_t *scoped = scope;
     if (!args->defer_set) {
-        args->defer_set = true;
         if (is_empty(scope))
             scoped = is_empty(args->context) ? raii_init() : args->context;
 
-        raii_deferred(scoped, (func_t)args_free, params);
+        if (raii_deferred(scoped, (func_t)args_free, params) == (size_t)-1) {
+            errno = ENOMEM;
+            raii_panic("Deferred memory release failed!");
+        }
+
+        args->defer_set = true;
     }
 
     return args_in(args, item);
@@ -625,7 +629,13 @@ args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
     args_t params = try_calloc(1, sizeof(struct args_s));
     void_t p;
     params->args_size = sizeof(raii_values_t);
-    params->args = try_calloc(count, params->args_size);
+    params->args = RAII_CALLOC(count, params->args_size);
+    if (is_empty(params->args)) {
+        RAII_FREE(params);
+        errno = ENOMEM;
+        raii_panic("Calloc failed!");
+    }
+
     params->args_size = params->args_size * count;
 
     for (i = 0; i < count; i++) {
-- 
2.43.0


From e676eb038f086e0f57a43c0fec31650a1e057a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 39/58] fix: a future's exception does not point into its ended
 thread's stack

---
 src/future.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index 1cb12b2..1dd49d3 100644
--- a/src/future.c
+++ b/src/future.c
@@ -55,7 +55,8 @@ static void promise_close(promise *p) {
         atomic_flag_clear(&p->mutex);
         atomic_flag_clear(&p->done);
         if (!is_empty(p->error->err))
-            ex_throw(p->error->err, "unknown", 0, "thrd_raii_wrapper", p->error->panic, p->error->backtrace);
+            /* The backtrace of it was on the stack of the thread. */
+            ex_throw(p->error->err, "unknown", 0, "thrd_raii_wrapper", p->error->panic, NULL);
     }
 }
 
-- 
2.43.0


From dea17068b7f087b5f6f5885596ecf87346b031e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 40/58] fix: a future is done once the deferred statements of
 its thread are

---
 src/future.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/future.c b/src/future.c
index 1dd49d3..435648d 100644
--- a/src/future.c
+++ b/src/future.c
@@ -77,22 +77,24 @@ static void future_close(future f) {
 
 static int thrd_raii_wrapper(void_t arg) {
     future_arg *f = (future_arg *)arg;
+    promise *p = f->value;
     int err = 0;
     void_t res = nullptr;
     rpmalloc_init();
-    thrd_promise = f->value;
+    thrd_promise = p;
 
     guard {
         res = f->func((args_t)f->arg);
-    } guarded_exception(f->value->error);
+    } guarded_exception(p->error);
 
-    promise_set(f->value, res, (!is_empty(res) && res == (void_t)thrd_returned));
     if (is_type(f, RAII_FUTURE_ARG)) {
         memset(f, 0, sizeof(f));
         RAII_FREE(f);
     }
 
     raii_destroy();
+    /* Done, once everything of the thread is. */
+    promise_set(p, res, (!is_empty(res) && res == (void_t)thrd_returned));
     rpmalloc_thread_finalize(1);
     thrd_exit(err);
     return err;
-- 
2.43.0


From f4e264111bfdc4b51248f95e561e4b9b4be1a4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 41/58] fix: a thread that can not be started loses nothing

---
 src/future.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/future.c b/src/future.c
index 435648d..cfa8075 100644
--- a/src/future.c
+++ b/src/future.c
@@ -106,8 +106,11 @@ static void thrd_start(future f, promise *value, void_t arg) {
     f_arg->arg = arg;
     f_arg->value = value;
     f_arg->type = RAII_FUTURE_ARG;
-    if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success)
+    if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success) {
+        RAII_FREE(f_arg);
+        RAII_FREE(f);
         throw(future_error);
+    }
 }
 
 future thrd_async(thrd_func_t fn, void_t args) {
@@ -246,8 +249,11 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
     f_arg->value = p;
     f_arg->type = RAII_FUTURE_ARG;
     f->value = p;
-    if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success)
+    if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success) {
+        RAII_FREE(f_arg);
+        RAII_FREE(f);
         throw(future_error);
+    }
 
     pool->futures[pool->thread_count] = f;
     pool->results[pool->thread_count] = (result_t)calloc_full(pool->scope, 1, sizeof(struct result_data), RAII_FREE);
-- 
2.43.0


From c489d0e110d9547bc50b4d873b97d4b193d6203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 42/58] fix: a thread does not rely on signals another is still
 setting up

---
 src/except.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/except.c b/src/except.c
index 2ef7061..f6f11b1 100644
--- a/src/except.c
+++ b/src/except.c
@@ -68,6 +68,8 @@ thread_local ex_unwind_func exception_unwind_func = NULL;
 ex_terminate_func exception_ctrl_c_func = NULL;
 ex_terminate_func exception_terminate_func = NULL;
 bool exception_signal_set = false;
+static atomic_spinlock ex_sig_lock = {0};
+static volatile sig_atomic_t ex_sig_setup = false;
 
 static void ex_handler(int sig);
 #if !defined(_WIN32)
@@ -603,11 +605,16 @@ void ex_signal(int sig, const char *ex) {
     else
         ex_sig[i].ex = ex, ex_sig[i].sig = sig;
 
-    exception_signal_set = true;
+    if (!ex_sig_setup)
+        exception_signal_set = true;
 #endif
 }
 
 void ex_signal_setup(void) {
+    /* One thread at a time; the others rely on it once all are installed. */
+    ex_signal_block(all);
+    atomic_lock(&ex_sig_lock);
+    ex_sig_setup = true;
 #ifdef _WIN32
     ex_signal_seh(EXCEPTION_ACCESS_VIOLATION, EX_NAME(sig_segv));
     ex_signal_seh(EXCEPTION_ARRAY_BOUNDS_EXCEEDED, EX_NAME(array_bounds_exceeded));
@@ -674,6 +681,13 @@ void ex_signal_setup(void) {
 #elif SIG_BUS
     ex_signal(SIG_BUS, EX_NAME(sig_bus));
 #endif
+
+    ex_sig_setup = false;
+#ifndef _WIN32
+    exception_signal_set = true;
+#endif
+    atomic_unlock(&ex_sig_lock);
+    ex_signal_unblock(all);
 }
 
 void ex_signal_default(void) {
-- 
2.43.0


From f313847b1e6e2a194e4a39bdacd4cf2fca5d3ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:42 +0000
Subject: [PATCH 43/58] fix: atomic add and subtract of float and double work
 on the values, not their bits

---
 include/catomic.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/catomic.h b/include/catomic.h
index 5f12f11..54a9d0e 100644
--- a/include/catomic.h
+++ b/include/catomic.h
@@ -2401,8 +2401,10 @@ static C89ATOMIC_INLINE float c89atomic_fetch_add_explicit_f32(volatile float* d
 {
     c89atomic_if32 r;
     c89atomic_if32 x;
-    x.f = src;
-    r.i = c89atomic_fetch_add_explicit_32((volatile c89atomic_uint32*)dst, x.i, order);
+    r.i = c89atomic_load_explicit_32((volatile c89atomic_uint32*)dst, c89atomic_memory_order_relaxed);
+    do {
+        x.f = r.f + src;
+    } while (!c89atomic_compare_exchange_weak_explicit_32((volatile c89atomic_uint32*)dst, &r.i, x.i, order, c89atomic_memory_order_relaxed));
     return r.f;
 }
 
@@ -2410,8 +2412,10 @@ static C89ATOMIC_INLINE double c89atomic_fetch_add_explicit_f64(volatile double*
 {
     c89atomic_if64 r;
     c89atomic_if64 x;
-    x.f = src;
-    r.i = c89atomic_fetch_add_explicit_64((volatile c89atomic_uint64*)dst, x.i, order);
+    r.i = c89atomic_load_explicit_64((volatile c89atomic_uint64*)dst, c89atomic_memory_order_relaxed);
+    do {
+        x.f = r.f + src;
+    } while (!c89atomic_compare_exchange_weak_explicit_64((volatile c89atomic_uint64*)dst, &r.i, x.i, order, c89atomic_memory_order_relaxed));
     return r.f;
 }
 
@@ -2420,8 +2424,10 @@ static C89ATOMIC_INLINE float c89atomic_fetch_sub_explicit_f32(volatile float* d
 {
     c89atomic_if32 r;
     c89atomic_if32 x;
-    x.f = src;
-    r.i = c89atomic_fetch_sub_explicit_32((volatile c89atomic_uint32*)dst, x.i, order);
+    r.i = c89atomic_load_explicit_32((volatile c89atomic_uint32*)dst, c89atomic_memory_order_relaxed);
+    do {
+        x.f = r.f - src;
+    } while (!c89atomic_compare_exchange_weak_explicit_32((volatile c89atomic_uint32*)dst, &r.i, x.i, order, c89atomic_memory_order_relaxed));
     return r.f;
 }
 
@@ -2429,8 +2435,10 @@ static C89ATOMIC_INLINE double c89atomic_fetch_sub_explicit_f64(volatile double*
 {
     c89atomic_if64 r;
     c89atomic_if64 x;
-    x.f = src;
-    r.i = c89atomic_fetch_sub_explicit_64((volatile c89atomic_uint64*)dst, x.i, order);
+    r.i = c89atomic_load_explicit_64((volatile c89atomic_uint64*)dst, c89atomic_memory_order_relaxed);
+    do {
+        x.f = r.f - src;
+    } while (!c89atomic_compare_exchange_weak_explicit_64((volatile c89atomic_uint64*)dst, &r.i, x.i, order, c89atomic_memory_order_relaxed));
     return r.f;
 }
 
-- 
2.43.0


From 5a6f3e033ac181497a234efca2227aa488d753fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 44/58] fix: a plain thread-local variable does not start out
 as its buffer's address

---
 include/cthread.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/cthread.h b/include/cthread.h
index cb63015..2bdf01e 100644
--- a/include/cthread.h
+++ b/include/cthread.h
@@ -506,6 +506,12 @@ extern "C" {
             thrd_local_return(type, var)        \
         }
 
+    /* A plain variable is its own storage */
+#   define thrd_local_get_plain(type, var, initial, prefix) \
+        prefix FORCEINLINE type var(void) {     \
+            thrd_local_return(type, var)        \
+        }
+
 #   define thrd_local_setup(type, var, initial, prefix)         \
         prefix thread_local type thrd_##var##_tls = initial;    \
         prefix FORCEINLINE void var##_del(void) {               \
@@ -525,9 +531,8 @@ extern "C" {
         thrd_local_get(type *, var, initial, )
 
 #   define thrd_local_plain(type, var, initial)         \
-        static thread_local type thrd_##var##_buffer;   \
         thrd_local_setup(type, var, initial, )          \
-        thrd_local_get(type, var, initial, )
+        thrd_local_get_plain(type, var, initial, )
 
 #   define thrd_static(type, var, initial)              \
         static thread_local type thrd_##var##_buffer;   \
@@ -535,9 +540,8 @@ extern "C" {
         thrd_local_get(type *, var, initial, static)
 
 #   define thrd_static_plain(type, var, initial)        \
-        static thread_local type thrd_##var##_buffer;   \
         thrd_local_setup(type, var, initial, static)    \
-        thrd_local_get(type, var, initial, static)
+        thrd_local_get_plain(type, var, initial, static)
 
 #   define thrd_local_proto(type, var, prefix)          \
         prefix thread_local type thrd_##var##_tls;      \
-- 
2.43.0


From 050b8b98df7575c0c936ffe113ecb868bfc369ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 45/58] fix: a deleted thread-local variable is back in its
 declared initial state

---
 include/cthread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cthread.h b/include/cthread.h
index 2bdf01e..ba935d4 100644
--- a/include/cthread.h
+++ b/include/cthread.h
@@ -515,7 +515,7 @@ extern "C" {
 #   define thrd_local_setup(type, var, initial, prefix)         \
         prefix thread_local type thrd_##var##_tls = initial;    \
         prefix FORCEINLINE void var##_del(void) {               \
-            thrd_##var##_tls = NULL;                            \
+            thrd_##var##_tls = initial;                         \
         }                                                       \
         prefix FORCEINLINE void var##_update(type value) {      \
             thrd_##var##_tls = value;                           \
-- 
2.43.0


From f1e8427b6bd61f4c4c3872ee0436556e13c66599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:51 +0000
Subject: [PATCH 46/58] fix: A future or spawn that gets no memory leaks
 nothing, and its thread is not lost

---
 src/future.c | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/future.c b/src/future.c
index cfa8075..296e322 100644
--- a/src/future.c
+++ b/src/future.c
@@ -101,7 +101,13 @@ static int thrd_raii_wrapper(void_t arg) {
 }
 
 static void thrd_start(future f, promise *value, void_t arg) {
-    future_arg *f_arg = try_calloc(1, sizeof(future_arg));
+    future_arg *f_arg = RAII_CALLOC(1, sizeof(future_arg));
+    if (is_empty(f_arg)) {
+        RAII_FREE(f);
+        errno = ENOMEM;
+        raii_panic("Calloc failed!");
+    }
+
     f_arg->func = f->func;
     f_arg->arg = arg;
     f_arg->value = value;
@@ -242,27 +248,19 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
     }
 
     promise *p = promise_create(pool->scope);
+    result_t result = (result_t)calloc_full(pool->scope, 1, sizeof(struct result_data), RAII_FREE);
+    result->is_ready = false;
+    result->result = NULL;
+    result->type = RAII_VALUE;
+
     future f = future_create(fn);
-    future_arg *f_arg = try_calloc(1, sizeof(future_arg));
-    f_arg->func = f->func;
-    f_arg->arg = args;
-    f_arg->value = p;
-    f_arg->type = RAII_FUTURE_ARG;
     f->value = p;
-    if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success) {
-        RAII_FREE(f_arg);
-        RAII_FREE(f);
-        throw(future_error);
-    }
-
+    thrd_start(f, p, args);
     pool->futures[pool->thread_count] = f;
-    pool->results[pool->thread_count] = (result_t)calloc_full(pool->scope, 1, sizeof(struct result_data), RAII_FREE);
-    pool->results[pool->thread_count]->is_ready = false;
-    pool->results[pool->thread_count]->result = NULL;
-    pool->results[pool->thread_count]->type = RAII_VALUE;
+    pool->results[pool->thread_count] = result;
     pool->thread_count++;
 
-    return pool->results[pool->thread_count - 1];
+    return result;
 }
 
 result_t thrd_spawn_ex(thrd_func_t fn, const char *desc, ...) {
-- 
2.43.0


From 9075d72de536cf25e3013fc0493693f2a4ab7a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 47/58] fix: A thread without memory for its guard ends by an
 exception, not the program

---
 src/future.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/future.c b/src/future.c
index 296e322..3fe7347 100644
--- a/src/future.c
+++ b/src/future.c
@@ -83,9 +83,15 @@ static int thrd_raii_wrapper(void_t arg) {
     rpmalloc_init();
     thrd_promise = p;
 
-    guard {
-        res = f->func((args_t)f->arg);
-    } guarded_exception(p->error);
+    try {
+        guard {
+            res = f->func((args_t)f->arg);
+        } guarded_exception(p->error);
+    } catch_any {
+        /* There was no memory for the guard. */
+        p->error->err = (void_t)err;
+        p->error->panic = ex_err.panic;
+    } end_try;
 
     if (is_type(f, RAII_FUTURE_ARG)) {
         memset(f, 0, sizeof(f));
-- 
2.43.0


From a03704876ea49ccc55c03fcc40d38f91bb80f189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 48/58] fix: A spawn scope that gets no memory leaks nothing

---
 src/future.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index 3fe7347..ed7caaa 100644
--- a/src/future.c
+++ b/src/future.c
@@ -230,7 +230,13 @@ future_t thrd_pool(size_t count, size_t queue_count) {
 
 future_t thrd_scope(void) {
     unique_t *scope = unique_init();
-    future_t pool = (future_t)calloc_full(scope, 1, sizeof(struct future_pool), RAII_FREE);
+    future_t pool = (future_t)RAII_CALLOC(1, sizeof(struct future_pool));
+    if (is_empty(pool) || raii_deferred(scope, RAII_FREE, pool) == (size_t)-1) {
+        RAII_FREE(pool);
+        raii_delete(scope);
+        errno = ENOMEM;
+        raii_panic("Calloc failed!");
+    }
 
     pool->scope = scope;
     pool->thread_count = 0;
-- 
2.43.0


From 4ce754c9bbe2c1402238dcadd96f1f2565862eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 49/58] fix: an arena panics when asked for more than there can
 be, instead of handing out a wrapped size

---
 src/arena.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/arena.c b/src/arena.c
index 902ecb9..a6ff168 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -82,6 +82,12 @@ void *arena_alloc(arena_t arena, long nbytes) {
     if (is_empty(arena))
         raii_panic("Bad block, `NULL` detected!");
 
+    /* More than any chunk can have, sizes of scopes are unsigned. */
+    if (nbytes < 0 || (size_t)nbytes > (size_t)LONG_MAX / 2) {
+        errno = ENOMEM;
+        raii_panic("Arena allocation failed!");
+    }
+
     RAII_ASSERT(nbytes > 0);
     nbytes = align_up(nbytes, sizeof(u16));
     while (nbytes > arena->limit - arena->avail) {
@@ -132,6 +138,11 @@ void *arena_alloc(arena_t arena, long nbytes) {
 
 void *arena_calloc(arena_t arena, long count, long nbytes) {
     RAII_ASSERT(count > 0);
+    if (count > 0 && (nbytes < 0 || nbytes > LONG_MAX / count)) {
+        errno = ENOMEM;
+        raii_panic("Arena allocation failed!");
+    }
+
     void *ptr = arena_alloc(arena, count * nbytes);
     memset(ptr, 0, count * nbytes);
     return ptr;
-- 
2.43.0


From 9b87b24c3ac7903c75be66b234ff78f36b1c0d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:35 +0000
Subject: [PATCH 50/58] fix: exiting while another thread starts leaves the
 default scope as it is

---
 src/raii.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/raii.c b/src/raii.c
index 468f169..305f14d 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -321,6 +321,12 @@ void free_arena(memory_t *ptr) {
 }
 
 RAII_INLINE void raii_destroy(void) {
+#ifndef emulate_tls
+    /* At exit, a thread just starting may have had the variable of this one reset before. */
+    if (is_empty(raii_local()) && is_type(&thrd_raii_buffer.defer, RAII_DEF_ARR))
+        raii_update(&thrd_raii_buffer);
+
+#endif
     raii_delete(raii_local());
 }
 
-- 
2.43.0


From 704bd8826ebaaee90c77eac42130b52951529f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:13 +0000
Subject: [PATCH 51/58] fix: a function that thrd_spawn_ex cannot start leaves
 its arguments to nobody, they are freed

---
 include/raii.h |  2 ++
 src/future.c   | 28 +++++++++++++++++++++++-----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/raii.h b/include/raii.h
index 8bdf01c..842c4b9 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -220,6 +220,8 @@ typedef struct future_deque future_deque_t;
 struct _future_arg {
     raii_type type;
     int id;
+    /* No one else frees `arg`, if the function can't. */
+    bool is_owner;
     void_t arg;
     thrd_func_t func;
     promise *value;
diff --git a/src/future.c b/src/future.c
index ed7caaa..494de9a 100644
--- a/src/future.c
+++ b/src/future.c
@@ -85,12 +85,16 @@ static int thrd_raii_wrapper(void_t arg) {
 
     try {
         guard {
+            /* The function frees its arguments. */
+            f->is_owner = false;
             res = f->func((args_t)f->arg);
         } guarded_exception(p->error);
     } catch_any {
         /* There was no memory for the guard. */
         p->error->err = (void_t)err;
         p->error->panic = ex_err.panic;
+        if (f->is_owner)
+            args_free((args_t)f->arg);
     } end_try;
 
     if (is_type(f, RAII_FUTURE_ARG)) {
@@ -106,7 +110,7 @@ static int thrd_raii_wrapper(void_t arg) {
     return err;
 }
 
-static void thrd_start(future f, promise *value, void_t arg) {
+static void thrd_start(future f, promise *value, void_t arg, bool is_owner) {
     future_arg *f_arg = RAII_CALLOC(1, sizeof(future_arg));
     if (is_empty(f_arg)) {
         RAII_FREE(f);
@@ -117,6 +121,7 @@ static void thrd_start(future f, promise *value, void_t arg) {
     f_arg->func = f->func;
     f_arg->arg = arg;
     f_arg->value = value;
+    f_arg->is_owner = is_owner;
     f_arg->type = RAII_FUTURE_ARG;
     if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success) {
         RAII_FREE(f_arg);
@@ -129,7 +134,7 @@ future thrd_async(thrd_func_t fn, void_t args) {
     promise *p = promise_create(raii_init());
     future f = future_create(fn);
     f->value = p;
-    thrd_start(f, p, args);
+    thrd_start(f, p, args, false);
     return f;
 }
 
@@ -249,7 +254,7 @@ future_t thrd_scope(void) {
     return pool;
 }
 
-result_t thrd_spawn(thrd_func_t fn, void_t args) {
+static result_t thrd_spawning(thrd_func_t fn, void_t args, bool is_owner) {
     if (is_empty(thrd_spawner) || !is_type(thrd_spawner, RAII_SPAWN))
         raii_panic("No initialization, No `thrd_scope`!");
 
@@ -267,7 +272,7 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
 
     future f = future_create(fn);
     f->value = p;
-    thrd_start(f, p, args);
+    thrd_start(f, p, args, is_owner);
     pool->futures[pool->thread_count] = f;
     pool->results[pool->thread_count] = result;
     pool->thread_count++;
@@ -275,13 +280,26 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
     return result;
 }
 
+result_t thrd_spawn(thrd_func_t fn, void_t args) {
+    return thrd_spawning(fn, args, false);
+}
+
 result_t thrd_spawn_ex(thrd_func_t fn, const char *desc, ...) {
     va_list args;
     va_start(args, desc);
     args_t params = raii_args_ex(is_empty(thrd_spawner) ? raii_init() : thrd_spawner->scope, desc, args);
     va_end(args);
 
-    return thrd_spawn(fn, (void_t)params);
+    result_t volatile result = NULL;
+    try {
+        result = thrd_spawning(fn, (void_t)params, true);
+    } catch_any {
+        /* No thread was started that could. */
+        args_free(params);
+        rethrow();
+    } end_try;
+
+    return result;
 }
 
 future_t thrd_sync(future_t v) {
-- 
2.43.0


From 3dea6d696791afa176e4d6db789fdc3f9b12df2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:13 +0000
Subject: [PATCH 52/58] fix: thrd_returning panics, and frees what it was
 given, if there is no memory to bind it

---
 src/future.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index 494de9a..26f7687 100644
--- a/src/future.c
+++ b/src/future.c
@@ -164,7 +164,12 @@ RAII_INLINE void thrd_wait(future f, wait_func yield) {
 
 RAII_INLINE raii_values_t *thrd_returning(args_t args, void_t value, size_t size) {
     memory_t *scope = is_empty(args->context) ? thrd_promise->scope : args->context;
-    raii_deferred(scope, RAII_FREE, value);
+    if (raii_deferred(scope, RAII_FREE, value) == (size_t)-1) {
+        RAII_FREE(value);
+        errno = ENOMEM;
+        raii_panic("Deferred memory release failed!");
+    }
+
     raii_values_t *result = (raii_values_t *)calloc_full(scope, 1, sizeof(raii_values_t), RAII_FREE);
     result->value.object = value;
     result->size = size;
-- 
2.43.0


From 053953bdce29be62a1d05a71cd780f6aa33af176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:53 +0000
Subject: [PATCH 53/58] fix: cancelling or firing what is deferred keeps off
 the threads that add to the scope

---
 src/raii.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/raii.c b/src/raii.c
index 305f14d..2940525 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -399,20 +399,25 @@ static void raii_deferred_internal(memory_t *scope, defer_func_t *deferred) {
 void raii_deferred_cancel(memory_t *scope, size_t index) {
     RAII_ASSERT(index >= 0);
 
+    /* Threads may be adding what they return. */
+    atomic_lock(&scope->mutex);
     raii_deferred_internal(scope, raii_deferred_array_get_element(&scope->defer, index));
+    atomic_unlock(&scope->mutex);
 }
 
 void raii_deferred_fire(memory_t *scope, size_t index) {
     RAII_ASSERT(index >= 0);
 
-    defer_func_t *deferred = raii_deferred_array_get_element(&scope->defer, index);
     RAII_ASSERT(scope);
 
+    atomic_lock(&scope->mutex);
+    defer_func_t *deferred = raii_deferred_array_get_element(&scope->defer, index);
     func_t func = deferred->func;
     void *data = deferred->data;
 
     /* Disarm first, `func` may throw, or add more deferred statements. */
     raii_deferred_internal(scope, deferred);
+    atomic_unlock(&scope->mutex);
     func(data);
 }
 
-- 
2.43.0


From 6f43512d96cfb61a85a6a80776b7e5c50d4ce570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:53 +0000
Subject: [PATCH 54/58] fix: thrd_returning leaves the last allocation of the
 scope it returns to alone

---
 src/future.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index 26f7687..27763f3 100644
--- a/src/future.c
+++ b/src/future.c
@@ -170,7 +170,14 @@ RAII_INLINE raii_values_t *thrd_returning(args_t args, void_t value, size_t size
         raii_panic("Deferred memory release failed!");
     }
 
-    raii_values_t *result = (raii_values_t *)calloc_full(scope, 1, sizeof(raii_values_t), RAII_FREE);
+    /* Not by `calloc_full`, the last allocation of the scope is its own thread's. */
+    raii_values_t *result = (raii_values_t *)try_calloc(1, sizeof(raii_values_t));
+    if (raii_deferred(scope, RAII_FREE, result) == (size_t)-1) {
+        RAII_FREE(result);
+        errno = ENOMEM;
+        raii_panic("Deferred memory release failed!");
+    }
+
     result->value.object = value;
     result->size = size;
     result->extended = value;
-- 
2.43.0


From b908b3dfe2f743b71cec56eb88bad73184ee24dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:44 +0000
Subject: [PATCH 55/58] fix: ex_signal and ex_signal_reset take the lock of the
 signal set-up, threads that name signals at once lost one or installed the
 other's disposition

---
 src/except.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/except.c b/src/except.c
index f6f11b1..f0368ba 100644
--- a/src/except.c
+++ b/src/except.c
@@ -69,7 +69,7 @@ ex_terminate_func exception_ctrl_c_func = NULL;
 ex_terminate_func exception_terminate_func = NULL;
 bool exception_signal_set = false;
 static atomic_spinlock ex_sig_lock = {0};
-static volatile sig_atomic_t ex_sig_setup = false;
+static thread_local bool ex_sig_setup = false;
 
 static void ex_handler(int sig);
 #if !defined(_WIN32)
@@ -556,6 +556,10 @@ void ex_signal_reset(int sig) {
         fprintf(stderr, "Cannot install handler for signal no %d\n",
                 sig);
 #else
+    /* One thread at a time, as `ex_signal`. */
+    ex_signal_block(all);
+    atomic_lock(&ex_sig_lock);
+
     /*
      * Make signal handlers persistent.
      */
@@ -564,11 +568,14 @@ void ex_signal_reset(int sig) {
         fprintf(stderr, "Cannot setup handler for signal no %d\n", sig);
     else if (sigaction(sig, &ex_sig_sa, NULL) != 0)
         fprintf(stderr, "Cannot restore handler for signal no %d\n", sig);
+
+    atomic_unlock(&ex_sig_lock);
+    ex_signal_unblock(all);
 #endif
     exception_signal_set = false;
 }
 
-void ex_signal(int sig, const char *ex) {
+static void ex_signal_install(int sig, const char *ex) {
     int i;
 
     for (i = 0; i < max_ex_sig; i++) {
@@ -604,10 +611,25 @@ void ex_signal(int sig, const char *ex) {
                 sig, ex);
     else
         ex_sig[i].ex = ex, ex_sig[i].sig = sig;
+#endif
+}
 
-    if (!ex_sig_setup)
-        exception_signal_set = true;
+void ex_signal(int sig, const char *ex) {
+    /* By `ex_signal_setup`, that has the lock. */
+    if (ex_sig_setup) {
+        ex_signal_install(sig, ex);
+        return;
+    }
+
+    /* One thread at a time, the table and the handler are shared. */
+    ex_signal_block(all);
+    atomic_lock(&ex_sig_lock);
+    ex_signal_install(sig, ex);
+#ifndef _WIN32
+    exception_signal_set = true;
 #endif
+    atomic_unlock(&ex_sig_lock);
+    ex_signal_unblock(all);
 }
 
 void ex_signal_setup(void) {
-- 
2.43.0


From 35e145534c5729d2ddeee13101470c179eb67837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:38 +0000
Subject: [PATCH 56/58] fix: thrd_is_done acquires what the task published

A relaxed load lets the caller see the flag before the task's writes.
---
 src/future.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index 27763f3..d0e951c 100644
--- a/src/future.c
+++ b/src/future.c
@@ -154,7 +154,7 @@ values_type thrd_get(future f) {
 }
 
 RAII_INLINE bool thrd_is_done(future f) {
-    return atomic_flag_load_explicit(&f->value->done, memory_order_relaxed);
+    return atomic_flag_load_explicit(&f->value->done, memory_order_acquire);
 }
 
 RAII_INLINE void thrd_wait(future f, wait_func yield) {
-- 
2.43.0


From 54bf2cc846cf15f8250b03ff50903c9e5e219c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:08 +0000
Subject: [PATCH 57/58] fix: cast8, the byte searches and the parsers read
 nothing past the given length

---
 src/swar.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 4cbea3f..7bf1d6e 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -12,12 +12,22 @@ RAII_INLINE uintptr_t cast(const char *src) {
     return ret;
 }
 
+// The uint of a string of up to 8 chars, where what follows them may not be readable
+static RAII_INLINE uint64_t _castLen(const char *s, uint32_t len) {
+    uint64_t x = 0;
+    if (len >= 8)
+        return cast(s);
+
+    memcpy(&x, s, len);
+    return x;
+}
+
 // Get the uint _cast_ of a string of up to 8 chars
 RAII_INLINE uintptr_t cast8(const char *s, uint32_t len) {
     RAII_ASSERT(len <= 8);
 
     // int 64 of s
-    uint64_t x = cast(s);
+    uint64_t x = _castLen(s, len);
 
     uint64_t mask = (1ull << (len * 8)) - 1;
     mask |= -(len == 8); // fill 1's if len == 8
@@ -135,7 +145,7 @@ RAII_INLINE uint32_t memchr8k(const char *s, uint8_t c) {
 // The word of up to 8 chars, with the bytes past len being anything but c
 static RAII_INLINE uint64_t _castPart(const char *s, uint32_t len, uint8_t c) {
     uint64_t mask = len < 8 ? (1ull << (len * 8)) - 1 : ~0ull;
-    return (cast(s) & mask) | (extend(c ^ 1) & ~mask);
+    return (_castLen(s, len) & mask) | (extend(c ^ 1) & ~mask);
 }
 
 // Find char, in reverse, in const binary string
@@ -282,7 +292,7 @@ RAII_INLINE uint32_t atou8(const char *s, uint32_t len) {
     RAII_ASSERT(len <= 8);
 
     // int 64 of s. "12345678" --> 0x3837363534333231
-    uint64_t x = cast(s);
+    uint64_t x = _castLen(s, len);
 
     // apply len. len of 2 --> 0x3231000000000000
     x <<= 64 - len * 8;
@@ -323,8 +333,8 @@ RAII_INLINE uint64_t simd_atou(const char *s, uint32_t len) {
 
 // Parse _signed_ int from string of up to 20 chars. No spaces
 RAII_INLINE int64_t simd_atoi(const char *s, uint32_t len) {
-    bool neg = !!len & (*s == '-');
-    bool ls = !!len & (*s == '-' || *s == '+');
+    bool neg = len && *s == '-';
+    bool ls = len && (*s == '-' || *s == '+');
     s += ls;
 
     int64_t x = simd_atou(s, len - ls);
@@ -337,7 +347,7 @@ RAII_INLINE uint32_t htou8(const char *s, uint32_t len) {
     RAII_ASSERT(len <= 8);
 
     // int 64 of s. "12345678" --> 0x3837363534333231
-    uint64_t x = cast(s);
+    uint64_t x = _castLen(s, len);
 
     // apply len. len of 2 --> 0x3231000000000000
     x <<= 64 - len * 8;
-- 
2.43.0


From 2b11a8deb9795c2a0f9b45dd1967953748fc944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:08 +0000
Subject: [PATCH 58/58] fix: simd_strcmp reads only words that lie within both
 strings

---
 src/swar.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 7bf1d6e..9f520d0 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -386,11 +386,14 @@ RAII_INLINE uint64_t simd_htou(const char *s, uint32_t len) {
 
 RAII_INLINE int simd_strcmp(const char *str0, const char *str1) {
     int len = simd_strlen(str0);
-    int fast = len / sizeof(size_t) + 1;
-    int offset = (fast - 1) * sizeof(size_t);
-    int current_block = 0;
+    int other = simd_strlen(str1);
+    if (other < len)
+        len = other;
 
-    if (len <= sizeof(size_t)) { fast = offset = 0; }
+    /* Only the words that lie within both. */
+    int fast = len / sizeof(size_t);
+    int offset = fast * sizeof(size_t);
+    int current_block = 0;
 
     size_t *lstr0 = (size_t *)str0;
     size_t *lstr1 = (size_t *)str1;
-- 
2.43.0

