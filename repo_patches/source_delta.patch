From f63999d9d5fee2ae3a3e0bf7f78b873db61941f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:24 +0000
Subject: [PATCH 01/30] fix: simd_strcmp reported a string as equal to any
 string it is a prefix of, and every 8 byte string as equal to anything

---
 src/swar.c | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 89beccd..8d815ce 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -389,34 +389,20 @@ RAII_INLINE uint64_t simd_htou(const char *s, uint32_t len) {
 }
 
 RAII_INLINE int simd_strcmp(const char *str0, const char *str1) {
-    int len = simd_strlen(str0);
-    int fast = len / sizeof(size_t) + 1;
-    int offset = (fast - 1) * sizeof(size_t);
-    int current_block = 0;
-
-    if (len <= sizeof(size_t)) { fast = 0; }
+    size_t len0 = simd_strlen(str0), len1 = simd_strlen(str1);
+    /* Both terminators included, no read goes pass the shorter string. */
+    size_t len = (len0 < len1 ? len0 : len1) + 1;
+    size_t fast = len / sizeof(size_t), current_block = 0, offset;
 
     size_t *lstr0 = (size_t *)str0;
     size_t *lstr1 = (size_t *)str1;
 
-    while (current_block < fast) {
-        if ((lstr0[current_block] ^ lstr1[current_block])) {
-            int pos;
-            for (pos = current_block * sizeof(size_t); pos < len; ++pos) {
-                if ((str0[pos] ^ str1[pos]) || (str0[pos] == 0) || (str1[pos] == 0)) {
-                    return  (int)((unsigned char)str0[pos] - (unsigned char)str1[pos]);
-                }
-            }
-        }
-
+    while (current_block < fast && !(lstr0[current_block] ^ lstr1[current_block]))
         ++current_block;
-    }
 
-    while (len > offset) {
-        if ((str0[offset] ^ str1[offset])) {
+    for (offset = current_block * sizeof(size_t); offset < len; ++offset) {
+        if (str0[offset] ^ str1[offset])
             return (int)((unsigned char)str0[offset] - (unsigned char)str1[offset]);
-        }
-        ++offset;
     }
 
     return 0;
-- 
2.43.0


From a7855a067ad8e107bd988c92033ef2206045807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:26 +0000
Subject: [PATCH 02/30] fix: cancel and fire of a deferred function addressed
 the wrong array layout

---
 src/raii.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 9130d51..8d556ca 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -342,18 +342,18 @@ static RAII_INLINE void raii_deferred_array_free(defer_t *array) {
     raii_array_free((raii_array_t *)array);
 }
 
-static RAII_INLINE size_t raii_deferred_array_get_index(const defer_t *array, raii_array_t *elem) {
-    RAII_ASSERT(elem >= (raii_array_t *)array->base.base);
-    return (size_t)(elem - (raii_array_t *)array->base.base);
+static RAII_INLINE size_t raii_deferred_array_get_index(const defer_t *array, defer_func_t *elem) {
+    RAII_ASSERT(elem >= (defer_func_t *)((const raii_array_t *)array)->base);
+    return (size_t)(elem - (defer_func_t *)((const raii_array_t *)array)->base);
 }
 
-static RAII_INLINE raii_array_t *raii_deferred_array_get_element(const defer_t *array, size_t index) {
-    RAII_ASSERT(index <= array->base.elements);
-    return &((raii_array_t *)array->base.base)[index];
+static RAII_INLINE defer_func_t *raii_deferred_array_get_element(const defer_t *array, size_t index) {
+    RAII_ASSERT(index < ((const raii_array_t *)array)->elements);
+    return &((defer_func_t *)((const raii_array_t *)array)->base)[index];
 }
 
 static RAII_INLINE size_t raii_deferred_array_len(const defer_t *array) {
-    return array->base.elements;
+    return ((const raii_array_t *)array)->elements;
 }
 
 static void deferred_canceled(void *data) {}
@@ -363,7 +363,7 @@ static void raii_deferred_internal(memory_t *scope, defer_func_t *deferred) {
 
     RAII_ASSERT(num_defers != 0 && deferred != NULL);
 
-    if (deferred == (defer_func_t *)raii_deferred_array_get_element(&scope->defer, num_defers - 1)) {
+    if (deferred == raii_deferred_array_get_element(&scope->defer, num_defers - 1)) {
         /* If we're cancelling the last defer we armed, there's no need to waste
          * space of a deferred callback to an empty function like
          * disarmed_defer(). */
@@ -378,18 +378,20 @@ static void raii_deferred_internal(memory_t *scope, defer_func_t *deferred) {
 void raii_deferred_cancel(memory_t *scope, size_t index) {
     RAII_ASSERT(index >= 0);
 
-    raii_deferred_internal(scope, (defer_func_t *)raii_deferred_array_get_element(&scope->defer, index));
+    raii_deferred_internal(scope, raii_deferred_array_get_element(&scope->defer, index));
 }
 
 void raii_deferred_fire(memory_t *scope, size_t index) {
     RAII_ASSERT(index >= 0);
 
-    defer_func_t *deferred = (defer_func_t *)raii_deferred_array_get_element(&scope->defer, index);
+    defer_func_t *deferred = raii_deferred_array_get_element(&scope->defer, index);
+    defer_func_t fired = *deferred;
     RAII_ASSERT(scope);
 
-    deferred->func(deferred->data);
-
+    /* Disarmed first, the function might throw, or add more deferred functions. */
     raii_deferred_internal(scope, deferred);
+
+    fired.func(fired.data);
 }
 
 static void raii_deferred_run(memory_t *scope, size_t generation) {
@@ -460,7 +462,7 @@ static size_t raii_deferred_any(memory_t *scope, func_t func, void *data, void *
         deferred->data = data;
         deferred->check = check;
 
-        return raii_deferred_array_get_index(&scope->defer, (raii_array_t *)deferred);
+        return raii_deferred_array_get_index(&scope->defer, deferred);
     }
 }
 
-- 
2.43.0


From e2726664e8554302dd797e61d5c3c9e7381c5b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 03/30] fix: a deferred function that throws or defers more was
 run twice, or from a stale array

---
 src/raii.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 8d556ca..af11f4d 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -396,21 +396,19 @@ void raii_deferred_fire(memory_t *scope, size_t index) {
 
 static void raii_deferred_run(memory_t *scope, size_t generation) {
     raii_array_t *array = (raii_array_t *)&scope->defer;
-    defer_func_t *defers = array->base;
     bool defer_ran = false;
-    size_t i;
 
     scope->is_recovered = is_empty(scope->err);
 
-    for (i = array->elements; i != generation; i--) {
-        defer_func_t *defer = &defers[i - 1];
+    while (array->elements > generation) {
+        /* Removed before the call, the function might throw, or add more deferred functions. */
+        defer_func_t defer = ((defer_func_t *)array->base)[--array->elements];
         defer_ran = true;
 
-        if (!is_empty(scope->err) && !is_empty(defer->check))
+        if (!is_empty(scope->err) && !is_empty(defer.check))
             scope->is_recovered = false;
 
-        defer->func(defer->data);
-        defer->data = NULL;
+        defer.func(defer.data);
     }
 
     if (scope->is_protected && !is_empty(scope->protector) && !is_empty(scope->err)) {
@@ -421,7 +419,6 @@ static void raii_deferred_run(memory_t *scope, size_t generation) {
         }
     }
 
-    array->elements = generation;
     if (!is_empty(scope->protector)) {
         ex_unprotected_ptr(scope->protector);
         RAII_FREE(scope->protector);
-- 
2.43.0


From 461f240992f1b32ed5fa85585b84485909fa3f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 04/30] fix: functions deferred after
 raii_deferred_clean/raii_deferred_free were never run

---
 src/raii.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/raii.c b/src/raii.c
index af11f4d..9db43d0 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -438,6 +438,7 @@ void raii_deferred_free(memory_t *scope) {
     if (is_type(&scope->defer, RAII_DEF_ARR)) {
         raii_deferred_run(scope, 0);
         raii_deferred_array_reset(&scope->defer);
+        raii_deferred_init(&scope->defer);
     }
 }
 
-- 
2.43.0


From 3641710b8c9858f85ee73d9b7437869d7510197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 05/30] fix: a future used memory and error state of other
 threads, and memory already freed

- the promise was read after the future holding it was freed, and again after
  the worker arguments were freed
- the error of a thread was stored in the scope of the thread which started it,
  so one failing thread replaced the error of another, or of its creator
- the worker allocated its result in the scope of the thread which started it,
  without any synchronization
- the promise belonged to the scope of the creating thread, which could free it
  while the worker still used it
- thrd_sync dereferenced the absent result of a thread returning NULL, or ended
  by an exception, and executed the deferred functions of the calling thread
- nothing was released if the thread could not be created
---
 include/raii.h |  12 ++-
 src/future.c   | 285 +++++++++++++++++++++++++++++--------------------
 src/raii.c     |   1 +
 3 files changed, 177 insertions(+), 121 deletions(-)

diff --git a/include/raii.h b/include/raii.h
index 2bb3d15..e1417d7 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -172,6 +172,8 @@ struct memory_s {
     ex_backtrace_t *backtrace;
     void *volatile err;
     const char *volatile panic;
+    /* Set by `thrd_returning`, an `raii_values_t`. */
+    void *returning;
 };
 
 typedef struct args_s {
@@ -197,8 +199,10 @@ typedef struct _promise {
     int id;
     atomic_flag done;
     atomic_spinlock mutex;
-    memory_t *scope;
-    raii_values_t *result;
+    raii_values_t result[1];
+    /* The error, if thread ended by an exception, and where thrown. */
+    memory_t failure[1];
+    ex_backtrace_t backtrace[1];
 } promise;
 
 typedef struct {
@@ -243,6 +247,8 @@ typedef struct future_pool {
     int thread_count;
     size_t cpu_present;
     memory_t *scope;
+    /* What `thrd_scope` replaced, restored by `thrd_destroy`. */
+    void *previous;
     future *futures;
     result_t *results;
     future_deque_t queue[1];
@@ -584,7 +590,7 @@ are only valid between these sections.
         if (!_$##__FUNCTION__->is_recovered && raii_is_caught(_$##__FUNCTION__, raii_message_by(_$##__FUNCTION__))) { \
             ((memory_t *)error)->err = (void_t)ex_err.ex;                   \
             ((memory_t *)error)->panic = ex_err.panic;              \
-            ((memory_t *)error)->backtrace = ex_err.backtrace;      \
+            *((memory_t *)error)->backtrace = *ex_err.backtrace;    \
         }                                                           \
     } ex_finally{\
         guard_reset(s##__FUNCTION__, sf##__FUNCTION__, uf##__FUNCTION__);   \
diff --git a/src/future.c b/src/future.c
index 53d67a6..30b27ff 100644
--- a/src/future.c
+++ b/src/future.c
@@ -10,25 +10,20 @@ Modified from https://gist.github.com/Geal/8f85e02561d101decf9a
 
 #include "raii.h"
 
-static promise *promise_create(void) {
-    promise *p = calloc_default(1, sizeof(promise));
-    p->scope = raii_local();
-    atomic_flag_clear(&p->mutex);
-    atomic_flag_clear(&p->done);
-    p->type = RAII_PROMISE;
-
-    return p;
-}
-
-static void promise_set(promise *p, void_t res, bool is_args) {
+static void promise_set(promise *p, void_t res) {
+    memory_t *scope = raii_local();
+    raii_values_t *returning = is_empty(scope) ? NULL : (raii_values_t *)scope->returning;
     atomic_lock(&p->mutex);
-    if (!is_empty(res)) {
-        if (is_args) {
-            p->result = (raii_values_t *)res;
-        } else {
-            p->result = (raii_values_t *)calloc_full(p->scope, 1, sizeof(raii_values_t), RAII_FREE);
-            p->result->value.object = res;
-        }
+    if (!is_empty(returning)) {
+        scope->returning = NULL;
+        if (res == (void_t)returning)
+            memcpy(p->result, returning, sizeof(raii_values_t));
+        else
+            RAII_FREE(returning->extended);
+
+        RAII_FREE(returning);
+    } else if (!is_empty(res)) {
+        p->result->value.object = res;
     }
 
     atomic_unlock(&p->mutex);
@@ -42,45 +37,52 @@ static RAII_INLINE raii_values_t *promise_get(promise *p) {
     return p->result;
 }
 
-static void promise_close(promise *p) {
-    if (is_type(p, RAII_PROMISE)) {
-        p->type = -1;
-        atomic_flag_clear(&p->mutex);
-        atomic_flag_clear(&p->done);
-        if (!is_empty(p->scope->err))
-            ex_throw(p->scope->err, "unknown", 0, "thrd_raii_wrapper", p->scope->panic, p->scope->backtrace);
+/* Joins the thread, the future and its promise are gone after,
+the value and error of the thread are left in `result` and `failed`. */
+static void future_close(future f, raii_values_t *result, promise *failed) {
+    promise *p = f->value;
+    promise_get(p);
+    thrd_join(f->thread, NULL);
+    memcpy(result, p->result, sizeof(raii_values_t));
+    if (!is_empty(failed) && !is_empty(p->failure->err)) {
+        memcpy(failed, p, sizeof(promise));
+        failed->failure->backtrace = failed->backtrace;
     }
-}
 
-static future future_create(thrd_func_t start_routine) {
-    future f = try_malloc(sizeof(struct _future));
-    f->func = (thrd_func_t)start_routine;
-    f->type = RAII_FUTURE;
-
-    return f;
+    p->type = -1;
+    f->type = -1;
+    RAII_FREE(p);
+    RAII_FREE(f);
 }
 
-static void future_close(future f) {
-    if (is_type(f, RAII_FUTURE) && thrd_join(f->thread, NULL) == thrd_success) {
-        memset(f, 0, sizeof(f));
-        RAII_FREE(f);
-    }
+static void promise_throw(promise *p) {
+    if (!is_empty(p->failure->err))
+        ex_throw(p->failure->err, "unknown", 0, "thrd_raii_wrapper", p->failure->panic, p->backtrace);
 }
 
 static int thrd_raii_wrapper(void_t arg) {
     future_arg *f = (future_arg *)arg;
     int err = 0;
-    void_t res = nullptr;
-    f->value->scope->err = nullptr;
+    void_t volatile res = nullptr;
     rpmalloc_init();
 
-    guard {
-        res = f->func((args_t)f->arg);
-    } guarded_exception(f->value->scope);
-
-    promise_set(f->value, res, (is_type(f->arg, RAII_ARGS) && ((args_t)f->arg)->is_returning));
+    try {
+        guard {
+            res = f->func((args_t)f->arg);
+        } guarded_exception(f->value->failure);
+    } catch_any {
+        /* No memory for the guard itself. */
+        f->value->failure->err = (void_t)ex_err.ex;
+        f->value->failure->panic = ex_err.panic;
+        *f->value->backtrace = *err_backtrace;
+    } end_try;
+
+    if (!is_empty(f->value->failure->err))
+        res = nullptr;
+
+    promise_set(f->value, res);
     if (is_type(f, RAII_FUTURE_ARG)) {
-        memset(f, 0, sizeof(f));
+        f->type = -1;
         RAII_FREE(f);
     }
 
@@ -90,31 +92,54 @@ static int thrd_raii_wrapper(void_t arg) {
     return err;
 }
 
-static void thrd_start(future f, promise *value, void_t arg) {
-    future_arg *f_arg = try_calloc(1, sizeof(future_arg));
-    f_arg->func = f->func;
-    f_arg->arg = arg;
-    f_arg->value = value;
-    f_arg->type = RAII_FUTURE_ARG;
-    if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success)
-        throw(future_error);
+/* Nothing is left allocated, if not enough memory, or the thread was not created. */
+static future thrd_start(thrd_func_t fn, void_t arg) {
+    promise *p = (promise *)RAII_CALLOC(1, sizeof(promise));
+    future f = (future)RAII_CALLOC(1, sizeof(struct _future));
+    future_arg *f_arg = (future_arg *)RAII_CALLOC(1, sizeof(future_arg));
+    bool no_memory = is_empty(p) || is_empty(f) || is_empty(f_arg);
+
+    if (!no_memory) {
+        atomic_flag_clear(&p->mutex);
+        atomic_flag_clear(&p->done);
+        p->failure->backtrace = p->backtrace;
+        p->type = RAII_PROMISE;
+        f->func = fn;
+        f->value = p;
+        f->type = RAII_FUTURE;
+        f_arg->func = fn;
+        f_arg->arg = arg;
+        f_arg->value = p;
+        f_arg->type = RAII_FUTURE_ARG;
+        if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) == thrd_success)
+            return f;
+    }
+
+    RAII_FREE(p);
+    RAII_FREE(f);
+    RAII_FREE(f_arg);
+    if (no_memory) {
+        errno = ENOMEM;
+        raii_panic("Calloc failed!");
+    }
+
+    throw(future_error);
+    return NULL;
 }
 
-future thrd_async(thrd_func_t fn, void_t args) {
-    promise *p = promise_create();
-    future f = future_create(fn);
-    f->value = p;
-    thrd_start(f, p, args);
-    return f;
+RAII_INLINE future thrd_async(thrd_func_t fn, void_t args) {
+    return thrd_start(fn, args);
 }
 
 values_type thrd_get(future f) {
-    if (is_type(f, RAII_FUTURE) && !is_empty(f->value) && is_type(f->value, RAII_PROMISE)) {
-        raii_values_t *r = promise_get(f->value);
-        future_close(f);
-        promise_close(f->value);
-        if (is_empty(r))
-            return thrd_value(0)->value;
+    if (!is_empty(f) && is_type(f, RAII_FUTURE) && !is_empty(f->value) && is_type(f->value, RAII_PROMISE)) {
+        raii_values_t r[1];
+        promise failed[1] = {0};
+        memory_t *scope = raii_init();
+        future_close(f, r, failed);
+        promise_throw(failed);
+        if (!is_empty(r->extended))
+            raii_deferred(scope, RAII_FREE, r->extended);
 
         return r->value;
     }
@@ -123,7 +148,7 @@ values_type thrd_get(future f) {
 }
 
 RAII_INLINE bool thrd_is_done(future f) {
-    return atomic_flag_load_explicit(&f->value->done, memory_order_relaxed);
+    return atomic_flag_load_explicit(&f->value->done, memory_order_acquire);
 }
 
 RAII_INLINE void thrd_wait(future f, wait_func yield) {
@@ -131,13 +156,20 @@ RAII_INLINE void thrd_wait(future f, wait_func yield) {
         yield();
 }
 
-RAII_INLINE raii_values_t *thrd_returning(args_t args, void_t value, size_t size) {
-    raii_deferred(args->context, RAII_FREE, value);
-    raii_values_t *result = (raii_values_t *)calloc_full(args->context, 1, sizeof(raii_values_t), RAII_FREE);
+raii_values_t *thrd_returning(args_t args, void_t value, size_t size) {
+    memory_t *scope = raii_init();
+    raii_values_t *result = (raii_values_t *)RAII_CALLOC(1, sizeof(raii_values_t));
+    if (is_empty(result)) {
+        RAII_FREE(value);
+        errno = ENOMEM;
+        raii_panic("Calloc failed!");
+    }
+
     result->value.object = value;
     result->size = size;
     result->extended = value;
     args->is_returning = true;
+    scope->returning = result;
     return result;
 }
 
@@ -184,7 +216,8 @@ future_t thrd_pool(size_t count, size_t queue_count) {
     pool->thread_count = count;
     pool->cpu_present = thrd_cpu_count();
     for (i = 0; i < count; i++) {
-        future f = future_create(nullptr);
+        future f = try_calloc(1, sizeof(struct _future));
+        f->type = RAII_FUTURE;
         future_arg *f_arg = try_calloc(1, sizeof(future_arg));
         f_arg->queue = pool->queue;
         f_arg->type = RAII_FUTURE_ARG;
@@ -201,24 +234,33 @@ future_t thrd_pool(size_t count, size_t queue_count) {
 }
 
 future_t thrd_scope(void) {
-    unique_t *scope = unique_init(), *spawn = raii_init();
-    future_t pool = (future_t)calloc_full(scope, 1, sizeof(struct future_pool), RAII_FREE);
+    memory_t *spawn = raii_init();
+    unique_t *scope = unique_init();
+    future_t pool = (future_t)RAII_CALLOC(1, sizeof(struct future_pool));
+    if (is_empty(pool)) {
+        raii_delete(scope);
+        errno = ENOMEM;
+        raii_panic("Calloc failed!");
+    }
 
     pool->scope = scope;
     pool->thread_count = 0;
     pool->cpu_present = thrd_cpu_count();
     pool->futures = NULL;
     pool->results = NULL;
-    ex_protect_ptr(scope->protector, &pool->futures, RAII_FREE);
-    ex_protect_ptr(scope->protector, &pool->results, RAII_FREE);
     pool->type = RAII_SPAWN;
+    pool->previous = spawn->arena;
     spawn->arena = pool;
 
     return pool;
 }
 
+static bool thrd_no_scope(void) {
+    return is_raii_empty() || is_empty(raii_local()->arena) || !is_type(raii_local()->arena, RAII_SPAWN);
+}
+
 result_t thrd_spawn(thrd_func_t fn, void_t args) {
-    if (is_raii_empty() || !is_type(raii_local()->arena, RAII_SPAWN))
+    if (thrd_no_scope())
         raii_panic("No initialization, No `thrd_scope`!");
 
     future_t pool = (future_t)raii_local()->arena;
@@ -227,61 +269,58 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
         pool->results = try_realloc(pool->results, (pool->thread_count + pool->cpu_present) * sizeof(pool->results[0]));
     }
 
-    promise *p = promise_create();
-    future f = future_create(fn);
-    ex_protect_ptr(raii_local()->protector, &f, RAII_FREE);
-    future_arg *f_arg = try_calloc(1, sizeof(future_arg));
-    f_arg->func = f->func;
-    f_arg->arg = args;
-    f_arg->value = p;
-    f_arg->type = RAII_FUTURE_ARG;
-    f->value = p;
-    if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) != thrd_success)
-        throw(future_error);
-
-    pool->futures[pool->thread_count] = f;
-    pool->results[pool->thread_count] = (result_t)calloc_full(pool->scope, 1, sizeof(struct result_data), RAII_FREE);
-    pool->results[pool->thread_count]->is_ready = false;
-    pool->results[pool->thread_count]->result = NULL;
-    pool->results[pool->thread_count]->type = RAII_VALUE;
+    result_t result = (result_t)calloc_full(pool->scope, 1, sizeof(struct result_data), RAII_FREE);
+    result->result = (raii_values_t *)calloc_full(pool->scope, 1, sizeof(raii_values_t), RAII_FREE);
+    result->is_ready = false;
+    result->type = RAII_VALUE;
+
+    pool->futures[pool->thread_count] = thrd_start(fn, args);
+    pool->results[pool->thread_count] = result;
     pool->thread_count++;
 
-    return pool->results[pool->thread_count - 1];
+    return result;
 }
 
 result_t thrd_spawn_ex(thrd_func_t fn, const char *desc, ...) {
+    result_t result = NULL;
     va_list args;
+    if (thrd_no_scope())
+        raii_panic("No initialization, No `thrd_scope`!");
+
     va_start(args, desc);
-    args_t params = raii_args_ex(raii_local(), desc, args);
+    /* Bound to the scope of the thread using them. */
+    args_t params = raii_args_ex(nullptr, desc, args);
     va_end(args);
 
-    return thrd_spawn(fn, (void_t)params);
+    try {
+        result = thrd_spawn(fn, (void_t)params);
+    } catch_any {
+        args_free(params);
+        rethrow();
+    } end_try;
+
+    return result;
 }
 
 future_t thrd_sync(future_t v) {
-    if (!is_type(v, RAII_SPAWN))
+    if (is_empty(v) || !is_type(v, RAII_SPAWN))
         throw(logic_error);
 
-    int i, x;
-    memory_t *scope = v->scope;
+    int i;
+    promise first[1] = {0}, failed[1];
     for (i = 0; i < v->thread_count; i++) {
-        raii_values_t *result = promise_get(v->futures[i]->value);
-        size_t size = result->size;
-        v->results[i]->result = (raii_values_t *)calloc_full(scope, 1, sizeof(raii_values_t), RAII_FREE);
-        if (size > 0) {
-            v->results[i]->result->extended = calloc_full(scope, 1, size, RAII_FREE);
-            memcpy(v->results[i]->result->extended, result->extended, size);
-            v->results[i]->result->value.object = v->results[i]->result->extended;
-        } else {
-            v->results[i]->result->value.array = result->value.array;
-        }
-
-        v->results[i]->is_ready = true;
-        future_close(v->futures[i]);
-        promise_close(v->futures[i]->value);
+        if (is_empty(v->futures[i]))
+            continue;
+
+        memset(failed, 0, sizeof(failed));
+        future_close(v->futures[i], v->results[i]->result, failed);
+        v->futures[i] = NULL;
+        v->results[i]->is_ready = is_empty(failed->failure->err);
+        if (!v->results[i]->is_ready && is_empty(first->failure->err))
+            memcpy(first, failed, sizeof(promise));
     }
 
-    raii_deferred_clean();
+    promise_throw(first);
     return v;
 }
 
@@ -293,21 +332,31 @@ void thrd_then(result_func_t callback, future_t iter, void_t result) {
 }
 
 void thrd_destroy(future_t f) {
-    if (is_type(f, RAII_SPAWN)) {
+    if (!is_empty(f) && is_type(f, RAII_SPAWN)) {
         memory_t *scope = f->scope;
-        ex_ptr_t *err = scope->protector;
+        int i;
         f->type = -1;
+        for (i = 0; i < f->thread_count; i++) {
+            if (!is_empty(f->futures[i]))
+                future_close(f->futures[i], f->results[i]->result, NULL);
+
+            RAII_FREE(f->results[i]->result->extended);
+        }
+
+        if (!is_raii_empty() && raii_local()->arena == (void *)f)
+            raii_local()->arena = f->previous;
+
         RAII_FREE(f->futures);
         RAII_FREE(f->results);
-        ex_unprotected_ptr(err);
         raii_delete(scope);
+        RAII_FREE(f);
     }
 }
 
 RAII_INLINE bool thrd_is_finish(future_t f) {
-    size_t i;
+    int i;
     for (i = 0; i < f->thread_count; i++) {
-        if (!thrd_is_done(f->futures[i]))
+        if (!is_empty(f->futures[i]) && !thrd_is_done(f->futures[i]))
             return false;
     }
 
diff --git a/src/raii.c b/src/raii.c
index 9db43d0..e9d5fb2 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -111,6 +111,7 @@ memory_t *raii_init(void) {
         scope->protector = NULL;
         scope->panic = NULL;
         scope->err = NULL;
+        scope->returning = NULL;
         scope->is_protected = false;
         scope->is_recovered = false;
         scope->mid = -1;
-- 
2.43.0


From 13df93a122fc7f5daa0adcd00bd8d1f715c863ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 06/30] fix: an try block context was mostly uninitialized, an
 throw acted on leftover stack values

---
 include/exception.h | 14 +++++---------
 src/except.c        | 24 ++++++++++++++++++++++++
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/include/exception.h b/include/exception.h
index 7ced475..ff0f193 100644
--- a/include/exception.h
+++ b/include/exception.h
@@ -106,6 +106,9 @@ C_API void ex_throw(string_t ex, string_t file, int, string_t function, string_t
 C_API int ex_uncaught_exception(void);
 C_API void ex_terminate(void);
 C_API ex_context_t *ex_init(void);
+
+/* Prepares an `try` block context, the current one is next. */
+C_API void ex_context_init(ex_context_t *ctx);
 C_API ex_context_t *ex_local(void);
 C_API void ex_update(ex_context_t *);
 C_API void ex_unwind_set(ex_context_t *ctx, bool flag);
@@ -223,11 +226,7 @@ throws an exception of given message. */
         ex_signal_setup();                  \
     /* local context */                     \
     ex_context_t ex_err;                    \
-    ex_err.next = ex_init();               \
-    ex_err.stack = 0;                       \
-    ex_err.ex = 0;                          \
-    ex_err.unstack = 0;                     \
-    ex_err.is_rethrown = false;             \
+    ex_context_init(&ex_err);               \
     /* global context updated */            \
     ex_update(&ex_err);                     \
     /* save jump location */                \
@@ -300,10 +299,7 @@ throws an exception of given message. */
         ex_signal_setup();                  \
     /* local context */                     \
     ex_context_t ex_err;                    \
-    ex_err.next = ex_init();                \
-    ex_err.stack = 0;                       \
-    ex_err.ex = 0;                          \
-    ex_err.unstack = 0;                     \
+    ex_context_init(&ex_err);               \
     /* global context updated */            \
     ex_update(&ex_err);                     \
     /* save jump location */                \
diff --git a/src/except.c b/src/except.c
index 088d247..bdb0523 100644
--- a/src/except.c
+++ b/src/except.c
@@ -347,6 +347,30 @@ ex_context_t *ex_init(void) {
     return context;
 }
 
+void ex_context_init(ex_context_t *ctx) {
+    ctx->type = ex_context_st;
+    ctx->is_unwind = false;
+    ctx->is_rethrown = false;
+    ctx->is_guarded = false;
+    ctx->is_raii = false;
+    ctx->is_emulated = false;
+    ctx->unstack = 0;
+    ctx->caught = -1;
+    ctx->line = 0;
+    ctx->state = ex_try_st;
+    ctx->data = NULL;
+    ctx->prev = NULL;
+    ctx->next = ex_init();
+    ctx->stack = NULL;
+    ctx->panic = NULL;
+    ctx->function = NULL;
+    ctx->ex = NULL;
+    ctx->file = NULL;
+#ifndef _WIN32
+    ctx->backtrace->size = 0;
+#endif
+}
+
 int ex_uncaught_exception(void) {
     return ex_init()->unstack;
 }
-- 
2.43.0


From ec2d249301fe8f3b088b7c016da0cf4d53bac35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 07/30] fix: an guard changed how every other thread throws,
 and lost deferred functions

The hooks of an guard were process wide variables: a throw in another thread, or
in an try block inside the guard, executed or marked the deferred functions of the
wrong guard. An throw within a deferred function terminated the process, or skipped
the remaining ones. _recover marked whatever try block was current as handled.
---
 include/exception.h | 12 ++++++++++++
 include/raii.h      | 25 ++++++++++++-------------
 src/except.c        | 15 ++++++++++-----
 src/raii.c          | 26 +++++++++++++++-----------
 4 files changed, 49 insertions(+), 29 deletions(-)

diff --git a/include/exception.h b/include/exception.h
index ff0f193..16fe928 100644
--- a/include/exception.h
+++ b/include/exception.h
@@ -271,6 +271,8 @@ throws an exception of given message. */
             if (ex_err.state == ex_throw_st) {  \
                 EX_MAKE_IF();
 
+#define ex_catch_guard  ex_catch_if
+
 #define ex_finality							\
         } __finally {						\
 			EX_MAKE_IF();					\
@@ -325,6 +327,16 @@ throws an exception of given message. */
         {                            \
             EX_MAKE();               \
 
+/* Entered again, when the deferred functions of an guard throw. */
+#define ex_catch_guard                 \
+    }                                \
+    }                                \
+    if ((ex_err.state & ex_throw_st) != 0) \
+    {                                \
+        {                            \
+            EX_MAKE();               \
+            ex_err.state = ex_throw_st;
+
 #define ex_finally                          \
     }                                    \
     }                                    \
diff --git a/include/raii.h b/include/raii.h
index e1417d7..2873183 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -476,7 +476,7 @@ C_API void *try_malloc(size_t);
 C_API void *try_realloc(void *, size_t);
 
 C_API void guard_set(ex_context_t *ctx, const char *ex, const char *message);
-C_API void guard_reset(void *scope, ex_setup_func set, ex_unwind_func unwind);
+C_API void guard_reset(void *scope);
 C_API void guard_delete(memory_t *ptr);
 
 #ifndef MAX
@@ -523,7 +523,7 @@ throws an exception of given message. */
 return given `value` when done, use `NONE` for no return. */
 #define _return(value)              \
     raii_delete(_$##__FUNCTION__);  \
-    guard_reset(s##__FUNCTION__, sf##__FUNCTION__, uf##__FUNCTION__);   \
+    guard_reset(s##__FUNCTION__);   \
     ex_update(ex_err.next);         \
     if (ex_local() == &ex_err)      \
         ex_update(ex_err.next);     \
@@ -539,14 +539,12 @@ are only valid between these sections.
     if (!exception_signal_set)                          \
         ex_signal_setup();                              \
     void *s##__FUNCTION__ = raii_init()->arena;         \
-    ex_setup_func sf##__FUNCTION__ = exception_setup_func;      \
-    ex_unwind_func uf##__FUNCTION__ = exception_unwind_func;    \
-    exception_unwind_func = (ex_unwind_func)raii_deferred_free; \
-    exception_setup_func = guard_set;                   \
     unique_t *_$##__FUNCTION__ = unique_init();         \
     (_$##__FUNCTION__)->status = RAII_GUARDED_STATUS;   \
     raii_local()->arena = (void *)_$##__FUNCTION__;     \
     ex_try {                                            \
+        ex_err.is_guarded = true;                       \
+        ex_err.data = (void *)_$##__FUNCTION__;         \
         do {
 
     /* This ends an scoped guard section, it replaces `}`.
@@ -555,11 +553,11 @@ are only valid between these sections.
 #define unguarded(result)                                           \
             } while (false);                                        \
             raii_deferred_free(_$##__FUNCTION__);                   \
-    } ex_catch_if {                                                 \
+    } ex_catch_guard {                                              \
         if ((is_type(&(_$##__FUNCTION__)->defer, RAII_DEF_ARR)))    \
             raii_deferred_free(_$##__FUNCTION__);                   \
     } ex_finally {                                                  \
-        guard_reset(s##__FUNCTION__, sf##__FUNCTION__, uf##__FUNCTION__);   \
+        guard_reset(s##__FUNCTION__);   \
         guard_delete(_$##__FUNCTION__);                             \
     } ex_end_try;                                                   \
     return result;                                                  \
@@ -570,10 +568,10 @@ are only valid between these sections.
 #define guarded                                                     \
         } while (false);                                            \
         raii_deferred_free(_$##__FUNCTION__);                       \
-    } ex_catch_if {                                                 \
+    } ex_catch_guard {                                              \
         raii_deferred_free(_$##__FUNCTION__);                       \
     } ex_finally {                                                  \
-        guard_reset(s##__FUNCTION__, sf##__FUNCTION__, uf##__FUNCTION__);   \
+        guard_reset(s##__FUNCTION__);   \
         guard_delete(_$##__FUNCTION__);                             \
     } ex_end_try;                                                   \
 }
@@ -585,15 +583,16 @@ are only valid between these sections.
 #define guarded_exception(error)                                    \
         } while (false);                                            \
         raii_deferred_free(_$##__FUNCTION__);                       \
-    } ex_catch_if {                                                 \
+    } ex_catch_guard {                                              \
         raii_deferred_free(_$##__FUNCTION__);                       \
-        if (!_$##__FUNCTION__->is_recovered && raii_is_caught(_$##__FUNCTION__, raii_message_by(_$##__FUNCTION__))) { \
+        if (ex_err.state != ex_catch_st) {                          \
+            ex_err.state = ex_catch_st;                             \
             ((memory_t *)error)->err = (void_t)ex_err.ex;                   \
             ((memory_t *)error)->panic = ex_err.panic;              \
             *((memory_t *)error)->backtrace = *ex_err.backtrace;    \
         }                                                           \
     } ex_finally{\
-        guard_reset(s##__FUNCTION__, sf##__FUNCTION__, uf##__FUNCTION__);   \
+        guard_reset(s##__FUNCTION__);   \
         guard_delete(_$##__FUNCTION__);                             \
     } ex_end_try;                                                   \
 }
diff --git a/src/except.c b/src/except.c
index bdb0523..d53a083 100644
--- a/src/except.c
+++ b/src/except.c
@@ -417,7 +417,9 @@ void ex_throw(string_t exception, string_t file, int line, string_t function, st
     ctx->function = function;
     ctx->panic = message;
 
-    if (exception_setup_func)
+    if (ctx->is_guarded)
+        guard_set(ctx, ctx->ex, ctx->panic);
+    else if (exception_setup_func)
         exception_setup_func(ctx, ctx->ex, ctx->panic);
     else if (ctx->is_raii)
         raii_unwind_set(ctx, ctx->ex, ctx->panic);
@@ -479,7 +481,9 @@ int catch_seh(const char *exception, DWORD code, struct _EXCEPTION_POINTERS *ep)
                 ctx->function = NULL;
             }
 
-            if (exception_setup_func)
+            if (ctx->is_guarded)
+                guard_set(ctx, ctx->ex, ctx->panic);
+            else if (exception_setup_func)
                 exception_setup_func(ctx, ctx->ex, ctx->panic);
             else if (ctx->is_raii)
                 raii_unwind_set(ctx, ctx->ex, ctx->panic);
@@ -511,13 +515,14 @@ int catch_filter_seh(DWORD code, struct _EXCEPTION_POINTERS *ep) {
             ctx->line = 0;
             ctx->function = NULL;
 
-            if (exception_setup_func)
+            if (ctx->is_guarded)
+                guard_set(ctx, ctx->ex, ctx->panic);
+            else if (exception_setup_func)
                 exception_setup_func(ctx, ctx->ex, ctx->panic);
             else if (ctx->is_raii)
                 raii_unwind_set(ctx, ctx->ex, ctx->panic);
 
-            if (!ctx->is_guarded || ctx->is_raii)
-                ex_unwind_stack(ctx);
+            ex_unwind_stack(ctx);
             return EXCEPTION_EXECUTE_HANDLER;
         }
     }
diff --git a/src/raii.c b/src/raii.c
index e9d5fb2..44ebd32 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -498,8 +498,17 @@ bool raii_caught(const char *err) {
 
 bool raii_is_caught(memory_t *scope, const char *err) {
     const char *exception = (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
-    if ((scope->is_recovered = is_str_eq(err, exception)))
-        ex_local()->state = ex_catch_st;
+    if ((scope->is_recovered = is_str_eq(err, exception))) {
+        /* The guard of this scope, not whatever `try` block is current. */
+        ex_context_t *ctx = ex_local();
+        while (!is_empty(ctx) && !(ctx->is_guarded && ctx->data == (void *)scope))
+            ctx = ctx->next;
+
+        if (is_empty(ctx))
+            ctx = ex_local();
+
+        ctx->state = ex_catch_st;
+    }
 
     return scope->is_recovered;
 }
@@ -523,20 +532,15 @@ RAII_INLINE void raii_defer_fire(size_t index) {
 }
 
 void guard_set(ex_context_t *ctx, const char *ex, const char *message) {
-    memory_t *scope = raii_local()->arena;
+    memory_t *scope = (memory_t *)ctx->data;
     scope->err = (void *)ex;
     scope->panic = message;
-    ctx->is_guarded = true;
-    ex_swap_set(ctx, (void *)scope);
-    ex_unwind_set(ctx, scope->is_protected);
+    /* The deferred functions run after the jump to the guard. */
+    ex_unwind_set(ctx, false);
 }
 
-void guard_reset(void *scope, ex_setup_func set, ex_unwind_func unwind) {
+void guard_reset(void *scope) {
     raii_local()->arena = scope;
-    ex_swap_reset(ex_local());
-    ex_local()->is_guarded = false;
-    exception_setup_func = set;
-    exception_unwind_func = unwind;
 }
 
 void guard_delete(memory_t *ptr) {
-- 
2.43.0


From 6f48101a79bf41b99222d85e4f3652dfa4cbb391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 08/30] fix: running out of memory left scope memory
 unreleased, or released it twice

The protection record of an scope was put on the stack of whatever try block was
current, so the handler of an inner block released memory the scope still owned, and
an exhausted heap left it dangling. Nothing was reported when the list of deferred
functions could not grow, the memory or function was silently lost.
---
 src/raii.c | 60 +++++++++++++++++++++++-------------------------------
 1 file changed, 26 insertions(+), 34 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 44ebd32..91e21ff 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -2,6 +2,8 @@
 
 thrd_local(memory_t, raii, NULL)
 
+static size_t raii_deferred_any(memory_t *scope, func_t func, void *data, void *check);
+
 int raii_array_init(raii_array_t *a) {
     if (UNLIKELY(!a))
         return -EINVAL;
@@ -220,13 +222,13 @@ unique_t *unique_init_arena(void) {
 
 void *malloc_full(memory_t *scope, size_t size, func_t func) {
     void *arena = try_malloc(size);
-    if (is_empty(scope->protector))
-        scope->protector = try_malloc(sizeof(ex_ptr_t));
+    size_t mid = raii_deferred_any(scope, func, arena, NULL);
+    if (UNLIKELY(mid == (size_t)-1)) {
+        RAII_FREE(arena);
+        raii_panic("Malloc failed!");
+    }
 
-    scope->protector->is_emulated = scope->is_emulated;
-    ex_protect_ptr(scope->protector, arena, func);
-    scope->is_protected = true;
-    scope->mid = raii_deferred(scope, func, arena);
+    scope->mid = mid;
 
     return arena;
 }
@@ -248,13 +250,13 @@ RAII_INLINE void *malloc_arena(memory_t *scope, size_t size) {
 
 void *calloc_full(memory_t *scope, int count, size_t size, func_t func) {
     void *arena = try_calloc(count, size);
-    if (is_empty(scope->protector))
-        scope->protector = try_calloc(1, sizeof(ex_ptr_t));
+    size_t mid = raii_deferred_any(scope, func, arena, NULL);
+    if (UNLIKELY(mid == (size_t)-1)) {
+        RAII_FREE(arena);
+        raii_panic("Calloc failed!");
+    }
 
-    scope->protector->is_emulated = scope->is_emulated;
-    ex_protect_ptr(scope->protector, arena, func);
-    scope->is_protected = true;
-    scope->mid = raii_deferred(scope, func, arena);
+    scope->mid = mid;
 
     return arena;
 }
@@ -397,34 +399,18 @@ void raii_deferred_fire(memory_t *scope, size_t index) {
 
 static void raii_deferred_run(memory_t *scope, size_t generation) {
     raii_array_t *array = (raii_array_t *)&scope->defer;
-    bool defer_ran = false;
 
     scope->is_recovered = is_empty(scope->err);
 
     while (array->elements > generation) {
         /* Removed before the call, the function might throw, or add more deferred functions. */
         defer_func_t defer = ((defer_func_t *)array->base)[--array->elements];
-        defer_ran = true;
 
         if (!is_empty(scope->err) && !is_empty(defer.check))
             scope->is_recovered = false;
 
         defer.func(defer.data);
     }
-
-    if (scope->is_protected && !is_empty(scope->protector) && !is_empty(scope->err)) {
-        scope->is_protected = false;
-        if (!defer_ran) {
-            scope->protector->func(*scope->protector->ptr);
-            *scope->protector->ptr = NULL;
-        }
-    }
-
-    if (!is_empty(scope->protector)) {
-        ex_unprotected_ptr(scope->protector);
-        RAII_FREE(scope->protector);
-        scope->protector = NULL;
-    }
 }
 
 size_t raii_deferred_count(memory_t *scope) {
@@ -455,6 +441,7 @@ static size_t raii_deferred_any(memory_t *scope, func_t func, void *data, void *
     deferred = raii_deferred_array_append(&scope->defer);
     if (UNLIKELY(!deferred)) {
         RAII_LOG("Could not add new deferred function.");
+        errno = ENOMEM;
         return -1;
     } else {
         deferred->func = func;
@@ -465,20 +452,25 @@ static size_t raii_deferred_any(memory_t *scope, func_t func, void *data, void *
     }
 }
 
-RAII_INLINE size_t raii_deferred(memory_t *scope, func_t func, void *data) {
-    return raii_deferred_any(scope, func, data, NULL);
+size_t raii_deferred(memory_t *scope, func_t func, void *data) {
+    size_t index = raii_deferred_any(scope, func, data, NULL);
+    if (UNLIKELY(index == (size_t)-1))
+        raii_panic("Deferred failed!");
+
+    return index;
 }
 
 RAII_INLINE size_t raii_defer(func_t func, void *data) {
-    return raii_deferred(raii_local(), func, data);
+    return raii_deferred(raii_init(), func, data);
 }
 
 RAII_INLINE void raii_recover(func_t func, void *data) {
-    raii_deferred_any(raii_local(), func, data, (void *)"err");
+    raii_recover_by(raii_init(), func, data);
 }
 
-RAII_INLINE void raii_recover_by(memory_t *scope, func_t func, void *data) {
-    raii_deferred_any(scope, func, data, (void *)"err");
+void raii_recover_by(memory_t *scope, func_t func, void *data) {
+    if (UNLIKELY(raii_deferred_any(scope, func, data, (void *)"err") == (size_t)-1))
+        raii_panic("Deferred failed!");
 }
 
 bool raii_caught(const char *err) {
-- 
2.43.0


From dff3f6705567b93da3e3cecb99465a69d9c6cbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 09/30] fix: an protected pointer which is still NULL ended the
 release of all others

---
 src/except.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/except.c b/src/except.c
index d53a083..fcc0b52 100644
--- a/src/except.c
+++ b/src/except.c
@@ -115,7 +115,7 @@ static void ex_unwind_stack(ex_context_t *ctx) {
         raii_deferred_clean();
     } else {
         while (p && p->type == ex_protected_st) {
-            if ((got_uncaught_exception = (temp == *p->ptr)))
+            if ((got_uncaught_exception = (temp != NULL && temp == *p->ptr)))
                 break;
 
             if (*p->ptr) {
-- 
2.43.0


From 52eaf5c8be619e5d0f51ec1a32142f7f27774735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 10/30] fix: an throw inside catch_if was delivered to the same
 catch_if again, forever

---
 include/exception.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/exception.h b/include/exception.h
index 16fe928..a8ab1d0 100644
--- a/include/exception.h
+++ b/include/exception.h
@@ -326,6 +326,7 @@ throws an exception of given message. */
     {                                \
         {                            \
             EX_MAKE();               \
+            ex_err.state = ex_throw_st | ex_catch_st;
 
 /* Entered again, when the deferred functions of an guard throw. */
 #define ex_catch_guard                 \
-- 
2.43.0


From 5062facd618ae1cccdf37a8aafbe3b3c0cddd36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 11/30] fix: the stack trace of an rethrown exception was never
 recorded

---
 src/except.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/except.c b/src/except.c
index fcc0b52..7e88e03 100644
--- a/src/except.c
+++ b/src/except.c
@@ -409,6 +409,8 @@ void ex_throw(string_t exception, string_t file, int line, string_t function, st
     ex_signal_block(all);
     if (is_empty(dump))
         ex_trace_set(ctx, NULL);
+    else if (dump != ctx->backtrace)
+        *ctx->backtrace = *dump;
 
     ctx->ex = exception;
     ctx->file = file;
-- 
2.43.0


From b7e0ba35b9bcdcafaf718213d0608fbb0bdeb26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 12/30] fix: caught, raii_message and raii_decode64
 dereferenced NULL in an thread without an scope

---
 src/raii.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index 91e21ff..adcd45e 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -197,7 +197,7 @@ RAII_INLINE u_string raii_encode64(u_string_t src) {
 }
 
 RAII_INLINE u_string raii_decode64(u_string_t src) {
-    return str_decode64_ex(raii_local(), src);
+    return str_decode64_ex(raii_init(), src);
 }
 
 unique_t *unique_init(void) {
@@ -474,12 +474,18 @@ void raii_recover_by(memory_t *scope, func_t func, void *data) {
 }
 
 bool raii_caught(const char *err) {
-    memory_t *scope = raii_local();
+    memory_t *scope = raii_init();
     const char *exception = (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
 
-    if (exception == NULL && is_str_eq(err, ex_local()->ex)) {
-        ex_local()->state = ex_catch_st;
-        return true;
+    /* The error of an `try` block is its own. */
+    if (exception == NULL || !ex_local()->is_raii) {
+        exception = ex_local()->ex;
+        if (is_str_eq(err, exception)) {
+            ex_local()->state = ex_catch_st;
+            return true;
+        }
+
+        return false;
     }
 
     if ((scope->is_recovered = is_str_eq(err, exception)))
@@ -506,7 +512,7 @@ bool raii_is_caught(memory_t *scope, const char *err) {
 }
 
 const char *raii_message(void) {
-    memory_t *scope = raii_local();
+    memory_t *scope = raii_init();
     const char *exception = (const char *)(!is_empty((void *)scope->panic) ? scope->panic : scope->err);
     return exception == NULL ? ex_local()->ex : exception;
 }
-- 
2.43.0


From 7d7f898569614350ab138e0e9b553eeddc0c1379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 13/30] fix: str_concat_ex leaked its result if it could not be
 added to the scope

---
 src/swar.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 8d815ce..c1d4bf8 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -660,7 +660,7 @@ string str_concat_ex(memory_t *defer, int num_args, va_list ap_copy) {
     for (i = 0; i < num_args; i++)
         strsize += simd_strlen(va_arg(ap, string));
 
-    string res = try_calloc(1, strsize + 1);
+    string res = defer ? calloc_full(defer, 1, strsize + 1, RAII_FREE) : try_calloc(1, strsize + 1);
     strsize = 0;
 
     va_copy(ap, ap_copy);
@@ -671,9 +671,6 @@ string str_concat_ex(memory_t *defer, int num_args, va_list ap_copy) {
     }
     va_end(ap);
 
-    if (defer)
-        raii_deferred(defer, RAII_FREE, res);
-
     return res;
 }
 
-- 
2.43.0


From 75433258a51f333a3d33a39c63d965b16f97cef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 14/30] fix: an pointer argument, or an long string, passed to
 args_for crashed

A pointer argument was fetched twice, its second half copied to the address given. An
string longer than an argument was copied to NULL. The arguments were never released
if memory ran out.
---
 src/raii.c | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/raii.c b/src/raii.c
index adcd45e..2c641c9 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -569,11 +569,11 @@ values_type raii_get_args(memory_t *scope, void_t params, int item) {
     args_t args = (args_t)params;
     memory_t *scoped = scope;
     if (!args->defer_set) {
-        args->defer_set = true;
         if (is_empty(scope))
             scoped = is_empty(args->context) ? raii_init() : args->context;
 
         raii_deferred(scoped, (func_t)args_free, params);
+        args->defer_set = true;
     }
 
     return args_in(args, item);
@@ -594,12 +594,16 @@ RAII_INLINE values_type args_in(args_t params, size_t index) {
 }
 
 args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
-    size_t i, len, count = simd_strlen(desc);
+    size_t i, count = simd_strlen(desc);
     args_t params = try_calloc(1, sizeof(struct args_s));
-    void_t p;
-    string s;
     params->args_size = sizeof(raii_values_t);
-    params->args = try_calloc(count, params->args_size);
+    params->args = RAII_CALLOC(count, params->args_size);
+    if (params->args == NULL) {
+        RAII_FREE(params);
+        errno = ENOMEM;
+        raii_panic("Calloc failed!");
+    }
+
     params->args_size = params->args_size * count;
 
     for (i = 0; i < count; i++) {
@@ -630,15 +634,7 @@ args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
                 break;
             case 's':
                 // string argument
-                s = (char *)va_arg(argp, char *);
-                len = simd_strlen(s);
-                if (len > sizeof(raii_values_t)) {
-                    params->args_size += len + 1;
-                    params->args = try_realloc(params->args, params->args_size);
-                    strncpy(params->args[i].value.char_ptr, s, len);
-                } else {
-                    params->args[i].value.char_ptr = s;
-                }
+                params->args[i].value.char_ptr = (char *)va_arg(argp, char *);
                 break;
             case 'a':
                 // array argument
@@ -653,14 +649,9 @@ args_t raii_args_ex(memory_t *scope, const char *desc, va_list argp) {
                 params->args[i].value.precision = (double)va_arg(argp, double);
                 break;
             case 'p':
+            default:
                 // void pointer (any arbitrary pointer) argument
                 params->args[i].value.object = va_arg(argp, void *);
-            default:
-                p = va_arg(argp, void *);
-                len = sizeof(p);
-                params->args_size += len;
-                params->args = try_realloc(params->args, params->args_size);
-                memcpy(params->args[i].value.object, p, sizeof(p));
                 break;
         }
     }
-- 
2.43.0


From 3cd51980518f7320cde4f4aefd2ecdbc8351efe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 15/30] fix: arena_free used chunks after releasing them, and
 arena_alloc returned NULL

An arena of more than one chunk lost all but one, after reading the chunk just
released. Documented to panic, an exhausted heap gave NULL instead.
---
 src/arena.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/arena.c b/src/arena.c
index 1459b31..5203887 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -32,11 +32,16 @@ void arena_free(arena_t arena) {
         return;
 
     if (is_type(arena, RAII_ARENA + RAII_STRUCT)) {
-        num_free += (int)arena->threshold + 1;
-        if (arena->is_global)
+        if (arena->is_global) {
             RAII_FREE(arena->base);
-        else
-            arena_clear(arena);
+        } else {
+            arena_t chunk = arena->next;
+            while (!is_empty(chunk) && is_type(chunk, RAII_ARENA)) {
+                arena_t next = chunk->next;
+                RAII_FREE(chunk);
+                chunk = next;
+            }
+        }
 
         memset(arena, -1, sizeof(arena_t));
         RAII_FREE(arena);
@@ -66,8 +71,9 @@ void *arena_alloc(arena_t arena, long nbytes) {
                 ptr = RAII_MALLOC(arena->total);
 
             if (ptr == NULL) {
+                arena->total -= m;
                 errno = ENOMEM;
-                return NULL;
+                raii_panic("Arena allocation failed!");
             }
 
             if (arena->is_global) {
-- 
2.43.0


From afb8a7f385271c92693c87819ffedd7d450d9512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 16/30] fix: an thread scope first used inside an try block was
 never run on an uncaught exception

---
 src/raii.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/raii.c b/src/raii.c
index 2c641c9..272e9ba 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -118,7 +118,11 @@ memory_t *raii_init(void) {
         scope->is_recovered = false;
         scope->mid = -1;
 
+        /* The outermost one, this scope outlives every `try` block. */
         ex_context_t *ctx = ex_init();
+        while (!is_empty(ctx->next))
+            ctx = ctx->next;
+
         ctx->data = (void *)scope;
         ctx->prev = (void *)scope;
         ctx->is_raii = true;
-- 
2.43.0


From 93cfa6518385e4c7521472605d231da65d478aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 17/30] fix: arguments and results of threads were lost when
 memory ran out

The arguments `thrd_spawn_ex` made are nobody else's, they leaked when the new thread had
no memory to call the function. The result `thrd_get` took over leaked when it could not be
added to the scope.
---
 include/raii.h |  1 +
 src/future.c   | 32 ++++++++++++++++++++++++--------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/include/raii.h b/include/raii.h
index 2873183..2e82e4f 100644
--- a/include/raii.h
+++ b/include/raii.h
@@ -221,6 +221,7 @@ struct _future_arg {
     thrd_func_t func;
     promise *value;
     future_deque_t *queue;
+    args_t params;
 };
 
 make_atomic(future_arg, atomic_future_arg)
diff --git a/src/future.c b/src/future.c
index 30b27ff..866d249 100644
--- a/src/future.c
+++ b/src/future.c
@@ -64,10 +64,12 @@ static int thrd_raii_wrapper(void_t arg) {
     future_arg *f = (future_arg *)arg;
     int err = 0;
     void_t volatile res = nullptr;
+    volatile bool is_called = false;
     rpmalloc_init();
 
     try {
         guard {
+            is_called = true;
             res = f->func((args_t)f->arg);
         } guarded_exception(f->value->failure);
     } catch_any {
@@ -75,6 +77,8 @@ static int thrd_raii_wrapper(void_t arg) {
         f->value->failure->err = (void_t)ex_err.ex;
         f->value->failure->panic = ex_err.panic;
         *f->value->backtrace = *err_backtrace;
+        if (!is_called && !is_empty(f->params))
+            args_free(f->params);
     } end_try;
 
     if (!is_empty(f->value->failure->err))
@@ -92,8 +96,9 @@ static int thrd_raii_wrapper(void_t arg) {
     return err;
 }
 
-/* Nothing is left allocated, if not enough memory, or the thread was not created. */
-static future thrd_start(thrd_func_t fn, void_t arg) {
+/* Nothing is left allocated, if not enough memory, or the thread was not created.
+The `params` are those nobody else has, gone with the thread if `fn` can't be called. */
+static future thrd_start(thrd_func_t fn, void_t arg, args_t params) {
     promise *p = (promise *)RAII_CALLOC(1, sizeof(promise));
     future f = (future)RAII_CALLOC(1, sizeof(struct _future));
     future_arg *f_arg = (future_arg *)RAII_CALLOC(1, sizeof(future_arg));
@@ -109,6 +114,7 @@ static future thrd_start(thrd_func_t fn, void_t arg) {
         f->type = RAII_FUTURE;
         f_arg->func = fn;
         f_arg->arg = arg;
+        f_arg->params = params;
         f_arg->value = p;
         f_arg->type = RAII_FUTURE_ARG;
         if (thrd_create(&f->thread, thrd_raii_wrapper, f_arg) == thrd_success)
@@ -128,7 +134,7 @@ static future thrd_start(thrd_func_t fn, void_t arg) {
 }
 
 RAII_INLINE future thrd_async(thrd_func_t fn, void_t args) {
-    return thrd_start(fn, args);
+    return thrd_start(fn, args, NULL);
 }
 
 values_type thrd_get(future f) {
@@ -138,8 +144,14 @@ values_type thrd_get(future f) {
         memory_t *scope = raii_init();
         future_close(f, r, failed);
         promise_throw(failed);
-        if (!is_empty(r->extended))
-            raii_deferred(scope, RAII_FREE, r->extended);
+        if (!is_empty(r->extended)) {
+            try {
+                raii_deferred(scope, RAII_FREE, r->extended);
+            } catch_any {
+                RAII_FREE(r->extended);
+                rethrow();
+            } end_try;
+        }
 
         return r->value;
     }
@@ -259,7 +271,7 @@ static bool thrd_no_scope(void) {
     return is_raii_empty() || is_empty(raii_local()->arena) || !is_type(raii_local()->arena, RAII_SPAWN);
 }
 
-result_t thrd_spawn(thrd_func_t fn, void_t args) {
+static result_t thrd_spawn_start(thrd_func_t fn, void_t args, args_t params) {
     if (thrd_no_scope())
         raii_panic("No initialization, No `thrd_scope`!");
 
@@ -274,13 +286,17 @@ result_t thrd_spawn(thrd_func_t fn, void_t args) {
     result->is_ready = false;
     result->type = RAII_VALUE;
 
-    pool->futures[pool->thread_count] = thrd_start(fn, args);
+    pool->futures[pool->thread_count] = thrd_start(fn, args, params);
     pool->results[pool->thread_count] = result;
     pool->thread_count++;
 
     return result;
 }
 
+RAII_INLINE result_t thrd_spawn(thrd_func_t fn, void_t args) {
+    return thrd_spawn_start(fn, args, NULL);
+}
+
 result_t thrd_spawn_ex(thrd_func_t fn, const char *desc, ...) {
     result_t result = NULL;
     va_list args;
@@ -293,7 +309,7 @@ result_t thrd_spawn_ex(thrd_func_t fn, const char *desc, ...) {
     va_end(args);
 
     try {
-        result = thrd_spawn(fn, (void_t)params);
+        result = thrd_spawn_start(fn, (void_t)params, params);
     } catch_any {
         args_free(params);
         rethrow();
-- 
2.43.0


From fc4241724d76773261b0a150b33cc005dc37992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:30 +0000
Subject: [PATCH 18/30] fix: a signal in one thread killed the program while
 another was installing the handlers

---
 src/except.c | 60 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/src/except.c b/src/except.c
index 7e88e03..08f6314 100644
--- a/src/except.c
+++ b/src/except.c
@@ -86,6 +86,10 @@ static struct {
 #endif
 } ex_sig[max_ex_sig];
 
+/* Guards `ex_sig`, and `ex_sig_sa`, signals are to be blocked while held. */
+static atomic_spinlock ex_sig_lock = 0;
+static void ex_signal_install(int sig, const char *ex);
+
 ex_ptr_t ex_protect_ptr(ex_ptr_t *const_ptr, void *ptr, void (*func)(void *)) {
     ex_context_t *ctx = ex_init();
     const_ptr->next = ctx->stack;
@@ -578,6 +582,8 @@ void ex_handler(int sig) {
 }
 
 void ex_signal_reset(int sig) {
+    ex_signal_block(all);
+    atomic_lock(&ex_sig_lock);
 #if defined(_WIN32) || defined(_WIN64)
     if (signal(sig, SIG_DFL) == SIG_ERR)
         fprintf(stderr, "Cannot install handler for signal no %d\n",
@@ -593,9 +599,11 @@ void ex_signal_reset(int sig) {
         fprintf(stderr, "Cannot restore handler for signal no %d\n", sig);
 #endif
     exception_signal_set = false;
+    atomic_unlock(&ex_sig_lock);
+    ex_signal_unblock(all);
 }
 
-void ex_signal(int sig, const char *ex) {
+static void ex_signal_install(int sig, const char *ex) {
     int i;
 
     for (i = 0; i < max_ex_sig; i++) {
@@ -623,20 +631,31 @@ void ex_signal(int sig, const char *ex) {
      */
     ex_sig_sa.sa_handler = ex_handler;
     ex_sig_sa.sa_flags = SA_RESTART;
+    /* known before the handler is in place, another thread might get the signal at once */
+    ex_sig[i].ex = ex, ex_sig[i].sig = sig;
     if (sigemptyset(&ex_sig_sa.sa_mask) != 0)
         fprintf(stderr, "Cannot setup handler for signal no %d (%s)\n",
                       sig, ex);
     else if (sigaction(sig, &ex_sig_sa, NULL) != 0)
         fprintf(stderr, "Cannot install handler for signal no %d (%s)\n",
                 sig, ex);
-    else
-        ex_sig[i].ex = ex, ex_sig[i].sig = sig;
+#endif
+}
 
+void ex_signal(int sig, const char *ex) {
+    ex_signal_block(all);
+    atomic_lock(&ex_sig_lock);
+    ex_signal_install(sig, ex);
+#if !defined(_WIN32)
     exception_signal_set = true;
 #endif
+    atomic_unlock(&ex_sig_lock);
+    ex_signal_unblock(all);
 }
 
 void ex_signal_setup(void) {
+    ex_signal_block(all);
+    atomic_lock(&ex_sig_lock);
 #ifdef _WIN32
     ex_signal_seh(EXCEPTION_ACCESS_VIOLATION, EX_NAME(sig_segv));
     ex_signal_seh(EXCEPTION_ARRAY_BOUNDS_EXCEEDED, EX_NAME(array_bounds_exceeded));
@@ -650,59 +669,66 @@ void ex_signal_setup(void) {
     ex_signal_seh(CONTROL_C_EXIT, EX_NAME(sig_int));
 #endif
 #ifdef SIGSEGV
-    ex_signal(SIGSEGV, EX_NAME(sig_segv));
+    ex_signal_install(SIGSEGV, EX_NAME(sig_segv));
 #endif
 
 #ifdef SIGABRT
-    ex_signal(SIGABRT, EX_NAME(sig_abrt));
+    ex_signal_install(SIGABRT, EX_NAME(sig_abrt));
 #endif
 
 #ifdef SIGFPE
-    ex_signal(SIGFPE, EX_NAME(sig_fpe));
+    ex_signal_install(SIGFPE, EX_NAME(sig_fpe));
 #endif
 
 #ifdef SIGILL
-    ex_signal(SIGILL, EX_NAME(sig_ill));
+    ex_signal_install(SIGILL, EX_NAME(sig_ill));
 #endif
 
 #ifdef SIGBREAK
-    ex_signal(SIGBREAK, EX_NAME(sig_break));
+    ex_signal_install(SIGBREAK, EX_NAME(sig_break));
 #endif
 
 #ifdef SIGINT
-    ex_signal(SIGINT, EX_NAME(sig_int));
+    ex_signal_install(SIGINT, EX_NAME(sig_int));
 #endif
 
 #ifdef SIGTERM
-    ex_signal(SIGTERM, EX_NAME(sig_term));
+    ex_signal_install(SIGTERM, EX_NAME(sig_term));
 #endif
 
 #if !defined(_WIN32)
 #ifdef SIGQUIT
-    ex_signal(SIGQUIT, EX_NAME(sig_quit));
+    ex_signal_install(SIGQUIT, EX_NAME(sig_quit));
 #endif
 
 #ifdef SIGHUP
-    ex_signal(SIGHUP, EX_NAME(sig_hup));
+    ex_signal_install(SIGHUP, EX_NAME(sig_hup));
 #endif
 
 #ifdef SIGWINCH
-    ex_signal(SIGWINCH, EX_NAME(sig_winch));
+    ex_signal_install(SIGWINCH, EX_NAME(sig_winch));
 #endif
 #ifdef SIGTRAP
-    ex_signal(SIGTRAP, EX_NAME(sig_trap));
+    ex_signal_install(SIGTRAP, EX_NAME(sig_trap));
 #endif
 #endif
 
 #ifdef SIGALRM
-    ex_signal(SIGALRM, EX_NAME(sig_alrm));
+    ex_signal_install(SIGALRM, EX_NAME(sig_alrm));
 #endif
 
 #ifdef SIGBUS
-    ex_signal(SIGBUS, EX_NAME(sig_bus));
+    ex_signal_install(SIGBUS, EX_NAME(sig_bus));
 #elif SIG_BUS
-    ex_signal(SIG_BUS, EX_NAME(sig_bus));
+    ex_signal_install(SIG_BUS, EX_NAME(sig_bus));
 #endif
+
+    /* Only now, other threads do not wait once this is set. */
+#if !defined(_WIN32)
+    exception_signal_set = true;
+#endif
+    atomic_unlock(&ex_sig_lock);
+    ex_signal_unblock(all);
 }
 
 void ex_signal_default(void) {
-- 
2.43.0


From c0cfb8589ee739e69d0faa196f6c0bb6fd74dc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:22 +0000
Subject: [PATCH 19/30] fix: atomic addition and subtraction on float and
 double worked on the bit patterns

---
 include/catomic.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/catomic.h b/include/catomic.h
index 5f12f11..54a9d0e 100644
--- a/include/catomic.h
+++ b/include/catomic.h
@@ -2401,8 +2401,10 @@ static C89ATOMIC_INLINE float c89atomic_fetch_add_explicit_f32(volatile float* d
 {
     c89atomic_if32 r;
     c89atomic_if32 x;
-    x.f = src;
-    r.i = c89atomic_fetch_add_explicit_32((volatile c89atomic_uint32*)dst, x.i, order);
+    r.i = c89atomic_load_explicit_32((volatile c89atomic_uint32*)dst, c89atomic_memory_order_relaxed);
+    do {
+        x.f = r.f + src;
+    } while (!c89atomic_compare_exchange_weak_explicit_32((volatile c89atomic_uint32*)dst, &r.i, x.i, order, c89atomic_memory_order_relaxed));
     return r.f;
 }
 
@@ -2410,8 +2412,10 @@ static C89ATOMIC_INLINE double c89atomic_fetch_add_explicit_f64(volatile double*
 {
     c89atomic_if64 r;
     c89atomic_if64 x;
-    x.f = src;
-    r.i = c89atomic_fetch_add_explicit_64((volatile c89atomic_uint64*)dst, x.i, order);
+    r.i = c89atomic_load_explicit_64((volatile c89atomic_uint64*)dst, c89atomic_memory_order_relaxed);
+    do {
+        x.f = r.f + src;
+    } while (!c89atomic_compare_exchange_weak_explicit_64((volatile c89atomic_uint64*)dst, &r.i, x.i, order, c89atomic_memory_order_relaxed));
     return r.f;
 }
 
@@ -2420,8 +2424,10 @@ static C89ATOMIC_INLINE float c89atomic_fetch_sub_explicit_f32(volatile float* d
 {
     c89atomic_if32 r;
     c89atomic_if32 x;
-    x.f = src;
-    r.i = c89atomic_fetch_sub_explicit_32((volatile c89atomic_uint32*)dst, x.i, order);
+    r.i = c89atomic_load_explicit_32((volatile c89atomic_uint32*)dst, c89atomic_memory_order_relaxed);
+    do {
+        x.f = r.f - src;
+    } while (!c89atomic_compare_exchange_weak_explicit_32((volatile c89atomic_uint32*)dst, &r.i, x.i, order, c89atomic_memory_order_relaxed));
     return r.f;
 }
 
@@ -2429,8 +2435,10 @@ static C89ATOMIC_INLINE double c89atomic_fetch_sub_explicit_f64(volatile double*
 {
     c89atomic_if64 r;
     c89atomic_if64 x;
-    x.f = src;
-    r.i = c89atomic_fetch_sub_explicit_64((volatile c89atomic_uint64*)dst, x.i, order);
+    r.i = c89atomic_load_explicit_64((volatile c89atomic_uint64*)dst, c89atomic_memory_order_relaxed);
+    do {
+        x.f = r.f - src;
+    } while (!c89atomic_compare_exchange_weak_explicit_64((volatile c89atomic_uint64*)dst, &r.i, x.i, order, c89atomic_memory_order_relaxed));
     return r.f;
 }
 
-- 
2.43.0


From f930d758deee6d1d4e609c3da20c8a5a8174cffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:00 +0000
Subject: [PATCH 20/30] fix: atomic_compare_exchange_weak_explicit did not
 compile, atomic_fetch_or took its operand for a pointer

---
 include/catomic.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/catomic.h b/include/catomic.h
index 54a9d0e..0eeca2a 100644
--- a/include/catomic.h
+++ b/include/catomic.h
@@ -2731,13 +2731,13 @@ static C89ATOMIC_INLINE void c89atomic_spinlock_unlock(atomic_spinlock *pSpinloc
 #define atomic_compare_exchange_weak(obj, expected, desired)    atomic_cas_32((atomic_uint *)obj, (c89atomic_uint32)expected, desired)
 /* swaps a value with an atomic object if the old value is what is expected, otherwise reads the old value */
 #define atomic_compare_exchange_weak_explicit(obj, expected, desired, succ, fail)	\
-    c89atomic_compare_exchange_weak_explicit_32((atomic_uint *)obj, (c89atomic_uint32)expected, (c89atomic_uint32)desired, succ, fail)
+    c89atomic_compare_exchange_weak_explicit_32((atomic_uint *)obj, (c89atomic_uint32 *)expected, (c89atomic_uint32)desired, succ, fail)
 
 /* swaps a value with an atomic object if the old value is what is expected, otherwise reads the old value */
 #define atomic_compare_exchange_strong(obj, expected, desired)  atomic_cas_32((atomic_uint *)obj, (c89atomic_uint32)expected, desired)
 /* swaps a value with an atomic object if the old value is what is expected, otherwise reads the old value */
 #define atomic_compare_exchange_strong_explicit(obj, expected, desired, succ, fail)	\
-    c89atomic_compare_exchange_strong_explicit_32((atomic_uint *)obj, (c89atomic_uint32)expected, (c89atomic_uint32)desired, succ, fail)
+    c89atomic_compare_exchange_strong_explicit_32((atomic_uint *)obj, (c89atomic_uint32 *)expected, (c89atomic_uint32)desired, succ, fail)
 #else
 /* indicates whether the atomic object is lock-free */
 #define atomic_is_lock_free(obj)  c89atomic_is_lock_free_64((atomic_ullong *)obj)
@@ -2766,7 +2766,7 @@ static C89ATOMIC_INLINE void c89atomic_spinlock_unlock(atomic_spinlock *pSpinloc
 #define atomic_fetch_sub_explicit(obj, arg, order)	c89atomic_fetch_sub_explicit_64(obj, (c89atomic_uint64)arg, order)
 
 /* atomic bitwise OR */
-#define atomic_fetch_or(obj, arg)	c89atomic_fetch_or_64((atomic_ullong *)obj, (atomic_ullong *)arg)
+#define atomic_fetch_or(obj, arg)	c89atomic_fetch_or_64((atomic_ullong *)obj, (c89atomic_uint64)arg)
 /* atomic bitwise OR */
 #define atomic_fetch_or_explicit(obj, arg, order)	c89atomic_fetch_or_explicit_64((atomic_ullong *)obj, (c89atomic_uint64)arg, order)
 
@@ -2795,7 +2795,7 @@ static C89ATOMIC_INLINE void c89atomic_spinlock_unlock(atomic_spinlock *pSpinloc
 #define atomic_compare_exchange_weak(obj, expected, desired)    atomic_cas((atomic_ullong *)obj, expected, desired)
 /* swaps a value with an atomic object if the old value is what is expected, otherwise reads the old value */
 #define atomic_compare_exchange_weak_explicit(obj, expected, desired, succ, fail)	\
-    c89atomic_compare_exchange_weak_explicit_64((atomic_ullong *)obj, (c89atomic_uint64)expected, (c89atomic_uint64)desired, succ, fail)
+    c89atomic_compare_exchange_weak_explicit_64((atomic_ullong *)obj, (c89atomic_uint64 *)expected, (c89atomic_uint64)desired, succ, fail)
 
 /* swaps a value with an atomic object if the old value is what is expected, otherwise reads the old value */
 #define atomic_compare_exchange_strong(obj, expected, desired) atomic_cas((atomic_ullong *)obj, expected, desired)
-- 
2.43.0


From 67972a4cad3fc0adfbd2c55e1f0239c36b441054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 21/30] fix: unique_init_arena leaked the scope when its arena
 could not be allocated

---
 src/raii.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/raii.c b/src/raii.c
index 272e9ba..5801666 100644
--- a/src/raii.c
+++ b/src/raii.c
@@ -218,7 +218,9 @@ unique_t *unique_init(void) {
 
 unique_t *unique_init_arena(void) {
     unique_t *raii = unique_init();
+    protected(raii, RAII_FREE);
     raii->arena = (void *)arena_init(0);
+    unprotected(raii);
     raii->is_arena = true;
 
     return raii;
-- 
2.43.0


From 5747a103c314e8f183e0b61280eb8b5c4812b2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:03 +0000
Subject: [PATCH 22/30] fix: atomic clear of float and double did not compile

---
 include/catomic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/catomic.h b/include/catomic.h
index 0eeca2a..58203a1 100644
--- a/include/catomic.h
+++ b/include/catomic.h
@@ -2502,8 +2502,8 @@ static C89ATOMIC_INLINE double c89atomic_fetch_and_explicit_f64(volatile double*
 
 
 /* Float Point Implicit */
-#define c89atomic_clear_f32(ptr)                                        (float )c89atomic_clear_explicit_f32(ptr, c89atomic_memory_order_seq_cst)
-#define c89atomic_clear_f64(ptr)                                        (double)c89atomic_clear_explicit_f64(ptr, c89atomic_memory_order_seq_cst)
+#define c89atomic_clear_f32(ptr)                                        c89atomic_clear_explicit_f32(ptr, c89atomic_memory_order_seq_cst)
+#define c89atomic_clear_f64(ptr)                                        c89atomic_clear_explicit_f64(ptr, c89atomic_memory_order_seq_cst)
 
 #define c89atomic_store_f32(dst, src)                                   c89atomic_store_explicit_f32(dst, src, c89atomic_memory_order_seq_cst)
 #define c89atomic_store_f64(dst, src)                                   c89atomic_store_explicit_f64(dst, src, c89atomic_memory_order_seq_cst)
-- 
2.43.0


From 3b1ee80c9c5586306b40390c64ef66b9f4246c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:49 +0000
Subject: [PATCH 23/30] fix: splitting or replacing with an empty string never
 ended

str_split_ex with an empty delimiter and str_replace_ex with an empty needle
matched at every position without getting any further.
---
 src/swar.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index c1d4bf8..82a12ed 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -622,7 +622,8 @@ string *str_split_ex(memory_t *defer, string_t s, string_t delim, int *count) {
     string_t *ptrs;
     size_t ptrsSize, nbWords = 1, sLen = simd_strlen(s), delimLen = simd_strlen(delim);
 
-    while ((_s = strstr(_s, delim))) {
+    /* Nothing splits at an empty delimiter. */
+    while (delimLen && (_s = strstr(_s, delim))) {
         _s += delimLen;
         ++nbWords;
     }
@@ -675,7 +676,8 @@ string str_concat_ex(memory_t *defer, int num_args, va_list ap_copy) {
 }
 
 string str_replace_ex(memory_t *defer, string_t haystack, string_t needle, string_t replace) {
-    if (!haystack || !needle || !replace)
+    /* Nothing to find, if empty. */
+    if (!haystack || !needle || !replace || !*needle)
         return NULL;
 
     string result;
-- 
2.43.0


From ff8133620749cbacf5e524316e76c284414ce76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 24/30] fix: simd_memchr and simd_memrchr missed bytes, and
 read on and on without a match

---
 src/swar.c | 93 ++++++++++++++++++++++++------------------------------
 1 file changed, 42 insertions(+), 51 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index 82a12ed..f0193f4 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -140,64 +140,51 @@ RAII_INLINE uint32_t memchr8k(const char *s, uint8_t c) {
     return _memchr8(false, true, false, s, c);
 }
 
-// Find char, in reverse, in const binary string
-static RAII_INLINE uint32_t _memrchr(bool Printable, bool Known, const char *s, uint32_t len, uint8_t c) {
-    const char *p = s + len;
+// Load the first `len` bytes of a string shorter than 8, bytes past them are never c
+static RAII_INLINE uint64_t _castPart(const char *s, uint32_t len, uint8_t c) {
+    uint64_t mask = (1ull << (len * 8)) - 1;
 
-    // If shorter than 8 bytes, we have to mask away c bytes past len
-    uint32_t partLen = (len & 7) ? (len & 7) : 8;
-    uint64_t partMask = len < 8 ? ~0ull >> (64 - partLen * 8) : 0ull;
-    uint64_t first = cast(p) & ~(partMask & extend(c));
+    return (cast(s) & mask) | (extend(c ^ 1) & ~mask);
+}
 
-    // Advance to leave multiple of 8 bytes
-    p -= partLen;
+// Find char, in reverse, in const binary string
+static RAII_INLINE uint32_t _memrchr(bool Printable, const char *s, uint32_t len, uint8_t c) {
+    const char *p = s + len;
 
-    // Check first 8 bytes
-    if (hasbyte(first, c)) {
-        return (p - s) + _memchr8(Printable, true, true, (char *)&first, c);
+    // Check words, from the end, for that byte
+    for (; len >= 8; len -= 8) {
+        p -= 8;
+        if (hasbyte(cast(p), c))
+            return (p - s) + _memchr8(Printable, true, true, p, c);
     }
 
-    // Check words for that byte
-    for (;;) {
-        if (hasbyte(cast(p), c)) {
-            return (p - s) + _memchr8(Printable, true, true, p, c);
-        }
-        p -= 8;
-        if (!Known) {
-            if (p == s)
-                return -1;
-        }
+    if (len) {
+        uint64_t first = _castPart(s, len, c);
+        if (hasbyte(first, c))
+            return _memchr8(Printable, true, true, (char *)&first, c);
     }
+
+    return -1;
 }
 
 // Find char in const binary string
-static RAII_INLINE uint32_t _memchr(bool Printable, bool Known, const char *s, uint32_t len, uint8_t c) {
+static RAII_INLINE uint32_t _memchr(bool Printable, const char *s, uint32_t len, uint8_t c) {
     const char *p = s;
-    const char *end = s + len;
-
-    // If shorter than 8 bytes, we have to mask away c bytes past len
-    uint32_t partLen = (len & 7) ? (len & 7) : 8;
-    uint64_t partMask = len < 8 ? ~0ull >> (64 - partLen * 8) : 0ull;
-    uint64_t first = cast(p) & ~(partMask & extend(c));
-
-    // Check first 8 bytes
-    if (hasbyte(first, c))
-        return _memchr8(Printable, true, false, (char *)&first, c);
-
-    // Advance to leave multiple of 8 bytes
-    p += partLen;
 
     // Check words for that byte
-    for (;;) {
-        if (hasbyte(cast(p), c)) {
+    for (; len >= 8; len -= 8) {
+        if (hasbyte(cast(p), c))
             return (p - s) + _memchr8(Printable, true, false, p, c);
-        }
         p += 8;
-        if (!Known) {
-            if (p == end)
-                return -1;
-        }
     }
+
+    if (len) {
+        uint64_t last = _castPart(p, len, c);
+        if (hasbyte(last, c))
+            return (p - s) + _memchr8(Printable, true, false, (char *)&last, c);
+    }
+
+    return -1;
 }
 
 // Convert uint, of less than 100, to %02u, as int 16
@@ -479,42 +466,46 @@ RAII_INLINE size_t simd_strlen(const char *str) {
 }
 
 RAII_INLINE string simd_memchr(const char *s, uint8_t c, uint32_t len) {
-    return (char *)s + _memchr(false, false, s, len, c);
+    uint32_t i = _memchr(false, s, len, c);
+
+    return i == (uint32_t)-1 ? NULL : (char *)s + i;
 }
 
 RAII_INLINE string simd_memrchr(const char *s, uint8_t c, uint32_t len) {
-    return (char *)s + _memrchr(false, false, s, len, c) - 3;
+    uint32_t i = _memrchr(false, s, len, c);
+
+    return i == (uint32_t)-1 ? NULL : (char *)s + i;
 }
 
 // Find char in binary string. Char c is known to be in s + len
 RAII_INLINE uint32_t memchrk(const char *s, uint32_t len, uint8_t c) {
-    return _memchr(false, true, s, len, c);
+    return _memchr(false, s, len, c);
 }
 
 // Find char in printable string
 RAII_INLINE uint32_t pmemchr(const char *s, uint32_t len, uint8_t c) {
-    return _memchr(true, false, s, len, c);
+    return _memchr(true, s, len, c);
 }
 
 // Find char in printable string. Char c is known to be in s + len
 RAII_INLINE uint32_t pmemchrk(const char *s, uint32_t len, uint8_t c) {
-    return _memchr(true, true, s, len, c);
+    return _memchr(true, s, len, c);
 }
 
 
 // Find char in binary string. Char c is known to be in s + len
 RAII_INLINE uint32_t memrchrk(const char *s, uint32_t len, uint8_t c) {
-    return _memrchr(false, true, s, len, c);
+    return _memrchr(false, s, len, c);
 }
 
 // Find char in printable string
 RAII_INLINE uint32_t pmemrchr(const char *s, uint32_t len, uint8_t c) {
-    return _memrchr(true, false, s, len, c);
+    return _memrchr(true, s, len, c);
 }
 
 // Find char in printable string. Char c is known to be in s + len
 RAII_INLINE uint32_t pmemrchrk(const char *s, uint32_t len, uint8_t c) {
-    return _memrchr(true, true, s, len, c);
+    return _memrchr(true, s, len, c);
 }
 
 // Parse double from string
-- 
2.43.0


From 2caa2b911371956086fa3aa2318fae756b6c8861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 25/30] fix: simd_itoa cut numbers to 32 bits

---
 src/swar.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index f0193f4..dcb861b 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -254,25 +254,25 @@ RAII_INLINE uint32_t simd_itoa(int64_t x, char *buf) {
     bool neg = x < 0;
     *buf = '-'; // Always write
     buf += neg; // But advance only if negative
-    x = abs(x);
+    uint64_t u = neg ? 0 - (uint64_t)x : (uint64_t)x;
 
     char tmp[20];
     char *p = tmp + 20;
 
-    while (x >= 100) {
+    while (u >= 100) {
         p -= 2;
-        utoa2p_ex(x % 100, p);
-        x /= 100;
+        utoa2p_ex(u % 100, p);
+        u /= 100;
     }
 
     p -= 2;
-    utoa2p_ex(x, p);
+    utoa2p_ex(u, p);
 
-    p += x < 10;
+    p += u < 10;
 
     uint32_t len = tmp + 20 - p;
 
-    memcpy(buf, p, 20);
+    memcpy(buf, p, len);
     buf[len] = '\0';
 
     return len + neg;
-- 
2.43.0


From 72ba8c3ba387e472cf5ec4a899db703670307ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 26/30] fix: simd_atod scaled decimals by one place too many,
 and lost the sign of -0.x

---
 src/swar.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/swar.c b/src/swar.c
index dcb861b..f90ee8f 100644
--- a/src/swar.c
+++ b/src/swar.c
@@ -6,14 +6,6 @@
 #define CODE_SECTION
 #endif
 
-// Copy the sign from src to dst that is unsigned.
-// *** dst is up to 63 bit
-static RAII_INLINE int64_t _copySign(int64_t src, uint64_t dst) {
-    // This is better than `src > 0 ? dst : -dst` that is using cmov
-    uint64_t m = ~(src >> 63); // all 1s if >= 0 (opposite of abs)
-    return (dst + m) ^ m; // flip if src negative
-}
-
 RAII_INLINE uintptr_t cast(const char *src) {
     uintptr_t ret;
     memcpy(&ret, src, sizeof(uintptr_t));
@@ -520,6 +512,9 @@ RAII_INLINE double simd_atod(const char *s, uint32_t len) {
         return simd_atoi(s, len);
     }
 
+    // The sign is lost in an int part of 0
+    bool neg = ilen && *s == '-';
+
     // Do the int part
     int64_t ipart = simd_atoi(s, ilen);
     s += ilen + 1;
@@ -529,11 +524,11 @@ RAII_INLINE double simd_atod(const char *s, uint32_t len) {
     int64_t dpart = simd_atou(s, len);
 
     // To add the two parts we need matching signs
-    dpart = _copySign(ipart, dpart);
+    dpart = neg ? -dpart : dpart;
 
-    // Array of 20 * 8 = 160 bytes
-    static const CODE_SECTION double scales[20] = {
-        1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10,
+    // Array of 21 * 8 = 168 bytes
+    static const CODE_SECTION double scales[21] = {
+        1, 1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10,
         1e-11, 1e-12, 1e-13, 1e-14, 1e-15, 1e-16, 1e-17, 1e-18, 1e-19, 1e-20};
 
     return ipart + dpart * scales[len];
-- 
2.43.0


From 1129089b7f061d351f41f46d7dc4452d15dc563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 27/30] fix: inline only declarations in swar.h could not be
 called

---
 include/swar.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/swar.h b/include/swar.h
index ccea911..c4b248e 100644
--- a/include/swar.h
+++ b/include/swar.h
@@ -39,36 +39,36 @@ C_API uintptr_t cast(const char *src);
 C_API uintptr_t cast8(const char *s, uint32_t len);
 
 // Fill T with c's
-C_API RAII_INLINE uintptr_t extend(char c);
+C_API uintptr_t extend(char c);
 
 /* Returns the number of trailing 0-bits in x,
 starting at the least significant bit position.*/
-C_API RAII_INLINE int countr_zero(uintptr_t mask);
+C_API int countr_zero(uintptr_t mask);
 
 /* Returns the number of leading 0-bits in x,
 starting at the most significant bit position. */
-C_API RAII_INLINE int countl_zero(uintptr_t mask);
+C_API int countl_zero(uintptr_t mask);
 
 /* Returns the index of the least significant 1-bit in x,
 or the value zero if x is zero. */
-C_API RAII_INLINE int countr_index(uintptr_t mask);
+C_API int countr_index(uintptr_t mask);
 
 //
 // Find byte in word
 //
 
 // Check if word has zero byte
-C_API RAII_INLINE bool haszero(uint64_t x);
+C_API bool haszero(uint64_t x);
 
 // Check if word has some byte
-C_API RAII_INLINE bool hasbyte(uint64_t x, uint8_t c);
+C_API bool hasbyte(uint64_t x, uint8_t c);
 
 // Find char in binary string of 8 chars
 C_API uint32_t memchr8(const char* s, uint8_t c);
 
 // Find char in binary string of 8 chars
 // * The string is known to contain the char
-C_API RAII_INLINE uint32_t memchr8k(const char* s, uint8_t c);
+C_API uint32_t memchr8k(const char* s, uint8_t c);
 
 //
 // Strlen variants
@@ -88,13 +88,13 @@ C_API int simd_strcmp(const char *s, const char *c);
 C_API string simd_memchr(const char *s, uint8_t c, uint32_t len);
 
 // Find char in binary string. Char c is known to be in s + len
-C_API RAII_INLINE uint32_t memchrk(const char* s, uint32_t len, uint8_t c);
+C_API uint32_t memchrk(const char* s, uint32_t len, uint8_t c);
 
 // Find char in printable string
-C_API RAII_INLINE uint32_t pmemchr(const char* s, uint32_t len, uint8_t c);
+C_API uint32_t pmemchr(const char* s, uint32_t len, uint8_t c);
 
 // Find char in printable string. Char c is known to be in s + len
-C_API RAII_INLINE uint32_t pmemchrk(const char* s, uint32_t len, uint8_t c);
+C_API uint32_t pmemchrk(const char* s, uint32_t len, uint8_t c);
 
 //
 // Find byte, from end, in const string. Like memrchr
@@ -104,13 +104,13 @@ C_API RAII_INLINE uint32_t pmemchrk(const char* s, uint32_t len, uint8_t c);
 C_API string simd_memrchr(const char* s, uint8_t c, uint32_t len);
 
 // Find char in binary string. Char c is known to be in s + len
-C_API RAII_INLINE uint32_t memrchrk(const char* s, uint32_t len, uint8_t c);
+C_API uint32_t memrchrk(const char* s, uint32_t len, uint8_t c);
 
 // Find char in printable string
-C_API RAII_INLINE uint32_t pmemrchr(const char* s, uint32_t len, uint8_t c);
+C_API uint32_t pmemrchr(const char* s, uint32_t len, uint8_t c);
 
 // Find char in printable string. Char c is known to be in s + len
-C_API RAII_INLINE uint32_t pmemrchrk(const char* s, uint32_t len, uint8_t c);
+C_API uint32_t pmemrchrk(const char* s, uint32_t len, uint8_t c);
 
 //// string to int
 
-- 
2.43.0


From 0f808a14b2ef1d66d4dbb319ff791b650b5daf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 28/30] fix: a thread that made a result object and returns
 another value delivers that value

---
 src/future.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/future.c b/src/future.c
index 866d249..4c26423 100644
--- a/src/future.c
+++ b/src/future.c
@@ -16,16 +16,19 @@ static void promise_set(promise *p, void_t res) {
     atomic_lock(&p->mutex);
     if (!is_empty(returning)) {
         scope->returning = NULL;
-        if (res == (void_t)returning)
+        if (res == (void_t)returning) {
             memcpy(p->result, returning, sizeof(raii_values_t));
-        else
+            res = NULL;
+        } else {
             RAII_FREE(returning->extended);
+        }
 
         RAII_FREE(returning);
-    } else if (!is_empty(res)) {
-        p->result->value.object = res;
     }
 
+    if (!is_empty(res))
+        p->result->value.object = res;
+
     atomic_unlock(&p->mutex);
     atomic_flag_test_and_set(&p->done);
 }
-- 
2.43.0


From 4b54626b17ba9bd5bca02b880cb7e69cc0817c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:45 +0000
Subject: [PATCH 29/30] fix: thrd_cpu_count when the affinity mask cannot be
 read

---
 src/future.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index 4c26423..c6176e6 100644
--- a/src/future.c
+++ b/src/future.c
@@ -213,7 +213,12 @@ size_t thrd_cpu_count(void) {
 #include <sched.h>
 size_t thrd_cpu_count(void) {
     cpu_set_t cpuset;
-    sched_getaffinity(0, sizeof(cpuset), &cpuset);
+    /* More CPUs than the set can hold, or not permitted. */
+    if (sched_getaffinity(0, sizeof(cpuset), &cpuset) != 0) {
+        long count = sysconf(_SC_NPROCESSORS_ONLN);
+        return count > 0 ? (size_t)count : 1;
+    }
+
     return CPU_COUNT(&cpuset);
 }
 #else
-- 
2.43.0


From 687f4024849812bcc9edf0b285c70d58e0d1fb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:39 +0000
Subject: [PATCH 30/30] fix: arena requests too large to be counted returned
 too little memory

The size overflowed when it was rounded up, or multiplied by the count.
---
 src/arena.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/arena.c b/src/arena.c
index 5203887..a55987f 100644
--- a/src/arena.c
+++ b/src/arena.c
@@ -54,6 +54,12 @@ void *arena_alloc(arena_t arena, long nbytes) {
         raii_panic("Bad block, `NULL` detected!");
 
     RAII_ASSERT(nbytes > 0);
+    /* The chunk for it must be countable. */
+    if (nbytes > (long)(LONG_MAX - sizeof(union header) - sizeof(u16) - arena->threshold * 1024 - arena->total)) {
+        errno = ENOMEM;
+        raii_panic("Arena allocation failed!");
+    }
+
     nbytes = align_up(nbytes, sizeof(u16));
     while (nbytes > arena->limit - arena->avail) {
         arena_t ptr;
@@ -105,6 +111,11 @@ void *arena_alloc(arena_t arena, long nbytes) {
 
 void *arena_calloc(arena_t arena, long count, long nbytes) {
     RAII_ASSERT(count > 0);
+    if (nbytes > 0 && count > LONG_MAX / nbytes) {
+        errno = ENOMEM;
+        raii_panic("Arena allocation failed!");
+    }
+
     void *ptr = arena_alloc(arena, count * nbytes);
     memset(ptr, 0, count * nbytes);
     return ptr;
-- 
2.43.0

