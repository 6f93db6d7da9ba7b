/* Arenas, each used by one thread at a time. Instrumented. */
#include "raii.h"
#include "misc.h"

#define NB 48
typedef struct { unsigned char *p; int n, node; unsigned gen; } mblk_t;   /* gen: heap block of its own */
typedef struct { int kind; arena_t a; unique_t *u; int nb, ndef, def[16], defnb[16]; mblk_t b[NB]; } mslot_t;   /* kind 1 arena, 2 scope with an arena */
static mslot_t slot[(MTHREADS + 1) * MSLOT];
static thrd_t th[MTHREADS + 1]; static int nth;
static int exp_def[MTHREADS + 1];
static mslot_t *freeing[MTHREADS + 1];

#define QUICK __attribute__((no_sanitize_thread, noinline))   /* no scheduling points: byte loops */
static QUICK unsigned char pat(int node, int k) { return (unsigned char)(node * 53 + k * 7 + 3); }
static int me(void) { return sim_logical() >= 100 ? sim_logical() - 100 : 0; }
static QUICK int differs(const unsigned char *p, int n, int node) {
    int k;
    for (k = 0; k < n; k++) if (p[k] != pat(node, k)) return k;
    return -1;
}
static QUICK int nonzero(const unsigned char *p, int n) {
    int k;
    for (k = 0; k < n; k++) if (p[k]) return k;
    return -1;
}
static QUICK void fill(unsigned char *p, int n, int node) {
    int k;
    for (k = 0; k < n; k++) p[k] = pat(node, k);
}
static void check_slot(mslot_t *s, int at) {
    int i, k;
    if (!s->kind) return;
    for (i = 0; i < s->nb; i++)
        if (!sim_within(s->b[i].p, s->b[i].n)) sim_violation("freed-early", "the %d bytes given out by op %d are no longer allocated, seen in op %d", s->b[i].n, s->b[i].node, at);
        else if ((k = differs(s->b[i].p, s->b[i].n, s->b[i].node)) >= 0)
                sim_violation("memory-clobbered", "byte %d of the %d bytes given out by op %d changed, seen in op %d", k, s->b[i].n, s->b[i].node, at);
}
static void def_cb(void *x) {
    int n = (int)(intptr_t)x - 1, i, k;
    mslot_t *s = freeing[me()];
    if (!s || !s->ndef) sim_violation("defer-order", "the function deferred by op %d ran, and none was due", n);
    if (s->def[--s->ndef] != n) sim_violation("defer-order", "the function deferred by op %d ran, the one of op %d was due", n, s->def[s->ndef]);
    /* what was allocated after this function was deferred is released before it runs */
    for (i = k = s->defnb[s->ndef]; i < s->nb; i++) {
        if (!s->b[i].gen) s->b[k++] = s->b[i];
        else if (sim_live(s->b[i].p) && sim_gen(s->b[i].p) == s->b[i].gen) sim_violation("defer-order", "the function deferred by op %d ran, the memory of op %d was due", n, s->b[i].node);
    }
    s->nb = k;
    check_slot(s, n);
    sim_log(2, n, 0);
}
static void free_slot(mslot_t *s, int node) {
    int i;
    check_slot(s, node);
    freeing[me()] = s;
    if (s->kind == 1) arena_free(s->a);
    else if (s->kind == 2) free_arena(s->u);
    freeing[me()] = NULL;
    if (s->kind == 2 && s->ndef) sim_violation("defer-missing", "the function deferred by op %d did not run when the scope was released, op %d", s->def[s->ndef - 1], node);
    for (i = 0; i < s->nb; i++)
        if (s->b[i].gen ? sim_live(s->b[i].p) && sim_gen(s->b[i].p) == s->b[i].gen : 0)
            sim_violation("memory-kept", "the memory of op %d outlived its scope, op %d", s->b[i].node, node);
    memset(s, 0, sizeof *s);
}
/* an error of the program's own, in the block in which the library was called before: it must not take anything back */
#define FAILS(i) ((MOP(i).c & AR_FAILS) != 0)
static void own_error(int i, const char *err, const char *name) {
    if (!FAILS(i)) sim_violation("spurious-failure", "op %d: '%s' after a successful call", i, err ? err : "(null)");
    if (!err || strcmp(err, name)) sim_violation("wrong-error", "op %d: '%s' caught, '%s' was thrown", i, err ? err : "(null)", name);
}
static void do_alloc(mslot_t *s, int i) {
    arena_t ar = s->kind == 1 ? s->a : (arena_t)s->u->arena;
    unsigned char *volatile p = NULL;
    volatile int failed = 0, zero = 0, done = 0;
    long n = MOP(i).b, need = (n + 1) & ~1L, each = 0;
    size_t cap = arena_capacity(ar), tot = arena_total(ar), cap2, tot2;
    int api = MOP(i).c & ~(AR_FAILS | AR_HUGE | AR_REST), cnt = 1 + i % 3, k, is_huge = (MOP(i).c & AR_HUGE) != 0;
    if (MOP(i).c & AR_REST) { n = cap < 400000 ? (long)cap : 0; need = (n + 1) & ~1L; cnt = 1; }     /* all that is left */
    if (s->nb == NB || n <= 0) return;
    if (s->kind == 1) api &= 1;
    if (is_huge) {      /* cannot be met, nor be counted if rounded up or multiplied */
        static const long one[] = { LONG_MAX, LONG_MAX - 1, LONG_MAX - 5000, LONG_MAX / 2 + 1000 };
        cnt = n & 4 ? 4 : 3;
        n = each = one[n % 4]; need = LONG_MAX;
    } else if (api & 1) { n -= n % cnt; if (!n) return; need = (n + 1) & ~1L; each = n / cnt; }
    try {
        if (s->kind == 1) p = api ? arena_calloc(s->a, cnt, each) : arena_alloc(s->a, n);
        else switch (api) {
        case 0: p = malloc_by(s->u, n); break;
        case 1: p = calloc_by(s->u, cnt, each); break;
        case 2: p = malloc_arena(s->u, n); break;
        case 3: p = calloc_arena(s->u, cnt, each); break;
        case 4: p = malloc_full(s->u, n, RAII_FREE); break;
        default: p = calloc_full(s->u, cnt, each, RAII_FREE); break;
        }
        zero = api & 1;
        done = 1;
        if (FAILS(i)) { sim_fired(FT_THROW); throw(range_error); }
    } catch_any {
        failed = !done;
        if (done) own_error(i, err, "range_error");
        else if (!is_huge && !sim_oom_at(i)) sim_violation("spurious-failure", "op %d: '%s' although no allocation failed", i, err ? err : "(null)");
    } end_try;
    cap2 = arena_capacity(ar); tot2 = arena_total(ar);
    sim_log(1, i, failed);
    if (failed) {
        if (api < 4 && need <= (long)cap) sim_violation("spurious-failure", "op %d: a request of %ld bytes failed with a capacity of %zu", i, n, cap);
        if (cap != cap2 || tot != tot2) sim_violation("arena-account", "op %d: capacity %zu and total %zu before a failed request, %zu and %zu after it", i, cap, tot, cap2, tot2);
        check_slot(s, i);
        return;
    }
    if (is_huge) sim_violation("short-memory", "op %d: something was returned for a request of %d times %ld bytes", i, api & 1 ? cnt : 1, n);
    if (!p) sim_violation("null-result", "op %d: NULL for a request of %ld bytes", i, n);
    if (R->variant == VA_CLEAR) s->b[s->nb].gen = 0;
    else if (api >= 4) {
        if (cap != cap2 || tot != tot2) sim_violation("arena-account", "op %d: a request served by the heap changed the arena", i);
        s->b[s->nb].gen = sim_gen((void *)p);
    } else {
        s->b[s->nb].gen = 0;
        if (need <= (long)cap && (cap2 != cap - need || tot2 != tot))
            sim_violation("arena-account", "op %d: %ld of %zu bytes taken, capacity is %zu, total went from %zu to %zu", i, n, cap, cap2, tot, tot2);
        if (need > (long)cap && tot2 < tot + need) sim_violation("arena-account", "op %d: %ld bytes did not fit in %zu, total went from %zu to %zu", i, n, cap, tot, tot2);
        if ((uintptr_t)p & 1) sim_violation("arena-account", "op %d: odd address", i);
    }
    if (!sim_within((void *)p, n)) sim_violation("outside", "op %d: the %ld bytes returned are not inside one live heap block", i, n);
    if (zero && (k = nonzero(p, n)) >= 0) sim_violation("not-zero", "op %d: byte %d of zeroed memory is not zero", i, k);
    fill(p, n, i);
    s->b[s->nb].p = p; s->b[s->nb].n = (int)n; s->b[s->nb].node = i; s->nb++;
    check_slot(s, i);
}
static void run_list(int i);
static int thread_main(void *x) {
    int n = (int)(intptr_t)x;
    sim_set_logical(100 + MOP(n).a);
    run_list(m_child(n));
    return 0;
}
static void run_list(int i) {
    for (; i >= 0; i = m_next(i)) {
        mslot_t *s = &slot[MOP(i).a % ((MTHREADS + 1) * MSLOT)];
        volatile int ok;
        sim_setop(i);
        switch (MOP(i).kind) {
        case MK_SPAWN: if (nth < MTHREADS && thrd_create(&th[nth], thread_main, (void *)(intptr_t)i) == thrd_success) nth++; break;
        case MK_JOIN: while (nth) thrd_join(th[--nth], NULL); break;
        case MK_YIELD: thrd_yield(); break;
        case AR_INIT: case AR_UINIT:
            if (s->kind) break;
            ok = 0;
            try {
                if (MOP(i).kind == AR_INIT) s->a = arena_init(MOP(i).b);
                else s->u = unique_init_arena();
                ok = 1;
                if (FAILS(i)) { sim_fired(FT_THROW); throw(range_error); }
            } catch_any {
                if (ok) own_error(i, err, "range_error");
                else if (!sim_oom_at(i)) sim_violation("spurious-failure", "op %d: '%s' although no allocation failed", i, err ? err : "(null)");
            } end_try;
            sim_log(3, i, ok);
            if (!ok) break;
            if (sim_oom_at(i)) sim_violation("failure-unnoticed", "op %d: succeeded although an allocation failed", i);
            s->kind = MOP(i).kind == AR_INIT ? 1 : 2;
            if (s->kind == 1 && (arena_capacity(s->a) || arena_total(s->a))) sim_violation("arena-account", "op %d: a new arena is not empty", i);
            break;
        case AR_ALLOC: if (s->kind) do_alloc(s, i); break;
        case AR_CHECK: check_slot(s, i); break;
        case AR_CLEAR:
            if (s->kind != 1 || arena_total(s->a)) break;
            arena_clear(s->a);
            if (arena_capacity(s->a) || arena_total(s->a)) sim_violation("arena-account", "op %d: an empty arena is not empty after being cleared", i);
            break;
        case AR_CLEARX: if (s->kind == 1) { check_slot(s, i); s->nb = 0; arena_clear(s->a); } break;
        case AR_DEFER:
            if (s->kind != 2 || s->ndef == 16) break;
            sim_nofault(1);
            raii_deferred(s->u, def_cb, (void *)(intptr_t)(i + 1));
            sim_nofault(0);
            s->defnb[s->ndef] = s->nb; s->def[s->ndef++] = i;
            break;
        case AR_FREE:
            if (!s->kind) break;
            ok = 0;
            try {
                if (i & 1) free_slot(s, i);
                ok = 1;
                if (FAILS(i)) { sim_fired(FT_THROW); throw(range_error); }
            } catch_any {
                if (!ok) sim_violation("spurious-failure", "op %d: '%s' while releasing", i, err ? err : "(null)");
                own_error(i, err, "range_error");
            } end_try;
            if (s->kind) free_slot(s, i);
            break;
        }
        sim_setop(i);
    }
}
int arena_main(void) {
    int i;
    sim_set_logical(0);
    sim_nofault(1);
    if (R->seed & 64) raii_init();
    sim_nofault(0);
    run_list(R->prog.n ? 0 : -1);
    sim_nofault(1);
    while (nth) thrd_join(th[--nth], NULL);
    for (i = 0; i < (MTHREADS + 1) * MSLOT; i++) if (slot[i].kind) free_slot(&slot[i], MAXOPS - 1);
    arena_free(NULL); free_arena(NULL); arena_clear(NULL);
    sim_nofault(0);
    sim_setop(-1);
    return 0;
}
