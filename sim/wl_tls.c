/* thrd_local / thrd_static variables of several threads. Instrumented, gnu90 as the library itself. */
#include "raii.h"
#include "misc.h"
typedef struct { int v[6]; void *self; } tval_t;
thrd_local(tval_t, tv0, NULL)
thrd_static(tval_t, tv1, NULL)
thrd_local_plain(void_t, tv2, NULL)
thrd_static_plain(void_t, tv3, NULL)
#define NTV 4
static thrd_t th[MTHREADS + 1]; static int nth;
/* what each thread must find */
static struct { void *addr[NTV], *buf[NTV]; int empty[NTV]; long val[NTV]; void *raii, *ex; int live; } want[MTHREADS + 1];
static tval_t own[MTHREADS + 1][2];
static void *own_p[MTHREADS + 1][2];

static int me(void) { return sim_logical() >= 100 ? sim_logical() - 100 : 0; }
static void *cur(int v) { switch (v) { case 0: return tv0(); case 1: return tv1(); case 2: return tv2(); default: return tv3(); } }
static int empty(int v) { switch (v) { case 0: return is_tv0_empty(); case 1: return is_tv1_empty(); case 2: return is_tv2_empty(); default: return is_tv3_empty(); } }
static void del(int v) { switch (v) { case 0: tv0_del(); break; case 1: tv1_del(); break; case 2: tv2_del(); break; default: tv3_del(); } }
static void upd(int v, void *p) { switch (v) { case 0: tv0_update(p); break; case 1: tv1_update(p); break; case 2: tv2_update(p); break; default: tv3_update(p); } }
static long get(int v, void *p) {
    if (v < 2) {
        tval_t *t = p; int k;
        for (k = 1; k < 6; k++) if (t->v[k] != t->v[0]) sim_violation("tls-torn", "variable %d of thread %d: parts of it belong to different writes", v, me());
        return t->v[0];
    }
    return (long)*(void **)p;
}
static void put(int v, void *p, long x) {
    if (v < 2) { tval_t *t = p; int k; for (k = 0; k < 6; k++) t->v[k] = (int)x; }
    else *(void **)p = (void *)x;
}
static void *look(int v, int i) {
    int t = me(), j;
    void *p = cur(v);
    if (!p) sim_violation("tls-null", "variable %d is NULL in thread %d, op %d", v, t, i);
    if (want[t].empty[v]) {       /* first use, or first one after it was deleted */
        if (want[t].buf[v] && p != want[t].buf[v]) sim_violation("tls-moved", "variable %d of thread %d moved, op %d", v, t, i);
        if (!want[t].buf[v] && get(v, p)) sim_violation("tls-initial", "variable %d of thread %d is %ld at first use, op %d", v, t, get(v, p), i);
        want[t].buf[v] = want[t].addr[v] = p;
        want[t].empty[v] = 0;
    }
    if (p != want[t].addr[v]) sim_violation("tls-moved", "variable %d of thread %d moved, op %d", v, t, i);
    for (j = 0; j <= MTHREADS; j++)
        if (j != t && want[j].live && want[j].addr[v] == p) sim_violation("tls-shared", "variable %d is the same in threads %d and %d, op %d", v, t, j, i);
    return p;
}
static void run_list(int i);
static void begin(int t) {
    int v;
    memset(&want[t], 0, sizeof want[t]);
    for (v = 0; v < NTV; v++) want[t].empty[v] = 1;
    want[t].live = 1;
}
static int thread_main(void *x) {
    int n = (int)(intptr_t)x;
    sim_set_logical(100 + MOP(n).a);
    begin(MOP(n).a);
    run_list(m_child(n));
    want[MOP(n).a].live = 0;
    return MOP(n).a;
}
static void run_list(int i) {
    for (; i >= 0; i = m_next(i)) {
        int v = MOP(i).a % NTV, t = me(), j;
        void *p;
        sim_setop(i);
        switch (MOP(i).kind) {
        case MK_SPAWN: if (nth < MTHREADS && thrd_create(&th[nth], thread_main, (void *)(intptr_t)i) == thrd_success) nth++; break;
        case MK_JOIN: while (nth) thrd_join(th[--nth], NULL); break;
        case MK_YIELD: thrd_yield(); break;
        case TL_GET: {
            long g;
            p = look(v, i);
            g = get(v, p);
            sim_log(TL_GET, i, (int)g);
            if (p == want[t].buf[v] || MOP(i).c >= 0) {
                long w = p == want[t].buf[v] ? want[t].val[v] : v < 2 ? own[t][v].v[0] : (long)own_p[t][v - 2];
                if (g != w) sim_violation("tls-value", "variable %d of thread %d is %ld instead of %ld, op %d", v, t, g, w, i);
            }
            break;
        }
        case TL_SET:
            p = look(v, i);
            put(v, p, MOP(i).b);
            if (p == want[t].buf[v]) want[t].val[v] = MOP(i).b;
            break;
        case TL_UPD:
            p = v < 2 ? (void *)&own[t][v] : (void *)&own_p[t][v - 2];
            upd(v, p);
            want[t].addr[v] = p; want[t].empty[v] = 0;
            break;
        case TL_DEL: del(v); want[t].empty[v] = 1; want[t].addr[v] = NULL; break;
        case TL_EMPTY:
            if (empty(v) != want[t].empty[v]) sim_violation("tls-empty", "variable %d of thread %d: empty is %d, op %d", v, t, empty(v), i);
            break;
        case TL_OWN:      /* the library's own variables */
            p = raii_init();
            if (p != raii_local()) sim_violation("tls-moved", "raii_local() is not what raii_init() returned, op %d", i);
            if (want[t].raii && want[t].raii != p) sim_violation("tls-moved", "the scope of thread %d moved, op %d", t, i);
            want[t].raii = p;
            if (want[t].ex && want[t].ex != ex_init()) sim_violation("tls-moved", "the exception context of thread %d moved, op %d", t, i);
            want[t].ex = ex_init();
            for (j = 0; j <= MTHREADS; j++)
                if (j != t && want[j].live && (want[j].raii == p || want[j].ex == want[t].ex)) sim_violation("tls-shared", "threads %d and %d share a scope or an exception context, op %d", t, j, i);
            break;
        }
        sim_setop(i);
    }
}
int tls_main(void) {
    sim_set_logical(0);
    begin(0);
    run_list(R->prog.n ? 0 : -1);
    while (nth) thrd_join(th[--nth], NULL);
    sim_setop(-1);
    return 0;
}
