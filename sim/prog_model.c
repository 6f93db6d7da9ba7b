/* Generator and reference model of program trees. The model knows nothing of the library:
 * it executes the tree with explicit status codes and records the trace the program must produce. */
#include "prog.h"
#include <stdio.h>
#include <string.h>
#include <setjmp.h>

#define OP(i) (R->prog.op[i])
int first_child(int i) {
    prog_t *p = &R->prog;
    if (i < 0) return p->n ? 0 : -1;
    return (i + 1 < p->n && p->op[i + 1].depth == p->op[i].depth + 1) ? i + 1 : -1;
}
int next_sibling(int i) {
    prog_t *p = &R->prog;
    int d = p->op[i].depth, j;
    for (j = i + 1; j < p->n; j++) {
        if (p->op[j].depth == d) return j;
        if (p->op[j].depth < d) return -1;
    }
    return -1;
}
int find_child(int node, int kind, int a) {
    int i;
    for (i = first_child(node); i >= 0; i = next_sibling(i))
        if (OP(i).kind == kind && (a < 0 || OP(i).a == a)) return i;
    return -1;
}

int parent_node(int i) {
    int j, d = OP(i).depth;
    for (j = i - 1; j >= 0; j--) if (OP(j).depth < d) return j;
    return -1;
}
static int in_defer_of(int i) {   /* inside the body of a deferred function, up to the enclosing thread */
    for (i = parent_node(i); i >= 0; i = parent_node(i)) {
        if (OP(i).kind == K_DEFER) return 1;
        if (OP(i).kind == K_ASYNC || OP(i).kind == K_SPAWNF) return 0;
    }
    return 0;
}
int in_try_of_defer(int i) {
    for (i = parent_node(i); i >= 0 && OP(i).kind != K_DEFER; i = parent_node(i)) if (OP(i).kind == K_TRY) return 1;
    return 0;
}
int fscope_of(int i) {
    for (i = parent_node(i); i >= 0; i = parent_node(i)) {
        int k = OP(i).kind;
        if (k == K_FSCOPE) return i;
        if (k == K_GUARD || k == K_DEFER || k == K_ASYNC || k == K_SPAWNF || k == K_SCOPE) return -1;
    }
    return -1;
}
int thread_of(int i) {
    for (i = parent_node(i); i >= 0; i = parent_node(i)) {
        if (OP(i).kind == K_ASYNC || OP(i).kind == K_SPAWNF) return 101 + OP(i).c;
        if (OP(i).kind == K_SPAWN) return 100 + OP(i).a;
    }
    return 0;
}
int fut_node(int k) {
    int i;
    for (i = 0; i < R->prog.n; i++) if (OP(i).kind == K_ASYNC && OP(i).c == k) return i;
    return -1;
}
int thr_node(int k) {
    int i;
    for (i = 0; i < R->prog.n; i++) if ((OP(i).kind == K_ASYNC || OP(i).kind == K_SPAWNF) && OP(i).c == k) return i;
    return -1;
}
/* the first K_GET in program order outside of the future's own thread and of scopes it is not visible in */
static int fut_getter(int k) {
    int i;
    for (i = 0; i < R->prog.n; i++) if (OP(i).kind == K_GET && OP(i).a == k) return i;
    return -1;
}
int fut_reserved(int i) { return OP(i).kind == K_GET && fut_getter(OP(i).a) == i; }
int fut_owner(int k) {
    int g = fut_getter(k), n = fut_node(k);
    return g >= 0 ? thread_of(g) : n >= 0 ? thread_of(n) : -1;
}

/* ================================================================ generator */
typedef struct {
    rng_t *r; prog_t *p; int v;
    int budget, maxdepth;
    int guards;        /* dynamically enclosing guards in this frame chain of the current thread */
    int in_handler;    /* inside a catch body */
    int in_defer;      /* inside a deferred body: 1 guard scope, 2 thread scope */
    int bulk, crowd;   /* one is enough */
    int fires;         /* cancelling and firing, mostly */
    int may_throw;     /* an exception here is contained (or wanted) */
    int lexguard;      /* direct child of a guard */
    int scope_obj;     /* target is an explicit scope object */
    int gmt, gmt_up;   /* may_throw where the innermost (second innermost) guard was entered */
    int fscope, nspawn;    /* inside a thread scope whose spawn is usable; spawns so far */
    int nfut, total;       /* futures numbered so far */
    int vis[MAXFUT], nvis; /* futures this thread may wait for or get */
    int worker, keeps_args;            /* depth of worker threads */
    int nohooks, nraise;
    int chain;             /* blocks still to be nested in each other */
    int wthrow;            /* how often workers fail, percent */
} g_t;

static int emit(g_t *g, int depth, int kind, int a, int b, int c) {
    prog_t *p = g->p;
    if (p->n >= MAXOPS - 8) return -1;
    p->op[p->n].depth = depth; p->op[p->n].kind = kind; p->op[p->n].a = a; p->op[p->n].b = b; p->op[p->n].c = c;
    g->budget--;
    return p->n++;
}
static void g_list(g_t *g, int depth, int len);

static int pick_exc(g_t *g) { return (int)rng_below(g->r, X_NUSER); }

static void g_try(g_t *g, int depth) {
    int form = (int)rng_below(g->r, TF_N), fin, n, h, s_throw = g->may_throw, s_lex = g->lexguard, s_h = g->in_handler;
    if (g->v == V_SIGNAL && rng_pct(g->r, 40)) form = TF_SIG;
    fin = form == TF_NONE || form == TF_FINALITY ? 1 : rng_pct(g->r, 45);
    n = emit(g, depth, K_TRY, form, fin, 0);
    if (n < 0) return;
    g->lexguard = 0;
    /* the body may throw if this try contains it for certain, or if throwing is fine outside */
    emit(g, depth + 1, K_BODY, 0, 0, 0);
    g->may_throw = s_throw || form == TF_ANY || form == TF_E1ANY || form == TF_FINALITY;
    g->in_handler = 0;
    g_list(g, depth + 2, 1 + (int)rng_below(g->r, 4));
    g->may_throw = s_throw;
    g->in_handler = 1;
    for (h = 0; h < (form == TF_E0E1 || form == TF_E1ANY || form == TF_IF02 || form == TF_SIG || form == TF_CPRE || form == TF_EIGHT || form == TF_IFSIG || form == TF_LONG ? 2 : form == TF_NONE || form == TF_FINALITY ? 0 : 1); h++) {
        if (rng_pct(g->r, 15)) continue;
        if (emit(g, depth + 1, K_HND, h, 0, 0) < 0) break;
        g_list(g, depth + 2, (int)rng_below(g->r, 3));
        if (s_throw && rng_pct(g->r, 12)) emit(g, depth + 2, K_RETHROW, 0, 0, 0);
    }
    g->in_handler = s_h;
    if (fin && rng_pct(g->r, 80)) {
        emit(g, depth + 1, K_FIN, 0, 0, 0);
        g_list(g, depth + 2, (int)rng_below(g->r, 3));
    }
    g->lexguard = s_lex;
}

static void g_guard(g_t *g, int depth) {
    int n = emit(g, depth, K_GUARD, (int)rng_below(g->r, 4), 0, 0), s_lex = g->lexguard, s_so = g->scope_obj, s_g = g->gmt, s_gu = g->gmt_up, s_fs = g->fscope;
    if (n < 0) return;
    g->guards++;
    g->gmt_up = g->gmt; g->gmt = g->may_throw;
    g->lexguard = 1;
    g->scope_obj = 0;
    g->fscope = 0;
    g_list(g, depth + 1, 1 + (int)rng_below(g->r, 6));
    g->guards--;
    g->fscope = s_fs;
    g->gmt = s_g; g->gmt_up = s_gu;
    g->lexguard = s_lex;
    g->scope_obj = s_so;
}

static void g_defer(g_t *g, int depth) {
    int type, up = 0, s_def = g->in_defer, s_lex = g->lexguard, s_thr = g->may_throw, len;
    if (g->scope_obj) type = 1;
    else if (g->guards && g->in_defer != 2) { type = rng_pct(g->r, 75) ? 0 : 1; if (g->guards > 1 && !g->in_defer && rng_pct(g->r, 8)) up = 1; }
    else type = 2;
    if (g->in_defer != 2 && rng_pct(g->r, g->v == V_UNCAUGHT ? 45 : 12) && !g->scope_obj) { type = rng_pct(g->r, 50) ? 2 : 3; up = 0; }
    if (!g->scope_obj && !up && rng_pct(g->r, g->v == V_CANCEL ? 25 : 8)) { emit(g, depth, K_DEFER, type, 0, 1); return; }
    if (emit(g, depth, K_DEFER, type, up, 0) < 0) return;
    g->lexguard = 0;
    g->in_defer = type >= 2 || g->scope_obj ? 2 : 1;
    g->may_throw = g->in_defer == 2 ? 0 : up ? g->gmt_up && g->gmt : g->gmt;
    len = (int)rng_below(g->r, 3);
    if (g->in_defer == 1 && rng_pct(g->r, g->v == V_RECOVER ? 55 : 25)) {
        int in = depth + 1;
        if (rng_pct(g->r, 20)) {        /* from inside a block of the deferred function */
            if (emit(g, in, K_TRY, TF_ANY, (int)rng_below(g->r, 2), 0) >= 0) emit(g, ++in, K_BODY, 0, 0, 0), in++;
        }
        emit(g, in, K_RECOVER, (int)rng_below(g->r, 8), (int)rng_below(g->r, 16), (int)rng_below(g->r, NMSG));
    } else if (g->in_defer == 2 && !g->scope_obj && rng_pct(g->r, 25)) emit(g, depth + 1, K_RECOVER, (int)rng_below(g->r, 5), (int)rng_below(g->r, 16), (int)rng_below(g->r, NMSG));
    { int sn = g->nvis, sv[MAXFUT], fs = g->fscope; memcpy(sv, g->vis, sizeof sv); g->nvis = 0; g->fscope = 0;
    if (s_def < 1) { int so = g->scope_obj; g->scope_obj = 0; g_list(g, depth + 1, len); g->scope_obj = so; }
    g->nvis = sn; memcpy(g->vis, sv, sizeof sv); g->fscope = fs; }
    g->in_defer = s_def; g->lexguard = s_lex; g->may_throw = s_thr;
}

/* body of a thread: its own control context */
static void g_worker(g_t *g, int depth) {
    g_t s = *g;
    int b;
    emit(g, depth, K_BODY, 0, 0, 0);
    g->guards = g->in_handler = g->in_defer = g->lexguard = g->scope_obj = g->fscope = 0;
    g->gmt = g->gmt_up = 1;
    g->may_throw = rng_pct(g->r, g->wthrow);
    g->worker++;
    g->keeps_args = (g->p->op[g->p->n - 2].b >> 2) == AR_ARGS;   /* they belong to the scope K_CLEAN empties */
    if (g->may_throw) { /* the parent's futures stay with the parent: this one may end early */ g->nvis = 0; }
    else for (b = 0; b < g->nvis; b++) if (rng_pct(g->r, 50)) g->vis[b--] = g->vis[--g->nvis];
    g_list(g, depth + 1, 1 + (int)rng_below(g->r, 5));
    if (g->may_throw && rng_pct(g->r, 50)) {
        b = (int)rng_below(g->r, 10);
        if (b < 5) emit(g, depth + 1, K_THROW, pick_exc(g), 0, 0);
        else if (b < 8) emit(g, depth + 1, K_PANIC, (int)rng_below(g->r, NMSG), 0, 0);
        else emit(g, depth + 1, K_SIGNAL, X_SFPE + (int)rng_below(g->r, X_SEND - X_SFPE), 0, 0);
    }
    /* futures the child took are gone for the parent */
    s.budget = g->budget; s.nfut = g->nfut; s.total = g->total; s.nspawn = g->nspawn; s.bulk = g->bulk; s.crowd = g->crowd;
    { int i, j, n = 0; for (i = 0; i < s.nvis; i++) { int taken = 0; for (j = 0; j < g->p->n; j++) if (g->p->op[j].kind == K_GET && g->p->op[j].a == s.vis[i]) taken = 1; if (!taken) s.vis[n++] = s.vis[i]; } s.nvis = n; }
    *g = s;
}
static int g_arg(g_t *g) { int ar = (int)rng_below(g->r, 2), rt = (int)rng_below(g->r, 4); if (ar == AR_RAW && rt == RT_HEAP) ar = AR_ARGS; return ar * 4 + rt; }
static int g_flags(g_t *g) { return (rng_pct(g->r, 25) ? FA_EARLY : 0) + (rng_pct(g->r, 15) ? FA_DROP : 0) + (rng_pct(g->r, 25) ? FA_GATE : 0); }
static void g_get(g_t *g, int depth) {
    int j, k;
    if (!g->nvis) return;
    j = (int)rng_below(g->r, g->nvis); k = g->vis[j];
    if (rng_pct(g->r, 25)) { emit(g, depth, rng_pct(g->r, 50) ? K_WAITF : K_DONEF, k, (int)rng_below(g->r, 3), 0); if (rng_pct(g->r, 40)) return; }
    if (g->may_throw && rng_pct(g->r, 60)) emit(g, depth, K_GET, k, 0, 0);
    else {
        emit(g, depth, K_TRY, TF_ANY, rng_pct(g->r, 25), 0);
        emit(g, depth + 1, K_BODY, 0, 0, 0);
        emit(g, depth + 2, K_GET, k, 0, 0);
        emit(g, depth + 1, K_HND, 0, 0, 0);
        if (rng_pct(g->r, 20)) emit(g, depth + 2, K_BTRACE, 0, 0, 0);
    }
    g->vis[j] = g->vis[--g->nvis];
}
static void g_async(g_t *g, int depth) {
    int k;
    if (g->nfut >= MAXFUT - 1 || g->total >= 14) return;
    k = g->nfut++; g->total++;
    if (emit(g, depth, K_ASYNC, g_flags(g), g_arg(g), k) < 0) return;
    g_worker(g, depth + 1);
    if (g->nvis < MAXFUT) g->vis[g->nvis++] = k;
}
static void g_fscope(g_t *g, int depth) {
    int s_f = g->fscope, s_l = g->lexguard, i, n, tail;
    if (g->total >= 14) return;
    if (emit(g, depth, K_FSCOPE, 0, 0, 0) < 0) return;
    g->fscope = 1; g->lexguard = 0;
    n = 1 + (int)rng_below(g->r, rng_pct(g->r, 20) ? 7 : 3);
    for (i = 0; i < n; i++) {
        if (g->nfut < MAXFUT - 1 && g->total < 14) {
            int k = g->nfut++, d = depth + 1; g->total++;
            if (rng_pct(g->r, g->v == V_FUTFAULT ? 55 : 8)) {       /* a refused one does not end the scope */
                emit(g, d, K_TRY, TF_ANY, 0, 0); emit(g, d + 1, K_BODY, 0, 0, 0);
                d += 2;
            }
            if (emit(g, d, K_SPAWNF, g_flags(g) & ~FA_GATE, g_arg(g), k) < 0) break;
            g_worker(g, d + 1);
            if (d > depth + 1) emit(g, depth + 2, K_HND, 0, 0, 0);
        }
        if (rng_pct(g->r, 30)) g_list(g, depth + 1, 1);
    }
    tail = 1 + (int)rng_below(g->r, 5);
    for (i = 0; i < tail; i++) {
        int x = (int)rng_below(g->r, 10), wrap;
        int kind = i == 0 && rng_pct(g->r, 75) ? K_SYNC : x < 2 ? K_SYNC : x < 6 ? K_RESULT : x < 8 ? K_THEN : K_FINISH;
        wrap = (kind == K_SYNC || kind == K_RESULT) && (!g->may_throw || rng_pct(g->r, 50));
        if (wrap) {
            emit(g, depth + 1, K_TRY, TF_ANY, 0, 0); emit(g, depth + 2, K_BODY, 0, 0, 0);
            emit(g, depth + 3, kind, (int)rng_below(g->r, 8), 0, 0); emit(g, depth + 2, K_HND, 0, 0, 0);
        } else emit(g, depth + 1, kind, (int)rng_below(g->r, 8), 0, 0);
    }
    g->fscope = s_f; g->lexguard = s_l;
}

static const int sizes[] = { 1, 8, 16, 24, 40, 64, 200, 1000 };
static int a_size(g_t *g) {
    int x = (int)rng_below(g->r, 1000);
    return x < 2 ? 66000 + (int)rng_below(g->r, 4000) : x < 15 ? 3000 + (int)rng_below(g->r, 3000) : sizes[rng_below(g->r, 8)];
}
static void g_list(g_t *g, int depth, int len) {
    /*                       mark call guard try  throw panic signal trap defer recover alloc use break ret cancel fire protect yield scope clean btrace */
    static const int W[V_NPROG][24] = {
        /* defer    */ { 10, 8, 16, 8, 5, 5, 2, 1, 30, 2, 8, 3, 4, 4, 1, 1, 2, 0, 3, 2, 1, 0, 0, 0 },
        /* recover  */ { 8, 6, 18, 6, 8, 8, 3, 1, 30, 6, 8, 2, 2, 2, 0, 0, 2, 0, 1, 1, 1, 0, 0, 0 },
        /* route    */ { 12, 8, 6, 36, 12, 7, 3, 1, 6, 0, 4, 1, 1, 1, 0, 0, 4, 0, 0, 0, 5, 0, 0, 0 },
        /* memory   */ { 4, 5, 14, 9, 6, 4, 1, 1, 10, 2, 40, 12, 3, 3, 1, 1, 4, 0, 6, 4, 0, 0, 0, 0 },
        /* oom      */ { 4, 5, 16, 10, 2, 2, 0, 0, 14, 4, 40, 8, 2, 2, 0, 0, 4, 0, 0, 3, 0, 0, 0, 0 },
        /* uncaught */ { 8, 8, 12, 10, 4, 4, 2, 1, 26, 2, 14, 3, 2, 2, 0, 0, 8, 0, 2, 3, 1, 0, 0, 0 },
        /* signal   */ { 6, 6, 14, 18, 4, 3, 24, 8, 12, 3, 8, 1, 2, 2, 0, 0, 3, 0, 0, 0, 2, 0, 0, 0 },
        /* threads  */ { 8, 6, 18, 14, 8, 8, 3, 1, 18, 4, 14, 4, 3, 3, 1, 1, 3, 8, 2, 2, 1, 0, 0, 0 },
        /* protect  */ { 5, 8, 10, 16, 12, 8, 3, 1, 6, 1, 8, 1, 1, 1, 0, 0, 34, 0, 0, 1, 1, 0, 0, 0 },
        /* cancel   */ { 5, 4, 16, 5, 4, 3, 1, 0, 36, 1, 8, 2, 3, 3, 16, 16, 1, 0, 4, 2, 0, 0, 0, 0 },
        /* fut      */ { 8, 5, 10, 8, 4, 3, 2, 1, 10, 2, 8, 3, 2, 2, 0, 0, 2, 8, 1, 2, 1, 26, 4, 20 },
        /* spawn    */ { 8, 5, 10, 8, 4, 3, 2, 1, 10, 2, 8, 3, 2, 2, 0, 0, 2, 8, 1, 2, 1, 5, 24, 5 },
        /* futexc   */ { 6, 4, 10, 14, 10, 8, 4, 1, 8, 4, 4, 1, 2, 2, 0, 0, 4, 6, 0, 0, 3, 18, 10, 16 },
        /* futdefer */ { 6, 5, 12, 4, 4, 3, 1, 0, 32, 3, 20, 4, 3, 3, 1, 1, 2, 6, 3, 3, 0, 12, 8, 10 },
        /* futfault */ { 4, 4, 10, 10, 2, 2, 1, 0, 12, 2, 16, 3, 2, 2, 0, 0, 3, 5, 0, 2, 1, 20, 16, 14 },
        /* args     */ { 4, 6, 14, 8, 6, 4, 1, 0, 8, 2, 10, 10, 3, 3, 0, 0, 3, 0, 3, 4, 0, 0, 0, 0 },
        /* hooks    */ { 8, 6, 12, 30, 14, 8, 3, 1, 8, 3, 5, 2, 1, 1, 0, 0, 5, 0, 0, 2, 2, 0, 0, 0 },
    };
    int k, i, tot = 0, w[24];
    for (k = 0; k < len && g->budget > 0; k++) {
        int x, s;
        if (g->chain > 0 && !g->in_defer && !g->scope_obj) {
            g->chain--; x = (int)rng_below(g->r, 100);
            if (x < 45) g_try(g, depth);
            else if (x < 85) g_guard(g, depth);
            else { s = g->lexguard; if (emit(g, depth, K_CALL, 0, 0, 0) >= 0) { g->lexguard = 0; g_list(g, depth + 1, 1); } g->lexguard = s; }
            continue;
        }
        if (g->v != V_HOOKS && !g->in_defer && !g->scope_obj && rng_pct(g->r, 1)) {
            int f = (int)rng_below(g->r, is_fut(g->v) && g->v != V_FUTFAULT && g->total < 14 ? RP_N : RP_N1), n = 2 + (int)rng_below(g->r, rng_pct(g->r, 10) ? 150 : 20);
            if (f == RP_NAMES && (g->v != V_SIGNAL)) continue;
            if (f == RP_CROWD) { n = 17 + (int)rng_below(g->r, 18); if (g->crowd++ || g->total + n > 48) continue; g->total += n; }
            else if (f >= RP_N1) { n = 2 + (int)rng_below(g->r, 5); if (g->total + n > 26) continue; g->total += 2 * n; }
            if (f == RP_NEST && n > 20) n = 20 + n / 2;
            if (f == RP_BULK && g->bulk++) continue;
            if (f == RP_PDEEP && rng_pct(g->r, 30)) n *= 2;
            emit(g, depth, K_REPEAT, f, n, pick_exc(g));
            continue;
        }
        if (!g->in_defer && !g->scope_obj && g->p->n < 300 && rng_pct(g->r, g->v == V_MEMORY || g->v == V_DEFER || g->v == V_CANCEL || g->v == V_FUTDEFER ? 2 : 1)) {
            /* many at once: the array of deferred functions grows */
            int n = 15 + (int)rng_below(g->r, rng_pct(g->r, 40) ? 60 : 20), guard = g->guards && rng_pct(g->r, 70), al = rng_pct(g->r, 30), an = rng_pct(g->r, 30), b = g->budget;
            while (n-- > 0) {
                if (al && rng_pct(g->r, 60)) emit(g, depth, K_ALLOC, guard ? (int)rng_below(g->r, A_MDEF) : A_MDEF + (int)rng_below(g->r, 2), 8, 0);
                else emit(g, depth, K_DEFER, guard ? 0 : 2, 0, an && rng_pct(g->r, 50));
            }
            g->budget = b - 1;
            if (g->lexguard && rng_pct(g->r, 40)) emit(g, depth, K_BREAK, 0, 0, 0);
            continue;
        }
        if (!g->in_defer && !g->scope_obj && rng_pct(g->r, g->v == V_CANCEL ? 12 : g->v == V_MEMORY || g->v == V_DEFER ? 3 : 1)) {
            int q = (int)rng_below(g->r, 4);
            if (g->lexguard && q < 2) emit(g, depth, K_FREEM, (int)rng_below(g->r, 16), (int)rng_below(g->r, 2), 0);
            else if (q > 1) emit(g, depth, q == 2 ? K_TCANCEL : K_TFIRE, (int)rng_below(g->r, 16), 0, 0);
            continue;
        }
        if ((g->v == V_ROUTE || is_fut(g->v)) && g->may_throw && !g->in_defer && !g->scope_obj && rng_pct(g->r, 1)) {
            int m = (int)rng_below(g->r, 5);
            if (!(g->fscope && (m == 1 || m == 4))) emit(g, depth, K_MISUSE, m, 0, 0);
            continue;
        }
        if (g->v == V_HOOKS && !g->in_defer && !g->scope_obj && rng_pct(g->r, 22)) {     /* the application's own scope */
            if (!depth && !g->nohooks && rng_pct(g->r, 25)) { emit(g, depth, K_HOOKS, (int)rng_below(g->r, 4), rng_pct(g->r, 40), 0); continue; }
            if (rng_pct(g->r, 35)) { emit(g, depth, K_ALLOC, A_MFULL + (int)rng_below(g->r, 4), a_size(g), 1); continue; }
            if (emit(g, depth, K_DEFER, D_APP, 0, 0) < 0) continue;
            for (i = (int)rng_below(g->r, 3); i > 0; i--) emit(g, depth + 1, rng_pct(g->r, 80) ? K_MARK : K_YIELD, 0, 0, 0);
            continue;
        }
        if ((g->v == V_SIGNAL || g->v == V_UNCAUGHT) && !g->scope_obj && rng_pct(g->r, 3)) { emit(g, depth, K_FLAGS, 0, 0, 0); continue; }
        if (g->v == V_SIGNAL && !g->scope_obj && rng_pct(g->r, 5)) {
            static const int as[] = { X_SFPE, X_SSEGV, X_STERM, X_SHUP };      /* a signal gets another name: one of the program's, or that of another signal */
            if (rng_pct(g->r, 40)) { i = (int)rng_below(g->r, X_NUSER + 6); emit(g, depth, K_OWNSIG, X_SSEGV + (int)rng_below(g->r, X_SEND - X_SSEGV), 2, i < X_NUSER ? i : as[(i - X_NUSER) & 3]); }
            else emit(g, depth, K_OWNSIG, X_STERM + (int)rng_below(g->r, X_SEND - X_STERM), rng_pct(g->r, 30), 0);
            if (rng_pct(g->r, 60)) emit(g, depth, K_MARK, 0, 0, 0);
            continue;
        }
        if (g->v == V_SIGNAL && !g->scope_obj && rng_pct(g->r, 5)) {
            int now = (int)rng_below(g->r, 2), one = (int)rng_below(g->r, X_SEND - X_SFPE);
            if (emit(g, depth, K_SIGRESET, one == X_SUSR1 - X_SFPE || rng_pct(g->r, 50) ? -1 : one, now, 0) >= 0 && !now) { if (rng_pct(g->r, 50)) g_try(g, depth); else g_guard(g, depth); }
            continue;
        }
        for (i = 0, tot = 0; i < 24; i++) w[i] = W[g->fires ? V_CANCEL : g->v][i];
        if (depth > g->maxdepth || g->in_defer == 2) { w[1] /= 2; if (depth > g->maxdepth) w[1] = w[2] = w[3] = 0; w[16] = 0; w[18] = 0; }
        if (!g->may_throw) w[4] = w[5] = w[6] = w[7] = 0;
        if (g->in_defer) { w[4] /= 3; w[5] /= 3; w[6] /= 3; w[14] = w[15] = w[18] = w[19] = w[12] = w[13] = 0; w[8] /= 3; }
        if (g->in_defer == 2) w[8] = 0, w[10] = 0;
        if (!g->lexguard) w[12] = w[13] = w[14] = w[15] = w[18] = 0;
        if (!g->guards || !g->in_defer) w[9] /= 4;
        if (!g->guards) w[9] = 0;
        if (g->in_handler) w[19] = 0;
        if (g->scope_obj) w[1] = w[2] = w[3] = w[4] = w[5] = w[6] = w[7] = w[9] = w[12] = w[13] = w[16] = w[18] = w[19] = 0;
        if (g->in_defer >= 2 || g->worker > 2 || g->scope_obj || depth > g->maxdepth + 2) w[21] = w[22] = w[23] = 0;
        if (g->in_defer) w[21] /= 4, w[22] /= 4;
        if (g->worker) w[21] /= 2, w[22] /= 2;
        if (!g->nvis) w[23] = 0;
        for (i = 0; i < 24; i++) tot += w[i];
        x = (int)rng_below(g->r, tot);
        for (i = 0; x >= w[i]; i++) x -= w[i];
        switch (i) {
        case 0: emit(g, depth, K_MARK, 0, 0, 0); break;
        case 1: s = g->lexguard; if (emit(g, depth, K_CALL, 0, 0, 0) >= 0) { g->lexguard = 0; g_list(g, depth + 1, 1 + (int)rng_below(g->r, 3)); } g->lexguard = s; break;
        case 2: if (g->in_defer != 2 || rng_pct(g->r, 60)) { int so = g->in_defer, mt = g->may_throw, gd = g->guards; if (so == 2) { g->guards = 0; g->in_defer = 3; } g_guard(g, depth); g->in_defer = so; g->may_throw = mt; g->guards = gd; } break;
        case 3: g_try(g, depth); break;
        case 4: emit(g, depth, K_THROW, pick_exc(g), 0, 0); break;
        case 5: emit(g, depth, K_PANIC, (int)rng_below(g->r, NMSG), 0, 0); break;
        case 6: emit(g, depth, K_SIGNAL, X_SFPE + (int)rng_below(g->r, X_SEND - X_SFPE), 0, 0); break;
        case 7: emit(g, depth, K_TRAP, (int)rng_below(g->r, 2), 0, 0); break;
        case 8: g_defer(g, depth); break;
        case 9: emit(g, depth, K_RECOVER, (int)rng_below(g->r, 8), (int)rng_below(g->r, 16), (int)rng_below(g->r, NMSG)); break;
        case 10: {
            int api;
            if (!g->scope_obj && rng_pct(g->r, g->v == V_ARGS ? 75 : g->v == V_MEMORY || g->v == V_OOM ? 10 : 3)) {
                int m = (int)rng_below(g->r, 4);
                if (!g->guards || g->in_defer >= 2) m &= ~1;   /* 1, 3 need a guard */
                emit(g, depth, K_ARGS, m, (int)rng_below(g->r, 12), rng_pct(g->r, 40));
                break;
            }
            api = g->scope_obj ? A_MFULL + (int)rng_below(g->r, 4) : g->guards && g->in_defer < 2 ? (rng_pct(g->r, 80) ? (int)rng_below(g->r, A_MDEF) : A_MDEF + (int)rng_below(g->r, A_N - A_MDEF)) : A_MDEF + (int)rng_below(g->r, A_N - A_MDEF);
            emit(g, depth, K_ALLOC, api, api >= A_MEMDUP ? sizes[rng_below(g->r, 8)] : g->may_throw && (g->v == V_MEMORY || g->v == V_OOM || g->v == V_UNCAUGHT) && rng_pct(g->r, 3) ? -1 - (int)rng_below(g->r, N_HUGE) : a_size(g), 0);
            break;
        }
        case 11: emit(g, depth, K_USE, 0, 0, 0); break;
        case 12: emit(g, depth, K_BREAK, 0, 0, 0); break;
        case 13: emit(g, depth, K_RETURN, 1 + (int)rng_below(g->r, 1000), 0, 0); break;
        case 14: emit(g, depth, K_CANCEL, (int)rng_below(g->r, 8), 0, 0); break;
        case 15: emit(g, depth, K_FIRE, (int)rng_below(g->r, 8), 0, 0); break;
        case 16: {
            int l = g->lexguard, b = 0;
            if (!g->nraise && rng_pct(g->r, 10)) {
                if ((g->v == V_PROTECT || g->v == V_UNCAUGHT || g->v == V_ROUTE) && rng_pct(g->r, 40)) b = PD_THROW;
                else b = 1 + X_SFPE + (int)rng_below(g->r, X_SEND - X_SFPE);
                g->nraise++;
            }
            if (emit(g, depth, K_PROTECT, (int)rng_below(g->r, 4), b, 0) >= 0) { g->lexguard = 0; g_list(g, depth + 1, 1 + (int)rng_below(g->r, 3)); g->lexguard = l; }
            break;
        }
        case 17: emit(g, depth, K_YIELD, (int)rng_below(g->r, 3), 0, 0); break;
        case 18: if (emit(g, depth, K_SCOPE, 0, 0, 0) >= 0) { int l = g->lexguard; g->scope_obj = 1; g->lexguard = 1; g_list(g, depth + 1, 1 + (int)rng_below(g->r, 4)); g->scope_obj = 0; g->lexguard = l; } break;
        case 19: if (!g->keeps_args) emit(g, depth, K_CLEAN, 0, 0, 0); break;
        case 20: emit(g, depth, K_BTRACE, 0, 0, 0); break;
        case 21: g_async(g, depth); break;
        case 22: g_fscope(g, depth); break;
        case 23: g_get(g, depth); break;
        }
    }
}

/* many threads in one scope */
static void g_crowd(g_t *g, int depth) {
    int n = 15 + (int)rng_below(g->r, 20), i;
    if (emit(g, depth, K_FSCOPE, 0, 0, 0) < 0) return;
    for (i = 0; i < n; i++) {
        if (emit(g, depth + 1, K_SPAWNF, g_flags(g) & ~FA_GATE, g_arg(g), g->nfut) < 0) break;
        g->nfut++; g->total++;
        emit(g, depth + 2, K_BODY, 0, 0, 0);
        if (rng_pct(g->r, 40)) emit(g, depth + 3, K_YIELD, 0, 0, 0);
        if (rng_pct(g->r, 8)) emit(g, depth + 3, K_THROW, pick_exc(g), 0, 0);
    }
    for (i = 0; i < 4; i++) {
        emit(g, depth + 1, K_TRY, TF_ANY, 0, 0); emit(g, depth + 2, K_BODY, 0, 0, 0);
        emit(g, depth + 3, i ? rng_pct(g->r, 70) ? K_RESULT : K_THEN : K_SYNC, (int)rng_below(g->r, 40), 0, 0); emit(g, depth + 2, K_HND, 0, 0, 0);
    }
}
static void gen(rng_t *r, int variant, prog_t *p, run_t *run);
void prog_gen(rng_t *r, int variant, prog_t *p, run_t *run) {
    int i;
    gen(r, variant, p, run);
    /* at the end of the process nothing is left to run what such an error interrupts */
    for (i = 0; i < p->n; i++) {
        int k, d = p->op[i].depth;
        if (p->op[i].kind != K_PROTECT || p->op[i].b != PD_THROW) continue;
        for (k = i - 1; k >= 0; k--) if (p->op[k].depth < d) { d = p->op[k].depth; if (p->op[k].kind == K_DEFER && p->op[k].a >= 2) p->op[i].b = 0; }
    }
    if (!(run->seed & 96) && variant != V_SIGNAL)
        for (i = 0; i < p->n; i++) {
            int k, d = p->op[i].depth, ok = is_fut(variant);
            int pr = p->op[i].kind == K_PROTECT && p->op[i].b && p->op[i].b < PD_THROW;
            if (p->op[i].kind != K_SIGNAL && p->op[i].kind != K_TRAP && !pr) continue;
            if (p->op[i].kind == K_SIGNAL && p->op[i].a == X_SUSR1) p->op[i].a = X_STERM;
            if (pr && p->op[i].b == 1 + X_SUSR1) p->op[i].b = 1 + X_STERM;
            /* not before the thread has used the library: signals are not its business until then */
            for (k = i - 1; k >= 0 && !ok; k--)
                if (p->op[k].depth < d) {
                    d = p->op[k].depth;
                    if (p->op[k].kind == K_SPAWN) break;
                    ok = p->op[k].kind == K_GUARD || p->op[k].kind == K_TRY;
                }
            if (!ok) { if (pr) p->op[i].b = 0; else p->op[i].kind = K_MARK; }
        }
}
static void gen(rng_t *r, int variant, prog_t *p, run_t *run) {
    g_t g = { 0 };
    int i;
    g.r = r; g.p = p; g.v = variant;
    g.gmt = g.gmt_up = 1;
    g.maxdepth = 3 + (int)rng_below(r, 6);
    if (variant == V_HOOKS) {
        g.nohooks = rng_pct(r, 35);
        emit(&g, 0, K_HOOKS, rng_pct(r, 60) ? HK_UNWIND + (int)rng_below(r, 2) : (int)rng_below(r, 4), rng_pct(r, 40), 0);
    }
    g.fires = variant == V_THREADS && rng_pct(r, 20);
    if (variant == V_THREADS || (g.nohooks && rng_pct(r, 80))) {
        int nt = 2 + (int)rng_below(r, 4);
        int pre = rng_pct(r, 50);
        if (pre) { g.budget = 6; g.may_throw = 0; g_list(&g, 0, (int)rng_below(r, 3)); }
        for (i = 0; i < nt; i++) {
            g.budget = 4 + (int)rng_below(r, 26);
            emit(&g, 0, K_SPAWN, i + 1, (int)rng_below(r, 4), 0);
            g.may_throw = variant == V_HOOKS && rng_pct(r, 50);
            g_list(&g, 1, 1 + (int)rng_below(r, 5));
            g.may_throw = 0;
            if (rng_pct(r, 30)) { g.budget = 8; g_list(&g, 0, 1 + (int)rng_below(r, 2)); }
        }
        g.budget = 12;
        if (rng_pct(r, 70)) g_list(&g, 0, 1 + (int)rng_below(r, 4));
        emit(&g, 0, K_JOINALL, 0, 0, 0);
        g.budget = 6;
        if (rng_pct(r, 40)) g_list(&g, 0, 1 + (int)rng_below(r, 3));
        if (rng_pct(r, 40)) { run->fault[run->nfault].kind = FT_STALL; run->fault[run->nfault].n = 1 + (int)rng_below(r, nt); run->fault[run->nfault++].arg = 100 + (int)rng_below(r, 3000); }
        if (rng_pct(r, 20)) { run->fault[run->nfault].kind = FT_ALLOC; run->fault[run->nfault].arg = 0; run->fault[run->nfault++].n = 1 + (int)rng_below(r, 25); }
        return;
    }
    if (rng_pct(r, 4)) g.chain = 8 + (int)rng_below(r, 22);
    if (is_fut(variant)) {
        g.wthrow = variant == V_FUTEXC ? 65 : variant == V_FUTDEFER ? 30 : rng_pct(r, 50) ? 0 : 35;
        g.budget = 6 + (int)rng_below(r, rng_pct(r, 15) ? 110 : 45) + g.chain * 2;
        g.may_throw = 1;
        if (!g.chain && rng_pct(r, variant == V_SPAWN ? 4 : 1)) g_crowd(&g, 0);
        g_list(&g, 0, 2 + (int)rng_below(r, 7));
        for (i = 0; i < 1 + (int)rng_below(r, 3) && variant != V_SPAWN; i++) { g_async(&g, 0); if (rng_pct(r, 50)) g_get(&g, 0); }
        if (variant == V_SPAWN || rng_pct(r, 25)) g_fscope(&g, 0);
        while (g.nvis && rng_pct(r, 80)) g_get(&g, 0);
        if (rng_pct(r, 35)) { int k = 1 + (int)rng_below(r, 2); while (k--) { run->fault[run->nfault].kind = FT_STALL; run->fault[run->nfault].n = 1 + (int)rng_below(r, 6); run->fault[run->nfault++].arg = 100 + (int)rng_below(r, 4000); } }
        if (variant == V_FUTFAULT) {
            int nf = 1 + (int)rng_below(r, 3);
            for (i = 0; i < nf; i++) {
                int th = rng_pct(r, 40);
                run->fault[run->nfault].kind = th ? FT_THRD : FT_ALLOC; run->fault[run->nfault].arg = th ? 2 + (int)rng_below(r, 2) : 0;
                run->fault[run->nfault++].n = 1 + (int)rng_below(r, th ? 6 : rng_pct(r, 60) ? 15 : 60);
            }
        }
        return;
    }
    g.budget = 6 + (int)rng_below(r, rng_pct(r, 15) ? 150 : 45) + g.chain * 2;
    if (variant == V_UNCAUGHT || (variant == V_HOOKS && rng_pct(r, 20))) {
        g.may_throw = rng_pct(r, 60);
        g_list(&g, 0, 2 + (int)rng_below(r, 6));
        g.budget += 4;
        i = (int)rng_below(r, 10);
        if (i < 4) emit(&g, 0, K_THROW, pick_exc(&g), 0, 0);
        else if (i < 7) emit(&g, 0, K_PANIC, (int)rng_below(r, NMSG), 0, 0);
        else if (i < 9) emit(&g, 0, K_SIGNAL, X_SFPE + (int)rng_below(r, X_SEND - X_SFPE), 0, 0);
        else emit(&g, 0, K_TRAP, (int)rng_below(r, 2), 0, 0);
        return;
    }
    g.may_throw = variant == V_OOM ? 0 : rng_pct(r, 12);
    g_list(&g, 0, 2 + (int)rng_below(r, 8));
    if (variant == V_OOM || (variant == V_HOOKS && rng_pct(r, 15)) || (variant == V_ARGS && rng_pct(r, 30))) {
        int nf = 1 + (int)rng_below(r, 3);
        for (i = 0; i < nf; i++) { run->fault[run->nfault].kind = FT_ALLOC; run->fault[run->nfault].arg = 0; run->fault[run->nfault++].n = 1 + (int)rng_below(r, rng_pct(r, 60) ? 12 : 50); }
    }
}

/* ================================================================ reference model */
enum { M_NORMAL, M_BREAK, M_RETURN, M_THROWN, M_TERMINATED };
typedef struct { int ex, msg, pl, bt, sig; } exc_t;       /* ex: X_*, msg: 0 or code of the panic message; place; operation in the stack trace; the signal it stands for */
typedef struct mscope { int node, n; struct { int type, node, armed; struct mscope *sub; } e[MAXOPS]; struct mscope *parent; exc_t err; int has_err; int recovered; } mscope_t;
typedef struct mctx { int nprot, prot[64]; struct mctx *up; int guard; } mctx_t;
static mscope_t m_gs[MAXOPS];
static mscope_t m_thread[MAXTHREADS + 8];
static logent_t exp_log[MAXLOG];
static int nexp, m_thr;
static exc_t m_exc;
static mctx_t *m_ctx;
static mscope_t *m_tscope;
static int m_sigint;
static int m_depth;

static void mlog(int ev, int a, int b) {
    if (nexp < MAXLOG) { exp_log[nexp].thr = m_thr; exp_log[nexp].ev = ev; exp_log[nexp].a = a; exp_log[nexp].b = b; nexp++; }
}
static int code(exc_t e) { return e.msg ? e.msg : CODE_X(e.ex); }
static int m_list(int first, mscope_t *g);
static int m_node(int i, mscope_t *g);

static int m_hooks, m_picky, m_ending;
static mscope_t m_app[MAXTHREADS + 8];
static int m_has_app[MAXTHREADS + 8];
static mscope_t *my_app(void) {
    int t = m_thr >= 100 ? m_thr - 100 : 0;
    return m_has_app[t] ? &m_app[t] : NULL;
}
static int m_run_scope(mscope_t *s);
static jmp_buf m_dead;
static int m_dead_root, m_sig, m_own[X_SEND], m_name[X_SEND];
static int m_signal(int x, int bt, int ret);

static int m_throw_e(exc_t e) {
    m_exc = e;
    if (m_hooks && !m_ctx->guard) {
        mscope_t *s = my_app();
        mlog(E_SETUP, CODE_X(e.ex), e.msg);
        if (!m_ctx->up) m_ending = 1;
        if (m_hooks >= HK_UNWIND && s && (!m_picky || e.ex % 2)) {
            mlog(E_UNWIND, 0, 0);
            s->err = e; s->has_err = 1;
            m_run_scope(s);
            s->has_err = 0;
            m_ctx->nprot = 0;
            return M_THROWN;
        }
    }
    /* protected pointers of the innermost handler context are released, newest first */
    int pending = 0;
    while (m_ctx->nprot) {
        int nd = m_ctx->prot[--m_ctx->nprot], b = OP(nd).b;
        mlog(E_DTOR, nd, 0);
        if (!b || m_tscope->has_err || m_ending) continue;
        if (b < PD_THROW) pending = b;
        else { m_dead_root = !m_ctx->up; longjmp(m_dead, 1); }
    }
    if (pending) return m_signal(pending - 1, BT_ANY, M_THROWN);     /* held back until then */
    return M_THROWN;
}
static int m_signal(int x, int bt, int ret) {
    if (x < X_SEND && m_own[x - X_SFPE]) { mlog(E_OWN, x, 0); return ret; }
    m_sig = 1;
    if (x == X_SINT) m_sigint = 1;
    { exc_t e = { x < X_SEND && m_name[x - X_SFPE] ? m_name[x - X_SFPE] - 1 : x, 0, PL_ANY, bt, x }; return m_throw_e(e); }
}
static int m_throw_at(int ex, int msg, int pl, int bt) { exc_t e = { ex, msg, pl, bt }; return m_throw_e(e); }
static int m_throw_in(int ex, int msg, int op) { return m_throw_at(ex, msg, PL_ANY, op); }      /* an error of the library */
static int m_rethrow(void) { return m_throw_e(m_exc); }
static void m_where(exc_t e) { mlog(E_WHERE, e.pl, e.msg << 16 | (e.bt & 0xffff)); }

/* run pending entries of a scope, newest first; stops at a throw */
static int m_run_scope(mscope_t *s) {
    while (s->n > 0) {
        int t, nd, armed; mscope_t *sub;
        s->n--;
        t = s->e[s->n].type; nd = s->e[s->n].node; armed = s->e[s->n].armed; sub = s->e[s->n].sub;
        if (!armed) continue;
        if (t == K_ALLOC) { int api = OP(nd).a; if (api == A_MFULL || api == A_CFULL) mlog(E_DTOR, nd, 0); }
        else if (t == K_SCOPE) { m_run_scope(sub); if (sub >= m_app && sub < m_app + MAXTHREADS + 8) m_has_app[sub - m_app] = 0; }
        else {
            int st;
            mlog(E_DEFER, OP(nd).c ? 9999 : nd, s->has_err ? code(s->err) : CODE_NONE);
            st = m_list(first_child(nd), s == m_tscope ? NULL : s);
            if (st == M_THROWN) return st;
        }
    }
    return M_NORMAL;
}

static int m_guard(int i, mscope_t *parent) {
    mscope_t *s = &m_gs[i];
    mctx_t c = { 0 };
    int st, retval = 0, returned = 0, c1;
    if (sim_oom_at(i)) return m_throw_in(X_PANIC, CODE_OTHER, i);
    s->node = i; s->n = 0; s->parent = parent; s->has_err = 0; s->recovered = 0;
    c.up = m_ctx; c.guard = 1; m_ctx = &c;
    mlog(E_ENTER, i, 0);
    st = M_NORMAL;
    for (c1 = first_child(i); c1 >= 0 && st == M_NORMAL; c1 = next_sibling(c1)) {
        if (OP(c1).kind == K_BREAK) { mlog(E_BREAK, c1, 0); st = M_BREAK; }
        else if (OP(c1).kind == K_RETURN) { mlog(E_RETURN, c1, 0); st = M_RETURN; retval = OP(c1).a; returned = 1; }
        else st = m_node(c1, s);
    }
    if (st != M_THROWN) st = m_run_scope(s);
    while (st == M_THROWN) {
        s->err = m_exc; s->has_err = 1; s->recovered = 0; returned = 0;
        st = m_run_scope(s);
        if (st != M_THROWN && !s->recovered) { m_exc = s->err; m_ctx = c.up; return m_throw_e(s->err); }
    }
    m_ctx = c.up;
    if (returned) mlog(E_RETVAL, i, retval);
    else if (OP(i).a & 1) mlog(E_RETVAL, i, 77);
    mlog(E_EXITN, i, 0);
    return M_NORMAL;
}

/* which handler of the form takes the exception: -1 none */
static int takes(int form, exc_t e) {
    switch (form) {
    case TF_ANY: return 0;
    case TF_E0: return e.ex == X_DIV ? 0 : -1;
    case TF_E0E1: return e.ex == X_DIV ? 0 : e.ex == X_RANGE ? 1 : -1;
    case TF_E1ANY: return e.ex == X_RANGE ? 0 : 1;
    case TF_IF02: return e.ex == X_DIV ? 0 : e.ex == X_BADALLOC ? 1 : -1;
    case TF_FINALITY: return 0;
    case TF_PANIC: return e.ex == X_PANIC ? 0 : -1;
    case TF_SIG: return e.ex == X_SFPE ? 0 : e.ex == X_SSEGV ? 1 : -1;
    case TF_IFPANIC: return e.ex == X_PANIC ? 0 : -1;
    case TF_CPRE: return e.ex == X_PREFIX ? 0 : e.ex == X_MINE ? 1 : -1;
    case TF_EIGHT: return e.ex == X_EIGHT ? 0 : e.ex == X_EIGHT2 ? 1 : -1;
    case TF_LONG: return e.ex == X_LONG ? 0 : e.ex == X_LONG2 ? 1 : -1;
    case TF_IFSIG: return e.ex == X_STERM ? 0 : e.ex == X_EIGHT2 ? 1 : -1;
    }
    return -1;
}

static int m_try(int i, mscope_t *g) {
    mctx_t c = { 0 };
    exc_t pend = { 0 }; int has = 0, st, h, ch;
    int form = OP(i).a;
    c.up = m_ctx; m_ctx = &c;
    ch = find_child(i, K_BODY, -1);
    st = ch >= 0 ? m_list(first_child(ch), g) : M_NORMAL;
    if (st == M_THROWN) {
        pend = m_exc; has = 1;
        h = takes(form, pend);
        if (h >= 0) {
            if (form != TF_FINALITY) {
                mlog(E_CATCH, i * 4 + h, CODE_X(pend.ex));
                m_where(pend);
                ch = find_child(i, K_HND, h);
                st = M_NORMAL;
                if (ch >= 0) {
                    int k;
                    for (k = first_child(ch); k >= 0 && st == M_NORMAL; k = next_sibling(k)) {
                        if (OP(k).kind == K_RETHROW) { m_exc = pend; st = m_rethrow(); }
                        else st = m_node(k, g);
                    }
                }
            } else st = M_NORMAL;
            if (st == M_THROWN) pend = m_exc;
        }
    }
    m_ctx = c.up;
    if (OP(i).b) {
        int st2;
        mlog(E_FIN, i, has ? CODE_X(pend.ex) : CODE_NONE);
        ch = find_child(i, K_FIN, -1);
        st2 = ch >= 0 ? m_list(first_child(ch), g) : M_NORMAL;
        if (st2 == M_THROWN) return st2;
    }
    if (st == M_THROWN) return m_throw_e(pend);
    mlog(E_EXITN, i, 0);
    return M_NORMAL;
}

static int match(exc_t e, int mode, int x, int msg) {
    int c = code(e);
    switch (mode) {
    case 0: case 7: return 1;
    case 1: return c == CODE_X(x % X_NUSER);
    case 2: return c == CODE_MSG(msg);
    case 4: return c == CODE_X(X_SFPE + x % (X_SEND - X_SFPE));
    }
    return 0;
}

/* threads */
typedef struct { int created, consumed, failed, ret; exc_t e; } mfut_t;
static mfut_t m_fut[MAXFUT + 1];
static struct { int n, node[MAXFUT], ready[MAXFUT], synced[MAXFUT]; } m_fs[MAXOPS];

static mfut_t m_worker(int i) {
    mfut_t f = { 1 };
    int k = OP(i).c, b = first_child(i), st, s_thr = m_thr, ret = OP(i).b & 3;
    mscope_t *s_ts = m_tscope; mctx_t *s_c = m_ctx, c = { 0 }; exc_t s_e = m_exc;
    m_thr = 101 + k; m_tscope = &m_thread[k + 1]; m_tscope->n = 0; m_tscope->has_err = 0; m_ctx = &c;
    if (sim_oom_at(MAXOPS + b)) { st = m_throw_in(X_PANIC, CODE_OTHER, MAXOPS + b); }
    else {
        mlog(E_START, i, 0);
        int early = (OP(i).a & FA_EARLY) != 0;
        st = (OP(i).b >> 2) == AR_ARGS && sim_oom_at(b) ? m_throw_in(X_PANIC, CODE_OTHER, b) : M_NORMAL;
        if (st != M_THROWN && early && GIVES(i) && sim_oom_at(MAXOPS + i)) st = m_throw_in(X_PANIC, CODE_OTHER, MAXOPS + i);
        if (st != M_THROWN) st = m_list(first_child(b), NULL);
        if (st != M_THROWN && !early && GIVES(i) && sim_oom_at(MAXOPS + i)) st = m_throw_in(X_PANIC, CODE_OTHER, MAXOPS + i);
    }
    if (st == M_THROWN) { f.failed = 1; f.e = m_exc; }
    f.ret = RET_CODE(i, ret);
    m_run_scope(m_tscope);
    m_thr = s_thr; m_tscope = s_ts; m_ctx = s_c; m_exc = s_e;
    return f;
}

static mscope_t *m_app_for(void) {
    mscope_t *s = my_app();
    if (!s) {
        int t = m_thr >= 100 ? m_thr - 100 : 0;
        s = &m_app[t]; m_has_app[t] = 1;
        s->n = 0; s->has_err = 0; s->parent = NULL;
        m_tscope->e[m_tscope->n].type = K_SCOPE; m_tscope->e[m_tscope->n].armed = 1; m_tscope->e[m_tscope->n].sub = s; m_tscope->n++;
    }
    return s;
}
static int m_node(int i, mscope_t *g) {
    int st, a = OP(i).a, b = OP(i).b;
    mscope_t *s;
    switch (OP(i).kind) {
    case K_MARK: mlog(E_MARK, i, 0); return M_NORMAL;
    case K_CALL:
        st = m_list(first_child(i), g);
        if (st == M_NORMAL) mlog(E_EXITN, i, 0);
        return st;
    case K_GUARD: return m_guard(i, g);
    case K_TRY: return m_try(i, g);
    case K_THROW: return m_throw_at(a, 0, i & 1 ? PL_USER(i) : PL_THROW(a), i);
    case K_PANIC: return m_throw_at(X_PANIC, CODE_MSG(a), PL_PANIC, i);
    case K_SIGNAL: if (m_tscope->has_err || m_ending) return M_NORMAL; st = m_signal(a, i, M_NORMAL); if (st == M_NORMAL) mlog(E_SIGRET, i, 0); return st;
    case K_TRAP: if (m_tscope->has_err || m_ending) return M_NORMAL; return m_signal(a ? X_SFPE : X_SSEGV, i, M_NORMAL);
    case K_HOOKS: m_hooks = a; m_picky = b; return M_NORMAL;
    case K_DEFER:
        if (a == D_APP) s = m_app_for();
        if (sim_oom_at(i)) return m_throw_in(X_PANIC, CODE_OTHER, i);
        if (a == D_APP) {
            s->e[s->n].type = K_DEFER; s->e[s->n].node = i; s->e[s->n].armed = 1; s->n++;
            return M_NORMAL;
        }
        s = a >= 2 ? m_tscope : g;
        if (s && a < 2 && b && s->parent) s = s->parent;
        if (!s) return M_NORMAL;
        s->e[s->n].type = K_DEFER; s->e[s->n].node = i; s->e[s->n].armed = 1; s->n++;
        return M_NORMAL;
    case K_RECOVER:
        if (!g) {
            if (m_tscope->has_err && !in_try_of_defer(i)) mlog(E_RECOVER, i, a == 5 || a == 6 ? 0 : match(m_tscope->err, a, b, OP(i).c));
            return M_NORMAL;
        }
        { int ok = g->has_err && match(g->err, a, b, OP(i).c);
          if (ok) g->recovered = 1;
          mlog(E_RECOVER, i, ok); }
        return M_NORMAL;
    case K_ALLOC:
        s = OP(i).c ? m_app_for() : is_thread_alloc(a) ? m_tscope : g;
        if (sim_oom_at(i)) return m_throw_in(X_PANIC, CODE_OTHER, i);
        if (!s) return M_NORMAL;
        s->e[s->n].type = K_ALLOC; s->e[s->n].node = i; s->e[s->n].armed = 1; s->n++;
        mlog(E_ALLOC, i, 0);
        return M_NORMAL;
    case K_USE: case K_YIELD: case K_BTRACE: return M_NORMAL;
    case K_REPEAT: if (a == RP_SIGNAL || a == RP_NAMES) m_sig = 1; mlog(E_MARK, i, 0); return M_NORMAL;
    case K_ARGS:
        if (sim_oom_at(i)) return m_throw_in(X_PANIC, CODE_OTHER, i);
        mlog(E_ARGS, i, 0);
        return M_NORMAL;
    case K_ASYNC:
        if (first_child(i) < 0 || OP(first_child(i)).kind != K_BODY || m_fut[OP(i).c].created) return M_NORMAL;
        if (sim_oom_at(i)) return m_throw_in(X_PANIC, CODE_OTHER, i);
        if (sim_thrdfail_at(i)) return m_throw_in(X_FUTURE, 0, i);
        mlog(E_ASYNC, i, 0);
        m_fut[OP(i).c].created = 1;
        m_fut[OP(i).c] = m_worker(i);
        return M_NORMAL;
    case K_GET: {
        mfut_t *f = &m_fut[a];
        if (!fut_reserved(i) || !f->created || f->consumed || f == &m_fut[MAXFUT]) return M_NORMAL;
        f->consumed = 1;
        if (f->failed) return m_throw_at(f->e.ex, f->e.msg, PL_ANY, f->e.bt);
        if (sim_oom_at(i)) return m_throw_in(X_PANIC, CODE_OTHER, i);
        mlog(E_GOT, i, f->ret);
        return M_NORMAL;
    }
    case K_WAITF: case K_DONEF: case K_FINISH: return M_NORMAL;
    case K_MISUSE:
        if ((a == 1 || a == 4) && fscope_of(i) >= 0) return M_NORMAL;     /* it is none there */
        if (a == 1 || a == 4) return m_throw_at(X_PANIC, CODE_OTHER, PL_ANY, i);
        return a == 3 ? M_NORMAL : m_throw_at(X_LOGIC, 0, PL_ANY, i);
    case K_SIGRESET: { int u = m_own[X_SUSR1 - X_SFPE]; memset(m_own, 0, sizeof m_own); m_own[X_SUSR1 - X_SFPE] = u; u = m_name[X_SUSR1 - X_SFPE]; memset(m_name, 0, sizeof m_name); m_name[X_SUSR1 - X_SFPE] = u; return M_NORMAL; }
    case K_FLAGS: m_sig = m_sigint = 0; return M_NORMAL;
    case K_OWNSIG: m_own[a - X_SFPE] = !b; if (b) m_name[a - X_SFPE] = b == 2 ? OP(i).c + 1 : 0; return M_NORMAL;
    case K_FSCOPE: {
        mctx_t c = { 0 };
        int t;
        if (sim_oom_at(i)) return m_throw_in(X_PANIC, CODE_OTHER, i);
        m_fs[i].n = 0;
        c.up = m_ctx; m_ctx = &c;
        st = m_list(first_child(i), g);
        m_ctx = c.up;
        mlog(E_DESTROY, i, 0);
        (void)t;
        return st == M_THROWN ? m_rethrow() : st;
    }
    case K_SPAWNF: {
        int s2 = fscope_of(i), n; mfut_t f;
        if (s2 < 0 || first_child(i) < 0 || OP(first_child(i)).kind != K_BODY || m_fs[s2].n >= MAXFUT) return M_NORMAL;
        if (sim_oom_at(i)) return m_throw_in(X_PANIC, CODE_OTHER, i);
        if (sim_thrdfail_at(i)) return m_throw_in(X_FUTURE, 0, i);
        mlog(E_ASYNC, i, 0);
        f = m_worker(i);
        n = m_fs[s2].n++;
        m_fs[s2].node[n] = i; m_fs[s2].ready[n] = 0; m_fs[s2].synced[n] = 0;
        m_fut[OP(i).c] = f;
        return M_NORMAL;
    }
    case K_SYNC: {
        int s2 = fscope_of(i), k, first = -1;
        if (s2 < 0) return M_NORMAL;
        for (k = 0; k < m_fs[s2].n; k++) {
            mfut_t *f = &m_fut[OP(m_fs[s2].node[k]).c];
            if (m_fs[s2].synced[k]) continue;
            m_fs[s2].synced[k] = 1; m_fs[s2].ready[k] = !f->failed;
            if (f->failed && first < 0) first = k;
        }
        if (first >= 0) { mfut_t *f = &m_fut[OP(m_fs[s2].node[first]).c]; return m_throw_at(f->e.ex, f->e.msg, PL_ANY, f->e.bt); }
        mlog(E_SYNC, i, 0);
        return M_NORMAL;
    }
    case K_RESULT: {
        int s2 = fscope_of(i), k;
        if (s2 < 0 || !m_fs[s2].n) return M_NORMAL;
        k = a % m_fs[s2].n;
        if (!m_fs[s2].ready[k]) return m_throw_in(X_LOGIC, 0, i);
        mlog(E_RESULT, i, m_fut[OP(m_fs[s2].node[k]).c].ret);
        return M_NORMAL;
    }
    case K_THEN: {
        int s2 = fscope_of(i), k;
        if (s2 < 0) return M_NORMAL;
        for (k = 0; k < m_fs[s2].n; k++) if (m_fs[s2].ready[k]) mlog(E_THEN, i * 64 + k, m_fut[OP(m_fs[s2].node[k]).c].ret);
        return M_NORMAL;
    }
    case K_FREEM: {
        int k, m = 0, want, api;
        if (!g) return M_NORMAL;
        for (k = 0; k < g->n; k++) if (g->e[k].armed && g->e[k].type == K_ALLOC) m++;
        if (!m) return M_NORMAL;
        want = a % m;
        for (k = 0; k < g->n; k++) if (g->e[k].armed && g->e[k].type == K_ALLOC && want-- == 0) break;
        g->e[k].armed = 0;
        api = OP(g->e[k].node).a;
        mlog(E_FREEM, g->e[k].node, b);
        if (!b && (api == A_MFULL || api == A_CFULL)) mlog(E_DTOR, g->e[k].node, 0);
        return M_NORMAL;
    }
    case K_TCANCEL: case K_TFIRE: case K_CANCEL: case K_FIRE: {
        int k, m = 0, want;
        if (OP(i).kind == K_TCANCEL || OP(i).kind == K_TFIRE) g = m_tscope;
        if (!g) return M_NORMAL;
        for (k = 0; k < g->n; k++) if (g->e[k].armed && g->e[k].type == K_DEFER) m++;
        if (!m) return M_NORMAL;
        want = a % m;
        for (k = 0; k < g->n; k++) if (g->e[k].armed && g->e[k].type == K_DEFER && want-- == 0) break;
        g->e[k].armed = 0;
        if (OP(i).kind == K_CANCEL || OP(i).kind == K_TCANCEL) { mlog(E_CANCEL, g->e[k].node, 0); return M_NORMAL; }
        mlog(E_FIRE, g->e[k].node, 0);
        mlog(E_DEFER, OP(g->e[k].node).c ? 9999 : g->e[k].node, g->has_err ? code(g->err) : CODE_NONE);
        return m_list(first_child(g->e[k].node), g == m_tscope ? NULL : g);
    }
    case K_PROTECT: {
        mctx_t *c = m_ctx; int d = c->nprot;
        if (sim_oom_at(i)) return m_throw_in(X_PANIC, CODE_OTHER, i);
        if (m_hooks >= HK_UNWIND) { st = m_list(first_child(i), g); if (st == M_NORMAL) mlog(E_PROTOK, i, 0); return st; }
        c->prot[c->nprot++] = i;
        st = m_list(first_child(i), g);
        if (st != M_NORMAL) return st;
        c->nprot = d;
        mlog(E_PROTOK, i, 0);
        return M_NORMAL;
    }
    case K_SCOPE: {
        int k;
        if (!g) return M_NORMAL;
        s = &m_gs[i];
        s->node = i; s->n = 0; s->parent = NULL; s->has_err = 0;
        g->e[g->n].type = K_SCOPE; g->e[g->n].node = i; g->e[g->n].armed = 1; g->e[g->n].sub = s; g->n++;
        for (k = first_child(i); k >= 0; k = next_sibling(k)) { st = m_node(k, s); if (st != M_NORMAL) return st; }
        return M_NORMAL;
    }
    case K_CLEAN:
        if (sim_oom_at(i)) return m_throw_in(X_PANIC, CODE_OTHER, i);
        st = m_run_scope(m_tscope);
        if (st == M_NORMAL) mlog(E_CLEAN, i, 0);
        return st;
    case K_SPAWN: {
        int st_thr = m_thr; mscope_t *ts = m_tscope; mctx_t *cs = m_ctx, c = { 0 };
        if (sim_thrdfail_at(i)) { mlog(E_SPAWN, i, 1); return M_NORMAL; }
        mlog(E_SPAWN, i, 0);
        m_thr = 100 + a; m_tscope = &m_thread[a]; m_tscope->n = 0; m_tscope->has_err = 0; m_ctx = &c;
        {   /* the thread's body runs inside an implicit catch-all */
            mctx_t c2 = { 0 };
            c2.up = &c; m_ctx = &c2;
            st = m_list(first_child(i), NULL);
            m_ctx = &c;
            if (st == M_THROWN) { mlog(E_CATCH, i * 4, CODE_X(m_exc.ex)); m_where(m_exc); }
        }
        m_run_scope(m_tscope);
        mlog(E_THREADEND, i, 0);
        m_thr = st_thr; m_tscope = ts; m_ctx = cs;
        return M_NORMAL;
    }
    }
    return M_NORMAL;
}
static int m_list(int first, mscope_t *g) {
    int i, st = M_NORMAL;
    for (i = first; i >= 0 && st == M_NORMAL; i = next_sibling(i)) st = m_node(i, g);
    return st;
}

extern int term_trace, lib_debug;
static const char *evname(int e) {
    static const char *n[] = { "?", "mark", "enter-guard", "left", "defer-ran", "recover", "catch", "finally", "destructor", "allocated", "break", "return", "returned-value", "cancel", "fire", "terminate-callback", "ctrl-c-callback", "exit", "thread-end", "spawn", "protected-block-done", "cleaned", "signal-returned", "trap-returned", "thread-created", "thread-function", "got-value", "synced", "result", "then-callback", "destroyed", "arguments", "memory-released", "thrown-at", "setup-callback", "unwind-callback", "own-handler" };
    return e >= 0 && e < (int)(sizeof n / sizeof *n) ? n[e] : "?";
}
static void ent(char *b, size_t n, logent_t *e) {
    if (!e) snprintf(b, n, "nothing more");
    else snprintf(b, n, "%s(op %d, %d)", evname(e->ev), e->a, e->b);
}

/* what happens when an error ends the process */
static void m_end(exc_t fin) {
    const char *t = code_text(code(fin)); char pl[32];
    if (fin.sig == X_SINT && m_sigint) mlog(E_CTRLC, 0, 0);
    else if (m_sigint) mlog(E_CTRLC, -1, 0);
    mlog(E_TERM, 0, 0);
    /* at once if a signal is the reason: its handler may have interrupted anything; if there was no signal, after what the program registered */
    mlog(E_EXIT, 1, !m_sig ? 0 : fin.sig ? 1 : -1);
    /* the report of the error on the error stream */
    if (lib_debug && fin.bt != BT_ANY && (fin.bt & 0xffff) != (term_trace & 0xffff)) sim_violation("report", "the stack trace of the error '%s' of op %d, which ends the process, is not reported, but that of op %d", t ? t : "?", fin.bt & 0xffff, term_trace);
    if (t && !strstr(sim_stderr(), t)) sim_violation("report", "the error '%s', which ends the process, is not reported", t);
    if (fin.sig && (strstr(sim_stderr(), "in a function at") || strstr(sim_stderr(), "in do_throw at") || strstr(sim_stderr(), "in do_panic at") || strstr(sim_stderr(), "function(a function)") || strstr(sim_stderr(), "function(do_throw)") || strstr(sim_stderr(), "function(do_panic)")))
        sim_violation("report", "the signal which ends the process is reported with the place of another error");
    if (fin.pl >= PL_USER(0) && fin.pl < PL_THROW(0)) {
        snprintf(pl, sizeof pl, "%d", fin.pl);
        if (lib_debug && (!strstr(sim_stderr(), "a file") || !strstr(sim_stderr(), pl)) || !strstr(sim_stderr(), "a function")) sim_violation("report", "the place of the error '%s', which ends the process, is not reported", t);
    }
}
void prog_check(void) {
    mctx_t root = { 0 };
    int st, t, i, j;
    int thrs[MAXTHREADS + 120] = { 0 };
    m_sig = 0; memset(m_own, 0, sizeof m_own); memset(m_name, 0, sizeof m_name);
    m_hooks = 0; m_ending = 0; memset(m_has_app, 0, sizeof m_has_app);
    nexp = 0; m_thr = 0; m_tscope = &m_thread[0]; m_tscope->n = 0; m_tscope->has_err = 0; m_ctx = &root; m_sigint = 0;
    if (is_fut(R->variant)) {
        mctx_t c2 = { 0 };
        c2.up = &root; m_ctx = &c2;
        st = m_list(first_child(-1), NULL);
        m_ctx = &root;
        if (st == M_THROWN) { mlog(E_CATCH, -4, CODE_X(m_exc.ex)); m_where(m_exc); }
        for (i = 0; i < MAXFUT; i++) {
            int n = fut_node(i);
            if (n >= 0 && m_fut[i].created && !m_fut[i].consumed) {
                m_fut[i].consumed = 1;
                mlog(E_GOT, -1 - i, m_fut[i].failed ? code(m_fut[i].e) : m_fut[i].ret);
                if (m_fut[i].failed) mlog(E_WHERE, PL_ANY, m_fut[i].e.bt & 0xffff);
            }
        }
        st = M_NORMAL;
    } else if (setjmp(m_dead)) {     /* a destructor threw while an error released what it protects */
        int k, how = m_sig;
        for (k = 0; k < R->nlog; k++) if (R->log[k].thr == 1000 && (R->log[k].ev == 1000 || R->log[k].ev == 1001) && m_sig) how = R->log[k].ev == 1001;
        m_ending = 1;
        exc_t fin = m_exc;
        m_tscope->err = fin; m_tscope->has_err = m_dead_root;
        if (m_dead_root) m_run_scope(m_tscope);
        m_thr = 1000;
        m_end(fin);
        m_thr = 0;
        if (!how) m_run_scope(m_tscope);
        if (lib_debug && !strstr(sim_stderr(), "during stack unwinding")) sim_violation("report", "an error thrown while another one is on its way is not reported as such");
        st = M_NORMAL;
        m_tscope->n = 0;
    } else st = m_list(first_child(-1), NULL);
    if (st != M_THROWN) st = m_run_scope(m_tscope);     /* the process' normal end */
    if (st == M_THROWN) {
        while (st == M_THROWN) {
            m_tscope->err = m_exc; m_tscope->has_err = !m_hooks;
            st = m_run_scope(m_tscope);
        }
        m_thr = 1000;
        m_end(m_tscope->err);
    }
    for (i = 0; i < nexp; i++) thrs[exp_log[i].thr < 1000 ? exp_log[i].thr : MAXTHREADS + 110] = exp_log[i].thr + 1;
    for (i = 0; i < R->nlog; i++) {
        if (R->log[i].thr == 1000 && (R->log[i].ev == 1000 || R->log[i].ev == 1001)) { R->log[i].b = R->log[i].ev == 1001; R->log[i].ev = E_EXIT; }
        thrs[R->log[i].thr < 1000 ? R->log[i].thr : MAXTHREADS + 110] = R->log[i].thr + 1;
    }
    for (t = 0; t < MAXTHREADS + 120; t++) {
        int th = thrs[t] - 1, pos = 0;
        if (th < 0) continue;
        i = j = 0;
        for (;;) {
            logent_t *e = NULL, *o = NULL;
            char eb[120], ob[120];
            while (i < nexp && exp_log[i].thr != th) i++;
            while (j < R->nlog && R->log[j].thr != th) j++;
            if (i < nexp) e = &exp_log[i];
            if (j < R->nlog) o = &R->log[j];
            if (!e && !o) break;
            if (e && e->ev == E_CTRLC && e->a == -1) { i++; if (o && o->ev == E_CTRLC) j++; continue; }
            if (e && o && e->ev == E_EXIT && o->ev == E_EXIT && e->a == o->a && e->b == -1) { i++; j++; pos++; continue; }
            if (e && o && e->ev == E_WHERE && o->ev == E_WHERE && (e->a == PL_ANY || e->a == o->a) && e->b >> 16 == o->b >> 16 && ((e->b & 0xffff) == BT_ANY || e->b == o->b || !lib_debug && (o->b & 0xffff) == 0xfffe)) { i++; j++; pos++; continue; }
            if (e && o && e->ev == o->ev && e->a == o->a && e->b == o->b) { i++; j++; pos++; continue; }
            ent(eb, sizeof eb, e); ent(ob, sizeof ob, o);
            sim_violation("trace-mismatch", "thread %d, event %d: expected %s, observed %s", th, pos, eb, ob);
        }
    }
}
