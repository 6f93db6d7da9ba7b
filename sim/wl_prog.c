/* Interpreter of program trees on the real macros of raii.h / exception.h. Instrumented. */
#include "raii.h"
#include "prog.h"
#include <pthread.h>
#include <limits.h>
#include <stdint.h>
#include <math.h>
#include <unistd.h>

#define OP(i) (R->prog.op[i])
EX_EXCEPTION(my_exception);
EX_EXCEPTION(my_except);
EX_EXCEPTION(eightchr);
EX_EXCEPTION(eightchs);
#define LONG1 a_name_which_is_so_long_that_it_takes_several_words_and_differs_at_its_end_only_1
#define LONG2 a_name_which_is_so_long_that_it_takes_several_words_and_differs_at_its_end_only_2
EX_EXCEPTION(a_name_which_is_so_long_that_it_takes_several_words_and_differs_at_its_end_only_1);
EX_EXCEPTION(a_name_which_is_so_long_that_it_takes_several_words_and_differs_at_its_end_only_2);
EX_EXCEPTION(my_signal);
C_API const char EX_NAME(divide_by_zero)[];
C_API const char EX_NAME(range_error)[];
C_API const char EX_NAME(bad_alloc)[];
C_API const char EX_NAME(logic_error)[];

typedef struct {
    int node;
    memory_t *scope;
    int n;
    short ent[MAXOPS];                 /* nodes of entries, in order of registration */
} frame_t;
typedef struct fchain { frame_t *f; struct fchain *up; } fchain_t;

static frame_t fr[MAXOPS];             /* frame of a guard or scope node */
static frame_t tf[MAXTHREADS + 8];     /* thread frames */
static struct { frame_t *f; int pos, armed; size_t idx; } drec[MAXOPS];
static struct { unsigned char *p; int size, live; unsigned gen; size_t idx; } arec[MAXOPS];
static unsigned char passed[MAXOPS];   /* entry registered after one that has run already: its memory may be gone */
static frame_t *parent_of[MAXOPS];     /* guard node -> enclosing frame */
static thrd_t thr_h[MAXOPS]; static int thr_n;
static void do_list(int first, frame_t *g);
static void do_node(int i, frame_t *g);

static const char *sig_ex[] = { "sig_fpe", "sig_segv", "sig_term", "sig_int", "sig_abrt", "sig_ill", "sig_bus", "sig_hup", "sig_quit", "sig_alrm", "sig_trap", "sig_winch", "my_signal" };
static const int sig_no[] = { SIGFPE, SIGSEGV, SIGTERM, SIGINT, SIGABRT, SIGILL, SIGBUS, SIGHUP, SIGQUIT, SIGALRM, SIGTRAP, SIGWINCH, SIGUSR1 };
static const char *user_ex[] = { "divide_by_zero", "range_error", "bad_alloc", "logic_error", "my_exception", "my_except", "eightchr", "eightchs",
    "a_name_which_is_so_long_that_it_takes_several_words_and_differs_at_its_end_only_1", "a_name_which_is_so_long_that_it_takes_several_words_and_differs_at_its_end_only_2" };
static const char *msgs[] = { "message zero", "message one", "the third message", "m4", "divide_by_zero!", "a rather longer message, which does not fit in a word", "message", "eight ch",
#define LONGMSG "a message of which nobody would think that it is ever cut off, because it has a good deal to tell: where it happened, what was expected, what was found instead, who has to be told of it, what may be done about it, and that none of all this fits in two hundred and fifty-six bytes, so that its last character counts: "
    LONGMSG "1", LONGMSG "2" };

const char *code_text(int c) {
    if (c >= CODE_MSG(0) && c < CODE_MSG(NMSG)) return msgs[c - CODE_MSG(0)];
    if (c >= CODE_X(0) && c < CODE_X(X_NUSER)) return user_ex[c - CODE_X(0)];
    if (c >= CODE_X(X_SFPE) && c < CODE_X(X_SEND)) return sig_ex[c - CODE_X(X_SFPE)];
    return NULL;
}
static int code_of(const char *s) {
    int i;
    if (!s) return CODE_NONE;
    for (i = 0; i < X_NUSER; i++) if (!strcmp(s, user_ex[i])) return CODE_X(i);
    for (i = 0; i < X_SEND - X_SFPE; i++) if (!strcmp(s, sig_ex[i])) return CODE_X(X_SFPE + i);
    for (i = 0; i < NMSG; i++) if (!strcmp(s, msgs[i])) return CODE_MSG(i);
    if (!strcmp(s, "panic")) return CODE_X(X_PANIC);
    if (!strcmp(s, "future_error")) return CODE_X(X_FUTURE);
    return CODE_OTHER;
}
static int is_mem(int kind) { return kind == K_ALLOC || kind == K_GET || kind == K_ARGS; }
static frame_t *my_tf(void) { int l = sim_logical(); return &tf[l >= 100 ? l - 100 : 0]; }
static unsigned char pat(int node, int k) { return (unsigned char)(node * 37 + k * 11 + 5); }

static unsigned char ending[MAXTHREADS + 8];   /* thread-scope functions run because of an uncaught exception: maybe inside a signal handler */
static unsigned exp_mask[MAXTHREADS + 8];      /* signals each thread has blocked itself, or inherited */
static void block_signals(unsigned m) {
    sigset_t s; int k;
    sigemptyset(&s);
    for (k = 1; k < 32; k++) if ((m >> k) & 1) sigaddset(&s, k);
    pthread_sigmask(SIG_BLOCK, &s, NULL);
    exp_mask[my_tf() - tf] |= m;
}
static void check_mask(int node) {
    sigset_t s; int k;
    if (ending[my_tf() - tf]) return;
    pthread_sigmask(SIG_SETMASK, NULL, &s);
    for (k = 1; k < 32; k++) {
        int want = (exp_mask[my_tf() - tf] >> k) & 1;
        if (sigismember(&s, k) == 1 && !want) sim_violation("signal-mask", "signal %d is still blocked after op %d", k, node);
        if (sigismember(&s, k) == 0 && want) sim_violation("signal-mask", "signal %d, blocked by the program, is not blocked any more after op %d", k, node);
    }
}
#define EACH(k, n) for (k = 0; k < (n); k += (n) > 6000 && k >= 64 && k < (n) - 64 ? 331 : 1)     /* of large pieces, some bytes */
static void check_alloc(int a, int at) {
    int k;
    if (!arec[a].live) return;
    if (sim_gen(arec[a].p) != arec[a].gen) sim_violation("memory-lost", "the memory of op %d was released while still usable, seen in op %d", a, at);
    EACH(k, arec[a].size)
        if (arec[a].p[k] != pat(a, k)) sim_violation("memory-clobbered", "byte %d of the memory of op %d changed, seen in op %d", k, a, at);
}
static void check_frame(frame_t *f, int at) {
    int k;
    for (k = 0; k < f->n; k++) if (is_mem(OP(f->ent[k]).kind) && !passed[f->ent[k]]) check_alloc(f->ent[k], at);
}
static void frame_gone(frame_t *f, int at) {
    int k;
    for (k = 0; k < f->n; k++) {
        int a = f->ent[k];
        if (OP(a).kind == K_SCOPE) frame_gone(&fr[a], at);
        if (OP(a).kind == K_DEFER && drec[a].armed && f >= tf && f < tf + MAXTHREADS + 8 && drec[a].f == f)
            sim_violation("defer-missing", "the function deferred by op %d had not run when its thread was joined, op %d", a, at);
        if (!is_mem(OP(a).kind)) continue;
        if (arec[a].live && sim_gen(arec[a].p) == arec[a].gen) sim_violation("memory-kept", "the memory of op %d outlived its scope, op %d", a, at);
        arec[a].live = 0;
    }
}
static void add_entry(frame_t *f, int node) { passed[node] = 0; f->ent[f->n++] = (short)node; }

static int in_tdefer[MAXTHREADS + 8];

/* ---------------------------------------------------------------- deferred functions */
/* `_recover`, `_is_caught` and `_get_message` in a deferred function mean the guard it belongs to */
static void check_current(frame_t *f, int i) {
    memory_t *now = (memory_t *)raii_local()->arena;
    if (f < fr || f >= fr + MAXOPS || OP(f - fr).kind != K_GUARD || now == f->scope) return;
    if (now && is_type(now, RAII_SPAWN)) return;      /* a thread scope takes that place */
    sim_violation("wrong-scope", "while deferred function of op %d runs, another guard than its own, op %d, is the current one", i, (int)(f - fr));
}
static void defer_cb(void *data) {
    int i = (int)(intptr_t)data - 1;
    frame_t *f = drec[i].f;
    int k, op = sim_getop();
    const char *m;
    sim_setop(i);
    drec[i].armed = 0;
    for (k = drec[i].pos; k < f->n; k++) passed[f->ent[k]] = 1;
    m = raii_message_by(f->scope);
    if (m && f >= tf && f < tf + MAXTHREADS + 8) ending[f - tf] = 1;
    sim_log(E_DEFER, i, code_of(m));
    check_current(f, i);
    check_frame(f, i);
    k = f >= fr && f < fr + MAXOPS && OP(f - fr).kind == K_SCOPE;    /* nothing may be thrown out of raii_delete */
    if (f >= tf && f < tf + MAXTHREADS + 8 && is_fut(R->variant)) k |= 2, in_tdefer[f - tf]++;   /* nor at the end of a thread */
    if (k) sim_nofault(1);
    do_list(first_child(i), f >= tf && f < tf + MAXTHREADS + 8 ? NULL : f);
    if (k) sim_nofault(0);
    if (k & 2) in_tdefer[f - tf]--;
    sim_setop(op);
}
/* registered more than once with the same data: only the order tells which one this is */
static __thread int firing;
static void anon_cb(void *data) {
    frame_t *f = data;
    int k, i = firing - 1;
    if (!firing) {
        for (k = f->n - 1; k >= 0; k--) if (OP(f->ent[k]).kind == K_DEFER && OP(f->ent[k]).c && drec[f->ent[k]].armed) break;
        if (k < 0) sim_violation("trace-mismatch", "a deferred function ran, and none is pending");
        i = f->ent[k];
        for (k = drec[i].pos; k < f->n; k++) passed[f->ent[k]] = 1;
    }
    firing = 0;
    drec[i].armed = 0;
    sim_log(E_DEFER, 9999, code_of(raii_message_by(f->scope)));
}
static void dtor_cb(void *p) {
    int i;
    for (i = 0; i < R->prog.n; i++) if (arec[i].live && arec[i].p == p && sim_gen(p) == arec[i].gen) break;
    if (i == R->prog.n) sim_violation("destructor", "a destructor got a pointer that is not a live scope allocation");
    check_alloc(i, i);
    sim_log(E_DTOR, i, 0);
    arec[i].live = 0;
    free(p);
}
/* ---------------------------------------------------------------- the application's own scope, and its callbacks */
static int hooks, picky;
typedef struct { memory_t *scope; frame_t f; ex_context_t *entered, *skip; int nskip; void *data; } app_t;
static app_t apps[MAXTHREADS + 8];
static app_t *my_app(void) { return &apps[my_tf() - tf]; }
static void app_end(void *p) {
    app_t *a = p;
    memory_t *s = a->scope;
    raii_delete(s);
    frame_gone(&a->f, sim_getop());
    a->f.n = 0; a->scope = NULL;
}
static frame_t *app_frame(void) {
    app_t *a = my_app();
    if (a->scope) return &a->f;
    sim_nofault(1);
    a->scope = unique_init();
    a->f.scope = a->scope; a->f.n = 0; a->f.node = -1;
    raii_defer(app_end, a);
    sim_nofault(0);
    return &a->f;
}
static void on_setup(ex_context_t *ctx, const char *ex, const char *panic) {
    app_t *a = my_app();
    if (ctx == a->skip && a->nskip++ < 2) return;          /* a block of the workload's own: thrown in, and thrown on */
    sim_log(E_SETUP, code_of(ex), code_of(panic));
    if (ctx != ex_local()) sim_violation("setup-context", "the setup callback got a context, which is not the one the error enters");
    if (ctx->ex != ex || ctx->panic != panic) sim_violation("setup-context", "the setup callback got another error than its context shows");
    a->entered = ctx;
    if (!ctx->next) ending[my_tf() - tf] = 1;
    if (hooks < HK_UNWIND || !a->scope || (picky && code_of(ex) % 2)) return;
    a->scope->err = (void *)ex;
    a->scope->panic = panic;
    a->data = ctx->data;
    if (hooks == HK_SWAP) ex_swap_set(ctx, a); else ex_data_set(ctx, a);
    ex_unwind_set(ctx, true);
}
static void on_unwind(void *data) {
    app_t *a = my_app();
    sim_log(E_UNWIND, 0, 0);
    if (data != (void *)a) sim_violation("setup-context", "the unwind callback did not get the data its setup callback has set");
    if (!ex_uncaught_exception()) sim_violation("state", "no exception is reported as uncaught in the unwind callback");
    if (ex_data_get(ex_local(), NULL) != data) sim_violation("setup-context", "the context does not hold the data any more");
    raii_deferred_free(a->scope);
    frame_gone(&a->f, sim_getop());
    a->f.n = 0;
    a->scope->err = NULL; a->scope->panic = NULL;
    if (hooks == HK_SWAP) {
        ex_swap_reset(ex_local());
        if (ex_data_get(ex_local(), NULL) != a->data) sim_violation("setup-context", "the data of the context is not what it was before it was swapped");
    }
}
static unsigned char *prot_p[MAXOPS];
static void prot_dtor(void *p) {
    int i;
    for (i = 0; i < R->prog.n; i++) if (OP(i).kind == K_PROTECT && prot_p[i] == p) break;
    if (i == R->prog.n) sim_violation("destructor", "a protected pointer's destructor got a pointer that is not protected");
    if (!ex_uncaught_exception()) sim_violation("state", "no exception is reported as uncaught while it releases the pointer of op %d", i);
    sim_log(E_DTOR, i, 0);
    prot_p[i] = NULL;
    free(p);
    if (!OP(i).b || ending[my_tf() - tf]) return;
    if (OP(i).b < PD_THROW) { sim_expect_signal(sig_no[OP(i).b - 1 - X_SFPE]); raise(sig_no[OP(i).b - 1 - X_SFPE]); }
    else { ending[my_tf() - tf] = 1; sim_leakcheck_off(); sim_fired(FT_THROW); throw(logic_error); }
}

/* ---------------------------------------------------------------- guard */
#define GUARD_BODY()                                                        \
        f->node = n; f->scope = _$__FUNCTION__; f->n = 0;     \
        sim_log(E_ENTER, n, 0);                                             \
        for (c = first_child(n); c >= 0 && !how; c = next_sibling(c)) {     \
            if (OP(c).kind == K_BREAK) { sim_log(E_BREAK, c, 0); how = 1; } \
            else if (OP(c).kind == K_RETURN) { sim_log(E_RETURN, c, 0); how = 2; ret = OP(c).a; } \
            else do_node(c, f);                                             \
        }                                                                   \
        sim_setop(n);                                                       \
        if (how == 1) break;                                                \
        if (how == 2) { _return(ret); }

static int guard_plain(int n) {
    frame_t *f = &fr[n];
    int c, how = 0, ret = 0;
    guard
        GUARD_BODY()
    guarded
    return -1;
}
static int guard_value(int n) {
    frame_t *f = &fr[n];
    int c, how = 0, ret = 0;
    guard
        GUARD_BODY()
    unguarded(77)
}
block(void, guard_blocked, int n)
        frame_t *f = &fr[n];
        int c, how = 0;
        _assign_ptr(mine);
        f->node = n; f->scope = mine; f->n = 0;
        sim_log(E_ENTER, n, 0);
        for (c = first_child(n); c >= 0 && !how; c = next_sibling(c)) {
            if (OP(c).kind == K_BREAK) { sim_log(E_BREAK, c, 0); how = 1; }
            else do_node(c, f);
        }
        sim_setop(n);
        if (how == 1) break;
blocked
block(int, guard_unblocked, int n)
        frame_t *f = &fr[n];
        int c, how = 0, ret = 0;
        GUARD_BODY()
unblocked(77)
static void do_guard(int n, frame_t *g) {
    int r = -1, c;
    parent_of[n] = g;
    switch (OP(n).a) {
    case 1: r = guard_value(n); break;
    case 2:
        for (c = first_child(n); c >= 0; c = next_sibling(c)) if (OP(c).kind == K_RETURN) break;
        if (c < 0) guard_blocked(n); else r = guard_plain(n);      /* nothing to return there */
        break;
    case 3: r = guard_unblocked(n); break;
    default: r = guard_plain(n);
    }
    sim_setop(n);
    check_mask(n);
    frame_gone(&fr[n], n);
    if (r != -1) sim_log(E_RETVAL, n, r);
    sim_log(E_EXITN, n, 0);
}

/* ---------------------------------------------------------------- try */
static void h_enter(int n, int h, const char *err) {
    int c = code_of(err);
    sim_log(E_CATCH, n * 4 + h, c);
    check_mask(n);
}
#ifdef USE_DEBUG
int lib_debug = 1;
#else
int lib_debug;      /* the release configuration keeps no stack traces */
#endif
static int throw_line[X_NUSER];
static int ends_with(const char *s, const char *e) { size_t n = strlen(s), m = strlen(e); return n >= m && !strcmp(s + n - m, e); }
static void where(const char *file, int line, const char *func, const char *panic, ex_backtrace_t *bt) {
    int x, pl = -2, op = -2;
    if (file && func) {
        if (!strcmp(file, "a file") && !strcmp(func, "a function")) pl = line;
        else if (ends_with(file, "wl_prog.c") && !strcmp(func, "do_throw")) { for (x = 0; x < X_NUSER; x++) if (throw_line[x] == line) pl = PL_THROW(x); }
        else if (ends_with(file, "wl_prog.c") && !strcmp(func, "do_panic")) pl = PL_PANIC;
    }
    op = sim_trace_op(bt->ctx, (long)bt->size);
    sim_log(E_WHERE, pl, code_of(panic) << 16 | (op & 0xffff));
    if (ex_uncaught_exception()) sim_violation("state", "an exception is reported as uncaught in its handler, op %d", sim_getop());
}
#define WHERE() where(err_file, err_line, ex_err.function, ex_err.panic, err_backtrace)
#define BODY() { int b_ = find_child(n, K_BODY, -1); if (b_ >= 0) do_list(first_child(b_), g); }
#define H(h)                                                            \
    {                                                                   \
        int b_, k_;                                                     \
        sim_setop(n);                                                   \
        if (hooks && my_app()->entered != &ex_err) sim_violation("setup-context", "the handler of op %d was entered without a call of the setup callback for it", n); \
        h_enter(n, h, err);                                             \
        WHERE();                                                        \
        b_ = find_child(n, K_HND, h);                                   \
        for (k_ = b_ >= 0 ? first_child(b_) : -1; k_ >= 0; k_ = next_sibling(k_)) { \
            if (OP(k_).kind == K_RETHROW) { rethrow(); }                \
            else if (OP(k_).kind == K_BTRACE) { ex_backtrace(err_backtrace); } \
            else do_node(k_, g);                                        \
        }                                                               \
    }
#define FIN() { int b_ = find_child(n, K_FIN, -1); sim_setop(n); sim_log(E_FIN, n, code_of(err)); if (b_ >= 0) do_list(first_child(b_), g); }

#define TRYFN(name, HND)                                                          \
    static void name##_0(int n, frame_t *g) { try { BODY() } HND end_try; }       \
    static void name##_1(int n, frame_t *g) { try { BODY() } HND finally { FIN() } end_try; }
TRYFN(t_any, catch_any { H(0) })
TRYFN(t_e0, catch (divide_by_zero) { H(0) })
TRYFN(t_e0e1, catch (divide_by_zero) { H(0) } catch (range_error) { H(1) })
TRYFN(t_e1any, catch (range_error) { H(0) } catch_any { H(1) })
TRYFN(t_if02, catch_if { if (caught(divide_by_zero)) { H(0) } else if (caught(bad_alloc)) { H(1) } })
TRYFN(t_panic, catch (panic) { H(0) })
TRYFN(t_sig, catch (sig_fpe) { H(0) } catch (sig_segv) { H(1) })
TRYFN(t_cpre, catch_if { if (caught(my_except)) { H(0) } else if (caught(my_exception)) { H(1) } })
TRYFN(t_eight, catch (eightchr) { H(0) } catch (eightchs) { H(1) })
TRYFN(t_long, catch (a_name_which_is_so_long_that_it_takes_several_words_and_differs_at_its_end_only_1) { H(0) } catch (a_name_which_is_so_long_that_it_takes_several_words_and_differs_at_its_end_only_2) { H(1) })
TRYFN(t_ifsig, catch_if { if (caught(sig_term)) { H(0) } else if (caught(eightchs)) { H(1) } })
TRYFN(t_ifpanic, catch_if { if (caught(panic)) { H(0) } })
static void t_none(int n, frame_t *g) { try { BODY() } finally { FIN() } end_try; }
static void t_finality(int n, frame_t *g) { try { BODY() } finality { FIN() } end_trying; }

static void do_try(int n, frame_t *g) {
    int b = OP(n).b;
    switch (OP(n).a) {
    case TF_ANY: b ? t_any_1(n, g) : t_any_0(n, g); break;
    case TF_E0: b ? t_e0_1(n, g) : t_e0_0(n, g); break;
    case TF_E0E1: b ? t_e0e1_1(n, g) : t_e0e1_0(n, g); break;
    case TF_E1ANY: b ? t_e1any_1(n, g) : t_e1any_0(n, g); break;
    case TF_IF02: b ? t_if02_1(n, g) : t_if02_0(n, g); break;
    case TF_NONE: t_none(n, g); break;
    case TF_FINALITY: t_finality(n, g); break;
    case TF_PANIC: b ? t_panic_1(n, g) : t_panic_0(n, g); break;
    case TF_SIG: b ? t_sig_1(n, g) : t_sig_0(n, g); break;
    case TF_CPRE: b ? t_cpre_1(n, g) : t_cpre_0(n, g); break;
    case TF_EIGHT: b ? t_eight_1(n, g) : t_eight_0(n, g); break;
    case TF_LONG: b ? t_long_1(n, g) : t_long_0(n, g); break;
    case TF_IFSIG: b ? t_ifsig_1(n, g) : t_ifsig_0(n, g); break;
    case TF_IFPANIC: b ? t_ifpanic_1(n, g) : t_ifpanic_0(n, g); break;
    }
    sim_setop(n);
    sim_log(E_EXITN, n, 0);
}

/* a handler of the program's own */
static void own_handler(int sig) { int k; for (k = 0; k < X_SEND - X_SFPE; k++) if (sig_no[k] == sig) sim_log(E_OWN, X_SFPE + k, 0); }
C_API const char EX_NAME(sig_fpe)[], EX_NAME(sig_segv)[], EX_NAME(sig_term)[], EX_NAME(sig_int)[], EX_NAME(sig_abrt)[], EX_NAME(sig_ill)[], EX_NAME(sig_bus)[], EX_NAME(sig_hup)[], EX_NAME(sig_quit)[], EX_NAME(sig_alrm)[], EX_NAME(sig_trap)[], EX_NAME(sig_winch)[];
static const char *sig_ex_of(int x) {
    static const char *const n[] = { EX_NAME(sig_term), EX_NAME(sig_int), EX_NAME(sig_abrt), EX_NAME(sig_ill), EX_NAME(sig_bus), EX_NAME(sig_hup), EX_NAME(sig_quit), EX_NAME(sig_alrm), EX_NAME(sig_trap), EX_NAME(sig_winch) };
    return n[x - X_STERM];
}
static const char *user_ex_of(int x) {
    static const char *const n[] = { EX_NAME(divide_by_zero), EX_NAME(range_error), EX_NAME(bad_alloc), EX_NAME(logic_error), EX_NAME(my_exception), EX_NAME(my_except), EX_NAME(eightchr), EX_NAME(eightchs),
        EX_NAME(a_name_which_is_so_long_that_it_takes_several_words_and_differs_at_its_end_only_1), EX_NAME(a_name_which_is_so_long_that_it_takes_several_words_and_differs_at_its_end_only_2) };
    return n[x];
}
/* ---------------------------------------------------------------- throwing */
#define THROW(E) throw_line[x] = __LINE__; if (i & 1) ex_throw_loc(E, "a file", PL_USER(i), "a function", NULL); else throw(E)
static void do_throw(int i, int x) {
    switch (x) {
    case X_DIV: THROW(divide_by_zero);
    case X_RANGE: THROW(range_error);
    case X_BADALLOC: THROW(bad_alloc);
    case X_LOGIC: THROW(logic_error);
    case X_MINE: THROW(my_exception);
    case X_PREFIX: THROW(my_except);
    case X_EIGHT: THROW(eightchr);
    case X_EIGHT2: THROW(eightchs);
    case X_LONG: THROW(a_name_which_is_so_long_that_it_takes_several_words_and_differs_at_its_end_only_1);
    case X_LONG2: THROW(a_name_which_is_so_long_that_it_takes_several_words_and_differs_at_its_end_only_2);
    }
}
static void do_msg(int m) { _panic(msgs[m]); }
static void do_panic(int i) { if (i & 1) _panic(msgs[OP(i).a]); else raii_panic(msgs[OP(i).a]); }
static volatile int zero = 0;
static int *volatile nullp = NULL;
static void do_trap(int i) {
    sim_fired(FT_WILD);
    if (OP(i).a) { volatile int v = 7; sim_expect_signal(SIGFPE); v = v / zero; }
    else { sim_expect_signal(SIGSEGV); *nullp = 1; }
    sim_log(E_TRAPRET, i, 0);
}

/* ---------------------------------------------------------------- memory */
static unsigned char *split_p;
static void do_alloc(int i, frame_t *g) {
    static const size_t huge[N_HUGE] = { SIZE_MAX, SIZE_MAX - 100, SIZE_MAX / 2 + 9, SIZE_MAX / 3 + 9 };  /* more than there is, also if multiplied by the count */
    int api = OP(i).a, k, n = OP(i).b, cnt = 0;
    size_t size = n < 0 ? huge[-n - 1] : (size_t)n;
    frame_t *f = OP(i).c ? app_frame() : is_thread_alloc(api) ? my_tf() : g;
    unsigned char *p = NULL;
    char src[1100];
    if (!f) return;
    if (is_thread_alloc(api)) { raii_init(); f->scope = raii_local(); }
    for (k = 0; k < 1099; k++) src[k] = (char)('a' + (i + k) % 26);
    src[size < 1099 ? size : 1099] = 0;
    {
        unique_t *_$__FUNCTION__ = f->scope;
        switch (api) {
        case A_MALLOC: p = _malloc(size); break;
        case A_CALLOC: p = _calloc(1, size); break;
        case A_MFULL: p = malloc_full(f->scope, size, dtor_cb); break;
        case A_CFULL: p = calloc_full(f->scope, 2, size, dtor_cb); n = 2 * size; break;
        case A_MBY: p = malloc_by(f->scope, size); break;
        case A_CBY: p = calloc_by(f->scope, 3, size); n = 3 * size; break;
        case A_MDEF: p = malloc_default(size); break;
        case A_CDEF: p = calloc_default(1, size); break;
        case A_MEMDUP: p = raii_memdup(src, size); if (memcmp(p, src, size)) sim_violation("content", "memdup, op %d", i); break;
        case A_CONCAT: p = (void *)raii_concat(2, src, src); n = 2 * size + 1; if (memcmp(p, src, size) || strcmp((char *)p + size, src)) sim_violation("content", "concat, op %d", i); break;
        case A_REPLACE: p = (void *)raii_replace("one two one", "one", "three"); n = 16; if (strcmp((char *)p, "three two three")) sim_violation("content", "replace, op %d", i); break;
        case A_SPLIT: { string *s = raii_split("x,yy,zzz", ",", &cnt); p = (void *)s; n = 8; if (cnt != 3 || strcmp(s[0], "x") || strcmp(s[1], "yy") || strcmp(s[2], "zzz")) sim_violation("content", "split, op %d", i); break; }
        case A_ENC64: p = raii_encode64((u_string_t)"hello world"); n = 16; if (strcmp((char *)p, "aGVsbG8gd29ybGQ=")) sim_violation("content", "encode64, op %d", i); break;
        case A_DEC64: p = raii_decode64((u_string_t)"aGVsbG8gd29ybGQ="); n = 11; if (memcmp(p, "hello world", 11)) sim_violation("content", "decode64, op %d", i); break;
        }
    }
    if (OP(i).b < 0) sim_violation("short-memory", "op %d: something was returned for a request of %zu bytes", i, size);
    if (!p) sim_violation("null-allocation", "op %d returned NULL instead of memory or a panic", i);
    if (api == A_CALLOC || api == A_CFULL || api == A_CBY || api == A_CDEF) EACH(k, n) if (p[k]) sim_violation("content", "calloc memory is not zero, op %d", i);
    (void)split_p;
    EACH(k, n) p[k] = pat(i, k);
    arec[i].p = p; arec[i].size = n; arec[i].live = 1; arec[i].gen = sim_gen(p);
    arec[i].idx = raii_last_mid(f->scope);
    if (is_thread_alloc(api) && raii_mid() != arec[i].idx) sim_violation("index", "raii_mid after op %d", i);
    add_entry(f, i);
    sim_log(E_ALLOC, i, 0);
}

static void do_defer(int i, frame_t *g) {
    int a = OP(i).a;
    frame_t *f = a == D_APP ? app_frame() : a >= 2 ? my_tf() : g;
    void *d = (void *)(intptr_t)(i + 1);
    memory_t *s;
    if (a == D_APP) {
        drec[i].f = f; drec[i].pos = f->n;
        if (i & 1) raii_deferred(f->scope, defer_cb, d); else raii_recover_by(f->scope, defer_cb, d);
        drec[i].armed = 1;
        add_entry(f, i);
        return;
    }
    if (f && a < 2 && OP(i).b && parent_of[f->node]) f = parent_of[f->node];
    if (!f) return;
    if (a >= 2) { raii_init(); f->scope = raii_local(); }
    s = f->scope;
    drec[i].f = f; drec[i].pos = f->n;
    if (OP(i).c) {
        unique_t *_$__FUNCTION__ = s;
        drec[i].idx = raii_deferred_count(s);
        if (a == 0) { _defer(anon_cb, f); } else if (a == 1) raii_deferred(s, anon_cb, f); else if (a == 2) raii_defer(anon_cb, f); else raii_recover(anon_cb, f);
        drec[i].armed = 1;
        add_entry(f, i);
        return;
    }
    if (a == 0) {
        unique_t *_$__FUNCTION__ = s;
        _defer(defer_cb, d);
        drec[i].idx = raii_deferred_count(s) - 1;
    } else if (a == 1) drec[i].idx = raii_deferred(s, defer_cb, d);
    else if (a == 2) drec[i].idx = raii_defer(defer_cb, d);
    else { raii_recover(defer_cb, d); drec[i].idx = raii_deferred_count(s) - 1; }
    drec[i].armed = 1;
    add_entry(f, i);
}

/* asked from inside a guard of the deferred function itself */
static bool caught_inside(memory_t *s, const char *name) {
    volatile bool ok = false;
    sim_nofault(1);
    guard
        ok = raii_is_caught(s, name);
    guarded
    sim_nofault(0);
    return ok;
}
static void do_recover(int i, frame_t *g) {
    const char *name = NULL;
    char buf[600];
    bool ok;
    if (!g) {       /* a deferred function of the thread, run because of an error nobody handles */
        if (!raii_local() || !raii_message_by(raii_local()) || in_try_of_defer(i)) return;   /* there the error of the try counts */
        switch (OP(i).a) {
        case 0: case 7: name = raii_message(); break;
        case 1: name = user_ex[OP(i).b % X_NUSER]; break;
        case 2: name = msgs[OP(i).c % NMSG]; break;
        case 4: name = sig_ex[OP(i).b % (X_SEND - X_SFPE)]; break;
        default: name = "no such message";
        }
        sim_log(E_RECOVER, i, raii_caught(name));
        return;
    }
    switch (OP(i).a) {
    case 0: name = raii_local()->arena == (void *)g->scope ? _get_message() : raii_message_by(g->scope); break;
    case 1: name = user_ex[OP(i).b % X_NUSER]; break;
    case 2: name = msgs[OP(i).c % NMSG]; break;
    case 4: name = sig_ex[OP(i).b % (X_SEND - X_SFPE)]; break;
    case 5: case 6: case 7:
        name = raii_message_by(g->scope);
        if (!name) name = "";
        snprintf(buf, sizeof buf - 1, "%s", name);
        if (OP(i).a == 5) { if (buf[0]) buf[strlen(buf) - 1] = 0; }
        else if (OP(i).a == 6) strcat(buf, OP(i).b & 1 ? "e" : " ");
        name = buf;
        break;
    default: name = "no such message";
    }
    if (OP(i).a == 1 && OP(i).b % X_NUSER == X_DIV && raii_local()->arena == (void *)g->scope) ok = _is_caught(divide_by_zero);
    else if ((i & 1) && raii_local()->arena == (void *)g->scope) ok = _recover(name);
    else ok = i % 5 ? raii_is_caught(g->scope, name) : caught_inside(g->scope, name);
    sim_log(E_RECOVER, i, ok);
}

/* memory of a scope released early, through the index of its deferred function */
static void do_freem(int i, frame_t *g) {
    int k, m = 0, want, j;
    for (k = 0; k < g->n; k++) if (OP(g->ent[k]).kind == K_ALLOC && arec[g->ent[k]].live) m++;
    if (!m) return;
    want = OP(i).a % m;
    for (k = 0; k < g->n; k++) if (OP(g->ent[k]).kind == K_ALLOC && arec[g->ent[k]].live && want-- == 0) break;
    j = g->ent[k];
    check_alloc(j, i);
    if (OP(i).b) {
        raii_deferred_cancel(g->scope, arec[j].idx);
        check_alloc(j, i);
        arec[j].live = 0;
        free(arec[j].p);
        sim_log(E_FREEM, j, 1);
    } else {
        sim_log(E_FREEM, j, 0);
        raii_deferred_fire(g->scope, arec[j].idx);
        if (sim_gen(arec[j].p) == arec[j].gen) sim_violation("memory-kept", "the memory of op %d is still there after its release was fired by op %d", j, i);
        arec[j].live = 0;
    }
}
static void do_tcancel(int i) {
    frame_t *g = my_tf();
    int m = 0, want, j, k;
    for (k = 0; k < g->n; k++) if (OP(g->ent[k]).kind == K_DEFER && drec[g->ent[k]].armed && drec[g->ent[k]].f == g) m++;
    if (!m) return;
    want = OP(i).a % m;
    for (k = 0; k < g->n; k++) if (OP(g->ent[k]).kind == K_DEFER && drec[g->ent[k]].armed && drec[g->ent[k]].f == g && want-- == 0) break;
    j = g->ent[k];
    drec[j].armed = 0;
    if (OP(i).kind == K_TCANCEL) { raii_defer_cancel(drec[j].idx); sim_log(E_CANCEL, j, 0); }
    else { sim_log(E_FIRE, j, 0); if (OP(j).c) firing = j + 1; raii_defer_fire(drec[j].idx); firing = 0; }
}

static void do_protect(int i, frame_t *g) {
    unsigned char *p = try_malloc(24), *q = NULL;
    if (hooks >= HK_UNWIND) {        /* what is to be released is the unwind callback's business */
        free(p); p = NULL;
        do_list(first_child(i), g);
    } else if (OP(i).a == 3) {
        protected(p, prot_dtor);
        { protected(q, prot_dtor);
          prot_p[i] = p;
          do_list(first_child(i), g);
          unprotected(q); }
        unprotected(p);
    } else if (OP(i).a == 1) {
        protected(p, prot_dtor);
        sim_nofault(1);
        free(p);
        p = malloc(40);
        sim_nofault(0);
        prot_p[i] = p;
        do_list(first_child(i), g);
        unprotected(p);
    } else {
        protected(p, prot_dtor);
        prot_p[i] = p;
        do_list(first_child(i), g);
        if (OP(i).a == 2) ex_unprotected_ptr(&EX_PNAME(p));
        else unprotected(p);
    }
    prot_p[i] = NULL;
    free(p);
    sim_log(E_PROTOK, i, 0);
}

/* ---------------------------------------------------------------- argument sets */
static int some_func(int x) { return x * 3; }
static const char *a_str(int n) { static const char *t[] = { "x", "hello world", "exactly8", "a string which is quite a bit longer than any block of eight or sixteen", "seven77", "sixteen chars ..", "" }; return t[n % 7]; }
#define PATTERNS(CALL, node, pat)                                                                  \
    switch ((pat) % 8) {                                                                           \
    case 6: CALL("iiidddllczuff", node, -1, INT_MIN + node, INT64_MIN + node, (int64_t)-1, INT64_MAX, LONG_MIN, -1l, -128 + node % 3, SIZE_MAX, UINT_MAX, -HUGE_VAL, 5e-324); break; \
    case 7: CALL("iiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiiii", node, node + 1, node + 2, node + 3, node + 4, node + 5, node + 6, node + 7, node + 8, node + 9, node + 10, node + 11, node + 12, node + 13, node + 14, node + 15, node + 16, node + 17, \
        node + 18, node + 19, node + 20, node + 21, node + 22, node + 23, node + 24, node + 25, node + 26, node + 27, node + 28, node + 29, node + 30, node + 31, node + 32, node + 33, node + 34, node + 35); break; \
    case 0: CALL("i", node); break;                                                                \
    case 1: CALL("is", node, a_str(node)); break;                                                  \
    case 2: CALL("idlzc", node, (int64_t)node * -300000000000ll, (long)-7 * node, (size_t)node << 33, 'a' + node % 26); break; \
    case 3: CALL("isxfp", node, a_str(node), some_func, node * 0.5, (void *)&R->prog.op[node]); break; \
    case 4: CALL("iuaspdlzcfxs", node, 0xfffffff0u - node, (void *)&R->prog.op[node], a_str(node + 1), (void *)a_str(node), (int64_t)node, (long)node, (size_t)node, 'z', -0.25 * node, some_func, a_str(node + 2)); break; \
    default: CALL("idddddddddddddddddddd", node, (int64_t)node, (int64_t)node + 1, (int64_t)node + 2, (int64_t)node + 3, (int64_t)node + 4, (int64_t)node + 5, (int64_t)node + 6, (int64_t)node + 7, (int64_t)node + 8, \
        (int64_t)node + 9, (int64_t)node + 10, (int64_t)node + 11, (int64_t)node + 12, (int64_t)node + 13, (int64_t)node + 14, (int64_t)node + 15, (int64_t)node + 16, (int64_t)node + 17, (int64_t)node + 18, (int64_t)node + 19); \
    }
typedef values_type (*getter_t)(memory_t *, args_t, int);
static values_type g_local(memory_t *s, args_t a, int i) { return get_args(a, i); }
static values_type g_scope(memory_t *s, args_t a, int i) { return raii_get_args(s, (void_t)a, i); }
static values_type g_in(memory_t *s, args_t a, int i) { return args_in(a, i); }
#define WANT(c) if (!(c)) sim_violation("argument", "an argument of op %d differs from what was passed: " #c, node)
static void check_args(args_t a, int node, int pat, getter_t G, memory_t *s) {
    int k;
    WANT(G(s, a, 0).integer == node);
    switch (pat % 8) {
    case 6: WANT(G(s, a, 1).integer == -1); WANT(G(s, a, 2).integer == INT_MIN + node); WANT(G(s, a, 3).long_long == INT64_MIN + node); WANT(G(s, a, 4).long_long == -1); WANT(G(s, a, 5).long_long == INT64_MAX);
        WANT(G(s, a, 6).s_long == LONG_MIN); WANT(G(s, a, 7).s_long == -1); WANT(G(s, a, 8).schar == -128 + node % 3); WANT(G(s, a, 9).max_size == SIZE_MAX); WANT(G(s, a, 10).u_int == UINT_MAX); WANT(G(s, a, 11).precision == -HUGE_VAL); WANT(G(s, a, 12).precision == 5e-324); break;
    case 7: for (k = 1; k < 36; k++) WANT(G(s, a, k).integer == node + k); break;
    case 1: WANT(!strcmp(G(s, a, 1).char_ptr, a_str(node))); break;
    case 2: WANT(G(s, a, 4).schar == 'a' + node % 26); WANT(G(s, a, 1).long_long == (int64_t)node * -300000000000ll); WANT(G(s, a, 2).s_long == (long)-7 * node); WANT(G(s, a, 3).max_size == (size_t)node << 33); break;
    case 3: WANT(!strcmp(G(s, a, 1).char_ptr, a_str(node))); WANT((void *)G(s, a, 2).func == (void *)some_func); WANT(G(s, a, 3).precision == node * 0.5); WANT(G(s, a, 4).object == (void *)&R->prog.op[node]); break;
    case 4: WANT(G(s, a, 1).u_int == 0xfffffff0u - node); WANT((void *)G(s, a, 2).array == (void *)&R->prog.op[node]); WANT(G(s, a, 3).char_ptr == a_str(node + 1)); WANT(G(s, a, 4).object == (void *)a_str(node)); WANT(G(s, a, 5).long_long == node); WANT(G(s, a, 6).s_long == node);
        WANT(G(s, a, 7).max_size == (size_t)node); WANT(G(s, a, 8).schar == 'z'); WANT(G(s, a, 9).precision == -0.25 * node); WANT((void *)G(s, a, 10).func == (void *)some_func); WANT(G(s, a, 11).char_ptr == a_str(node + 2)); break;
    case 5: for (k = 1; k <= 20; k++) WANT(G(s, a, k).long_long == node + k - 1); break;
    }
}
/* sets of any description and length, from a list of values built by hand */
#if defined(__x86_64__)
#define LISTED(pat) ((pat) >= 8)
#define NLISTED 300
static int listed(int node, int pat, char *desc, uint64_t *v) {
    rng_t r = { rng_mix(R->seed, (uint64_t)node * 16 + pat) };
    int n = 1 + (int)rng_below(&r, rng_pct(&r, 85) ? 24 : NLISTED - 1), k;
    for (k = 0; k < n; k++) {
        union { uint64_t u; double d; } x;
        desc[k] = "lzuidcsaxfpq"[rng_below(&r, 12)];
        x.u = rng_next(&r) >> (rng_pct(&r, 30) ? rng_below(&r, 64) : 0);
        if (desc[k] == 'f') x.d = (double)(int64_t)x.u / 3;
        v[k] = x.u;
    }
    desc[n] = 0;
    return n;
}
static args_t listed_args(memory_t *s, int node, int pat) {
    char desc[NLISTED + 1]; uint64_t v[NLISTED];
    union { va_list ap; struct { unsigned gp, fp; void *more, *regs; } l; } u;
    listed(node, pat, desc, v);
    memset(&u, 0, sizeof u);
    u.l.gp = 48; u.l.fp = 176; u.l.more = v;      /* no value is in a register */
    return raii_args_ex(s, desc, u.ap);
}
static void check_listed(args_t a, int node, int pat, getter_t G, memory_t *s) {
    char desc[NLISTED + 1]; uint64_t v[NLISTED]; int k, n = listed(node, pat, desc, v);
    for (k = 0; k < n; k++) {
        values_type x = G(s, a, k);
        union { uint64_t u; double d; } w; int same;
        w.u = v[k];
        switch (desc[k]) {
        case 'l': same = x.s_long == (long)w.u; break;
        case 'z': same = x.max_size == (size_t)w.u; break;
        case 'u': same = x.u_int == (uint32_t)w.u; break;
        case 'i': same = x.integer == (int32_t)w.u; break;
        case 'd': same = x.long_long == (int64_t)w.u; break;
        case 'c': same = x.schar == (signed char)w.u; break;
        case 's': same = (uintptr_t)x.char_ptr == w.u; break;
        case 'a': same = (uintptr_t)x.array == w.u; break;
        case 'x': same = (uintptr_t)x.func == w.u; break;
        case 'f': same = x.precision == w.d; break;
        default: same = (uintptr_t)x.object == w.u;
        }
        if (!same) sim_violation("argument", "argument %d ('%c') of the %d of op %d differs from what was passed", k, desc[k], n, node);
    }
}
#else
#define LISTED(pat) 0
#define listed_args(s, node, pat) NULL
#define check_listed(a, node, pat, G, s) (void)0
#endif
static args_t args_of[MAXOPS];
static void do_args(int i, frame_t *g) {
    int mode = OP(i).a & 3, pat_ = OP(i).b, node = i;
    frame_t *f = mode & 1 ? g : my_tf();
    args_t a = NULL;
    if (mode == 1 && !g) return;
    if (mode == 3 && !g) f = my_tf();
    if (f == my_tf()) { raii_init(); f->scope = raii_local(); }
#define CALL_FOR(...) a = args_for(__VA_ARGS__)
#define CHECK(a, node, pat, G, s) if (LISTED(pat)) check_listed(a, node, pat, G, s); else check_args(a, node, pat, G, s)
#define CALL_SCOPE(...) a = raii_args_for(f->scope, __VA_ARGS__)
    if (LISTED(pat_)) a = listed_args(mode == 1 ? f->scope : NULL, node, pat_);
    else if (mode == 1) { PATTERNS(CALL_SCOPE, node, pat_) } else { PATTERNS(CALL_FOR, node, pat_) }
    if (!a) sim_violation("null-allocation", "op %d: no argument set and no panic", i);
    if (mode == 2) { CHECK(a, node, pat_, g_in, NULL); args_free(a); if (sim_live(a)) sim_violation("memory-kept", "args_free of op %d kept the set", i); sim_log(E_ARGS, i, 0); return; }
    if (mode != 2) {
        args_t *ap = &args_of[i];
        static __thread volatile int again;
        *ap = a; again = 0;
        if (OP(i).c) sim_setop(MAXOPS + i);
        try { my_app()->skip = ex_local(); my_app()->nskip = 0; if (mode == 3) raii_get_args(f->scope, *ap, 0); else get_args(*ap, 0); }
        catch_any {     /* no memory to bind them */
            if (!OP(i).c) { args_free(*ap); rethrow(); }
            again = 1;
        } end_try;
        my_app()->skip = NULL;
        if (again) {    /* there is some now */
            sim_nofault(1);
            if (mode == 3) raii_get_args(f->scope, *ap, 0); else get_args(*ap, 0);
            sim_nofault(0);
        }
        sim_setop(i);
    }
    CHECK(a, node, pat_, mode == 3 ? g_scope : g_local, f->scope);
    arec[i].p = (unsigned char *)a; arec[i].size = 0; arec[i].live = 1; arec[i].gen = sim_gen(a);
    add_entry(f, i);
    CHECK(a, node, pat_, mode == 3 ? g_scope : g_local, f->scope);
    sim_log(E_ARGS, i, 0);
}

/* ---------------------------------------------------------------- futures and spawned threads */
typedef struct { int node, started, tid, joined, done_seen, getter; future h; int created, consumed; unsigned mask; raii_values_t in; int obj[4]; args_t args; uintptr_t self; volatile int gate; char pub, given; } fut_t;
static uintptr_t main_self;
static fut_t fu[MAXFUT + 1];
static struct { future_t f; int open, n, node[MAXFUT]; result_t r[MAXFUT]; } fs[MAXOPS];
static int yields;
static __thread int waits_for;
/* what is called while waiting lets the awaited function go on */
static void my_yield(void) { yields++; fu[waits_for].gate = 1; thrd_yield(); }
static const char pub_what[] = "what a function wrote before its future was done", given_what[] = "what was written before a thread was started";

static void joined(int k, int at) {
    fut_t *u = &fu[k];
    if (u->started && !sim_thread_finished(u->tid)) sim_violation("not-joined", "op %d returned although the thread of op %d still runs", at, u->node);
    if (!u->started && u->args && !u->joined) args_free(u->args);    /* the thread had no memory to call the function: nobody took them over */
    u->joined = 1;
    if (u->started) sim_hb_read(&u->pub, pub_what);
    frame_gone(&tf[k + 1], at);
}
static void done_now(int k) { fu[k].done_seen = 1; if (fu[k].started) sim_hb_read(&fu[k].pub, pub_what); }

static void *give(int i, args_t a) {       /* an object that is returned, or not */
    int *o;
    void *res;
    sim_nofault(1); o = malloc(40); sim_nofault(0);
    o[0] = RET_CODE(i, OP(i).b & 3); o[1] = ~o[0]; o[9] = o[0] + 9;
    sim_setop(MAXOPS + i);
    res = (OP(i).b >> 2) == AR_ARGS ? thrd_returning(a, o, 40) : NULL;
    if (!res) free(o);
    return res;
}
static void_t worker_run(int i, args_t a) {
    int k = OP(i).c, b = first_child(i), ret = OP(i).b & 3;
    fut_t *u = &fu[k];
    void_t res = NULL, given = NULL;
    sim_set_logical(101 + k);
    sim_setop(b);
    if (u->started++) sim_violation("ran-twice", "the function of op %d was called twice", i);
    u->tid = sim_tid();
    exp_mask[k + 1] = u->mask;
    sim_log(E_START, i, 0);
    u->self = thrd_self();
    for (b = 0; b < MAXFUT; b++) if (b != k && fu[b].started && !sim_thread_finished(fu[b].tid) && fu[b].self == u->self) sim_violation("wrong-thread", "the threads of op %d and op %d have the same identity", i, fu[b].node);
    b = first_child(i);
    if (u->self == main_self) sim_violation("wrong-thread", "the thread of op %d has the identity of the main thread", i);
    if (sim_tid() == 0) sim_violation("wrong-thread", "the function of op %d runs in the main thread", i);
    if ((OP(i).b >> 2) == AR_ARGS) {
        try { get_args(a, 0); } catch_any { args_free(a); rethrow(); } end_try;    /* no memory to bind them to this thread */
        check_args(a, i, i, g_local, NULL);
    } else { if ((void *)a != (void *)&u->in || get_arg(a).integer != i) sim_violation("argument", "the function of op %d got another argument", i); }
    sim_hb_read(&u->given, given_what);
    if (GIVES(i) && (OP(i).a & FA_EARLY)) given = give(i, a);
    do_list(first_child(b), NULL);
    while ((OP(i).a & FA_GATE) && OP(i).kind == K_ASYNC && !u->gate) usleep(3);
    if (GIVES(i) && !(OP(i).a & FA_EARLY)) given = give(i, a);
    if ((OP(i).b >> 2) == AR_ARGS && (i & 1)) check_args(a, i, i, g_local, NULL);
    switch (ret) {
    case RT_INT: res = thrd_value(RET_CODE(i, ret)); break;
    case RT_PTR: u->obj[0] = RET_CODE(i, ret); u->obj[1] = ~u->obj[0]; res = u->obj; break;
    case RT_HEAP: res = given; break;
    case RT_NULL: res = NULL; break;
    }
    if (thrd_self() != u->self) sim_violation("wrong-thread", "the thread of op %d changed its identity", i);
    if (u->done_seen) sim_violation("done-early", "the future of op %d was reported as done while its function runs", i);
    sim_setop(MAXOPS + b);
    sim_hb_write(&u->pub, pub_what);
    return res;
}
static int me_node(void) {
    int b = sim_getop() - MAXOPS, i;
    i = b > 0 && b < R->prog.n ? parent_node(b) : -1;
    if (i < 0 || (OP(i).kind != K_ASYNC && OP(i).kind != K_SPAWNF)) sim_violation("wrong-thread", "a thread function was called by a thread that was not created for it");
    return i;
}
static void_t worker_raw(args_t a) { return worker_run(me_node(), a); }
static void_t worker_args(args_t a) { return worker_run(me_node(), a); }

static int got(int k, const values_type *vp, int at) {
#define v (*vp)
    fut_t *u = &fu[k];
    int i = u->node, ret = OP(i).b & 3, *o;
    switch (ret) {
    case RT_INT: return v.integer;
    case RT_PTR: o = v.object; return o == u->obj && o[1] == ~o[0] ? o[0] : -1;
    case RT_HEAP:
        o = v.object;
        if ((OP(i).b >> 2) != AR_ARGS) return o ? -1 : RET_CODE(i, ret);
        if (!sim_live(o) || o[1] != ~o[0] || o[9] != o[0] + 9) return -1;
        return o[0];
    default: return v.long_long == 0 ? 0 : -1;
    }
}
static void hold_result(int k, const values_type *vp, int at) {   /* the object lives as long as the getter's thread */
    int i = fu[k].node, j;
    if ((OP(i).b & 3) != RT_HEAP || (OP(i).b >> 2) != AR_ARGS) return;
    arec[at].p = v.object; arec[at].size = 40; arec[at].live = 1; arec[at].gen = sim_gen(v.object);
    for (j = 0; j < 40; j++) arec[at].p[j] = pat(at, j);
    add_entry(my_tf(), at);
}
#undef v

static void do_async(int i) {
    int k = OP(i).c, b = first_child(i);
    fut_t *u = &fu[k];
    args_t a = NULL;
    if (b < 0 || OP(b).kind != K_BODY || u->created) return;
    u->node = i; u->mask = exp_mask[my_tf() - tf];
    sim_hb_write(&u->given, given_what);
    sim_setchildop(MAXOPS + b);
    if ((OP(i).b >> 2) == AR_RAW) {
        u->in.value.integer = i;
        u->h = thrd_async(worker_raw, &u->in);
    } else {
        PATTERNS(CALL_FOR, i, i)
        u->args = a;
        try { u->h = thrd_async(worker_args, u->args); }
        catch_any { args_free(fu[OP(i).c].args); rethrow(); }
        end_try;
    }
    if (!u->h) sim_violation("null-allocation", "op %d: no future and no exception", i);
    u->created = 1;
    sim_log(E_ASYNC, i, 0);
}
static fut_t *my_future(int k) {
    if (k < 0 || k >= MAXFUT || !fu[k].created || fu[k].consumed || fut_owner(k) != sim_logical()) return NULL;
    return &fu[k];
}
static void do_get(int i) {
    int k = OP(i).a;
    union { long long a[sizeof(values_type) / 8]; } v;
    if (!fut_reserved(i) || !my_future(k)) return;
    sim_nofault(1); raii_init(); sim_nofault(0);
    my_tf()->scope = raii_local();
    fu[k].consumed = 1; fu[k].getter = sim_logical(); fu[k].gate = 1;
    if (i & 1) {
        values_type w = thrd_get(fu[k].h); memcpy(&v, &w, sizeof v);
    } else {
        try { values_type w = thrd_get(fu[OP(i).a].h); memcpy(&v, &w, sizeof v); }
        catch_any { joined(OP(i).a, i); rethrow(); }
        end_try;
    }
    joined(k, i);
    { values_type *w = (void *)&v; int c = got(k, w, i); hold_result(k, w, i); sim_log(E_GOT, i, c); }
}
static void do_wait(int i) {
    fut_t *u = my_future(OP(i).a);
    if (!u) return;
    if (OP(i).kind == K_DONEF) {
        bool d = thrd_is_done(u->h);
        if (!d && u->done_seen) sim_violation("done-revoked", "the future of op %d is not done any more, op %d", u->node, i);
        if (d) done_now(OP(i).a);
        return;
    }
    switch (OP(i).b) {
    case 0: u->gate = 1; thrd_wait(u->h, thrd_yield); break;
    case 1: waits_for = OP(i).a; thrd_wait(u->h, my_yield); break;
    default: u->gate = 1; while (!thrd_is_done(u->h)) usleep(5);
    }
    if (!thrd_is_done(u->h)) sim_violation("done-revoked", "thrd_wait of op %d returned, and the future is not done", i);
    done_now(OP(i).a);
}
static void fscope_joined(int i, int at) { int k; for (k = 0; k < fs[i].n; k++) joined(OP(fs[i].node[k]).c, at); }
static void do_fscope(int i, frame_t *g) {
    fs[i].n = 0;
    fs[i].f = thrd_scope();
    fs[i].open = 1;
    try {
        do_list(first_child(i), g);
    } finally {
        sim_setop(i);
        fs[i].open = 0;
        thrd_destroy(fs[i].f);
        fscope_joined(i, i);
        sim_log(E_DESTROY, i, 0);
    } end_try;
}
static void do_spawnf(int i) {
    int s = fscope_of(i), k = OP(i).c, b = first_child(i);
    fut_t *u = &fu[k];
    result_t r = NULL;
    if (s < 0 || !fs[s].open || b < 0 || OP(b).kind != K_BODY || fs[s].n >= MAXFUT) return;
    u->node = i; u->mask = exp_mask[my_tf() - tf];
    sim_hb_write(&u->given, given_what);
    sim_setchildop(MAXOPS + b);
    if ((OP(i).b >> 2) == AR_RAW) {
        u->in.value.integer = i;
        r = thrd_spawn(worker_raw, &u->in);
    } else {
#define CALL_SPAWN(...) r = thrd_spawn_ex(worker_args, __VA_ARGS__)
        PATTERNS(CALL_SPAWN, i, i)
    }
    if (!r) sim_violation("null-allocation", "op %d: no result and no exception", i);
    fs[s].r[fs[s].n] = r; fs[s].node[fs[s].n++] = i;
    sim_log(E_ASYNC, i, 0);
}
static void do_sync(int i) {
    int s = fscope_of(i);
    future_t r = NULL;
    if (s < 0 || !fs[s].open) return;
    if (i & 1) r = thrd_sync(fs[s].f);
    else {
        try { r = thrd_sync(fs[s].f); }
        catch_any { fscope_joined(fscope_of(i), i); rethrow(); }
        end_try;
    }
    if (r != fs[s].f) sim_violation("sync", "thrd_sync of op %d returned another scope", i);
    fscope_joined(s, i);
    if (!thrd_is_finish(fs[s].f)) sim_violation("not-finished", "not finished after the thrd_sync of op %d", i);
    sim_log(E_SYNC, i, 0);
}
static void do_result(int i) {
    int s = fscope_of(i), k;
    if (s < 0 || !fs[s].open || !fs[s].n) return;
    k = OP(i).a % fs[s].n;
    values_type v = thrd_result(fs[s].r[k]);
    sim_log(E_RESULT, i, got(OP(fs[s].node[k]).c, &v, i));
}
static struct { int node, token[70]; } then_c;
static __thread int then_node, then_n;
static void_t then_cb(void_t result, size_t id, values_type iter) {
    int s = fscope_of(then_node);
    if (result != (void_t)&then_c.token[then_n]) sim_violation("then", "the callback of op %d did not get what the previous one returned", then_node);
    if ((int)id < 0 || (int)id >= fs[s].n) sim_violation("then", "callback for result %d of %d", (int)id, fs[s].n);
    sim_log(E_THEN, then_node * 64 + (int)id, got(OP(fs[s].node[id]).c, &iter, then_node));
    then_n++;
    return &then_c.token[then_n];
}
static void_t never_called(args_t a) { sim_violation("ran-twice", "a function that was never accepted runs"); return NULL; }
static void do_misuse(int i) {
    if ((OP(i).a == 1 || OP(i).a == 4) && fscope_of(i) >= 0) return;
    switch (OP(i).a) {
    case 0: thrd_get(NULL); break;
    case 1: thrd_spawn(never_called, NULL); break;
    case 2: thrd_sync(NULL); break;
    case 3: thrd_destroy(NULL); return;
    case 4: thrd_spawn_ex(never_called, "is", 1, "two"); break;
    }
    sim_violation("misuse", "op %d, a call which can not be done, returned", i);
}
static int reaped, reap_res, reap_op;
static int dead(int thr) {      /* this thread has ended, or will never start */
    int k = thr - 101;
    if (k < 0 || k >= MAXFUT || fu[k].joined || (fu[k].started && sim_thread_finished(fu[k].tid))) return 1;
    if (fu[k].consumed && !fu[k].started) return dead(fu[k].getter);
    if (fu[k].created || fu[k].started) return 0;
    return thr_node(k) < 0 || dead(thread_of(thr_node(k)));
}
static int orphan(int k) { return fu[k].created && !fu[k].consumed && dead(fut_owner(k)); }     /* nobody has collected it, or will */
static void reap(void) {
    int again, k, res[MAXFUT], rop[MAXFUT];
    for (k = 0; k < MAXFUT; k++) res[k] = -2;
    do {
        again = 0;
        for (k = 0; k < MAXFUT; k++) {
            if (!orphan(k)) continue;
            reaped = k; fu[k].consumed = 1; fu[k].gate = 1; again = 1; reap_op = -3;
            try {
                values_type v = thrd_get(fu[reaped].h);
                reap_res = got(reaped, &v, -1);
            } catch_any {
                const char *m = ex_err.panic;
                reap_res = code_of(m ? m : err);
                reap_op = sim_trace_op(err_backtrace->ctx, (long)err_backtrace->size);
            } end_try;
            k = reaped; res[k] = reap_res; rop[k] = reap_op; joined(k, -1);
            break;
        }
    } while (again);
    for (k = 0; k < MAXFUT; k++) if (fu[k].created && !fu[k].joined) joined(k, -1);
    for (k = 0; k < MAXFUT; k++) if (res[k] != -2) { sim_log(E_GOT, -1 - k, res[k]); if (rop[k] != -3) sim_log(E_WHERE, PL_ANY, rop[k] & 0xffff); }
}

/* ---------------------------------------------------------------- the same small thing over and over */
static struct { int order, ran; memory_t *scope; unsigned char *p; unsigned gen; } rep[MAXOPS];
#define REP(c, ...) if (!(c)) sim_violation("repeat", __VA_ARGS__)
static void rep_cb1(void *d) { int i = (int)(intptr_t)d; rep[i].order = rep[i].order * 10 + 1; rep[i].ran++; }
static void rep_cb2(void *d) { int i = (int)(intptr_t)d; rep[i].order = rep[i].order * 10 + 2; rep[i].ran++; }
static void rep_recover(void *d) { int i = (int)(intptr_t)d; rep[i].order = rep[i].order * 10 + (raii_is_caught(rep[i].scope, msgs[i % NMSG]) ? 3 : 4); }
static void rep_free(void *p) { int i; memcpy(&i, p, sizeof i); rep[i].order = rep[i].order * 10 + 5; free(p); }
static void rep_catch(int i, int k) {
    volatile int ok = 0;
    try { do_throw(i, (OP(i).c + k) % X_NUSER); REP(0, "op %d, round %d: not thrown", i, k); }
    catch_any { ok = code_of(err) == CODE_X((OP(i).c + k) % X_NUSER); } end_try;
    REP(ok, "op %d, round %d: another error was caught", i, k);
}
static void rep_guard_in(int i, int k) {
    guard
        rep[i].p = k & 4 ? _malloc(40) : _calloc(5, 8);
        rep[i].gen = sim_gen(rep[i].p);
        memset(rep[i].p, k, 40);
        _defer(rep_cb1, (void *)(intptr_t)i);
        _defer(rep_cb2, (void *)(intptr_t)i);
        if (k % 3 == 1) break;
        if (k % 3 == 2) do_throw(i, OP(i).c);
    guarded
}
static void rep_guard(int i, int k) {
    volatile int got_ = 0;
    rep[i].order = rep[i].ran = 0;
    try { rep_guard_in(i, k); } catch_any { got_ = code_of(err); } end_try;
    REP(got_ == (k % 3 == 2 ? CODE_X(OP(i).c) : 0), "op %d, round %d: the guard was left with the wrong error", i, k);
    REP(rep[i].order == 21, "op %d, round %d: the deferred functions did not run once, in reverse order: %d", i, k, rep[i].order);
    REP(sim_gen(rep[i].p) != rep[i].gen, "op %d, round %d: the memory of the guard is still there", i, k);
}
static void rep_recover_in(int i, int k) {
    guard
        rep[i].scope = _$__FUNCTION__;
        _defer(rep_cb1, (void *)(intptr_t)i);
        _defer(rep_recover, (void *)(intptr_t)i);
        if (k % 4 == 3) _panic("message");
        do_msg(i % NMSG);
    guarded
}
static void rep_recovered(int i, int k) {
    volatile int got_ = 0; int right = k % 4 != 3 || i % NMSG == 6;
    rep[i].order = 0;
    try { rep_recover_in(i, k); } catch_any { got_ = code_of(ex_err.panic); } end_try;
    REP(got_ == (right ? 0 : CODE_MSG(6)), "op %d, round %d: recovering gave %d", i, k, got_);
    REP(rep[i].order == (right ? 31 : 41), "op %d, round %d: the deferred functions did not run as they should: %d", i, k, rep[i].order);
}
static void rep_signal(int i, int k) {
    volatile int ok = 0;
    try { sim_expect_signal(SIGFPE); raise(SIGFPE); REP(0, "op %d, round %d: not thrown", i, k); }
    catch (sig_fpe) { ok = 1; } end_try;
    REP(ok, "op %d, round %d: the signal was not caught", i, k);
    check_mask(i);
}
static void rep_scope(int i, int k) {
    memory_t *s = unique_init();
    unsigned char *p = malloc_full(s, 30, RAII_FREE), *q = calloc_by(s, 3, 10);
    unsigned pg = sim_gen(p), qg = sim_gen(q);
    rep[i].order = 0;
    memset(p, k, 30); memset(q, k, 30);
    raii_deferred(s, rep_cb1, (void *)(intptr_t)i);
    raii_deferred(s, rep_cb2, (void *)(intptr_t)i);
    raii_delete(s);
    REP(rep[i].order == 21 && sim_gen(p) != pg && sim_gen(q) != qg, "op %d, round %d: the scope was not released", i, k);
}
static void rep_protect(int i, int k) {
    volatile int got_ = 0;
    rep[i].order = 0;
    try {
        unsigned char *p = try_malloc(24);
        protected(p, rep_free);
        memcpy(p, &i, sizeof i);
        if (k % 3) do_throw(i, OP(i).c);
        unprotected(p);
        free(p);
    } catch_any { got_ = code_of(err); } end_try;
    REP(got_ == (k % 3 ? CODE_X(OP(i).c) : 0) && rep[i].order == (k % 3 ? 5 : 0), "op %d, round %d: error %d, released %d", i, k, got_, rep[i].order);
}
/* blocks of all kinds, as deep as a round number: each ends once, the innermost first */
typedef struct { int i, level; } nest_t;
static void nest_end(int i, int level) {
    REP(rep[i].order == level, "op %d: level %d of nested blocks ended, %d was due", i, level, rep[i].order);
    rep[i].order--;
}
static void nest_cb(void *d) { nest_end((int)(intptr_t)d >> 10, (int)(intptr_t)d & 1023); }
static void nest_free(void *p) { nest_t *n = p; int i = n->i, level = n->level; free(p); nest_end(i, level); }
static void nest_wrong(void *s) { REP(!raii_is_caught(s, "another error"), "an error of nested blocks has the wrong name"); }
static void nest_in(int i, int level);
#define NEST static __attribute__((noinline)) void
NEST nest0(int i, int level, void *tag) {
    guard
        _defer(nest_cb, tag);
        memset(_malloc(30), level, 30);
        nest_in(i, level + 1);
    guarded
}
NEST nest1(int i, int level) {
    try {
        nest_t *n = try_malloc(sizeof *n);
        protected(n, nest_free);
        n->i = i; n->level = level;
        nest_in(i, level + 1);
        unprotected(n);
        nest_free(n);
    } end_try;
}
NEST nest2(int i, int level) { try { nest_in(i, level + 1); } finally { nest_end(i, level); } end_try; }
NEST nest3(int i, int level, void *tag) {
    guard
        _defer(nest_cb, tag);
        raii_recover_by(_$__FUNCTION__, nest_wrong, _$__FUNCTION__);
        nest_in(i, level + 1);
    guarded
}
NEST nest4(int i, int level) {
    try { nest_in(i, level + 1); nest_end(i, level); }
    catch_any {
        REP(code_of(err) == CODE_X(OP(i).c), "op %d: another error was caught at level %d", i, level);
        nest_end(i, level);
        rethrow();
    } end_try;
}
static void nest_in(int i, int level) {
    void *tag = (void *)(intptr_t)(i << 10 | level);
    if (level > OP(i).b) { if (i & 1) do_throw(i, OP(i).c); return; }
    rep[i].order = level;
    switch ((level + level / 5 + i) % 5) {
    case 0: nest0(i, level, tag); break;
    case 1: nest1(i, level); break;
    case 2: nest2(i, level); break;
    case 3: nest3(i, level, tag); break;
    case 4: nest4(i, level); break;
    }
}
static void rep_nest(int i) {
    volatile int got_ = 0;
    rep[i].order = 0;
    try { nest_in(i, 1); } catch_any { got_ = code_of(err); } end_try;
    REP(got_ == (i & 1 ? CODE_X(OP(i).c) : 0), "op %d: %d levels of nested blocks left with the wrong error", i, OP(i).b);
    REP(rep[i].order == 0, "op %d: level %d of %d nested blocks did not end", i, rep[i].order, OP(i).b);
}
/* one guard with very many deferred functions, some of them cancelled */
#define BULK_FIRED(k) ((k) % 89 == 7)    /* fired after the next one was deferred */
#define BULK_GONE(k) ((k) % 97 == 5 || BULK_FIRED(k))     /* or cancelled then */
static void bulk_cb(void *d) {
    int i = (int)((intptr_t)d >> 12), k = (int)((intptr_t)d & 4095);
    while (rep[i].order && BULK_GONE(rep[i].order)) rep[i].order--;
    REP(rep[i].order == k, "op %d: deferred function %d of many ran, %d was due", i, k, rep[i].order);
    rep[i].order--;
}
static void bulk_fired(void *d) { rep[(intptr_t)d >> 12].ran = (int)((intptr_t)d & 4095); }
static void bulk_in(int i, int n) {
    guard
        int k;
        size_t prev = 0;
        memory_t *s = _$__FUNCTION__;
        for (k = 1; k <= n; k++) {
            size_t x = raii_deferred_count(s);
            func_t cb = BULK_FIRED(k) ? bulk_fired : bulk_cb;
            if (k % 3) raii_recover_by(s, cb, (void *)(intptr_t)(i << 12 | k)); else raii_deferred(s, cb, (void *)(intptr_t)(i << 12 | k));
            if (BULK_FIRED(k - 1)) {
                rep[i].ran = -1;
                raii_deferred_fire(s, prev);
                REP(rep[i].ran == k - 1, "op %d: firing deferred function %d of many ran %d", i, k - 1, rep[i].ran);
            } else if (BULK_GONE(k - 1)) raii_deferred_cancel(s, prev);
            prev = x;
            if (k % 40 == 0) memset(k % 80 ? _malloc(16) : _calloc(2, 8), k, 16);
        }
        rep[i].order = n;
        if (i & 1) do_throw(i, OP(i).c);
    guarded
}
static void rep_bulk(int i) {
    volatile int got_ = 0;
    int n = 26 * OP(i).b;
    while (BULK_GONE(n)) n++;
    try { bulk_in(i, n); } catch_any { got_ = code_of(err); } end_try;
    REP(got_ == (i & 1 ? CODE_X(OP(i).c) : 0), "op %d: the guard was left with the wrong error", i);
    REP(rep[i].order == 0, "op %d: deferred function %d of many did not run", i, rep[i].order);
}
/* many protected pointers in one block */
static void pdeep_free(void *p) {
    int i = ((int *)p)[0], k = ((int *)p)[1];
    REP(rep[i].order == k, "op %d: protected pointer %d of many was released, %d was due", i, k, rep[i].order);
    rep[i].order--;
    free(p);
}
static __attribute__((noinline)) void pdeep_in(int i, int k) {
    int *p = try_malloc(2 * sizeof(int));
    protected(p, pdeep_free);
    p[0] = i; p[1] = k;
    rep[i].order = k;
    if (k < OP(i).b) pdeep_in(i, k + 1);
    else if (i & 1) do_throw(i, OP(i).c);
    unprotected(p);
    REP(rep[i].order == k, "op %d: protected pointer %d of many ended, %d was due", i, k, rep[i].order);
    rep[i].order--;
    free(p);
}
static void rep_pdeep(int i) {
    volatile int got_ = 0;
    rep[i].order = 0;
    try { pdeep_in(i, 1); } catch_any { got_ = code_of(err); } end_try;
    REP(got_ == (i & 1 ? CODE_X(OP(i).c) : 0), "op %d: %d protected pointers left with the wrong error", i, OP(i).b);
    REP(rep[i].order == 0, "op %d: protected pointer %d of %d was not released", i, rep[i].order, OP(i).b);
}
/* as many signals as the library takes, besides its own and one of the program */
static void rep_names(int i) {
    int k, n = 19;
    for (k = 0; k < OP(i).b; k++) {
        volatile int got_ = 0; int s = 36 + (k + i) % n, x = (k + k / n) % X_NUSER;
        ex_signal(s, user_ex_of(x));
        try { sim_expect_signal(s); raise(s); REP(0, "op %d, round %d: signal %d was not thrown", i, k, s); }
        catch_any { got_ = code_of(err); } end_try;
        REP(got_ == CODE_X(x), "op %d, round %d: signal %d gave %d, its name is %d", i, k, s, got_, CODE_X(x));
        check_mask(i);
    }
}
static void_t rep_worker(args_t a) {
    int k = get_arg(a).integer;
    sim_nofault(1);
    sim_setop(-1);
    raii_defer(rep_cb1, (void *)(intptr_t)(k % MAXOPS));
    memset(malloc_default(20), k, 20);
    if (k / MAXOPS % 3 == 2) do_throw(k % MAXOPS, OP(k % MAXOPS).c);
    return thrd_value(k);
}
static void rep_async(int i, int k) {
    static raii_values_t in[MAXOPS];
    volatile int got_ = 0, val = -1;
    memset(&in[i], 0, sizeof in[i]); in[i].value.integer = i + MAXOPS * k;
    rep[i].ran = 0;
    try { future f = thrd_async(rep_worker, &in[i]); val = thrd_get(f).integer; } catch_any { got_ = code_of(err); } end_try;
    REP(got_ == (k % 3 == 2 ? CODE_X(OP(i).c) : 0) && (got_ || val == i + MAXOPS * k), "op %d, round %d: error %d, value %d", i, k, got_, val);
    REP(rep[i].ran == 1, "op %d, round %d: deferred functions ran: %d", i, k, rep[i].ran);
}
static void rep_spawn(int i, int k) {
    static raii_values_t in[MAXOPS][2];
    volatile int got_ = 0; result_t r[2]; int j;
    future_t s = thrd_scope();
    for (j = 0; j < 2; j++) {
        memset(&in[i][j], 0, sizeof in[i][j]); in[i][j].value.integer = i + MAXOPS * (k + j);
        r[j] = thrd_spawn(rep_worker, &in[i][j]);
    }
    try { thrd_sync(s); } catch_any { got_ = code_of(err); } end_try;
    REP(got_ == (k % 3 != 0 ? CODE_X(OP(i).c) : 0), "op %d, round %d: error %d", i, k, got_);
    for (j = 0; j < 2; j++) if ((k + j) % 3 != 2) REP(thrd_result(r[j]).integer == i + MAXOPS * (k + j), "op %d, round %d: wrong result", i, k);
    thrd_destroy(s);
}
/* a scope of very many threads, one of which ends last */
static struct { volatile int gate, ran[40]; raii_values_t in[40]; int order; } crowd;
static void_t crowd_worker(args_t a) {
    int k = get_arg(a).integer;
    sim_nofault(1);
    sim_setop(-1);
    memset(malloc_default(20), 1, 20);
    if (k < 0) { while (!crowd.gate) thrd_yield(); k = -1 - k; }
    crowd.ran[k]++;
    return thrd_value(k + 7);
}
static void_t crowd_then(void_t r, size_t id, values_type v) {
    REP(r == (void_t)&crowd && (int)id == crowd.order && v.integer == crowd.order + 7, "result %d of a scope of many: position %d, value %d", crowd.order, (int)id, v.integer);
    crowd.order++;
    return r;
}
static void rep_crowd(int i) {
    int n = OP(i).b, last = n - 1 - i % 4, k, left;
    result_t r[40];
    future_t s = thrd_scope();
    for (k = 0; k < n; k++) {
        memset(&crowd.in[k], 0, sizeof crowd.in[k]); crowd.in[k].value.integer = k == last ? -1 - k : k;
        r[k] = thrd_spawn(crowd_worker, &crowd.in[k]);
    }
    do {
        for (left = k = 0; k < n; k++) left += !crowd.ran[k];
        REP(!thrd_is_finish(s), "op %d: a scope of %d threads is finished while one still runs", i, n);
        thrd_yield();
    } while (left > 1);
    for (k = 0; k < 20; k++) thrd_yield();
    REP(!thrd_is_finish(s), "op %d: a scope of %d threads is finished while thread %d still runs", i, n, last);
    crowd.gate = 1;
    if (i & 4) while (!thrd_is_finish(s)) thrd_yield();
    thrd_sync(s);
    for (k = 0; k < n; k++) REP(crowd.ran[k] == 1, "op %d: thread %d of %d ran %d times", i, k, n, crowd.ran[k]);
    thrd_then(crowd_then, s, &crowd);
    REP(crowd.order == n, "op %d: %d of %d results", i, crowd.order, n);
    for (k = 0; k < n; k++) REP(thrd_result(r[k]).integer == k + 7, "op %d: wrong result of thread %d of %d", i, k, n);
    thrd_destroy(s);
}
static void do_repeat(int i) {
    int k, op = sim_getop();
    if (OP(i).a == RP_NEST) rep_nest(i);
    else if (OP(i).a == RP_BULK) rep_bulk(i);
    else if (OP(i).a == RP_PDEEP) rep_pdeep(i);
    else if (OP(i).a == RP_NAMES) { if (!ending[my_tf() - tf]) rep_names(i); }
    else if (OP(i).a == RP_CROWD) rep_crowd(i);
    else for (k = 0; k < OP(i).b; k++) switch (OP(i).a) {
        case RP_CATCH: rep_catch(i, k); break;
        case RP_GUARD: rep_guard(i, k); break;
        case RP_RECOVER: rep_recovered(i, k); break;
        case RP_SIGNAL: if (!ending[my_tf() - tf]) rep_signal(i, k); break;
        case RP_SCOPE: rep_scope(i, k); break;
        case RP_PROTECT: rep_protect(i, k); break;
        case RP_ASYNC: rep_async(i, k); break;
        case RP_SPAWN: rep_spawn(i, k); break;
    }
    sim_setop(op);
}

static int thread_main(void *arg) {
    int i = (int)(intptr_t)arg, n = i;
    sim_set_logical(100 + OP(i).a);
    exp_mask[my_tf() - tf] = exp_mask[0];
    if (OP(i).b & 1) block_signals(1u << SIGUSR2);
    if (OP(i).b & 2) block_signals(1u << SIGPROF);
    try {
        do_list(first_child(i), NULL);
    } catch_any {
        h_enter(n, 0, err);
        WHERE();
    } end_try;
    check_mask(n);
    sim_nofault(1);                     /* nothing in this thread catches a panic of its deferred functions */
    if (raii_local()) raii_destroy();
    sim_nofault(0);
    frame_gone(my_tf(), i);
    sim_log(E_THREADEND, i, 0);
    return 0;
}

static void do_node(int i, frame_t *g) {
    int k;
    sim_setop(i);
    k = sim_logical() - 101;
    if (k >= 0 && k < MAXFUT && is_fut(R->variant)) {
        if (fu[k].joined) sim_violation("late-event", "op %d runs although its thread has been joined", i);
        if (fu[k].done_seen && !in_tdefer[k + 1]) sim_violation("done-early", "op %d runs although its future was reported as done", i);
    }
    switch (OP(i).kind) {
    case K_MARK: sim_log(E_MARK, i, 0); break;
    case K_CALL: do_list(first_child(i), g); sim_log(E_EXITN, i, 0); break;
    case K_HOOKS:
        hooks = OP(i).a; picky = OP(i).b;
        exception_setup_func = hooks ? on_setup : NULL;
        exception_unwind_func = hooks >= HK_UNWIND ? on_unwind : NULL;
        break;
    case K_GUARD: do_guard(i, g); break;
    case K_TRY: do_try(i, g); break;
    case K_THROW: sim_fired(FT_THROW); do_throw(i, OP(i).a); break;
    case K_PANIC: sim_fired(FT_THROW); do_panic(i); break;
    case K_SIGNAL: if (ending[my_tf() - tf]) break; sim_expect_signal(sig_no[OP(i).a - X_SFPE]); raise(sig_no[OP(i).a - X_SFPE]); sim_log(E_SIGRET, i, 0); break;
    case K_TRAP: if (ending[my_tf() - tf]) break; do_trap(i); break;
    case K_DEFER: do_defer(i, g); break;
    case K_RECOVER: do_recover(i, g); break;
    case K_FREEM: if (g) do_freem(i, g); break;
    case K_TCANCEL: case K_TFIRE: do_tcancel(i); break;
    case K_ALLOC: do_alloc(i, g); break;
    case K_USE: if (g) check_frame(g, i); check_frame(my_tf(), i); break;
    case K_ARGS: do_args(i, g); break;
    case K_ASYNC: do_async(i); break;
    case K_GET: do_get(i); break;
    case K_WAITF: case K_DONEF: do_wait(i); break;
    case K_FSCOPE: do_fscope(i, g); break;
    case K_SPAWNF: do_spawnf(i); break;
    case K_SYNC: do_sync(i); break;
    case K_MISUSE: do_misuse(i); break;
    case K_FLAGS: ex_flags_reset(); break;
    case K_OWNSIG:
        if (OP(i).b == 2) ex_signal(sig_no[OP(i).a - X_SFPE], OP(i).c < X_NUSER ? user_ex_of(OP(i).c) : OP(i).c == X_SFPE ? EX_NAME(sig_fpe) : OP(i).c == X_SSEGV ? EX_NAME(sig_segv) : sig_ex_of(OP(i).c));
        else if (OP(i).b) ex_signal(sig_no[OP(i).a - X_SFPE], OP(i).a == X_SUSR1 ? EX_NAME(my_signal) : sig_ex_of(OP(i).a));
        else { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = own_handler; sigaction(sig_no[OP(i).a - X_SFPE], &sa, NULL); }
        check_mask(i);
        break;
    case K_SIGRESET:
        if (OP(i).a < 0) ex_signal_default(); else ex_signal_reset(sig_no[OP(i).a]);
        for (k = 0; k < X_SEND - X_SFPE; k++) {
            struct sigaction o;
            if (OP(i).a >= 0 ? k != OP(i).a : k == X_SUSR1 - X_SFPE) continue;
            sigaction(sig_no[k], NULL, &o);
            if (o.sa_handler != SIG_DFL) sim_violation("signal-state", "signal %d is still handled after the reset of op %d", sig_no[k], i);
        }
        k = next_sibling(i);
        if (OP(i).b || k < 0 || (OP(k).kind != K_TRY && OP(k).kind != K_GUARD)) ex_signal_setup();         /* otherwise the next block does */
        check_mask(i);
        break;
    case K_RESULT: do_result(i); break;
    case K_THEN: {
        int s = fscope_of(i);
        if (s < 0 || !fs[s].open) break;
        then_node = i; then_n = 0;
        thrd_then(then_cb, fs[s].f, &then_c.token[0]);
        break;
    }
    case K_FINISH: {
        int s = fscope_of(i), j;
        if (s < 0 || !fs[s].open) break;
        if (OP(i).a & 1) while (!thrd_is_finish(fs[s].f)) thrd_yield();
        if (thrd_is_finish(fs[s].f)) for (j = 0; j < fs[s].n; j++) done_now(OP(fs[s].node[j]).c);
        break;
    }
    case K_CANCEL: case K_FIRE: {
        int m = 0, want, j;
        if (!g) break;
        for (k = 0; k < g->n; k++) if (OP(g->ent[k]).kind == K_DEFER && drec[g->ent[k]].armed) m++;
        if (!m) break;
        want = OP(i).a % m;
        for (k = 0; k < g->n; k++) if (OP(g->ent[k]).kind == K_DEFER && drec[g->ent[k]].armed && want-- == 0) break;
        j = g->ent[k];
        drec[j].armed = 0;
        if (OP(i).kind == K_CANCEL) { raii_deferred_cancel(g->scope, drec[j].idx); sim_log(E_CANCEL, j, 0); }
        else { sim_log(E_FIRE, j, 0); if (OP(j).c) firing = j + 1; raii_deferred_fire(g->scope, drec[j].idx); firing = 0; }
        break;
    }
    case K_PROTECT: do_protect(i, g); break;
    case K_SPAWN:
        if (thrd_create(&thr_h[thr_n], thread_main, (void *)(intptr_t)i) == thrd_success) { thr_n++; sim_log(E_SPAWN, i, 0); }
        else sim_log(E_SPAWN, i, 1);
        break;
    case K_JOINALL: for (k = 0; k < thr_n; k++) thrd_join(thr_h[k], NULL); thr_n = 0; break;
    case K_REPEAT: sim_nofault(1); do_repeat(i); sim_nofault(0); sim_log(E_MARK, i, 0); break;
    case K_YIELD: if (OP(i).a == 0) thrd_yield(); else if (OP(i).a == 1) usleep(50); break;
    case K_SCOPE: {
        memory_t *s; frame_t *f = &fr[i];
        if (!g) break;
        sim_nofault(1);
        s = unique_init();
        raii_deferred(g->scope, (func_t)raii_delete, s);
        sim_nofault(0);
        add_entry(g, i);
        f->node = i; f->scope = s; f->n = 0; parent_of[i] = NULL;
        for (k = first_child(i); k >= 0; k = next_sibling(k)) do_node(k, f);
        break;
    }
    case K_CLEAN:
        raii_init();
        my_tf()->scope = raii_local();
        raii_deferred_clean();
        frame_gone(my_tf(), i);
        my_tf()->n = 0;
        sim_log(E_CLEAN, i, 0);
        break;
    }
    sim_setop(i);
}
static void do_list(int first, frame_t *g) {
    int i;
    for (i = first; i >= 0; i = next_sibling(i)) do_node(i, g);
}

static int thr_node_any(void) { int i; for (i = 0; i < R->prog.n; i++) if (OP(i).kind == K_SPAWN) return 1; return 0; }
int term_trace = -3;      /* the stack trace of the first report, made before the callbacks are called */
static void reported(void) { if (term_trace == -3) term_trace = sim_trace(); }
static void on_term(void) { reported(); sim_log_at(1000, E_TERM, 0, 0); if (TERM_THROWS()) { sim_fired(FT_THROW); throw(range_error); } }
static void on_ctrlc(void) { reported(); sim_log_at(1000, E_CTRLC, 0, 0); if (CTRLC_THROWS()) { sim_fired(FT_THROW); _panic("not now"); } }

int prog_main(void) {
    sim_set_logical(0);
    exception_terminate_func = on_term;
    exception_ctrl_c_func = on_ctrlc;
    if (R->seed & 0x300) block_signals((R->seed & 0x100 ? 1u << SIGCHLD : 0) | (R->seed & 0x200 ? 1u << SIGUSR2 | 1u << SIGIO : 0));
    sim_nofault(1);
    if (R->seed & 64) raii_init(); else if (R->seed & 32 || R->variant == V_SIGNAL) ex_signal_setup();
    if (exception_signal_set) ex_signal(SIGUSR1, EX_NAME(my_signal));     /* the first one otherwise keeps the others from being set up */
    sim_nofault(0);
    if (R->variant == V_THREADS || (R->variant == V_HOOKS && thr_node_any())) sim_nofault(1);
    main_self = thrd_self();
    if (is_fut(R->variant)) {
        try { do_list(first_child(-1), NULL); }
        catch_any { sim_log(E_CATCH, -4, code_of(err)); WHERE(); }
        end_try;
        sim_nofault(1);
        reap();
        sim_nofault(0);
    } else
        do_list(first_child(-1), NULL);
    sim_setop(-1);
    return 0;
}
