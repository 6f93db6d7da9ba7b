/* Program trees over guard / try / defer / allocation, shared by generator, reference model and interpreter. */
#ifndef PROG_H
#define PROG_H
#include "sim.h"
enum {
    K_MARK = 1, K_CALL, K_GUARD, K_TRY, K_BODY, K_HND, K_FIN, K_THROW, K_PANIC, K_SIGNAL, K_TRAP, K_DEFER,
    K_RECOVER, K_ALLOC, K_USE, K_BREAK, K_RETURN, K_CANCEL, K_FIRE, K_PROTECT, K_SPAWN, K_JOINALL, K_YIELD,
    K_RETHROW, K_SCOPE, K_CLEAN, K_BTRACE, K_ASYNC, K_ARGS,
    K_GET, K_FREEM, K_TCANCEL, K_TFIRE, K_WAITF, K_DONEF, K_FSCOPE, K_SPAWNF, K_SYNC, K_RESULT, K_THEN, K_FINISH, K_REAP,
    K_MISUSE, K_SIGRESET, K_HOOKS, K_FLAGS, K_OWNSIG, K_REPEAT
};
/* exceptions */
enum { X_DIV, X_RANGE, X_BADALLOC, X_LOGIC, X_MINE, X_PREFIX, X_EIGHT, X_EIGHT2, X_LONG, X_LONG2, X_NUSER,
       X_SFPE = 10, X_SSEGV, X_STERM, X_SINT, X_SABRT, X_SILL, X_SBUS, X_SHUP, X_SQUIT, X_SALRM, X_STRAP, X_SWINCH, X_SUSR1, X_SEND,
       X_PANIC = 50, X_FUTURE = 60 };
/* codes in the trace: 0 none, 1+X, 100+msg for panic messages, 999 any other message */
#define CODE_NONE 0
#define CODE_X(x) (1 + (x))
#define CODE_MSG(m) (100 + (m))
#define CODE_OTHER 999
#define NMSG 10
enum { E_MARK = 1, E_ENTER, E_EXITN, E_DEFER, E_RECOVER, E_CATCH, E_FIN, E_DTOR, E_ALLOC, E_BREAK, E_RETURN, E_RETVAL, E_CANCEL, E_FIRE,
       E_TERM, E_CTRLC, E_EXIT, E_THREADEND, E_SPAWN, E_PROTOK, E_CLEAN, E_SIGRET, E_TRAPRET,
       E_ASYNC, E_START, E_GOT, E_SYNC, E_RESULT, E_THEN, E_DESTROY, E_ARGS, E_FREEM, E_WHERE, E_SETUP, E_UNWIND, E_OWN };
/* where an error was thrown: place (file, line, function) as a code, and the operation in its stack trace */
#define PL_USER(i) (100000 + (i))
#define PL_THROW(x) (200000 + (x))
#define PL_PANIC 300000
#define PL_ANY (-1)
#define BT_ANY 0xffff
/* try forms */
enum { TF_ANY, TF_E0, TF_E0E1, TF_E1ANY, TF_IF02, TF_NONE, TF_FINALITY, TF_PANIC, TF_SIG, TF_IFPANIC, TF_CPRE, TF_EIGHT, TF_IFSIG, TF_LONG, TF_N };
/* K_REPEAT a, b times: the same small thing over and over */
enum { RP_CATCH, RP_GUARD, RP_RECOVER, RP_SIGNAL, RP_SCOPE, RP_PROTECT, RP_NEST, RP_BULK, RP_PDEEP, RP_NAMES, RP_N1, RP_ASYNC = RP_N1, RP_SPAWN, RP_CROWD, RP_N };
/* K_PROTECT b: the destructor raises signal b - 1, or throws */
enum { PD_THROW = 100 };
/* programs in which a callback at the end throws */
#define TERM_THROWS() (R->variant != V_HOOKS && ((R->seed >> 12) & 7) == 1)
#define CTRLC_THROWS() (R->variant != V_HOOKS && ((R->seed >> 12) & 7) == 2)
/* allocation apis */
enum { N_HUGE = 4 };   /* K_ALLOC with a negative size: a request that cannot be met */
enum { A_MALLOC, A_CALLOC, A_MFULL, A_CFULL, A_MBY, A_CBY, A_MDEF, A_CDEF, A_MEMDUP, A_CONCAT, A_REPLACE, A_SPLIT, A_ENC64, A_DEC64, A_N };
enum { V_DEFER, V_RECOVER, V_ROUTE, V_MEMORY, V_OOM, V_UNCAUGHT, V_SIGNAL, V_THREADS, V_PROTECT, V_CANCEL,
       V_FUT, V_SPAWN, V_FUTEXC, V_FUTDEFER, V_FUTFAULT, V_ARGS, V_HOOKS, V_NPROG };
static inline int is_fut(int v) { return v >= V_FUT && v <= V_FUTFAULT; }
/* K_HOOKS a: no callbacks, a setup callback only, setup and unwind callback, the same swapping the data of the context;
 * b: unwinding is asked for by some errors only.
 * The application's own scope: K_DEFER with a = D_APP, K_ALLOC with c = 1. */
enum { HK_NONE, HK_SETUP, HK_UNWIND, HK_SWAP }; enum { D_APP = 4 };
#define MAXFUT 40
/* how an argument is passed and the value returned: b = arg * 4 + ret */
enum { AR_RAW, AR_ARGS }; enum { RT_INT, RT_PTR, RT_HEAP, RT_NULL };
/* a: a result object is made before the body runs, made but another value returned, the function ends only when the one waiting lets it */
enum { FA_EARLY = 1, FA_DROP = 2, FA_GATE = 4 };
#define GIVES(i) ((OP(i).b & 3) == RT_HEAP || ((OP(i).b >> 2) == AR_ARGS && (OP(i).a & FA_DROP)))
#define RET_CODE(node, ret) ((ret) == RT_NULL ? 0 : 5000 + (node) * 4 + (ret))
static inline int is_thread_alloc(int api) { return api >= A_MDEF; }
void prog_gen(rng_t *r, int variant, prog_t *p, run_t *run);
void prog_check(void);
int prog_main(void);
const char *code_text(int code);      /* name or message, NULL if it is not the program's */
int first_child(int i);   /* -1 if none */
int next_sibling(int i);
int find_child(int node, int kind, int a);
int parent_node(int i);
int in_try_of_defer(int i);/* inside a try block of the deferred function */
int fscope_of(int i);     /* innermost enclosing thread scope whose spawn is usable at i, or -1 */
int thread_of(int i);     /* logical thread executing node i */
int thr_node(int k), fut_node(int k);      /* the K_ASYNC node with number k, or -1 */
int fut_owner(int k);     /* logical thread that consumes future k */
int fut_reserved(int i);  /* K_GET node i is the one that consumes its future */
int pool_index(int i);    /* position of K_SPAWNF node i among the spawns of its scope, in program order (upper bound of slots) */
#endif
