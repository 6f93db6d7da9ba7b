/* Deterministic simulator: interface seen by the workloads (and by the library through wrapped symbols). */
#ifndef SIM_H
#define SIM_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

/* ---------- PRNG (splitmix/xorshift; one stream per purpose, all derived from the run seed) ---------- */
typedef struct { uint64_t s; } rng_t;
uint64_t rng_next(rng_t *r);
uint64_t rng_mix(uint64_t a, uint64_t b);
static inline uint64_t rng_below(rng_t *r, uint64_t n) { return n ? rng_next(r) % n : 0; }
static inline int rng_pct(rng_t *r, int p) { return (int)(rng_next(r) % 100) < p; }

/* ---------- programs: preorder list of operations, depth gives the tree ---------- */
#define MAXOPS 512
typedef struct { int depth, kind, a, b, c; } op_t;
typedef struct { int n; op_t op[MAXOPS]; } prog_t;

/* ---------- fault kinds ---------- */
enum {
    FT_ALLOC,      /* n-th allocation made by instrumented code returns NULL */
    FT_THRD,       /* n-th thread creation fails (arg: 2 thrd_error, 3 thrd_nomem) */
    FT_SIGNAL,     /* signal raised from user code (counted, decided by the program) */
    FT_STALL,      /* n-th created thread is stalled for arg steps once */
    FT_SLEEP,      /* sleep seam used: simulated delay */
    FT_CPU,        /* number of cpus reported */
    FT_TSS,        /* tss_create fails */
    FT_WILD,       /* a hardware trap provoked by user code (null access, division) */
    FT_THROW,      /* user exceptions (counted only) */
    FT_AFFINITY,   /* the affinity mask cannot be read */
    FT_WEAK,       /* n-th weak compare-and-exchange fails although the value matches */
    FT_KINDS
};

/* ---------- one run's plan ---------- */
typedef struct { uint32_t step; int32_t tid; } dev_t_;
typedef struct { int kind; int n; int arg; } fault_t;
#define MAXDEV 400000
#define MAXFAULT 64
#define MAXLOG 8192
#define MAXTHREADS 64

typedef struct { int32_t thr, ev, a, b; } logent_t;

enum { OUT_NONE, OUT_OK, OUT_VIOLATION };

typedef struct {
    /* in */
    char scenario[32];
    uint64_t seed;
    int variant;          /* scenario variation (property profile) */
    int replay;           /* use dev/fault/prog lists instead of the PRNG */
    prog_t prog;
    int nfault; fault_t fault[MAXFAULT];
    int ndev; dev_t_ dev[MAXDEV];
    int fill;             /* malloc fill byte */
    int reuse;            /* heap reuses freed blocks at once */
    int cpus;
    int wordpts;          /* string functions have scheduling points inside */
    /* out */
    volatile int outcome;
    char vclass[48];
    char vmsg[512];
    uint64_t steps, switches, choices, simtime_ns;
    uint64_t sched_hash, log_hash, full_hash;
    uint64_t fired[FT_KINDS];
    uint64_t allocs, frees, threads, accesses, atomics;
    int strategy;
    int maxrunnable;
    int exit_code, exited; /* exit() taken by the library */
    int nlog; logent_t log[MAXLOG];
    uint64_t probes[32];
} run_t;
extern run_t *R;

/* ---------- scenario table ---------- */
typedef struct {
    const char *name;
    void (*gen)(rng_t *r, int variant, prog_t *p, run_t *run); /* runs outside the simulation */
    int  (*main)(void);                                         /* simulated main thread */
    void (*check)(void);                                        /* after the process' exit handlers; may call sim_violation */
    int words;                                                  /* string functions often have scheduling points inside */
} scenario_t;
extern const scenario_t scenarios[];

/* ---------- services for workloads ---------- */
void sim_log(int ev, int a, int b);            /* event of the current thread */
void sim_log_at(int thr, int ev, int a, int b);
void sim_violation(const char *cls, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
int  sim_tid(void);                            /* simulated thread number, 0 = main */
void sim_set_logical(int id);                  /* events of this thread are filed under id */
int  sim_logical(void);
uint64_t sim_steps(void);
uint64_t sim_stamp(void);                      /* increasing stamp for real-time order of operations */
void sim_setop(int node);                      /* operation the current thread executes (fault attribution) */
int  sim_getop(void);
void sim_setchildop(int node);                 /* operation of threads this one creates, until they set their own */
int  sim_oom_at(int node);                     /* allocation faults fired while executing node */
int  sim_thrdfail_at(int node);
bool sim_live(const void *p);                  /* p is the start of a live heap block */
unsigned sim_gen(const void *p);                /* generation of the live block starting at p, 0 if none */
long sim_live_blocks(void);
bool sim_within(const void *p, long n);         /* the n bytes at p lie in one live heap block */
void sim_describe_live(char *buf, size_t n);
void sim_nofault(int on);                      /* suspend fault injection for the current thread */
void sim_fired(int kind);
void sim_expect_signal(int sig);               /* the next sig in this thread is provoked by the workload */
uint64_t sim_now(void);
void sim_probe(int i);
const char *sim_stderr(void);         /* what was written to the error stream */
int sim_trace(void);                  /* the operation whose stack trace was printed last */
int  sim_trace_op(void *const *b, long n);        /* the operation a stack trace was recorded in */
/* happens-before checked cells */
void sim_hb_read(const void *cell, const char *what);
void sim_hb_write(const void *cell, const char *what);
/* an atomic operation of the workload on p: whether it is to publish, and after it, whether it is to receive */
void sim_atomic_begin(const volatile void *p, int release);
int  sim_atomic_end(int acquire);
void sim_watch(const volatile void *p, int bytes);     /* reads of this atomic may be late where its orders allow that */
void sim_point(void);                          /* explicit scheduling point */
bool sim_thread_finished(int tid);
int  sim_threads_created(void);
int  sim_threads_unjoined(void);
void sim_leakcheck_off(void);
bool sim_exited(void);
/* thread-level helper for workloads needing raw threads: thrd_create/thrd_join are simulated */
#endif
