/* Deterministic simulator core: threads on a baton, memory-access scheduling points, simulated heap,
 * simulated clock, fault injection, crash/deadlock/no-progress detection.
 * Never instrumented itself; everything of /repo and of the workloads is. */
#define _GNU_SOURCE
#include "sim.h"
#include <errno.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

run_t *R;

/* ------------------------------------------------------------------ PRNG */
uint64_t rng_next(rng_t *r) {
    uint64_t z = (r->s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
uint64_t rng_mix(uint64_t a, uint64_t b) {
    rng_t r = { a ^ (b * 0xd6e8feb86659fd93ull) };
    rng_next(&r);
    return rng_next(&r);
}
static inline uint64_t fnv(uint64_t h, uint64_t v) { return (h ^ v) * 0x100000001b3ull; }

/* ------------------------------------------------------------------ state */
enum { T_FREE, T_RUN, T_JOIN, T_MTX, T_CND, T_SLEEP, T_DONE };
#define STACK_BASE 0x200000000000ull
#define STACK_SIZE (512u * 1024)
#define HEAP_BASE 0x300000000000ull
#define HEAP_SIZE (96ull * 1024 * 1024)
#define MAXVAR 4096

typedef struct {
    int tid, state, joined, detached, joiner;
    pthread_t pt;
    uint32_t go;
    int (*fn)(void *);
    void *(*pfn)(void *);
    void *arg;
    void *res;
    jmp_buf exit_jb;
    void *wait;
    uint64_t wake;
    int64_t prio;
    int logical;
    int op, child_op;
    int nofault;
    int expect_sig;
    uint64_t run_since;
    uintptr_t spin_addr;
    int spin_count;
    uint64_t local;
    uint64_t stall_until;
    void *tss[64];
    uint32_t vc[MAXTHREADS];
    int litsc, fenced;          /* its last write of a watched object is sequentially consistent; a fence since then */
    unsigned litseen[8];
    struct { uintptr_t a; int rel; uint32_t wc; int ft1, frel; uint32_t fc; } at;    /* the atomic operation it is in, and which write it read */
    int timedout;
} thr_t;

static thr_t T[MAXTHREADS];
static thr_t *C;            /* running thread */
static int nthreads;
static int active;          /* simulation on: callbacks do something */
static uint64_t step_, next_ev, now_ns, cap_steps = 4000000;
static rng_t rs;            /* scheduling stream */
static int strategy, gap_mean, sync_pct;
static int64_t low_prio;
static uint64_t pct_at[8];
static int npct, ipct;
static int devi;            /* replay cursor */
static uint64_t alloc_n, thrd_n;
static int oom_at[2 * MAXOPS + 1], thrdfail_at[2 * MAXOPS + 1];
static int leak_off;
static uint64_t stamp;
static int hb_on = 1;
#define FAIR 12000

uint64_t sim_steps(void) { return step_; }
uint64_t sim_stamp(void) { return ++stamp; }
uint64_t sim_now(void) { return now_ns; }
int sim_tid(void) { return C ? C->tid : 0; }
void sim_set_logical(int id) { C->logical = id; }
int sim_logical(void) { return C->logical; }
void sim_setop(int n) { C->op = n; }
int sim_getop(void) { return C->op; }
void sim_setchildop(int n) { C->child_op = n; }
int sim_oom_at(int n) { return (n >= 0 && n <= 2 * MAXOPS) ? oom_at[n] : 0; }
int sim_thrdfail_at(int n) { return (n >= 0 && n <= 2 * MAXOPS) ? thrdfail_at[n] : 0; }
void sim_nofault(int on) { C->nofault += on ? 1 : -1; }
void sim_fired(int k) { R->fired[k]++; }
void sim_expect_signal(int s) { C->expect_sig = s; R->fired[FT_SIGNAL]++; }
void sim_leakcheck_off(void) { leak_off = 1; }
void sim_probe(int i) { R->probes[i & 31]++; }
bool sim_exited(void) { return R->exited; }
bool sim_thread_finished(int t) { return t < nthreads && T[t].state == T_DONE; }
int sim_threads_created(void) { return nthreads - 1; }
int sim_threads_unjoined(void) {
    int i, n = 0;
    for (i = 1; i < nthreads; i++) if (!T[i].joined && !T[i].detached) n++;
    return n;
}

static void finish_run(int outcome) __attribute__((noreturn));
static void finish_run(int outcome) {
    active = 0;
    R->steps = step_;
    R->simtime_ns = now_ns;
    R->threads = nthreads;
    R->full_hash = fnv(fnv(fnv(R->sched_hash, R->log_hash), step_), R->allocs * 31 + R->frees);
    R->outcome = outcome;
    syscall(SYS_exit_group, 0);
    for (;;) ;
}

void sim_violation(const char *cls, const char *fmt, ...) {
    va_list ap;
    active = 0;
    if (R->outcome == OUT_NONE) {
        snprintf(R->vclass, sizeof R->vclass, "%s", cls);
        va_start(ap, fmt);
        vsnprintf(R->vmsg, sizeof R->vmsg, fmt, ap);
        va_end(ap);
    }
    finish_run(OUT_VIOLATION);
}

void sim_log_at(int thr, int ev, int a, int b) {
    if (R->nlog < MAXLOG) {
        logent_t *e = &R->log[R->nlog++];
        e->thr = thr; e->ev = ev; e->a = a; e->b = b;
    } else if (active)
        sim_violation("log-overflow", "more than %d events: runaway repetition", MAXLOG);
    R->log_hash = fnv(fnv(fnv(fnv(R->log_hash, thr), ev), a), b);
}
void sim_log(int ev, int a, int b) { sim_log_at(C->logical, ev, a, b); }

/* ------------------------------------------------------------------ happens-before */
typedef struct { uintptr_t addr; uint32_t vc[MAXTHREADS]; uint32_t wc; uint8_t wt1, wrel; } var_t_;    /* and who wrote it last: thread + 1, when, whether it is to publish */
static var_t_ *vars;
static int nvars_used;
static var_t_ *var_of(uintptr_t a, int create) {
    uint32_t h = (uint32_t)((a >> 0) * 0x9e3779b1u) % MAXVAR, i;
    if (!vars) return NULL;
    for (i = 0; i < MAXVAR; i++, h = (h + 1) % MAXVAR) {
        if (vars[h].addr == a) return &vars[h];
        if (!vars[h].addr) {
            if (!create || nvars_used > MAXVAR / 2) return NULL;
            nvars_used++;
            vars[h].addr = a;
            return &vars[h];
        }
    }
    return NULL;
}
static void vc_join(uint32_t *a, const uint32_t *b) {
    int i;
    for (i = 0; i < nthreads; i++) if (b[i] > a[i]) a[i] = b[i];
}
static void hb_acquire(uintptr_t a) { var_t_ *v = var_of(a, 0); if (v) vc_join(C->vc, v->vc); }
static void hb_release(uintptr_t a, int rmw) {
    var_t_ *v = var_of(a, 1);
    if (!v) return;
    if (rmw) vc_join(v->vc, C->vc); else memcpy(v->vc, C->vc, sizeof v->vc);
    C->vc[C->tid]++;
}
/* a plain relaxed store breaks the release sequence */
static void hb_relaxed_store(uintptr_t a) { var_t_ *v = var_of(a, 0); if (v) memset(v->vc, 0, sizeof v->vc); }
/* the workload says what one of its atomic operations is to guarantee; afterwards that is compared with what it did */
void sim_atomic_begin(const volatile void *p, int release) {
    memset(&C->at, 0, sizeof C->at);
    if (!active || !var_of((uintptr_t)p, 1)) return;
    C->at.a = (uintptr_t)p;
    C->at.rel = release;
    C->at.wc = C->vc[C->tid];
}
static void at_reads(uintptr_t a) {
    var_t_ *v;
    if (C->at.a != a || !(v = var_of(a, 0))) return;
    C->at.ft1 = v->wt1;
    C->at.frel = v->wrel;
    C->at.fc = v->wc;
}
static void at_writes(uintptr_t a) {
    var_t_ *v;
    if (C->at.a != a || !(v = var_of(a, 0))) return;
    v->wt1 = (uint8_t)(C->tid + 1);
    v->wrel = (uint8_t)C->at.rel;
    v->wc = C->at.wc;
}
int sim_atomic_end(int acquire) {      /* the thread whose published work this one does not see although it should, or -1 */
    int u = C->at.ft1 - 1;
    int bad = C->at.a && acquire && u >= 0 && u != C->tid && C->at.frel && C->vc[u] < C->at.fc;
    C->at.a = 0;
    return bad ? u : -1;
}
/* watched objects: a read of one may return the value before the last write, unless orders or the reader's knowledge forbid it */
static struct { uintptr_t a; int n, by, sc; uint32_t wc; unsigned count; uint64_t old; } lit[8];
static int nlit;
static uint64_t lit_before;
void sim_watch(const volatile void *p, int bytes) {
    if (nlit == 8) return;
    lit[nlit].a = (uintptr_t)p; lit[nlit].n = bytes; lit[nlit].by = -1;
    nlit++;
}
static int lit_of(uintptr_t a) {
    int i;
    for (i = 0; i < nlit && lit[i].a != a; i++);
    return i < nlit ? i : -1;
}
static void lit_pre(uintptr_t a, size_t n) { if (nlit && lit_of(a) >= 0) { lit_before = 0; memcpy(&lit_before, (void *)a, n); } }
static void lit_write(uintptr_t a, int mo) {
    int k = lit_of(a);
    if (k < 0) return;
    lit[k].old = lit_before;
    lit[k].by = C->tid;
    lit[k].wc = C->vc[C->tid];
    C->litsc = lit[k].sc = mo == __ATOMIC_SEQ_CST;
    C->fenced = 0;
    C->litseen[k] = ++lit[k].count;
}
static int lit_stale(uintptr_t a, int mo, uint64_t *v) {
    int k = lit_of(a);
    if (k < 0) return 0;
    if (lit[k].by >= 0 && lit[k].by != C->tid && C->vc[lit[k].by] < lit[k].wc && C->litseen[k] < lit[k].count
        && !(lit[k].sc && C->litsc && (mo == __ATOMIC_SEQ_CST || C->fenced)) && (rng_mix(R->seed ^ 0x57a1e, step_) & 3)) {
        if (C->litseen[k] < lit[k].count - 1) C->litseen[k] = lit[k].count - 1;
        *v = lit[k].old;
        return 1;
    }
    C->litseen[k] = lit[k].count;
    return 0;
}
static void lit_fence(int mo) {
    int k;
    if (mo != __ATOMIC_SEQ_CST) return;
    C->litsc = C->fenced = 1;
    for (k = 0; k < nlit; k++) if (lit[k].by == C->tid) lit[k].sc = 1;
}
/* cells: epoch of last write, and of the last read by each thread, kept as variables next to the cell's address */
typedef struct { uintptr_t addr; int wt; uint32_t wc; uint32_t rc[MAXTHREADS]; } cell_t;
#define MAXCELL 256
static cell_t cells[MAXCELL];
static cell_t *cell_of(uintptr_t a) {
    int i;
    for (i = 0; i < MAXCELL; i++) {
        if (cells[i].addr == a) return &cells[i];
        if (!cells[i].addr) { cells[i].addr = a; cells[i].wt = -1; return &cells[i]; }
    }
    return NULL;
}
void sim_hb_read(const void *p, const char *what) {
    cell_t *c = cell_of((uintptr_t)p);
    if (!c || !active) return;
    if (c->wt >= 0 && c->wt != C->tid && c->wc > C->vc[c->wt])
        sim_violation("data-race", "%s: read by thread %d is not ordered after the write by thread %d", what, C->tid, c->wt);
    c->rc[C->tid] = C->vc[C->tid];
}
void sim_hb_write(const void *p, const char *what) {
    cell_t *c = cell_of((uintptr_t)p);
    int i;
    if (!c || !active) return;
    if (c->wt >= 0 && c->wt != C->tid && c->wc > C->vc[c->wt])
        sim_violation("data-race", "%s: write by thread %d is not ordered after the write by thread %d", what, C->tid, c->wt);
    for (i = 0; i < nthreads; i++)
        if (i != C->tid && c->rc[i] > C->vc[i])
            sim_violation("data-race", "%s: write by thread %d is not ordered after the read by thread %d", what, C->tid, i);
    c->wt = C->tid;
    c->wc = C->vc[C->tid];
}

/* ------------------------------------------------------------------ scheduling */
static void futex_wait(uint32_t *w) {
    while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0)
        syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
static void futex_wake(uint32_t *w) {
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}

static int runnable(thr_t *t) {
    if (t->state == T_RUN) return 1;
    if ((t->state == T_SLEEP || (t->state == T_CND && t->wake)) && t->wake <= now_ns) return 1;
    return 0;
}

static void set_next_ev(void) {
    uint64_t n = cap_steps;
    if (C->run_since + FAIR < n) n = C->run_since + FAIR;
    if (R->replay) {
        while (devi < R->ndev && R->dev[devi].step <= step_) devi++;
        if (devi < R->ndev && R->dev[devi].step < n) n = R->dev[devi].step;
    } else if (nthreads > 1) {
        if (strategy == 1 || strategy == 3) {
            uint64_t g = 1 + rng_below(&rs, 2 * (uint64_t)gap_mean);
            if (step_ + g < n) n = step_ + g;
        } else if (strategy == 2 && ipct < npct && pct_at[ipct] < n)
            n = pct_at[ipct] > step_ ? pct_at[ipct] : step_ + 1;
    }
    next_ev = n > step_ ? n : step_ + 1;
}

static void switch_to(thr_t *t, int dead) {
    thr_t *me = C;
    if (t == me) { set_next_ev(); return; }
    R->switches++;
    R->sched_hash = fnv(fnv(fnv(R->sched_hash, me->tid), t->tid), me->local);
    t->run_since = step_;
    t->spin_count = 0;
    if (t->state == T_SLEEP) t->state = T_RUN;
    if (t->state == T_CND) { t->state = T_RUN; t->timedout = 1; }
    C = t;
    set_next_ev();
    futex_wake(&t->go);
    if (!dead) futex_wait(&me->go);
}

/* cand: list of runnable threads. def: default choice. Decide, record, switch. */
static void choose(int voluntary, int dead) {
    int cand[MAXTHREADS], n = 0, i, def = -1, pick;
    thr_t *me = C;
    for (;;) {
        int nst = 0, st[MAXTHREADS];
        n = 0;
        for (i = 0; i < nthreads; i++)
            if (runnable(&T[i])) {
                if (T[i].stall_until > step_) st[nst++] = i;
                else cand[n++] = i;
            }
        if (!n) for (i = 0; i < nst; i++) cand[n++] = st[i];
        if (n) break;
        {   /* idle: advance the clock to the next timer */
            uint64_t w = 0;
            for (i = 0; i < nthreads; i++)
                if ((T[i].state == T_SLEEP || T[i].state == T_CND) && T[i].wake && (!w || T[i].wake < w)) w = T[i].wake;
            if (!w) {
                char b[256]; int k = 0;
                for (i = 0; i < nthreads && k < 200; i++)
                    if (T[i].state != T_DONE)
                        k += snprintf(b + k, sizeof b - k, " t%d:%s", i, T[i].state == T_JOIN ? "join" : T[i].state == T_MTX ? "mutex" : "cond");
                sim_violation("deadlock", "no thread can run:%s", b);
            }
            now_ns = w;
        }
    }
    if (n > R->maxrunnable) R->maxrunnable = n;
    R->choices++;
    /* default: stay if this was a preemption point, else the next runnable thread in tid order */
    if (!voluntary && !dead && runnable(me) && me->stall_until <= step_) def = me->tid;
    else {
        for (i = 0; i < n && def < 0; i++) if (cand[i] > me->tid) def = cand[i];
        if (def < 0) def = cand[0];
        if (def == me->tid && n > 1) def = cand[0] == me->tid ? cand[1] : cand[0];
    }
    pick = def;
    if (R->replay) {
        int j = devi;
        while (j < R->ndev && R->dev[j].step < step_) j++;
        devi = j;
        if (j < R->ndev && R->dev[j].step == step_) {
            for (i = 0; i < n; i++) if (cand[i] == R->dev[j].tid) pick = cand[i];
            devi = j + 1;
        }
    } else {
        switch (strategy) {
        case 0: break;
        case 2: {
            if (voluntary && !dead) me->prio = --low_prio;
            pick = cand[0];
            for (i = 1; i < n; i++) if (T[cand[i]].prio > T[pick].prio) pick = cand[i];
            break;
        }
        default:
            pick = cand[rng_below(&rs, n)];
            if (voluntary && !dead && pick == me->tid && n > 1 && !rng_pct(&rs, 10)) pick = def;
        }
        if (pick != def) {
            if (R->ndev < MAXDEV) { R->dev[R->ndev].step = (uint32_t)step_; R->dev[R->ndev++].tid = pick; }
        }
    }
    switch_to(&T[pick], dead);
}

static void slow_step(void) {
    if (step_ >= cap_steps)
        sim_violation("no-progress", "no completion within %llu steps (thread %d in operation %d)", (unsigned long long)cap_steps, C->tid, C->op);
    if (!R->replay && strategy == 2 && ipct < npct && step_ >= pct_at[ipct]) {
        while (ipct < npct && step_ >= pct_at[ipct]) ipct++;
        C->prio = --low_prio;
    }
    if (nthreads == 1) { C->run_since = step_; set_next_ev(); return; }
    {
        int fair = step_ - C->run_since >= FAIR;
        if (fair) C->run_since = step_;
        choose(fair, 0);
        set_next_ev();
    }
}

static inline void point(void) {
    if (!active) return;
    step_++;
    C->local++;
    now_ns += 20;
    if (step_ >= next_ev) slow_step();
}
/* synchronisation point: biased strategies preempt here more often */
static inline void sync_pt(void) {
    if (!active) return;
    if (!R->replay && strategy == 3 && nthreads > 1 && step_ + 1 < next_ev && rng_pct(&rs, sync_pct)) next_ev = step_ + 1;
    point();
}
void sim_point(void) { point(); }

static void yield_pt(void) {
    if (!active) return;
    step_++; C->local++; now_ns += 100;
    if (step_ >= cap_steps) slow_step();
    choose(1, 0);
}

static void block_on(int state, void *w) {
    C->state = state;
    C->wait = w;
    choose(1, 0);
}

/* ------------------------------------------------------------------ heap */
typedef struct { uint32_t off, size; uint8_t state; int8_t tid; int16_t op; uint32_t gen; } blk_t;
#define MAXBLK 65536
static blk_t *blk;
static uint32_t *hmap;      /* block index per 16 bytes, 0 = redzone / never allocated */
static uint32_t nblk, brk_;
static long live_blocks, live_bytes;
static uint32_t freelist[64][64]; static int nfreelist[64];

static inline int in_heap(uintptr_t a) { return a - HEAP_BASE < HEAP_SIZE; }
static blk_t *blk_at(uintptr_t a) {
    uint32_t i = hmap[(a - HEAP_BASE) >> 4];
    return i ? &blk[i] : NULL;
}
bool sim_live(const void *p) {
    uintptr_t a = (uintptr_t)p;
    blk_t *b;
    if (!in_heap(a)) return false;
    b = blk_at(a);
    return b && b->state == 1 && b->off == a - HEAP_BASE;
}
unsigned sim_gen(const void *p) { return sim_live(p) ? blk_at((uintptr_t)p)->gen : 0; }
long sim_live_blocks(void) { return live_blocks; }
bool sim_within(const void *p, long n) {
    uintptr_t a = (uintptr_t)p;
    blk_t *b = in_heap(a) ? blk_at(a) : NULL;
    return b && b->state == 1 && a - HEAP_BASE >= b->off && a - HEAP_BASE + n <= (uintptr_t)b->off + b->size;
}
void sim_describe_live(char *buf, size_t n) {
    uint32_t i; size_t k = 0; int c = 0;
    buf[0] = 0;
    for (i = 1; i <= nblk && k + 40 < n; i++)
        if (blk[i].state == 1 && c++ < 6)
            k += snprintf(buf + k, n - k, " [%u bytes, op %d, thread %d]", blk[i].size, blk[i].op, blk[i].tid);
}

static void bad_access(uintptr_t a, size_t n, int w) {
    blk_t *b = blk_at(a);
    uintptr_t q = a;
    if (!b) {
        while (q > HEAP_BASE && !blk_at(q) && a - q < 4096) q -= 16;
        b = blk_at(q);
        if (b) sim_violation("heap-overflow", "%s of %zu bytes, %ld bytes past the end of a %u-byte block (%s, allocated in op %d by thread %d), in op %d of thread %d",
                     w ? "write" : "read", n, (long)(a - HEAP_BASE - b->off - b->size), b->size, b->state == 1 ? "live" : "freed", b->op, b->tid, C->op, C->tid);
        sim_violation("heap-wild", "%s of %zu bytes at an unallocated heap address, in op %d of thread %d", w ? "write" : "read", n, C->op, C->tid);
    }
    if (b->state == 2)
        sim_violation("use-after-free", "%s of %zu bytes at offset %ld of a freed %u-byte block (allocated in op %d by thread %d), in op %d of thread %d",
                      w ? "write" : "read", n, (long)(a - HEAP_BASE - b->off), b->size, b->op, b->tid, C->op, C->tid);
    sim_violation("heap-overflow", "%s of %zu bytes at offset %ld of a %u-byte block (allocated in op %d by thread %d), in op %d of thread %d",
                  w ? "write" : "read", n, (long)(a - HEAP_BASE - b->off), b->size, b->op, b->tid, C->op, C->tid);
}
static inline void check_access(uintptr_t a, size_t n, int w) {
    if (in_heap(a)) {
        blk_t *b = blk_at(a);
        if (!b || b->state != 1 || a - HEAP_BASE + n > (uintptr_t)b->off + b->size) bad_access(a, n, w);
    } else if (a - STACK_BASE < (uint64_t)STACK_SIZE * MAXTHREADS) {
        int t = (int)((a - STACK_BASE) / STACK_SIZE);
        if (t != C->tid && T[t].state == T_DONE)
            sim_violation("dead-thread-memory", "%s of %zu bytes in the stack or thread storage of thread %d, which has ended, in op %d of thread %d",
                          w ? "write" : "read", n, t, C->op, C->tid);
    }
}
static void access_range(const void *p, size_t n, int w) {
    uintptr_t a = (uintptr_t)p;
    if (!active || !n) return;
    check_access(a, n, w);
}

/* more than there is */
static void *too_large(void) {
    if (C->op >= 0 && C->op <= 2 * MAXOPS) oom_at[C->op]++;
    errno = ENOMEM;
    return NULL;
}
static void *heap_alloc(size_t n, int align, int zero) {
    uint32_t i, off; blk_t *b; int cls = -1;
    size_t need = (n + 15) & ~15ul;
    if (n > HEAP_SIZE / 4) return too_large();
    if (!need) need = 16;
    if (R->reuse && need <= 1024 && align <= 16) {
        cls = (int)(need >> 4) - 1;
        if (cls < 64 && nfreelist[cls]) {
            i = freelist[cls][--nfreelist[cls]];
            b = &blk[i];
            goto have;
        }
    }
    off = (brk_ + (align - 1)) & ~(uint32_t)(align - 1);
    if (off + need + 32 > HEAP_SIZE || nblk + 1 >= MAXBLK)
        sim_violation("runaway-allocation", "simulated heap exhausted: %u blocks", nblk);
    i = ++nblk;
    b = &blk[i];
    b->off = off;
    brk_ = (uint32_t)(off + need + 32);
    { uint32_t k; for (k = 0; k < need; k += 16) hmap[(off + k) >> 4] = i; }
have:
    b->size = (uint32_t)n; b->state = 1; b->tid = (int8_t)C->tid; b->op = (int16_t)C->op; b->gen++;
    live_blocks++; live_bytes += n;
    R->allocs++;
    memset((void *)(HEAP_BASE + b->off), zero ? 0 : R->fill, need);
    return (void *)(HEAP_BASE + b->off);
}
static void heap_free(void *p) {
    uintptr_t a = (uintptr_t)p; blk_t *b; int cls;
    if (!in_heap(a)) sim_violation("bad-free", "free of a pointer that is not a heap block, in op %d of thread %d", C->op, C->tid);
    b = blk_at(a);
    if (!b || b->off != a - HEAP_BASE) sim_violation("bad-free", "free of a pointer that is not the start of a block, in op %d of thread %d", C->op, C->tid);
    if (b->state == 2) sim_violation("double-free", "second free of a %u-byte block (allocated in op %d by thread %d), in op %d of thread %d", b->size, b->op, b->tid, C->op, C->tid);
    b->state = 2;
    live_blocks--; live_bytes -= b->size;
    R->frees++;
    memset(p, 0xDD, b->size);
    if (R->reuse && b->size <= 1024) {
        cls = (int)(((b->size ? b->size + 15 : 16) >> 4)) - 1;
        if (cls >= 0 && cls < 64 && nfreelist[cls] < 64 && ((b->off & 15) == 0)) freelist[cls][nfreelist[cls]++] = (uint32_t)(b - blk);
    }
}
static int alloc_fault(void) {
    int i;
    if (C->nofault || !active) return 0;
    alloc_n++;
    for (i = 0; i < R->nfault; i++)
        if (R->fault[i].kind == FT_ALLOC && (uint64_t)R->fault[i].n == alloc_n) {
            R->fired[FT_ALLOC]++;
            if (C->op >= 0 && C->op <= 2 * MAXOPS) oom_at[C->op]++;
            errno = ENOMEM;
            return 1;
        }
    return 0;
}

void *__wrap_malloc(size_t n) {
    if (!active) return malloc(n);
    sync_pt();
    return alloc_fault() ? NULL : heap_alloc(n, 16, 0);
}
void *__wrap_calloc(size_t c, size_t n) {
    size_t t;
    if (!active) return calloc(c, n);
    sync_pt();
    if (__builtin_mul_overflow(c, n, &t)) return too_large();
    return alloc_fault() ? NULL : heap_alloc(t, 16, 1);
}
void __wrap_free(void *p) {
    if (!p) return;
    if (!active) { if (!in_heap((uintptr_t)p)) free(p); return; }
    sync_pt();
    heap_free(p);
}
void *__wrap_realloc(void *p, size_t n) {
    void *q; blk_t *b;
    if (!active) return realloc(p, n);
    sync_pt();
    if (!p) return alloc_fault() ? NULL : heap_alloc(n, 16, 0);
    if (!n) { heap_free(p); return NULL; }
    if (!sim_live(p)) { heap_free(p); return NULL; } /* reports */
    if (alloc_fault()) return NULL;
    b = blk_at((uintptr_t)p);
    q = heap_alloc(n, 16, 0);
    if (!q) return NULL;
    memcpy(q, p, b->size < n ? b->size : n);
    heap_free(p);
    return q;
}
void *__wrap_memalign(size_t al, size_t n) {
    sync_pt();
    return alloc_fault() ? NULL : heap_alloc(n, al < 16 ? 16 : (int)al, 0);
}
void *__wrap_aligned_alloc(size_t al, size_t n) { return __wrap_memalign(al, n); }
int __wrap_posix_memalign(void **p, size_t al, size_t n) { *p = __wrap_memalign(al, n); return *p ? 0 : ENOMEM; }
char *__wrap_strdup(const char *s) {
    size_t n = strlen(s) + 1; char *p;
    access_range(s, n, 0);
    p = __wrap_malloc(n);
    if (p) memcpy(p, s, n);
    return p;
}
char *__wrap_strndup(const char *s, size_t m) {
    size_t n = strnlen(s, m); char *p = __wrap_malloc(n + 1);
    if (p) { memcpy(p, s, n); p[n] = 0; }
    return p;
}

/* memory and string functions of the C library, called by instrumented code */
void *__wrap_memcpy(void *d, const void *s, size_t n) { point(); access_range(s, n, 0); access_range(d, n, 1); return memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { point(); access_range(s, n, 0); access_range(d, n, 1); return memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { point(); access_range(d, n, 1); return memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { point(); access_range(a, n, 0); access_range(b, n, 0); return memcmp(a, b, n); }
size_t __wrap_strlen(const char *s) { size_t n; point(); access_range(s, 1, 0); n = strlen(s); access_range(s, n + 1, 0); return n; }
int __wrap_strcmp(const char *a, const char *b) { point(); access_range(a, 1, 0); access_range(b, 1, 0); return strcmp(a, b); }
int __wrap_strncmp(const char *a, const char *b, size_t n) { point(); return strncmp(a, b, n); }
char *__wrap_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; point(); access_range(s, n, 0); access_range(d, n, 1); return strcpy(d, s); }
char *__wrap_strncpy(char *d, const char *s, size_t n) { point(); access_range(s, strnlen(s, n), 0); access_range(d, n, 1); return strncpy(d, s, n); }
char *__wrap_strcat(char *d, const char *s) { size_t n = strlen(s) + 1; point(); access_range(d + strlen(d), n, 1); return strcat(d, s); }

/* ------------------------------------------------------------------ threads */
static void init_thread(thr_t *t, int tid) {
    memset(t, 0, sizeof *t);
    t->tid = tid;
    t->state = T_RUN;
    t->logical = tid;
    t->op = C ? C->child_op : -1;
    t->child_op = -1;
    t->prio = (int64_t)(rng_next(&rs) % 1000000) + 1000;
}

static void tss_run_dtors(thr_t *t);
static void thread_end(thr_t *t) {
    tss_run_dtors(t);
    step_++; t->local++;
    t->state = T_DONE;
    hb_release((uintptr_t)t, 0);
    if (t->joiner >= 0 && T[t->joiner].state == T_JOIN && T[t->joiner].wait == t) T[t->joiner].state = T_RUN;
    choose(1, 1);
}

static void *trampoline(void *p) {
    thr_t *t = p;
    futex_wait(&t->go);
    if (!setjmp(t->exit_jb)) {
        point();
        if (t->pfn) t->res = t->pfn(t->arg);
        else t->res = (void *)(intptr_t)t->fn(t->arg);
    }
    thread_end(t);
    return NULL;
}

/* decorrelate the content of fresh stacks */
static void fill_stack(int tid) {
    uint64_t *p = (uint64_t *)(STACK_BASE + (uint64_t)tid * STACK_SIZE + STACK_SIZE - 49152);
    rng_t r = { R->seed ^ 0x5157ull ^ (uint64_t)tid };
    int i;
    uint64_t v = rng_next(&r);
    if ((v & 3) == 0) v = 0x0101010101010101ull;
    else if ((v & 3) == 1) v = ~0ull;
    for (i = 0; i < 32768 / 8; i++) p[i] = v;
}

static int create(pthread_t *out, int (*fn)(void *), void *(*pfn)(void *), void *arg) {
    pthread_attr_t at; thr_t *t; int i, e; sigset_t all, old;
    sync_pt();
    thrd_n++;
    for (i = 0; i < R->nfault; i++)
        if (R->fault[i].kind == FT_THRD && (uint64_t)R->fault[i].n == thrd_n) {
            R->fired[FT_THRD]++;
            if (C->op >= 0 && C->op <= 2 * MAXOPS) thrdfail_at[C->op]++;
            return R->fault[i].arg;
        }
    if (nthreads >= MAXTHREADS - 1) { R->fired[FT_THRD]++; if (C->op >= 0) thrdfail_at[C->op]++; return 3; }
    t = &T[nthreads];
    init_thread(t, nthreads);
    t->joiner = -1;
    t->fn = fn; t->pfn = pfn; t->arg = arg;
    for (i = 0; i < R->nfault; i++)
        if (R->fault[i].kind == FT_STALL && R->fault[i].n == t->tid) { t->stall_until = step_ + R->fault[i].arg; R->fired[FT_STALL]++; }
    memcpy(t->vc, C->vc, sizeof t->vc);
    t->vc[t->tid] = 1;
    C->vc[C->tid]++;
    nthreads++;
    fill_stack(t->tid);
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void *)(STACK_BASE + (uint64_t)t->tid * STACK_SIZE), STACK_SIZE);
    sigfillset(&all); (void)old;
    e = pthread_create(&t->pt, &at, trampoline, t);
    pthread_attr_destroy(&at);
    if (e) sim_violation("harness", "pthread_create: %d", e);
    *out = t->pt;
    if (!R->replay && nthreads > 1) set_next_ev();
    C->run_since = step_;
    step_++;
    choose(0, 0);
    return 0;
}
static thr_t *by_pt(pthread_t p) {
    int i;
    for (i = 0; i < nthreads; i++) if (T[i].state != T_FREE && T[i].pt == p) return &T[i];
    return NULL;
}
static int do_join(pthread_t p, void **res) {
    thr_t *t = by_pt(p);
    sync_pt();
    if (!t || t->joined || t->detached || t == C) {
        sim_violation("bad-join", "join of %s, in op %d of thread %d", !t ? "an unknown thread handle" : t == C ? "itself" : t->joined ? "a thread joined before" : "a detached thread", C->op, C->tid);
    }
    t->joiner = C->tid;
    while (t->state != T_DONE) block_on(T_JOIN, t);
    hb_acquire((uintptr_t)t);
    t->joined = 1;
    if (res) *res = t->res;
    return 0;
}
int thrd_create(pthread_t *thr, int (*func)(void *), void *arg) { return create(thr, func, NULL, arg); }
int thrd_join(pthread_t thr, int *res) { void *r; int e = do_join(thr, &r); if (res) *res = (int)(intptr_t)r; return e; }
int thrd_detach(pthread_t thr) { thr_t *t = by_pt(thr); sync_pt(); if (!t) return 2; t->detached = 1; return 0; }
pthread_t thrd_current(void) { point(); return C->pt; }
int thrd_equal(pthread_t a, pthread_t b) { return a == b; }
void thrd_yield(void) { yield_pt(); }
void thrd_exit(int r) { C->res = (void *)(intptr_t)r; if (!C->tid) sim_violation("bad-exit", "the main thread ended itself"); longjmp(C->exit_jb, 1); }
static void do_sleep(uint64_t ns) {
    if (!active) return;
    step_++; C->local++;
    R->fired[FT_SLEEP]++;
    C->wake = now_ns + ns + 1;
    block_on(T_SLEEP, NULL);
}
int thrd_sleep(const struct timespec *d, struct timespec *rem) { do_sleep((uint64_t)d->tv_sec * 1000000000ull + d->tv_nsec); return 0; }
int __wrap_usleep(unsigned us) { do_sleep((uint64_t)us * 1000); return 0; }
int __wrap_nanosleep(const struct timespec *d, struct timespec *rem) { return thrd_sleep(d, rem); }
unsigned __wrap_sleep(unsigned s) { do_sleep((uint64_t)s * 1000000000ull); return 0; }
int __wrap_sched_yield(void) { yield_pt(); return 0; }

int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) { return create(t, NULL, f, arg) ? EAGAIN : 0; }
int __wrap_pthread_join(pthread_t t, void **r) { return do_join(t, r); }
int __wrap_pthread_detach(pthread_t t) { return thrd_detach(t); }
pthread_t __wrap_pthread_self(void) { return C->pt; }
void __wrap_pthread_exit(void *r) { C->res = r; longjmp(C->exit_jb, 1); }

/* mutexes and condition variables: state kept by address */
typedef struct { void *addr; int owner, count; } mtx_s;
static mtx_s mt[256];
static mtx_s *mtx_of(void *a) {
    int i;
    for (i = 0; i < 256; i++) {
        if (mt[i].addr == a) return &mt[i];
        if (!mt[i].addr) { mt[i].addr = a; mt[i].owner = -1; return &mt[i]; }
    }
    return &mt[0];
}
static int m_lock(void *a, int try_) {
    mtx_s *m = mtx_of(a);
    if (!active) return 0;
    sync_pt();
    if (m->owner == C->tid) { m->count++; return 0; }
    if (m->owner >= 0 && try_) return 1;
    while (m->owner >= 0) block_on(T_MTX, a);
    m->owner = C->tid; m->count = 1;
    hb_acquire((uintptr_t)a);
    return 0;
}
static void m_unlock_(void *a) {
    mtx_s *m = mtx_of(a); int i;
    if (--m->count == 0) {
        hb_release((uintptr_t)a, 0);
        m->owner = -1;
        for (i = 0; i < nthreads; i++) if (T[i].state == T_MTX && T[i].wait == a) T[i].state = T_RUN;
    }
}
static int m_unlock(void *a) {
    mtx_s *m = mtx_of(a);
    if (!active) return 0;
    sync_pt();
    if (m->owner != C->tid) return 1;
    m_unlock_(a);
    return 0;
}
int mtx_init(pthread_mutex_t *m, int t) { mtx_of(m)->owner = -1; return 0; }
void mtx_destroy(pthread_mutex_t *m) {}
int mtx_lock(pthread_mutex_t *m) { return m_lock(m, 0) ? 2 : 0; }
int mtx_trylock(pthread_mutex_t *m) { return m_lock(m, 1) ? 1 : 0; }
int mtx_timedlock(pthread_mutex_t *m, const struct timespec *ts) { return m_lock(m, 0) ? 2 : 0; }
int mtx_unlock(pthread_mutex_t *m) { return m_unlock(m) ? 2 : 0; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const void *a) { mtx_of(m)->owner = -1; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return m_lock(m, 0); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return m_lock(m, 1) ? EBUSY : 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return m_unlock(m) ? EPERM : 0; }
static int c_wait(void *c, void *m, uint64_t wake) {
    sync_pt();
    m_unlock_(m);
    C->wake = wake; C->timedout = 0;
    block_on(T_CND, c);
    C->wake = 0;
    m_lock(m, 0);
    hb_acquire((uintptr_t)c);
    return C->timedout;
}
static void c_wake(void *c, int all) {
    int i;
    sync_pt();
    hb_release((uintptr_t)c, 1);
    for (i = 0; i < nthreads; i++)
        if (T[i].state == T_CND && T[i].wait == c) { T[i].state = T_RUN; if (!all) break; }
}
int cnd_init(pthread_cond_t *c) { return 0; }
void cnd_destroy(pthread_cond_t *c) {}
int cnd_wait(pthread_cond_t *c, pthread_mutex_t *m) { c_wait(c, m, 0); return 0; }
int cnd_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return c_wait(c, m, now_ns + 1000000) ? 4 : 0; }
int cnd_signal(pthread_cond_t *c) { c_wake(c, 0); return 0; }
int cnd_broadcast(pthread_cond_t *c) { c_wake(c, 1); return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { c_wait(c, m, 0); return 0; }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { c_wake(c, 0); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { c_wake(c, 1); return 0; }

/* thread-specific storage */
static struct { int used; void (*dtor)(void *); } keys[64];
static int tss_fail_n;
int tss_create(unsigned *k, void (*d)(void *)) {
    int i;
    sync_pt();
    tss_fail_n++;
    for (i = 0; i < R->nfault; i++)
        if (R->fault[i].kind == FT_TSS && R->fault[i].n == tss_fail_n) { R->fired[FT_TSS]++; return 2; }
    for (i = 1; i < 64; i++) if (!keys[i].used) { keys[i].used = 1; keys[i].dtor = d; *k = (unsigned)i; for (int t = 0; t < nthreads; t++) T[t].tss[i] = NULL; return 0; }
    return 2;
}
void tss_delete(unsigned k) { sync_pt(); if (k < 64) keys[k].used = 0; }
void *tss_get(unsigned k) { point(); return k < 64 && keys[k].used ? C->tss[k] : NULL; }
int tss_set(unsigned k, void *v) { point(); if (k >= 64 || !keys[k].used) return 2; C->tss[k] = v; return 0; }
static void tss_run_dtors(thr_t *t) {
    int i, pass;
    for (pass = 0; pass < 4; pass++)
        for (i = 1; i < 64; i++)
            if (keys[i].used && t->tss[i]) { void *v = t->tss[i]; t->tss[i] = NULL; if (keys[i].dtor) keys[i].dtor(v); }
}
static struct { void *a; int st; } onces[32];
static void do_once(void *a, void (*f)(void)) {
    int i;
    sync_pt();
    for (i = 0; i < 32; i++) {
        if (onces[i].a == a) { while (onces[i].st == 1) yield_pt(); hb_acquire((uintptr_t)a); return; }
        if (!onces[i].a) { onces[i].a = a; onces[i].st = 1; f(); hb_release((uintptr_t)a, 0); onces[i].st = 2; return; }
    }
}
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) { do_once(o, f); return 0; }
void call_once(void *o, void (*f)(void)) { do_once(o, f); }
int __wrap_pthread_key_create(pthread_key_t *k, void (*d)(void *)) { return tss_create(k, d) ? EAGAIN : 0; }
void *__wrap_pthread_getspecific(pthread_key_t k) { return tss_get(k); }
int __wrap_pthread_setspecific(pthread_key_t k, const void *v) { return tss_set(k, (void *)v) ? EINVAL : 0; }
int __wrap_pthread_key_delete(pthread_key_t k) { tss_delete(k); return 0; }

/* ------------------------------------------------------------------ process-level seams */
int rpmalloc_init_calls, rpmalloc_fini_calls;
int rpmalloc_init(void) { point(); rpmalloc_init_calls++; return 0; }
void rpmalloc_thread_finalize(int r) { point(); rpmalloc_fini_calls++; }
int __wrap_sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
    int i;
    memset(s, 0, n);
    if (R->cpus <= 0) { R->fired[FT_AFFINITY]++; errno = EINVAL; return -1; }
    for (i = 0; i < R->cpus; i++) CPU_SET(i, s);
    R->fired[FT_CPU]++;
    return 0;
}
long __wrap_sysconf(int name) {
    if (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) return R->cpus > 0 ? R->cpus : R->cpus ? -1 : 6;
    return sysconf(name);
}
time_t __wrap_time(time_t *t) { time_t v = (time_t)(1000000 + now_ns / 1000000000ull); if (t) *t = v; return v; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { ts->tv_sec = (time_t)(1000000 + now_ns / 1000000000ull); ts->tv_nsec = (long)(now_ns % 1000000000ull); return 0; }

static void (*atexit_fn[1024])(void); static int natexit;
int __wrap_atexit(void (*f)(void)) { point(); if (natexit < 1024) atexit_fn[natexit++] = f; return 0; }
static void run_exit(int code) __attribute__((noreturn));
const scenario_t *cur_scn;
static void final_checks(void) {
    if (cur_scn->check) cur_scn->check();
    if (!leak_off && live_blocks > 0) {
        char b[320];
        sim_describe_live(b, sizeof b);
        sim_violation("leak", "%ld blocks (%ld bytes) never released:%s", live_blocks, live_bytes, b);
    }
}
static void run_exit(int code) {
    static int exiting;
    if (exiting++) { final_checks(); finish_run(OUT_OK); }
    while (natexit > 0) atexit_fn[--natexit]();
    active = 0;
    final_checks();
    finish_run(OUT_OK);
}
void __wrap_exit(int code) { R->exited++; R->exit_code = code; sim_log_at(1000, 1000, code, 0); run_exit(code); }
void __wrap__exit(int code) { R->exited++; R->exit_code = code; sim_log_at(1000, 1001, code, 0); active = 0; final_checks(); finish_run(OUT_OK); }
void __wrap__Exit(int code) { __wrap__exit(code); }
void __wrap_quick_exit(int code) { __wrap__exit(code); }
void __wrap_abort(void) { sim_violation("abort", "abort() in op %d of thread %d", C->op, C->tid); }
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    sim_violation("assert", "assertion `%s' failed in %s, in op %d of thread %d", e, fn, C->op, C->tid);
}
/* what the library reports on the error stream */
static char err_text[4096]; static size_t err_len;
const char *sim_stderr(void) { err_text[err_len] = 0; return err_text; }
static void err_add(const char *s, size_t n) { if (err_len + n > sizeof err_text - 1) n = sizeof err_text - 1 - err_len; memcpy(err_text + err_len, s, n); err_len += n; }
int __wrap_vfprintf(FILE *f, const char *fmt, va_list ap) {
    char b[2048]; int n;
    point();
    if (f != stderr && f != stdout) return vfprintf(f, fmt, ap);
    n = vsnprintf(b, sizeof b, fmt, ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    if (f == stderr && n > 0) err_add(b, (size_t)n);
    return n;
}
int __wrap_fprintf(FILE *f, const char *fmt, ...) { va_list ap; int n; va_start(ap, fmt); n = __wrap_vfprintf(f, fmt, ap); va_end(ap); return n; }
int __wrap_fputs(const char *s, FILE *f) { point(); if (f == stderr) err_add(s, strlen(s)); return 1; }
int __wrap_fputc(int c, FILE *f) { char b = (char)c; point(); if (f == stderr) err_add(&b, 1); return c; }
int __wrap_putc(int c, FILE *f) { return __wrap_fputc(c, f); }
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) { point(); if (f == stderr) err_add(p, s * n); return n; }
/* a stack trace names the operation it was recorded in, and in each entry which of how many of which trace it is */
static int ntrace;
int __wrap_backtrace(void **b, int n) {
    uint64_t h = rng_mix(R->seed, 9000 + (uint64_t)++ntrace);
    int i, k = h % 100 < 80 ? 3 + (int)(h >> 8) % 3 : h % 100 < 97 ? 1 + (int)((h >> 8) % 60) : h % 100 < 99 ? 1 + (int)((h >> 8) % 256) : 256;
    if (k > n) k = n;
    access_range(b, sizeof(void *) * k, 1);
    for (i = 0; i < k; i++) b[i] = (void *)(uintptr_t)(0x7ull << 44 | (uint64_t)(C->op + 1) << 28 | (uint64_t)(ntrace & 255) << 20 | (uint64_t)(k - 1) << 12 | (uint64_t)i << 4);
    return k;
}
static int trace_printed = -2;     /* the operation named by the stack trace printed last */
int sim_trace(void) { return trace_printed; }
int sim_trace_op(void *const *b, long n) {      /* -2: there is none */
    long i;
    if (n < 0 || n > 256) sim_violation("bad-backtrace", "stack trace with %ld entries, in op %d", n, C->op);
    if (!n) return -2;
    access_range(b, sizeof(void *) * n, 0);
    for (i = 0; i < n; i++) {
        uint64_t x = (uint64_t)(uintptr_t)b[i];
        if (x >> 44 != 7) sim_violation("bad-backtrace", "entry %ld of %ld of a stack trace was never recorded, in op %d", i, n, C->op);
        if ((long)(x >> 4 & 255) != i || (long)(x >> 12 & 255) + 1 != n || x >> 20 != (uint64_t)(uintptr_t)b[0] >> 20)
            sim_violation("bad-backtrace", "entry %ld of %ld of a stack trace was recorded as entry %ld of %ld, or in another one, seen in op %d", i, n, (long)(x >> 4 & 255), (long)(x >> 12 & 255) + 1, C->op);
    }
    return (int)((uint64_t)(uintptr_t)b[0] >> 28 & 0xffff) - 1;
}
void __wrap_backtrace_symbols_fd(void *const *b, int n, int fd) {
    int op = sim_trace_op(b, n);
    if (n > 0) trace_printed = op;
}
int __wrap_backtrace_symbols(void *const *b, int n) { return 0; }

/* signals: the library's own handler runs, behind a filter that separates provoked signals from real crashes */
static void (*handlers[65])(int);
static int handler_flags[65];
static void sig_filter(int sig) {
    if (active && C->expect_sig == sig && handlers[sig]) {
        C->expect_sig = 0;
        handlers[sig](sig);
        return;
    }
    if (!active) { R->outcome = OUT_NONE; snprintf(R->vclass, sizeof R->vclass, "harness"); snprintf(R->vmsg, sizeof R->vmsg, "signal %d outside the simulation", sig); syscall(SYS_exit_group, 99); }
    sim_violation("crash", "signal %d (%s) in op %d of thread %d", sig, strsignal(sig), C->op, C->tid);
}
int __wrap_sigaction(int sig, const struct sigaction *a, struct sigaction *o) {
    struct sigaction n, old; int e;
    point();
    if (a) {
        n = *a;
        if (n.sa_handler != SIG_DFL && n.sa_handler != SIG_IGN) n.sa_handler = sig_filter;
    }
    e = sigaction(sig, a ? &n : NULL, &old);
    if (o) { *o = old; if (old.sa_handler == sig_filter) o->sa_handler = handlers[sig] ? handlers[sig] : SIG_DFL; }
    if (!e && a) { handlers[sig] = (a->sa_handler == SIG_DFL || a->sa_handler == SIG_IGN) ? NULL : a->sa_handler; handler_flags[sig] = a->sa_flags; }
    return e;
}
typedef void (*sigh_t)(int);
sigh_t __wrap_signal(int sig, sigh_t h) {
    struct sigaction a, o;
    memset(&a, 0, sizeof a);
    a.sa_handler = h; a.sa_flags = SA_RESTART;
    if (__wrap_sigaction(sig, &a, &o)) return SIG_ERR;
    return o.sa_handler;
}

/* ------------------------------------------------------------------ compiler callbacks */
#define ACC(n) \
    void __tsan_read##n(void *a) { if (active) { R->accesses++; point(); check_access((uintptr_t)a, n, 0); } } \
    void __tsan_write##n(void *a) { if (active) { R->accesses++; point(); check_access((uintptr_t)a, n, 1); } } \
    void __tsan_unaligned_read##n(void *a) { __tsan_read##n(a); } \
    void __tsan_unaligned_write##n(void *a) { __tsan_write##n(a); } \
    void __tsan_volatile_read##n(void *a) { __tsan_read##n(a); } \
    void __tsan_volatile_write##n(void *a) { __tsan_write##n(a); } \
    void __tsan_unaligned_volatile_read##n(void *a) { __tsan_read##n(a); } \
    void __tsan_unaligned_volatile_write##n(void *a) { __tsan_write##n(a); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *a, long n) { if (active) { point(); access_range(a, n, 0); } }
void __tsan_write_range(void *a, long n) { if (active) { point(); access_range(a, n, 1); } }
void __tsan_init(void) {}

/* swar.c: scheduling points in some runs only, words may reach past the end of a block by less than their size */
static uint64_t swar_quiet, swar_at;
static inline void swar_step(void) {
    if (swar_at != step_) { swar_at = step_; swar_quiet = 0; }
    if (++swar_quiet > 3000000) sim_violation("hang", "a string function does not end, in op %d of thread %d", C->op, C->tid);
}
static inline void swar_pt(void) { if (R->wordpts) point(); else swar_step(); }
static void swar_read(uintptr_t a, size_t n) {
    swar_pt();
    if (in_heap(a)) {
        blk_t *b = blk_at(a);
        if (b && b->state == 1 && n >= 8 && a - HEAP_BASE < (uintptr_t)b->off + ((b->size + 15) & ~15u)) return;
        if (!b && n >= 8 && a >= HEAP_BASE + 8 && (b = blk_at(a - 8)) && b->state == 1) return;
    }
    check_access(a, n, 0);
}
#define SWAR_(k, n) \
    void __swar_##k##read##n(void *a) { if (active) swar_read((uintptr_t)a, n); } \
    void __swar_##k##write##n(void *a) { if (active) { swar_pt(); check_access((uintptr_t)a, n, 1); } }
#define SWAR(n) SWAR_(, n) SWAR_(unaligned_, n) SWAR_(volatile_, n) SWAR_(unaligned_volatile_, n)
SWAR(1) SWAR(2) SWAR(4) SWAR(8) SWAR(16)
void __swar_entry(void *pc) { if (active) swar_pt(); }
void *__swar_memcpy(void *d, const void *s, size_t n) {
    if (active) {
        if (n == 8) swar_read((uintptr_t)s, n);
        else { point(); access_range(s, n, 0); }
        access_range(d, n, 1);
    }
    return memcpy(d, s, n);
}
char *__wrap_strstr(const char *h, const char *n) { if (active) { swar_read((uintptr_t)h, 1); swar_read((uintptr_t)n, 1); } return strstr(h, n); }
void __tsan_func_entry(void *pc) { if (active) point(); }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **a, void *v) {}
void __tsan_vptr_read(void **a) {}

static inline void at_pre(volatile void *a, size_t n, int w) {
    R->atomics++;
    sync_pt();
    check_access((uintptr_t)a, n, w);
    lit_pre((uintptr_t)a, n);
    C->spin_count = w ? 0 : C->spin_count;
}
static inline void at_load_post(volatile void *a, int mo) {
    at_reads((uintptr_t)a);
    if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL) hb_acquire((uintptr_t)a);
    if (C->spin_addr == (uintptr_t)a) {
        if (++C->spin_count >= 40) { C->spin_count = 0; if (nthreads > 1) yield_pt(); }
    } else { C->spin_addr = (uintptr_t)a; C->spin_count = 0; }
}
static inline void at_store_post(volatile void *a, int mo) {
    at_writes((uintptr_t)a);
    if (nlit) lit_write((uintptr_t)a, mo);
    if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_ACQ_REL) hb_release((uintptr_t)a, 0);
    else hb_relaxed_store((uintptr_t)a);
}
static inline void at_rmw_post(volatile void *a, int mo) {
    at_reads((uintptr_t)a);
    at_writes((uintptr_t)a);
    if (nlit) lit_write((uintptr_t)a, mo);
    if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_CONSUME) hb_acquire((uintptr_t)a);
    if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_ACQ_REL) hb_release((uintptr_t)a, 1);
}
static int weak_fails(void) {
    static int n;
    int i;
    for (i = 0, n++; i < R->nfault; i++) if (R->fault[i].kind == FT_WEAK && R->fault[i].n == n) { R->fired[FT_WEAK]++; return 1; }
    return 0;
}
#define ATOM(bits, ty) \
    ty __tsan_atomic##bits##_load(const volatile ty *a, int mo) { ty v; if (!active) return *a; at_pre((void *)a, bits / 8, 0); { uint64_t old; if (nlit && lit_stale((uintptr_t)a, mo, &old)) return (ty)old; } v = *a; at_load_post((void *)a, mo); return v; } \
    void __tsan_atomic##bits##_store(volatile ty *a, ty v, int mo) { if (!active) { *a = v; return; } at_pre(a, bits / 8, 1); at_store_post(a, mo); *a = v; } \
    ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int mo) { ty o; if (!active) { o = *a; *a = v; return o; } at_pre(a, bits / 8, 1); o = *a; *a = v; at_rmw_post(a, mo); return o; } \
    ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int mo) { ty o; if (active) at_pre(a, bits / 8, 1); o = *a; *a = o + v; if (active) at_rmw_post(a, mo); return o; } \
    ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int mo) { ty o; if (active) at_pre(a, bits / 8, 1); o = *a; *a = o - v; if (active) at_rmw_post(a, mo); return o; } \
    ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int mo) { ty o; if (active) at_pre(a, bits / 8, 1); o = *a; *a = o & v; if (active) at_rmw_post(a, mo); return o; } \
    ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int mo) { ty o; if (active) at_pre(a, bits / 8, 1); o = *a; *a = o | v; if (active) at_rmw_post(a, mo); return o; } \
    ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int mo) { ty o; if (active) at_pre(a, bits / 8, 1); o = *a; *a = o ^ v; if (active) at_rmw_post(a, mo); return o; } \
    ty __tsan_atomic##bits##_fetch_nand(volatile ty *a, ty v, int mo) { ty o; if (active) at_pre(a, bits / 8, 1); o = *a; *a = ~(o & v); if (active) at_rmw_post(a, mo); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *a, ty *e, ty v, int mo, int fmo) { \
        if (active) { at_pre(a, bits / 8, 1); check_access((uintptr_t)e, bits / 8, 1); } \
        if (*a == *e) { *a = v; if (active) at_rmw_post(a, mo); return 1; } \
        *e = *a; if (active) at_load_post(a, fmo); return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *a, ty *e, ty v, int mo, int fmo) { if (active && weak_fails()) { at_pre(a, bits / 8, 1); *e = *a; at_load_post(a, fmo); return 0; } return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, fmo); } \
    ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty e, ty v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (active) { sync_pt(); lit_fence(mo); } }
void __tsan_atomic_signal_fence(int mo) {}

/* ------------------------------------------------------------------ one run, in its own (forked) process */
static int main_tramp(void *arg) {
    int r = cur_scn->main();
    run_exit(r);
}

void sim_child(const scenario_t *s) {
    rng_t r0 = { rng_mix(R->seed, 0x5c4ed) };
    pthread_attr_t at;
    int i;
    static const int crash[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP };
    struct sigaction sa;
    cur_scn = s;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = sig_filter;
    for (i = 0; i < 6; i++) sigaction(crash[i], &sa, NULL);
    if (mmap((void *)HEAP_BASE, HEAP_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)HEAP_BASE
        || mmap((void *)STACK_BASE, (uint64_t)STACK_SIZE * MAXTHREADS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)STACK_BASE) {
        snprintf(R->vmsg, sizeof R->vmsg, "mmap: %s", strerror(errno));
        syscall(SYS_exit_group, 98);
    }
    hmap = mmap(NULL, HEAP_SIZE / 16 * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    blk = mmap(NULL, sizeof(blk_t) * MAXBLK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (hb_on) vars = mmap(NULL, sizeof(var_t_) * MAXVAR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    brk_ = 64;
    /* scheduling policy of this run, drawn from the seed */
    rs = r0;
    {
        static const int gaps[] = { 2, 6, 20, 60, 200, 800, 3000 };
        static const int kk[] = { 300, 1500, 6000, 30000 };
        int x = (int)rng_below(&rs, 100), k;
        strategy = x < 6 ? 0 : x < 46 ? 1 : x < 72 ? 2 : x < 94 ? 3 : 4;
        gap_mean = gaps[rng_below(&rs, 7)];
        if (strategy == 3 && gap_mean < 60) gap_mean = 60;
        sync_pct = 5 + (int)rng_below(&rs, 60);
        npct = 1 + (int)rng_below(&rs, 6);
        k = kk[rng_below(&rs, 4)];
        for (i = 0; i < npct; i++) pct_at[i] = 1 + rng_below(&rs, k);
        for (i = 0; i < npct; i++) { int j; for (j = i + 1; j < npct; j++) if (pct_at[j] < pct_at[i]) { uint64_t t = pct_at[i]; pct_at[i] = pct_at[j]; pct_at[j] = t; } }
        R->strategy = strategy;
    }
    init_thread(&T[0], 0);
    T[0].fn = main_tramp;
    T[0].joiner = -1;
    T[0].vc[0] = 1;
    T[0].op = T[0].child_op = -1;
    nthreads = 1;
    C = &T[0];
    fill_stack(0);
    set_next_ev();
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void *)STACK_BASE, STACK_SIZE);
    active = 1;
    T[0].go = 1;
    if (pthread_create(&T[0].pt, &at, trampoline, &T[0])) syscall(SYS_exit_group, 97);
    for (;;) pause();
}
void sim_set_cap(uint64_t n) { cap_steps = n; if (next_ev > n) next_ev = n; }
