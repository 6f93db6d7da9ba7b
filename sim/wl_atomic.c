/* Atomics of catomic.h, used by several threads. Instrumented. */
#include "raii.h"
#include "misc.h"
typedef union { volatile c89atomic_uint8 u8; volatile c89atomic_uint16 u16; volatile c89atomic_uint32 u32; volatile c89atomic_uint64 u64;
    volatile c89atomic_int8 i8; volatile c89atomic_int16 i16; volatile c89atomic_int32 i32; volatile c89atomic_int64 i64;
    volatile float f32; volatile double f64; volatile void *ptr; atomic_ullong gen; unsigned char raw[8]; } cell_t;
static struct { unsigned char before[8]; cell_t c; unsigned char after[8]; } obj[NOBJ];
static thrd_t th[MTHREADS + 1]; static int nth;
#define NLOCK 3
static atomic_spinlock lck[NLOCK];
static struct { long n, check; char cell; } prot[NLOCK];
static long took[NLOCK][MTHREADS + 1];
#define NCHAN 3
static atomic_ullong chan[NCHAN];
static atomic_flag cflag[NCHAN];
static char msg[NCHAN][64];
static long msgval[NCHAN][64];
static int chan_n[NCHAN];

static int me(void) { return sim_logical() >= 100 ? sim_logical() - 100 : 0; }
static const int ORD[] = { memory_order_seq_cst, memory_order_acq_rel, memory_order_acquire, memory_order_release, memory_order_relaxed };

#define FB(x) ({ c89atomic_if32 _f; _f.f = (x); (uint64_t)_f.i; })
#define DB(x) ({ c89atomic_if64 _f; _f.f = (x); (uint64_t)_f.i; })
#define BF(x) ({ c89atomic_if32 _f; _f.i = (uint32_t)(x); _f.f; })
#define BD(x) ({ c89atomic_if64 _f; _f.i = (x); _f.f; })
#define ID(x) ((uint64_t)(x))

/* operations of one integer type; m is the field, S its suffix, T its type, o an order */
#define INT_OPS(m, S, T)                                                                                              \
    switch (op) {                                                                                                     \
    case OP_LOAD: ret = o < 0 ? c89atomic_load_##S(&c->m) : c89atomic_load_explicit_##S(&c->m, lo); break;            \
    case OP_STORE: if (o < 0) c89atomic_store_##S(&c->m, (T)a); else c89atomic_store_explicit_##S(&c->m, (T)a, so); break; \
    case OP_XCHG: ret = o < 0 ? c89atomic_exchange_##S(&c->m, (T)a) : c89atomic_exchange_explicit_##S(&c->m, (T)a, o); break; \
    case OP_CAS: { T e = (T)a; ok = o < 0 ? c89atomic_compare_exchange_strong_##S(&c->m, &e, (T)b) : c89atomic_compare_exchange_strong_explicit_##S(&c->m, &e, (T)b, o, lo); ret = e; break; } \
    case OP_WEAK: { T e = (T)a; ok = o < 0 ? c89atomic_compare_exchange_weak_##S(&c->m, &e, (T)b) : c89atomic_compare_exchange_weak_explicit_##S(&c->m, &e, (T)b, o, lo); ret = e; break; } \
    case OP_CASV: ret = c89atomic_compare_and_swap_##S(&c->m, (T)a, (T)b); break;                                     \
    case OP_ADD: ret = o < 0 ? c89atomic_fetch_add_##S(&c->m, (T)a) : c89atomic_fetch_add_explicit_##S(&c->m, (T)a, o); break; \
    case OP_SUB: ret = o < 0 ? c89atomic_fetch_sub_##S(&c->m, (T)a) : c89atomic_fetch_sub_explicit_##S(&c->m, (T)a, o); break; \
    case OP_OR: ret = o < 0 ? c89atomic_fetch_or_##S(&c->m, (T)a) : c89atomic_fetch_or_explicit_##S(&c->m, (T)a, o); break; \
    case OP_XOR: ret = o < 0 ? c89atomic_fetch_xor_##S(&c->m, (T)a) : c89atomic_fetch_xor_explicit_##S(&c->m, (T)a, o); break; \
    case OP_AND: ret = o < 0 ? c89atomic_fetch_and_##S(&c->m, (T)a) : c89atomic_fetch_and_explicit_##S(&c->m, (T)a, o); break; \
    case OP_SET: ret = o < 0 ? c89atomic_test_and_set_##S(&c->m) : c89atomic_test_and_set_explicit_##S(&c->m, o); break; \
    case OP_CLEAR: if (o < 0) c89atomic_clear_##S(&c->m); else c89atomic_clear_explicit_##S(&c->m, so); break;        \
    }
#define FLT_OPS(m, S, T, TO, FROM)                                                                                    \
    switch (op) {                                                                                                     \
    case OP_LOAD: ret = TO(o < 0 ? c89atomic_load_##S(&c->m) : c89atomic_load_explicit_##S(&c->m, lo)); break;        \
    case OP_STORE: if (o < 0) c89atomic_store_##S(&c->m, FROM(a)); else c89atomic_store_explicit_##S(&c->m, FROM(a), so); break; \
    case OP_XCHG: ret = TO(o < 0 ? c89atomic_exchange_##S(&c->m, FROM(a)) : c89atomic_exchange_explicit_##S(&c->m, FROM(a), o)); break; \
    case OP_CAS: { T e = FROM(a); ok = o < 0 ? c89atomic_compare_exchange_strong_##S(&c->m, &e, FROM(b)) : c89atomic_compare_exchange_strong_explicit_##S(&c->m, &e, FROM(b), o, lo); ret = TO(e); break; } \
    case OP_WEAK: { T e = FROM(a); ok = o < 0 ? c89atomic_compare_exchange_weak_##S(&c->m, &e, FROM(b)) : c89atomic_compare_exchange_weak_explicit_##S(&c->m, &e, FROM(b), o, lo); ret = TO(e); break; } \
    case OP_CASV: ret = TO(c89atomic_compare_and_swap_##S(&c->m, FROM(a), FROM(b))); break;                           \
    case OP_ADD: ret = TO(o < 0 ? c89atomic_fetch_add_##S(&c->m, FROM(a)) : c89atomic_fetch_add_explicit_##S(&c->m, FROM(a), o)); break; \
    case OP_SUB: ret = TO(o < 0 ? c89atomic_fetch_sub_##S(&c->m, FROM(a)) : c89atomic_fetch_sub_explicit_##S(&c->m, FROM(a), o)); break; \
    case OP_OR: ret = TO(o < 0 ? c89atomic_fetch_or_##S(&c->m, FROM(a)) : c89atomic_fetch_or_explicit_##S(&c->m, FROM(a), o)); break; \
    case OP_XOR: ret = TO(o < 0 ? c89atomic_fetch_xor_##S(&c->m, FROM(a)) : c89atomic_fetch_xor_explicit_##S(&c->m, FROM(a), o)); break; \
    case OP_AND: ret = TO(o < 0 ? c89atomic_fetch_and_##S(&c->m, FROM(a)) : c89atomic_fetch_and_explicit_##S(&c->m, FROM(a), o)); break; \
    case OP_CLEAR: if (o < 0) c89atomic_clear_##S(&c->m); else c89atomic_clear_explicit_##S(&c->m, so); break;        \
    }
/* o: the order, -1 for the form without; lo, so: the same for loads and stores */
static uint64_t apply(cell_t *c, int ty, int op, int o, int lo, int so, uint64_t a, uint64_t b, int i, int *okp) {
    uint64_t ret = 0;
    int ok = 0;
    switch (ty) {
    case TY_8: INT_OPS(u8, 8, c89atomic_uint8) break;
    case TY_16: INT_OPS(u16, 16, c89atomic_uint16) break;
    case TY_32: INT_OPS(u32, 32, c89atomic_uint32) break;
    case TY_64: INT_OPS(u64, 64, c89atomic_uint64) break;
    case TY_I8: INT_OPS(i8, i8, c89atomic_int8) break;
    case TY_I16: INT_OPS(i16, i16, c89atomic_int16) break;
    case TY_I32: INT_OPS(i32, i32, c89atomic_int32) break;
    case TY_I64: INT_OPS(i64, i64, c89atomic_int64) break;
    case TY_F32: FLT_OPS(f32, f32, float, FB, BF) break;
    case TY_F64: FLT_OPS(f64, f64, double, DB, BD) break;
    case TY_PTR:
        switch (op) {
        case OP_LOAD: ret = ID(o < 0 ? c89atomic_load_ptr(&c->ptr) : c89atomic_load_explicit_ptr(&c->ptr, lo)); break;
        case OP_STORE: if (o < 0) c89atomic_store_ptr(&c->ptr, (void *)a); else c89atomic_store_explicit_ptr(&c->ptr, (void *)a, so); break;
        case OP_XCHG: ret = ID(o < 0 ? c89atomic_exchange_ptr(&c->ptr, (void *)a) : c89atomic_exchange_explicit_ptr(&c->ptr, (void *)a, o)); break;
        case OP_CAS: { void *e = (void *)a; ok = (i & 1) ? c89atomic_compare_exchange_strong_ptr(&c->ptr, &e, (void *)b) : atomic_swap(&c->ptr, (volatile void **)&e, (void *)b); ret = ID(e); break; }
        case OP_WEAK: { void *e = (void *)a; ok = c89atomic_compare_exchange_weak_ptr(&c->ptr, &e, (void *)b); ret = ID(e); break; }
        case OP_CASV: ret = ID(c89atomic_compare_and_swap_ptr(&c->ptr, (void *)a, (void *)b)); break;
        }
        break;
    case TY_GEN:     /* the macros without a width */
        switch (op) {
        case OP_LOAD: ret = o < 0 ? (i & 1 ? atomic_load(&c->gen) : atomic_get(uint64_t, &c->gen)) : atomic_load_explicit(&c->gen, lo); break;
        case OP_STORE: if (o < 0) { if (i & 1) atomic_store(&c->gen, a); else atomic_init(&c->gen, a); } else atomic_store_explicit(&c->gen, a, so); break;
        case OP_XCHG: ret = o < 0 ? atomic_exchange(&c->gen, a) : atomic_exchange_explicit(&c->gen, a, o); break;
        case OP_CAS: { unsigned long long e = a; ok = o < 0 ? (i & 1 ? atomic_compare_exchange_strong(&c->gen, &e, b) : atomic_cas(&c->gen, &e, b)) : atomic_compare_exchange_strong_explicit(&c->gen, &e, b, o, lo); ret = e; break; }
        case OP_WEAK: { unsigned long long e = a; ok = o < 0 ? atomic_compare_exchange_weak(&c->gen, &e, b) : atomic_compare_exchange_weak_explicit(&c->gen, &e, b, o, lo); ret = e; break; }
        case OP_ADD: ret = o < 0 ? atomic_fetch_add(&c->gen, a) : atomic_fetch_add_explicit(&c->gen, a, o); break;
        case OP_SUB: ret = o < 0 ? atomic_fetch_sub(&c->gen, a) : atomic_fetch_sub_explicit(&c->gen, a, o); break;
        case OP_OR: ret = o < 0 ? atomic_fetch_or(&c->gen, a) : atomic_fetch_or_explicit(&c->gen, a, o); break;
        case OP_XOR: ret = o < 0 ? atomic_fetch_xor(&c->gen, a) : atomic_fetch_xor_explicit(&c->gen, a, o); break;
        case OP_AND: ret = o < 0 ? atomic_fetch_and(&c->gen, a) : atomic_fetch_and_explicit(&c->gen, a, o); break;
        }
        break;
    }
    *okp = ok;
    return ret;
}
static void do_op(int i) {
    int n = MOP(i).a % NOBJ, op = MOP(i).b, ty = at_type(n), ok = 0, o, lo, so;
    cell_t *c = &obj[n].c;
    uint64_t a = at_val(ty, MOP(i).c & 15), b = at_val(ty, (MOP(i).c >> 4) & 15), ret = 0, inv;
    int rel, acq, from;
    o = (MOP(i).c >> 8) % 6 - 1;
    if (o >= 0) o = ORD[o];
    lo = o == memory_order_acq_rel || o == memory_order_release ? memory_order_acquire : o;
    so = o == memory_order_acq_rel || o == memory_order_acquire ? memory_order_release : o;
    if (op == OP_CAS || op == OP_WEAK) { if (o == memory_order_relaxed || o == memory_order_release) lo = memory_order_relaxed; }
    if (!at_has(ty, op)) return;
    sim_point();
    inv = sim_stamp();
    {   /* without an order it is the strongest */
        int fixed = op == OP_CASV || (ty == TY_PTR && (op == OP_CAS || op == OP_WEAK));
        rel = fixed || o < 0 || o == memory_order_seq_cst || o == memory_order_acq_rel || o == memory_order_release || ((op == OP_STORE || op == OP_CLEAR) && so == memory_order_release);
        if (ty == TY_GEN && op == OP_STORE && o < 0 && !(i & 1)) rel = 0;       /* initialises */
        if (op == OP_LOAD) acq = lo != memory_order_relaxed;
        else acq = fixed || o < 0 || o == memory_order_seq_cst || o == memory_order_acq_rel || o == memory_order_acquire;
    }
    sim_atomic_begin(c, rel);
    if (ty == TY_I8 || ty == TY_I16 || ty == TY_I32) { int s = 64 - at_bits(ty); a = (uint64_t)((int64_t)(a << s) >> s); b = (uint64_t)((int64_t)(b << s) >> s); }
    ret = apply(c, ty, op, o, lo, so, a, b, i, &ok);
    if ((op == OP_CAS || op == OP_WEAK) && !ok && !(ty == TY_PTR)) acq = lo != memory_order_relaxed;
    if ((from = sim_atomic_end(acq)) >= 0) sim_violation("order", "op %d: the value came from a publishing operation of thread %d, but what that thread did before is not ordered before this", i, from);
    at_record(i, inv, me(), n, op, a, b, ret, ok);
}
/* two threads, each writing its own object and then reading the other's, without naming an order: not both may miss the other's write */
static struct { cell_t own[2]; int n[2], saw[2][100]; } cross[NCROSS];
static uint64_t cross_bits(int ty, int v) { return ty == TY_F32 ? FB((float)v) : ty == TY_F64 ? DB((double)v) : (uint64_t)v; }
static void crossing(int i) {
    static const int how[] = { OP_STORE, OP_STORE, OP_STORE, OP_XCHG, OP_CAS, OP_WEAK, OP_CASV, OP_ADD, OP_SUB, OP_XOR, OP_OR, OP_OR };
    int k = MOP(i).a % NCROSS, ty = at_type(NOBJ + k), op = how[MOP(i).b % 12], o = MOP(i).c & 1 ? memory_order_seq_cst : -1, r, n, m, ok, v;
    uint64_t was, next, ret, a;
    r = me() - 1;
    if (r < 0 || r > 1 || cross[k].n[r] == 98) return;
    n = ++cross[k].n[r];
    was = cross_bits(ty, n - 1); next = cross_bits(ty, n);
    if (!at_has(ty, op) || (op == OP_OR && (was & ~next))) op = OP_STORE;
    a = op == OP_ADD ? cross_bits(ty, 1) : op == OP_SUB ? (ty == TY_F32 || ty == TY_F64 ? cross_bits(ty, -1) : ~0ull) : op == OP_XOR ? was ^ next : next;
    if (op == OP_CAS || op == OP_WEAK || op == OP_CASV) {
        do ret = apply(&cross[k].own[r], ty, op, o, o, o, was, next, i | 1, &ok); while (op == OP_WEAK && !ok);
        if (op == OP_CAS && !ok) sim_violation("lost-update", "op %d: the only writer found %llx instead of %llx", i, (long long)ret, (long long)was);
    } else apply(&cross[k].own[r], ty, op, o, o, o, a, 0, i | 1, &ok);
    ret = apply(&cross[k].own[!r], ty, OP_LOAD, o, o, o, 0, 0, i | 1, &ok);
    v = ty == TY_F32 ? (int)BF(ret) : ty == TY_F64 ? (int)BD(ret) : (int)ret;
    if (v < 0 || v > 100) sim_violation("out-of-thin-air", "op %d: read %d, which nobody wrote", i, v);
    cross[k].saw[r][n] = v;
    sim_log(5, k, v);
    for (m = v + 1; m <= cross[k].n[!r]; m++)
        if (cross[k].saw[!r][m] >= 0 && cross[k].saw[!r][m] < n) sim_violation("order", "op %d: thread %d wrote %d and read %d, the other wrote %d and read %d: each read the other's object before that was written, type %d", i, me(), n, v, m, cross[k].saw[!r][m], ty);
}
static void locked(int i, int k) {
    long v;
    sim_hb_write(&prot[k].cell, "data guarded by a spin lock");
    v = prot[k].n;
    if (v != prot[k].check) sim_violation("not-exclusive", "lock %d: another thread is inside, op %d", k, i);
    prot[k].n = v + 1;
    sim_point();
    if (MOP(i).b & 1) thrd_yield();
    if (prot[k].n != v + 1 || prot[k].check != v) sim_violation("not-exclusive", "lock %d: another thread was inside, op %d", k, i);
    prot[k].check = v + 1;
    took[k][me()]++;
}
static void run_list(int i);
static int thread_main(void *x) {
    int n = (int)(intptr_t)x;
    sim_set_logical(100 + MOP(n).a);
    run_list(m_child(n));
    return 0;
}
static void publish(int i) {
    int k = MOP(i).a % NCHAN, v;
    unsigned long long e;
    if (chan_n[k] >= 60) return;
    v = ++chan_n[k];
    sim_hb_write(&msg[k][v], "data published through an atomic");
    msgval[k][v] = i + 1000;
    switch (MOP(i).b % 9) {
    case 0: atomic_store(&chan[k], v); break;
    case 1: atomic_store_explicit(&chan[k], v, memory_order_release); break;
    case 2: atomic_fetch_add(&chan[k], 1); break;
    case 3: atomic_fetch_add_explicit(&chan[k], 1, memory_order_release); break;
    case 4: atomic_exchange(&chan[k], v); break;
    case 5: e = v - 1; if (!atomic_compare_exchange_strong(&chan[k], &e, v)) sim_violation("lost-update", "op %d: the only writer found %llu instead of %d", i, e, v - 1); break;
    case 6: for (e = v - 1; !atomic_compare_exchange_weak_explicit(&chan[k], &e, v, memory_order_acq_rel, memory_order_acquire); ) if (e != v - 1) sim_violation("lost-update", "op %d: the only writer found %llu instead of %d", i, e, v - 1); break;
    case 7: atomic_fetch_sub_explicit(&chan[k], -1, memory_order_acq_rel); break;
    case 8: atomic_thread_fence(memory_order_seq_cst); atomic_store(&chan[k], v); break;
    }
    atomic_flag_clear(&cflag[k]);
}
static void receive(int i) {
    int k = MOP(i).a % NCHAN, j;
    unsigned long long v = 0, e;
    switch (MOP(i).b % 5) {
    case 0: v = atomic_load(&chan[k]); break;
    case 1: v = atomic_load_explicit(&chan[k], memory_order_acquire); break;
    case 2: v = atomic_get(unsigned long long, &chan[k]); break;
    case 3: e = ~0ull; atomic_compare_exchange_strong(&chan[k], &e, 0); v = e; break;
    case 4: v = atomic_fetch_or(&chan[k], 0); break;
    }
    if (v > 60) sim_violation("out-of-thin-air", "op %d: read %llu, which nobody wrote", i, v);
    for (j = 1; j <= (int)v; j++) {
        sim_hb_read(&msg[k][j], "data published through an atomic");
        if (!msgval[k][j]) sim_violation("stale", "op %d: message %d is not there although %llu were published", i, j, v);
    }
}
static void run_list(int i) {
    for (; i >= 0; i = m_next(i)) {
        int k = MOP(i).a % NLOCK;
        sim_setop(i);
        switch (MOP(i).kind) {
        case MK_SPAWN: if (nth < MTHREADS && thrd_create(&th[nth], thread_main, (void *)(intptr_t)i) == thrd_success) nth++; break;
        case MK_JOIN: while (nth) thrd_join(th[--nth], NULL); break;
        case MK_YIELD: thrd_yield(); break;
        case AT_OP: do_op(i); break;
        case AT_LOCK: atomic_lock(&lck[k]); locked(i, k); atomic_unlock(&lck[k]); break;
        case AT_TRY:
            if (MOP(i).b & 2 ? !atomic_flag_test_and_set(&lck[k]) : !atomic_flag_test_and_set_explicit(&lck[k], memory_order_acquire)) {
                locked(i, k);
                if (!atomic_flag_load(&lck[k])) sim_violation("flag", "lock %d reads as clear while held, op %d", k, i);
                if (MOP(i).b & 4) atomic_flag_clear(&lck[k]); else atomic_flag_clear_explicit(&lck[k], memory_order_release);
            }
            break;
        case AT_PUB: publish(i); break;
        case AT_NARROW: {      /* an atomic narrower than the macros without a width take it for */
            struct { atomic_int x; int beside; } v;
            v.x = 1; v.beside = 7;
            atomic_store(&v.x, 2);
            if (v.x != 2 || v.beside != 7) sim_violation("neighbour", "op %d: atomic_store of an atomic_int changed the int beside it from 7 to %d", i, v.beside);
            break;
        }
        case AT_GET: receive(i); break;
        case AT_CROSS: crossing(i); break;
        }
        sim_setop(i);
    }
}
int atomic_main(void) {
    int i, k;
    long sum;
    sim_set_logical(0);
    for (i = 0; i < NOBJ; i++) {
        memset(&obj[i], 0x5A, sizeof obj[i]);
        memset(obj[i].c.raw, 0, at_bits(at_type(i)) / 8);
    }
    for (i = 0; i < NCROSS; i++) {
        memset(cross[i].saw, 0xff, sizeof cross[i].saw);
        for (k = 0; k < 2; k++) sim_watch(&cross[i].own[k], at_bits(at_type(NOBJ + i)) / 8);
    }
    run_list(R->prog.n ? 0 : -1);
    while (nth) thrd_join(th[--nth], NULL);
    for (i = 0; i < NOBJ; i++) {
        unsigned char *p = (unsigned char *)&obj[i];
        int lo = 8, hi = 8 + at_bits(at_type(i)) / 8;
        for (k = 0; k < (int)sizeof obj[i]; k++) if ((k < lo || k >= hi) && p[k] != 0x5A) sim_violation("neighbour", "object %d of %d bits: byte %d beside it changed", i, at_bits(at_type(i)), k - 8);
        { uint64_t v = 0; memcpy(&v, obj[i].c.raw, hi - lo); at_record(MAXOPS - 1, sim_stamp(), 0, i, OP_LOAD, 0, 0, v, 0); }
    }
    for (i = 0; i < NLOCK; i++) {
        for (sum = k = 0; k <= MTHREADS; k++) sum += took[i][k];
        if (sum != prot[i].n) sim_violation("not-exclusive", "lock %d was taken %ld times, the counter under it is %ld", i, sum, prot[i].n);
    }
    sim_setop(-1);
    return 0;
}
