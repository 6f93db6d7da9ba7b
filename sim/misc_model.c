/* Generators and references of the small workloads: arenas, atomics, thread storage. Not instrumented. */
#include "misc.h"
#include <string.h>
#include <stdlib.h>

int m_child(int i) {
    prog_t *p = &R->prog;
    return i >= 0 && i + 1 < p->n && p->op[i + 1].depth == p->op[i].depth + 1 ? i + 1 : -1;
}
int m_next(int i) {
    prog_t *p = &R->prog;
    int j;
    if (i < 0) return -1;
    for (j = i + 1; j < p->n; j++) {
        if (p->op[j].depth == p->op[i].depth) return j;
        if (p->op[j].depth < p->op[i].depth) return -1;
    }
    return -1;
}
static int add(prog_t *p, int depth, int kind, int a, int b, int c) {
    if (p->n >= MAXOPS - 8) return -1;
    p->op[p->n].depth = depth; p->op[p->n].kind = kind; p->op[p->n].a = a; p->op[p->n].b = b; p->op[p->n].c = c;
    return p->n++;
}
static void fault(run_t *run, int kind, int n, int arg) {
    if (run->nfault == MAXFAULT) return;
    run->fault[run->nfault].kind = kind; run->fault[run->nfault].n = n; run->fault[run->nfault++].arg = arg;
}
void no_check(void) { }

/* ---------------------------------------------------------------- arenas */
static int asize(rng_t *r) {
    switch (rng_below(r, 10)) {
    case 0: return 1 + (int)rng_below(r, 3);
    case 1: return 9000 + (int)rng_below(r, 3000);
    case 2: return 1024 * (1 + (int)rng_below(r, 24));
    case 3: return 12000 + (int)rng_below(r, 50000);
    case 4: return 1 + 2 * (int)rng_below(r, 400);
    default: return 1 + (int)rng_below(r, 300);
    }
}
/* operations on the arenas of one owner */
static void arena_ops(rng_t *r, prog_t *p, int depth, int owner, int len) {
    int used[MSLOT] = { 0 };
    if (rng_below(r, len > 20 ? 25 : 200) == 0) {    /* one arena of many chunks: what is left of one is taken, then a little more */
        int s = owner * MSLOT + (int)rng_below(r, MSLOT), k = 10 + (int)rng_below(r, 13);
        used[s % MSLOT] = 1;
        if (rng_pct(r, 70)) add(p, depth, AR_INIT, s, 1, 0); else add(p, depth, AR_UINIT, s, 0, 0);
        while (k--) {
            add(p, depth, AR_ALLOC, s, 1 + (int)rng_below(r, 40), (int)rng_below(r, 4));
            add(p, depth, AR_ALLOC, s, 1, (int)rng_below(r, 4) | AR_REST);
        }
    }
    while (len-- > 0) {
        int k = (int)rng_below(r, MSLOT), s = owner * MSLOT + k;
        if (!used[k]) {
            if (rng_pct(r, 60)) add(p, depth, AR_INIT, s, rng_pct(r, 40) ? 0 : rng_pct(r, 50) ? 1 : 1 + (int)rng_below(r, 40), rng_pct(r, 10) ? AR_FAILS : 0);
            else add(p, depth, AR_UINIT, s, 0, rng_pct(r, 10) ? AR_FAILS : 0);
            used[k] = 1;
            continue;
        }
        switch (rng_below(r, 20)) {
        case 0: add(p, depth, AR_FREE, s, 0, rng_pct(r, 10) ? AR_FAILS : 0); used[k] = 0; break;
        case 1: add(p, depth, AR_CLEAR, s, 0, 0); break;
        case 2: case 3: add(p, depth, AR_DEFER, s, 0, 0); break;
        case 4: add(p, depth, AR_CHECK, s, 0, 0); break;
        case 5: add(p, depth, MK_YIELD, 0, 0, 0); break;
        case 6:
            if (rng_pct(r, 40)) { add(p, depth, AR_ALLOC, s, 1 + (int)rng_below(r, 8), (int)rng_below(r, 6) | AR_HUGE); break; }   /* fall through */
        default: add(p, depth, AR_ALLOC, s, asize(r), (int)rng_below(r, 6) | (rng_pct(r, 5) ? AR_FAILS : 0)); break;
        }
    }
}
void arena_gen(rng_t *r, int variant, prog_t *p, run_t *run) {
    int i, k;
    if (variant == VA_CLEAR) {
        add(p, 0, AR_INIT, 0, 0, 0);
        add(p, 0, AR_ALLOC, 0, 100, 0);
        add(p, 0, AR_CLEARX, 0, 0, 0);
        add(p, 0, AR_INIT, 1, 0, 0);
        add(p, 0, AR_ALLOC, 1, 100, 0);
        add(p, 0, AR_ALLOC, 0, 100, 0);
        add(p, 0, AR_CHECK, 1, 0, 0);
        return;
    }
    if (variant == VA_ONE) arena_ops(r, p, 0, 0, 4 + (int)rng_below(r, 40));
    else {
        int nt = 2 + (int)rng_below(r, 3), round = 1 + (int)rng_below(r, 2);
        if (rng_pct(r, 60)) arena_ops(r, p, 0, 0, (int)rng_below(r, 10));
        /* arenas handed to the thread that will use them */
        for (i = 1; i <= nt; i++) if (rng_pct(r, 40)) arena_ops(r, p, 0, i, 1 + (int)rng_below(r, 6));
        while (round--) {
            for (i = 1; i <= nt; i++) {
                add(p, 0, MK_SPAWN, i, 0, 0);
                arena_ops(r, p, 1, i, 2 + (int)rng_below(r, 18));
                if (rng_pct(r, 20)) arena_ops(r, p, 0, 0, 1 + (int)rng_below(r, 4));
            }
            if (rng_pct(r, 50)) arena_ops(r, p, 0, 0, 1 + (int)rng_below(r, 10));
            add(p, 0, MK_JOIN, 0, 0, 0);
            for (i = 1; i <= nt; i++) if (rng_pct(r, 40)) arena_ops(r, p, 0, i, 1 + (int)rng_below(r, 5));
            if (nt > 3) break;      /* a second round with the same numbers: the first threads are gone */
        }
        if (rng_pct(r, 30)) fault(run, FT_STALL, 1 + (int)rng_below(r, nt), 50 + (int)rng_below(r, 1000));
    }
    if (rng_pct(r, 60)) for (k = 1 + (int)rng_below(r, 3); k; k--) fault(run, FT_ALLOC, 1 + (int)rng_below(r, rng_pct(r, 60) ? 12 : 40), 0);
}

/* ---------------------------------------------------------------- atomics */
hist_t at_hist[MAXHIST];
int at_nhist;
int at_type(int obj) { return (int)(rng_mix(R->seed, 77 + obj) % TY_N); }
int at_bits(int t) {
    static const int b[TY_N] = { 8, 16, 32, 64, 8, 16, 32, 64, 32, 64, 64, 64 };
    return b[t];
}
int at_has(int t, int op) {
    if (t == TY_F32 || t == TY_F64) return op <= OP_AND || op == OP_CLEAR;
    if (t == TY_PTR) return op <= OP_CASV;
    if (t == TY_GEN) return op <= OP_AND && op != OP_CASV;
    return op < OP_N;
}
static uint64_t mask(int t, uint64_t v) { return at_bits(t) == 64 ? v : v & ((1ull << at_bits(t)) - 1); }
uint64_t at_val(int t, int k) {
    static const uint64_t iv[16] = { 0, 1, 2, 3, 0, 1, 2, 5, ~0ull, 0x8080808080808080ull, 0x5555555555555555ull, 0xAAAAAAAAAAAAAAAAull, 0x1234567890ABCDEFull, 0x7F7F7F7F7F7F7F7Full, 7, 1 };
    static const double fv[16] = { 0, 1, 2, 3, 0, 1, 2, 5, -1, 4, 8, 100, 1000, -7, 7, 1 };
    union { float f; uint32_t i; } f; union { double f; uint64_t i; } d;
    if (t == TY_F32) { f.f = (float)fv[k & 15]; return f.i; }
    if (t == TY_F64) { d.f = fv[k & 15]; return d.i; }
    return mask(t, iv[k & 15]);
}
void at_record(int node, uint64_t inv, int thr, int obj, int op, uint64_t a, uint64_t b, uint64_t ret, int ok) {
    hist_t *h;
    int t = at_type(obj);
    sim_log(1, node, (int)mask(t, ret));
    if (at_nhist == MAXHIST) sim_violation("internal", "history too long");
    h = &at_hist[at_nhist++];
    h->thr = thr; h->obj = obj; h->op = op; h->a = mask(t, a); h->b = mask(t, b); h->ret = mask(t, ret); h->ok = !!ok; h->inv = inv; h->res = sim_stamp();
}
/* the reference: what op does to value v; 0 if h could not have happened at v. alt: the spurious failure of a weak exchange */
static int step(const hist_t *h, uint64_t v, uint64_t *out) {
    int t = at_type(h->obj);
    uint64_t n = v, x = h->a;
    *out = v;
    switch (h->op) {
    case OP_LOAD: return h->ret == v;
    case OP_STORE: *out = x; return 1;
    case OP_CLEAR: *out = 0; return 1;
    case OP_XCHG: *out = x; return h->ret == v;
    case OP_SET: *out = mask(t, 1); return h->ret == v;
    case OP_CAS: if (v == x) { *out = h->b; return h->ok; } return !h->ok && h->ret == v;
    case OP_WEAK:
        if (h->ok) { *out = h->b; return v == x; }
        return h->ret == v;
    case OP_CASV: if (v == x) *out = h->b; return h->ret == v;
    case OP_ADD: case OP_SUB: {
        int s = h->op == OP_ADD ? 1 : -1;
        if (t == TY_F32) { union { float f; uint32_t i; } p, q; p.i = (uint32_t)v; q.i = (uint32_t)x; p.f += s * q.f; n = p.i; }
        else if (t == TY_F64) { union { double f; uint64_t i; } p, q; p.i = v; q.i = x; p.f += s * q.f; n = p.i; }
        else n = mask(t, s > 0 ? v + x : v - x);
        break;
    }
    case OP_OR: n = v | x; break;
    case OP_XOR: n = v ^ x; break;
    case OP_AND: n = v & x; break;
    }
    *out = mask(t, n);
    return h->ret == v;
}
/* Wing and Gong: is there an order of the operations on one object, agreeing with real time, in which every result is the reference's? */
#define LT (MTHREADS + 1)
static hist_t *seq[LT][MAXHIST]; static int len[LT];
typedef struct { unsigned char pos[LT]; uint64_t v; } st_t;
#define SEEN (1 << 17)
static st_t *seen; static unsigned nseen;
static int visit(const st_t *s) {
    uint64_t h = s->v * 0x9E3779B97F4A7C15ull;
    unsigned i;
    int k;
    for (k = 0; k < LT; k++) h = (h ^ s->pos[k]) * 0x100000001B3ull;
    for (i = (unsigned)(h >> 40) % SEEN; seen[i].pos[0] != 255; i = (i + 1) % SEEN)
        if (!memcmp(seen[i].pos, s->pos, LT) && seen[i].v == s->v) return 0;
    if (++nseen > SEEN / 2) return 0;
    seen[i] = *s;
    return 1;
}
static int lin(st_t s) {
    uint64_t first = ~0ull;
    int t, left = 0;
    for (t = 0; t < LT; t++) if (s.pos[t] < len[t]) { left = 1; if (seq[t][s.pos[t]]->res < first) first = seq[t][s.pos[t]]->res; }
    if (!left) return 1;
    if (!visit(&s)) return 0;
    for (t = 0; t < LT; t++) {
        st_t n = s;
        if (s.pos[t] == len[t] || seq[t][s.pos[t]]->inv > first) continue;
        if (!step(seq[t][s.pos[t]], s.v, &n.v)) continue;
        n.pos[t]++;
        if (lin(n)) return 1;
    }
    return 0;
}
void atomic_check(void) {
    int o, i;
    st_t s;
    if (sim_exited()) return;
    seen = malloc(SEEN * sizeof *seen);
    for (o = 0; o < NOBJ; o++) {
        memset(len, 0, sizeof len);
        for (i = 0; i < at_nhist; i++) if (at_hist[i].obj == o) { hist_t *h = &at_hist[i]; seq[h->thr][len[h->thr]++] = h; }
        for (i = 0; i < LT; i++) if (len[i] > 250) sim_violation("internal", "history too long");
        for (i = 0; i < SEEN; i++) seen[i].pos[0] = 255;
        nseen = 0;
        memset(&s, 0, sizeof s);
        if (!lin(s) && nseen <= SEEN / 2) {
            static const char *tn[] = { "8", "16", "32", "64", "i8", "i16", "i32", "i64", "f32", "f64", "ptr", "no width" };
            static const char *on[] = { "load", "store", "exchange", "strong", "weak", "swap", "add", "sub", "or", "xor", "and", "set", "clear" };
            char buf[400] = ""; size_t k = 0;
            for (i = 0; i < at_nhist && k < sizeof buf - 60; i++) if (at_hist[i].obj == o) k += snprintf(buf + k, sizeof buf - k, " [%d:%s %llx,%llx=%llx%s]", at_hist[i].thr, on[at_hist[i].op], (long long)at_hist[i].a, (long long)at_hist[i].b, (long long)at_hist[i].ret, at_hist[i].ok ? " ok" : "");
            sim_violation("not-linearizable", "type %s: no order of these operations explains their results:%s", tn[at_type(o)], buf);
        }
    }
    free(seen);
}
static void atomic_ops(rng_t *r, prog_t *p, int depth, int me, int n, int nobj, int fav) {
    while (n-- > 0)
        switch (rng_below(r, 23)) {
        case 20: case 21: case 22: if (me == 1 || me == 2) add(p, depth, AT_CROSS, (int)rng_below(r, NCROSS), (int)rng_below(r, 12), (int)rng_below(r, 4)); break;
        case 0: add(p, depth, MK_YIELD, 0, 0, 0); break;
        case 1: case 2: add(p, depth, AT_LOCK, (int)rng_below(r, 2), (int)rng_below(r, 8), 0); break;
        case 3: case 4: add(p, depth, AT_TRY, (int)rng_below(r, 3), (int)rng_below(r, 8), 0); break;
        case 5: case 6: if (me < 3) add(p, depth, AT_PUB, me, (int)rng_below(r, 9), 0); break;
        case 7: case 8: add(p, depth, AT_GET, (int)rng_below(r, 3), (int)rng_below(r, 5), 0); break;
        default: {
            int o = rng_pct(r, 60) ? fav : (int)rng_below(r, nobj), c = (int)rng_below(r, 256), ty = at_type(o), op;
            if (rng_pct(r, 60)) c = (int)rng_below(r, 4) | (int)rng_below(r, 4) << 4;
            do op = (int)rng_below(r, OP_N); while (!at_has(ty, op));
            add(p, depth, AT_OP, o, op, c | (int)rng_below(r, 60) << 8);
        }
        }
}
void atomic_gen(rng_t *r, int variant, prog_t *p, run_t *run) {
    int nt = 2 + (int)rng_below(r, 3), i, nobj = 1 + (int)rng_below(r, NOBJ), fav = (int)rng_below(r, nobj);
    if (variant == VT_NARROW) { add(p, 0, AT_NARROW, 0, 0, 0); return; }
    atomic_ops(r, p, 0, 0, (int)rng_below(r, 4), nobj, fav);
    for (i = 1; i <= nt; i++) {
        add(p, 0, MK_SPAWN, i, 0, 0);
        atomic_ops(r, p, 1, i, 2 + (int)rng_below(r, 7), nobj, fav);
    }
    if (rng_pct(r, 40)) atomic_ops(r, p, 0, 0, (int)rng_below(r, 5), nobj, fav);
    if (rng_pct(r, 40)) {
        add(p, 0, MK_JOIN, 0, 0, 0);
        atomic_ops(r, p, 0, 0, (int)rng_below(r, 5), nobj, fav);
    }
    if (rng_pct(r, 50)) for (i = 1 + (int)rng_below(r, 3); i; i--) fault(run, FT_WEAK, 1 + (int)rng_below(r, 8), 0);
    if (rng_pct(r, 30)) fault(run, FT_STALL, 1 + (int)rng_below(r, nt), 20 + (int)rng_below(r, 400));
}

/* ---------------------------------------------------------------- thread storage */
static void tls_ops(rng_t *r, prog_t *p, int depth, int n) {
    while (n-- > 0)
        switch (rng_below(r, 12)) {
        case 0: add(p, depth, MK_YIELD, 0, 0, 0); break;
        case 1: add(p, depth, TL_UPD, (int)rng_below(r, 4), 0, 0); break;
        case 2: add(p, depth, TL_DEL, (int)rng_below(r, 4), 0, 0); break;
        case 3: case 4: add(p, depth, TL_EMPTY, (int)rng_below(r, 4), 0, 0); break;
        case 5: add(p, depth, TL_OWN, 0, 0, 0); break;
        case 6: case 7: case 8: add(p, depth, TL_SET, (int)rng_below(r, 4), 1 + (int)rng_below(r, 1000), 0); break;
        default: add(p, depth, TL_GET, (int)rng_below(r, 4), 0, 0); break;
        }
}
void tls_gen(rng_t *r, int variant, prog_t *p, run_t *run) {
    int nt = 1 + (int)rng_below(r, 4), i, round = 1 + (int)rng_below(r, 2);
    (void)variant;
    if (rng_pct(r, 60)) tls_ops(r, p, 0, (int)rng_below(r, 8));
    while (round--) {
        for (i = 1; i <= nt; i++) {
            add(p, 0, MK_SPAWN, i, 0, 0);
            tls_ops(r, p, 1, 1 + (int)rng_below(r, 12));
        }
        tls_ops(r, p, 0, (int)rng_below(r, 8));
        add(p, 0, MK_JOIN, 0, 0, 0);
        tls_ops(r, p, 0, (int)rng_below(r, 4));
    }
    if (rng_pct(r, 30)) fault(run, FT_STALL, 1 + (int)rng_below(r, nt), 20 + (int)rng_below(r, 400));
}

/* ---------------------------------------------------------------- texts */
int tx_text(int seed, int style, int max, char *b) {
    rng_t r = { rng_mix(0x7e87, (uint64_t)seed * 16 + style) };
    static const char *abc[4] = { "ab", "abc,", "xyzXYZ 0129-+.", "" };
    int n, k, t = style & 3;
    if (max > 1600) max = 1600;
    n = rng_pct(&r, 5) ? 0 : rng_pct(&r, 50) ? (int)rng_below(&r, max < 12 ? max + 1 : 12) : (int)rng_below(&r, max + 1);
    for (k = 0; k < n; k++) b[k] = t == 3 ? (char)(1 + rng_below(&r, 255)) : abc[t][rng_below(&r, strlen(abc[t]))];
    b[n] = 0;
    return n;
}
void tx_styles(int seed, int kind, int *style, int *max) {
    rng_t r = { rng_mix(0x57f1e, seed) };
    int t = (int)rng_below(&r, 4), k;
    for (k = 0; k < 3; k++) { style[k] = t; max[k] = k ? 3 : rng_pct(&r, 50) ? 20 : 90; }
    if (rng_pct(&r, 6)) { max[0] = rng_pct(&r, 50) ? 300 : 1500; if (rng_pct(&r, 30)) max[1] = 40; }
    if (kind == TX_CONCAT) max[1] = max[2] = 40;
    if (kind == TX_REPLACE) { max[2] = 4; if (rng_pct(&r, 4)) max[0] = 20, max[2] = 300; }
    if (kind == TX_FIND && rng_pct(&r, 50)) { style[0] = style[1] = 0; max[0] = max[1] = rng_pct(&r, 50) ? 3 : 30; }
}
int tx_bytes(int seed, unsigned char *b) {
    rng_t r = { rng_mix(0xb7e5, seed) };
    int n = rng_pct(&r, 10) ? 0 : (int)rng_below(&r, rng_pct(&r, 6) ? 1500 : 100), k;
    for (k = 0; k < n; k++) b[k] = (unsigned char)rng_next(&r);
    return n;
}
static const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int encode(const unsigned char *s, int n, char *b) {
    int i, o = 0;
    for (i = 0; i < n; i += 3) {
        unsigned v = s[i] << 16 | (i + 1 < n ? s[i + 1] << 8 : 0) | (i + 2 < n ? s[i + 2] : 0);
        b[o++] = b64[v >> 18]; b[o++] = b64[v >> 12 & 63];
        b[o++] = i + 1 < n ? b64[v >> 6 & 63] : '='; b[o++] = i + 2 < n ? b64[v & 63] : '=';
    }
    b[o] = 0;
    return o;
}
int tx_encode(const char *s, char *b) { return encode((const unsigned char *)s, (int)strlen(s), b); }
/* 0 plain, 1 with other characters in between, 2 wrong length, 3 more padding than there can be, 4 nothing in it */
static int coded_kind(int seed) { int k = (int)(rng_mix(0xc0de, seed) % 20); return k < 10 ? 0 : k < 15 ? 1 : k < 17 ? 2 : k < 19 ? 3 : 4; }
int tx_coded(int seed, char *b) {
    rng_t r = { rng_mix(0xdec0, seed) };
    unsigned char src[1600]; char e[1600 * 2];
    int n = tx_bytes(seed, src), k = coded_kind(seed), i, o = 0, m;
    if (k == 3) { n -= n % 3; }
    m = encode(src, n, e);
    if (k == 3) { memcpy(e + m, rng_pct(&r, 50) ? "A===" : "====", 5); m += 4; }
    if (k == 2) { if (!m) strcpy(e, "AAAA"), m = 4; m -= 1 + (int)rng_below(&r, 3); }
    if (k == 4) m = 0;
    if (k < 2 && n % 3 && rng_pct(&r, 20)) { memcpy(e + m, "QUJDREVG", 9); m += rng_pct(&r, 50) ? 4 : 8; }      /* a code ends with its padding */
    for (i = 0; i < m; i++) {
        if (k && k != 3) while (rng_pct(&r, 10) && o < 4000) b[o++] = "\n \t-_.\x80\xff"[rng_below(&r, 8)];
        b[o++] = e[i];
    }
    b[o] = 0;
    return o;
}
int tx_decoded(int seed, char *b) {
    int k = coded_kind(seed), n;
    if (k >= 2) return -1;
    n = tx_bytes(seed, (unsigned char *)b);
    b[n] = 0;
    return n ? n : -1;
}
int tx_clean(const char *s) {
    for (; *s; s++) if (*s != '=' && !strchr(b64, *s)) return 0;
    return 1;
}
void tx_seek(int seed, seek_t *s) {
    rng_t r = { rng_mix(0x5ee7, seed) };
    int k, few = rng_pct(&r, 60), lone = 0;
    static const unsigned char cs[] = { 0, 1, 0x7f, 0x80, 0xff, '.', 'a', 'b' };
    s->len = rng_pct(&r, 50) ? (int)rng_below(&r, 18) : (int)rng_below(&r, rng_pct(&r, 6) ? 1000 : 120);
    s->off = rng_pct(&r, 40) ? 0 : (int)rng_below(&r, 18);
    s->size = s->off + s->len + (rng_pct(&r, 40) ? 0 : (int)rng_below(&r, 18));
    if (!s->size) s->size = 1;
    s->printable = rng_pct(&r, 50);
    s->c = rng_pct(&r, 70) ? cs[rng_below(&r, 8)] : (int)rng_below(&r, 256);
    if (s->printable) s->c &= 0x7f;
    if (s->len > 8 && rng_pct(&r, 12)) lone = 1 + (int)rng_below(&r, 2);       /* no match but one or two */
    for (k = 0; k < s->size; k++) {
        int v = rng_pct(&r, few ? 3 : 20) ? s->c : rng_pct(&r, 50) ? s->c ^ (1 << rng_below(&r, 8)) : (int)rng_below(&r, 256);
        if (lone && v == s->c) v ^= 1;
        if (s->printable && k >= s->off && k < s->off + s->len) v &= 0x7f;
        if (lone && v == s->c) v ^= 1;
        s->b[k] = (unsigned char)v;
    }
    for (; lone; lone--) s->b[s->off + rng_below(&r, s->len)] = (unsigned char)s->c;
    /* the bytes on both sides of the part are often the one looked for */
    if (s->off && rng_pct(&r, 50)) s->b[s->off - 1] = (unsigned char)s->c;
    if (s->off + s->len < s->size && rng_pct(&r, 50)) s->b[s->off + s->len] = (unsigned char)s->c;
    s->first = s->last = -1;
    for (k = 0; k < s->len; k++) if (s->b[s->off + k] == s->c) { if (s->first < 0) s->first = k; s->last = k; }
}
void tx_number(int seed, num_t *n) {
    rng_t r = { rng_mix(0x40be, seed) };
    uint64_t v = rng_next(&r) >> rng_below(&r, 64);
    int k, max, digits = (int)rng_below(&r, 21), exact = rng_pct(&r, 30);
    memset(n, 0, sizeof *n);
    n->fn = (int)rng_below(&r, NU_N);
    if (exact) { v = 1; for (k = 0; k < (int)rng_below(&r, 19); k++) v *= 10; if (rng_pct(&r, 50)) v--; }
    switch (n->fn) {
    case NU_ATOU8: case NU_ATOU:
        max = n->fn == NU_ATOU8 ? 8 : 20;
        if (digits > max) digits = max;
        for (k = 0, n->u = 0; k < digits; k++) {
            int d = exact ? 9 : (int)rng_below(&r, 10);
            if (k == 19 && (n->u > 1844674407370955161ull || (n->u == 1844674407370955161ull && d > 5))) break;
            n->in[k] = (char)('0' + d); n->u = n->u * 10 + d;
        }
        n->len = k;
        break;
    case NU_ATOI:
        n->i = (int64_t)(v >> 1);
        if (rng_pct(&r, 40)) n->len = sprintf(n->in, "-%lld", (long long)n->i), n->i = -n->i;
        else n->len = sprintf(n->in, rng_pct(&r, 40) ? "+%lld" : "%lld", (long long)n->i);
        if (rng_pct(&r, 10)) n->len = 0, n->i = 0;
        break;
    case NU_HTOU8: case NU_HTOU:
        max = n->fn == NU_HTOU8 ? 8 : 16;
        if (digits > max) digits = max;
        for (k = 0; k < digits; k++) { int d = exact ? 15 : (int)rng_below(&r, 16); n->in[k] = (rng_pct(&r, 50) ? "0123456789abcdef" : "0123456789ABCDEF")[d]; n->u = n->u << 4 | d; }
        n->len = k;
        break;
    case NU_ATOD: {
        static const char *sg[] = { "", "", "-", "+" };
        int id = (int)rng_below(&r, 16), dd = rng_pct(&r, 20) ? 0 : (int)rng_below(&r, 18), dot = dd || rng_pct(&r, 50);
        strcpy(n->in, sg[rng_below(&r, 4)]); k = (int)strlen(n->in);
        if (!id && !dd) id = 1;
        if (rng_pct(&r, 20) && id) { n->in[k++] = '0'; id = 0; }
        while (id--) n->in[k++] = (char)('0' + rng_below(&r, 10));
        if (dot) { n->in[k++] = '.'; while (dd--) n->in[k++] = (char)('0' + rng_below(&r, 10)); }
        n->in[k] = 0;
        n->len = k; n->d = strtod(n->in, NULL);
        break;
    }
    case NU_ITOA:
        n->i = rng_pct(&r, 10) ? INT64_MIN : rng_pct(&r, 50) ? (int64_t)(v >> 1) : -(int64_t)(v >> 1);
        sprintf(n->out, "%lld", (long long)n->i);
        break;
    case NU_ITOA8:
        n->i = (int64_t)(v % 100000000);
        if (rng_pct(&r, 40)) n->i = -(n->i % 10000000);
        sprintf(n->out, "%lld", (long long)n->i);
        break;
    case NU_UTOAP:
        n->width = (int)rng_below(&r, 21); n->u = v;
        { uint64_t lim = 1; for (k = 0; k < n->width && k < 19; k++) lim *= 10; if (n->width < 20) n->u %= lim; }
        if (n->width) sprintf(n->out, "%0*llu", n->width, (unsigned long long)n->u);
        break;
    case NU_UTOA2P: n->u = rng_below(&r, 100); sprintf(n->out, "%02d", (int)n->u); break;
    case NU_CAST8:
        n->len = (int)rng_below(&r, 9);
        for (k = 0; k < 8; k++) n->in[k] = (char)rng_next(&r);
        for (k = 0; k < n->len; k++) n->u |= (uint64_t)(unsigned char)n->in[k] << (8 * k);
        break;
    case NU_BITS: n->u = v; n->width = (int)rng_below(&r, 256); if (rng_pct(&r, 50)) n->u = (n->u & ~(255ull << (k = 8 * (int)rng_below(&r, 8)))) | (uint64_t)n->width << k; break;
    }
    /* what follows the text does not count */
    n->size = n->len + (rng_pct(&r, 40) ? 0 : (int)rng_below(&r, 14));
    if (!n->size) n->size = 1;
    for (k = n->len; k < n->size; k++) n->in[k] = n->fn == NU_CAST8 && k < 8 ? n->in[k] : "0123456789abcdefABCDEF.+-x \0"[rng_below(&r, 28)];
}
static int tx_exact;
static void text_ops(rng_t *r, prog_t *p, int depth, int len, int *budget) {
    while (len-- > 0 && *budget > 0) {
        (*budget)--;
        switch (rng_below(r, 16)) {
        case 0: case 1: if (depth < 5) { add(p, depth, TX_GUARD, 0, 0, rng_pct(r, 25)); text_ops(r, p, depth + 1, (int)rng_below(r, 7), budget); } break;
        case 2: if (depth < 5) { add(p, depth, TX_OBJECT, 0, 0, 0); text_ops(r, p, depth + 1, (int)rng_below(r, 6), budget); } break;
        case 3: add(p, depth, rng_pct(r, 40) ? TX_CLEAN : MK_YIELD, 0, 0, 0); break;
        default: add(p, depth, tx_exact && rng_pct(r, 70) ? TX_SEEK + (int)rng_below(r, 2) : TX_SPLIT + (int)rng_below(r, 7), 0, (int)rng_below(r, 1 << 20), (int)rng_below(r, 16) | (rng_pct(r, 20) ? 16 : 0)); break;
        }
    }
}
void text_gen(rng_t *r, int variant, prog_t *p, run_t *run) {
    int budget = 40, i, k;
    tx_exact = variant >= 2;
    if (!(variant & 1)) text_ops(r, p, 0, 3 + (int)rng_below(r, 20), &budget);
    else {
        int nt = 2 + (int)rng_below(r, 2);
        budget = 50;
        for (i = 1; i <= nt; i++) { add(p, 0, MK_SPAWN, i, 0, 0); text_ops(r, p, 1, 2 + (int)rng_below(r, 8), &budget); }
        text_ops(r, p, 0, (int)rng_below(r, 8), &budget);
        add(p, 0, MK_JOIN, 0, 0, 0);
        text_ops(r, p, 0, (int)rng_below(r, 4), &budget);
        if (rng_pct(r, 30)) fault(run, FT_STALL, 1 + (int)rng_below(r, nt), 50 + (int)rng_below(r, 1000));
    }
    if (rng_pct(r, 60)) for (k = 1 + (int)rng_below(r, 3); k; k--) fault(run, FT_ALLOC, 1 + (int)rng_below(r, rng_pct(r, 60) ? 12 : 40), 0);
}
