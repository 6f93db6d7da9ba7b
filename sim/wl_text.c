/* Text and memory helpers, their results owned by guards, scope objects, the thread, or the caller. Instrumented. */
#include "raii.h"
#include "misc.h"

#define NRES 64
#define TMAX 9000
enum { OWN_THREAD, OWN_GUARD, OWN_OBJECT, OWN_CALLER };
typedef struct scope_s { int own; memory_t *m; struct scope_s *up; } scope_t;
typedef struct { int kind, node, n, nw; scope_t *own; void *p; unsigned gen; unsigned char *want; int *off; } res_t;   /* want: bytes of the result, or of the words one after another */
static thrd_t th[MTHREADS + 1]; static int nth;
static char *shared_in[TX_SHARED]; static char shared_copy[TX_SHARED][TMAX];
static scope_t *top[MTHREADS + 1], bottom[MTHREADS + 1];
static unsigned char wants[MTHREADS + 1][NRES][TMAX]; static int offs[MTHREADS + 1][NRES][2048];
static res_t rs[MTHREADS + 1][NRES]; static int nrs[MTHREADS + 1];

#define QUICK __attribute__((no_sanitize_thread, noinline))
static int me(void) { return sim_logical() >= 100 ? sim_logical() - 100 : 0; }
static QUICK int diff(const unsigned char *a, const unsigned char *b, int n) { int k; for (k = 0; k < n; k++) if (a[k] != b[k]) return k; return -1; }
static QUICK void copy(unsigned char *d, const unsigned char *s, int n) { int k; for (k = 0; k < n; k++) d[k] = s[k]; }
static QUICK int len(const char *s) { int n = 0; while (s[n]) n++; return n; }
static QUICK int at(const char *h, const char *n) {       /* first position of n in h */
    int i, k;
    for (i = 0; ; i++) {
        for (k = 0; n[k] && h[i + k] == n[k]; k++) ;
        if (!n[k]) return i;
        if (!h[i]) return -1;
    }
}
static QUICK int starts(const char *h, const char *n) { int k; for (k = 0; n[k]; k++) if (h[k] != n[k]) return 0; return 1; }
static QUICK int sign(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a < (unsigned char)*b ? -1 : (unsigned char)*a > (unsigned char)*b; }

/* is the result what it was when it was made? */
static QUICK void check(const res_t *r, int at_) {
    int k;
    if (!r->p) return;
    if (!sim_live(r->p) || sim_gen(r->p) != r->gen) sim_violation("freed-early", "the result of op %d is no longer allocated, seen in op %d", r->node, at_);
    if (r->kind == TX_SPLIT) {
        char **w = r->p;
        for (k = 0; k < r->nw; k++) {
            int n = len((const char *)r->want + r->off[k]), d;
            if (!sim_within(w[k], n + 1)) sim_violation("outside", "word %d of op %d is not in allocated memory, seen in op %d", k, r->node, at_);
            if ((d = diff((unsigned char *)w[k], r->want + r->off[k], n + 1)) >= 0) sim_violation("wrong-text", "word %d of the split in op %d differs at byte %d, seen in op %d", k, r->node, d, at_);
        }
        if (w[r->nw]) sim_violation("wrong-text", "the words of op %d do not end with NULL after %d words", r->node, r->nw);
        return;
    }
    if (!sim_within(r->p, r->n + 1)) sim_violation("outside", "the %d bytes of the result of op %d are not in one block", r->n + 1, r->node);
    if ((k = diff(r->p, r->want, r->n + 1)) >= 0) sim_violation("wrong-text", "the result of op %d (%d bytes) differs at byte %d, seen in op %d", r->node, r->n, k, at_);
}
static QUICK void check_all(int node) {
    int i;
    for (i = 0; i < nrs[me()]; i++) check(&rs[me()][i], node);
    for (i = 0; i < TX_SHARED; i++) if (diff((unsigned char *)shared_in[i], (unsigned char *)shared_copy[i], len(shared_copy[i]) + 1) >= 0) sim_violation("input-changed", "shared input %d changed, seen in op %d", i, node);
}
/* the scope has ended */
static QUICK void gone(scope_t *s, int node) {
    int i, k = 0;
    res_t *r = rs[me()];
    for (i = 0; i < nrs[me()]; i++) {
        if (r[i].own != s) { if (i != k) { res_t t = r[k]; r[k] = r[i]; r[i] = t; } k++; continue; }
        if (sim_live(r[i].p) && sim_gen(r[i].p) == r[i].gen) sim_violation("memory-kept", "the result of op %d outlived its scope, op %d", r[i].node, node);
    }
    nrs[me()] = k;
}

/* inputs are copied to heap blocks of exactly their size */
static QUICK char *blockof(const void *s, int n) {
    char *p;
    sim_nofault(1);
    p = RAII_MALLOC(n);
    sim_nofault(0);
    copy((unsigned char *)p, s, n);
    return p;
}
static QUICK char *input(int seed, int style, int max) {
    char b[TMAX];
    int n = tx_text(seed, style, max, b);
    return blockof(b, n + 1);
}
static QUICK void same(const char *p, int seed, int style, int max, int node) {
    char b[TMAX];
    int n = tx_text(seed, style, max, b);
    if (diff((unsigned char *)p, (unsigned char *)b, n + 1) >= 0) sim_violation("input-changed", "an argument of op %d was changed by it", node);
}
/* the expected results */
static QUICK void want_split(res_t *r, const char *s, const char *d) {
    int k = 0, o = 0, dl;
    r->nw = 0;
    if (!*s) { r->n = -1; return; }
    if (!d) d = " ";
    dl = len(d);
    r->off[r->nw++] = 0;
    while (s[k]) {
        if (dl && starts(s + k, d)) { r->want[o++] = 0; r->off[r->nw++] = o; k += dl; }
        else r->want[o++] = s[k++];
    }
    r->want[o] = 0; r->n = o;
}
static QUICK void want_replace(res_t *r, const char *h, const char *n, const char *w) {
    int k = 0, o = 0, hits = 0, nl = len(n), wl = len(w), j;
    while (h[k])
        if (nl && starts(h + k, n)) { for (j = 0; j < wl; j++) r->want[o++] = w[j]; k += nl; hits++; }
        else r->want[o++] = h[k++];
    r->want[o] = 0; r->n = hits ? o : -1;
}
static string concat_ex(memory_t *m, int n, ...) {
    va_list ap; string r;
    va_start(ap, n); r = str_concat_ex(m, n, ap); va_end(ap);
    return r;
}
#define ABC9 a, b, c, a, b, c, a, b, c
#define ABC45 ABC9, ABC9, ABC9, ABC9, ABC9
static void do_op(scope_t *s, int i) {
    int kind = MOP(i).kind, seed = MOP(i).b, api = MOP(i).c, caller = 0, many = 0, n, k, l;
    char *volatile p = NULL, *q, *a, *b = NULL, *c = NULL, buf[TMAX];
    volatile int failed = 0, count = -7, sh = 0;
    memory_t *m = s->m;
    res_t *r;
    int st[3], mx[3];
    if (nrs[me()] == NRES) return;
    if (api & 16) { s = &bottom[me()]; m = NULL; }
    tx_styles(seed, kind, st, mx);
    sim_nofault(1);
    if (s->own == OWN_THREAD) m = raii_init();
    sim_nofault(0);
    r = &rs[me()][nrs[me()]];
    if (!r->want) r->want = wants[me()][nrs[me()]], r->off = offs[me()][nrs[me()]];
    r->kind = kind; r->node = i; r->p = NULL; r->own = s;
    a = input(seed, st[0], mx[0]);
    if (api & 8 && (kind != TX_REPLACE || mx[2] <= 4) && kind != TX_MEMDUP && kind != TX_DEC) { sh = 1 + (seed & 7) % TX_SHARED; free(a); a = shared_in[sh - 1]; }
    if (kind != TX_ENC && kind != TX_DEC && kind != TX_MEMDUP) { b = input(seed + 1, st[1], mx[1]); c = input(seed + 2, st[2], mx[2]); }
    if ((api & 3) == 3 && kind <= TX_REPLACE) caller = 1, m = NULL;     /* split, concat, replace: owned by the caller */
    switch (kind) {
    case TX_SPLIT: want_split(r, a, api & 4 ? NULL : b); break;
    case TX_REPLACE: want_replace(r, a, b, c); break;
    case TX_CONCAT:
        n = 0; r->want[0] = 0; many = seed % 5;
        if (seed / 5 % 12 == 0 && len(a) + len(b) + len(c) < 500) many = seed / 60 % 46;
        for (k = 0; k < many; k++) { char *x = k % 3 == 0 ? a : k % 3 == 1 ? b : c; int l = len(x); copy(r->want + n, (unsigned char *)x, l + 1); n += l; }
        r->n = n;
        break;
    case TX_MEMDUP: r->n = tx_bytes(seed, r->want); r->want[r->n] = 0; b = blockof(r->want, r->n); break;
    case TX_ENC: r->n = tx_encode(a, (char *)r->want); break;
    case TX_DEC: n = tx_coded(seed, buf); b = blockof(buf, n + 1); r->n = tx_decoded(seed, (char *)r->want); break;
    }
    try {
        switch (kind) {
        case TX_SPLIT:
            if (!caller && s->own == OWN_THREAD) p = (char *)raii_split(a, api & 4 ? NULL : b, seed & 16 ? (int *)&count : NULL);
            else p = (char *)str_split_ex(m, a, api & 4 ? NULL : b, seed & 16 ? (int *)&count : NULL);
            break;
        case TX_REPLACE: p = !caller && s->own == OWN_THREAD ? raii_replace(a, b, c) : str_replace_ex(m, a, b, c); break;
        case TX_CONCAT:
            if (!caller && s->own == OWN_THREAD) p = raii_concat(many, ABC45);
            else p = concat_ex(m, many, ABC45);
            break;
        case TX_MEMDUP: p = s->own == OWN_THREAD ? raii_memdup(b, r->n) : str_memdup_ex(m, b, r->n); break;
        case TX_ENC: p = (char *)(s->own == OWN_THREAD ? raii_encode64((u_string_t)a) : str_encode64_ex(m, (u_string_t)a)); break;
        case TX_DEC:
            p = (char *)(s->own == OWN_THREAD ? raii_decode64((u_string_t)b) : str_decode64_ex(m, (u_string_t)b));
            if (is_base64((u_string_t)b) != tx_clean(b)) sim_violation("wrong-text", "op %d: is_base64 is %d", i, is_base64((u_string_t)b));
            break;
        case TX_FIND: {
            int x = at(a, b), y = sign(a, b), z = simd_strcmp(a, b);
            if (strpos(a, b) != x) sim_violation("wrong-text", "op %d: strpos is %d, first match is at %d", i, strpos(a, b), x);
            if (is_str_in(a, b) != (x >= 0)) sim_violation("wrong-text", "op %d: is_str_in", i);
            if ((z > 0) - (z < 0) != y) sim_violation("wrong-text", "op %d: simd_strcmp is %d, expected sign %d", i, z, y);
            if (is_str_eq(a, b) != !y || !is_str_eq(a, a) || is_str_eq(NULL, a) || is_str_eq(a, NULL)) sim_violation("wrong-text", "op %d: is_str_eq", i);
            if (is_str_empty(c) != !*c || is_str_empty(NULL)) sim_violation("wrong-text", "op %d: is_str_empty", i);
            sim_nofault(1);
            n = len(a); k = seed & 32 ? 0 : seed % (n + 1); q = RAII_MALLOC(n + 2);
            sim_nofault(0);
            for (l = 0; l < n + 2; l++) q[l] = '#';
            if (str_copy(q, a, k) != q) sim_violation("wrong-text", "op %d: str_copy does not return its destination", i);
            if (!k) k = n;
            if (diff((unsigned char *)q, (unsigned char *)a, k) >= 0 || q[k] != '#' && q[k] || q[n + 1] != '#') sim_violation("wrong-text", "op %d: str_copy of %d from %d bytes", i, k, n);
            free(q);
            if (simd_strlen(a) != (size_t)len(a)) sim_violation("wrong-text", "op %d: simd_strlen is %zu, the length is %d", i, simd_strlen(a), len(a));
            break;
        }
        }
    } catch_any {
        failed = 1;
        if (!sim_oom_at(i)) sim_violation("spurious-failure", "op %d: '%s' although no allocation failed", i, err ? err : "(null)");
    } end_try;
    sim_log(kind, i, failed);
    if (!failed && sim_oom_at(i)) sim_violation("failure-unnoticed", "op %d: succeeded although an allocation failed", i);
    if (sh) a = NULL; else same(a, seed, st[0], mx[0], i);
    if (kind == TX_SPLIT || kind == TX_REPLACE || kind == TX_CONCAT || kind == TX_FIND) { same(b, seed + 1, st[1], mx[1], i); same(c, seed + 2, st[2], mx[2], i); }
    if (kind == TX_MEMDUP && diff((unsigned char *)b, r->want, r->n) >= 0) sim_violation("input-changed", "the source of op %d was changed by it", i);
    free(a); free(b); free(c);
    if (!failed && kind != TX_FIND) {
        if (r->n < 0) { if (p) sim_violation("wrong-text", "op %d: there is nothing to return, and the result is not NULL", i); }
        else if (!p) sim_violation("null-result", "op %d: NULL instead of a result", i);
        else {
            r->p = p; r->gen = sim_gen(p);
            if (kind == TX_SPLIT && seed & 16 && count != r->nw) sim_violation("wrong-text", "op %d: the count is %d, there are %d words", i, count, r->nw);
            check(r, i);
            if (caller) { free(p); r->p = NULL; }
            else nrs[me()]++;
        }
    }
    check_all(i);
}
/* byte search and number conversion: nothing to own, the results are exact */
#define WRONG(what, ...) sim_violation("wrong-value", "op %d: " what, i, __VA_ARGS__)
static void do_seek(int i) {
    seek_t s;
    char *b, *p, *a;
    uint32_t u;
    tx_seek(MOP(i).b, &s);
    b = blockof(s.b, s.size); p = b + s.off;
    a = simd_memchr(p, (uint8_t)s.c, s.len);
    if (a != (s.first < 0 ? NULL : p + s.first)) WRONG("simd_memchr: offset %ld of %d bytes, the first match is at %d", a ? (long)(a - p) : -1L, s.len, s.first);
    a = simd_memrchr(p, (uint8_t)s.c, s.len);
    if (a != (s.last < 0 ? NULL : p + s.last)) WRONG("simd_memrchr: offset %ld of %d bytes, the last match is at %d", a ? (long)(a - p) : -1L, s.len, s.last);
    if (s.first >= 0) {
        if ((u = memchrk(p, s.len, (uint8_t)s.c)) != (uint32_t)s.first) WRONG("memchrk: %d, the first match is at %d", (int)u, s.first);
        if ((u = memrchrk(p, s.len, (uint8_t)s.c)) != (uint32_t)s.last) WRONG("memrchrk: %d, the last match is at %d", (int)u, s.last);
    }
    if (s.len >= 8) {
        if ((u = memchr8(p, (uint8_t)s.c)) != (uint32_t)(s.first > 7 ? -1 : s.first)) WRONG("memchr8: %d, the first match is at %d", (int)u, s.first);
        if (s.first >= 0 && s.first < 8 && (u = memchr8k(p, (uint8_t)s.c)) != (uint32_t)s.first) WRONG("memchr8k: %d, the match is at %d", (int)u, s.first);
    }
    if (s.printable) {
        if ((u = pmemchr(p, s.len, (uint8_t)s.c)) != (uint32_t)s.first) WRONG("pmemchr: %d, the first match is at %d", (int)u, s.first);
        if ((u = pmemrchr(p, s.len, (uint8_t)s.c)) != (uint32_t)s.last) WRONG("pmemrchr: %d, the last match is at %d", (int)u, s.last);
        if (s.first >= 0) {
            if ((u = pmemchrk(p, s.len, (uint8_t)s.c)) != (uint32_t)s.first) WRONG("pmemchrk: %d, the first match is at %d", (int)u, s.first);
            if ((u = pmemrchrk(p, s.len, (uint8_t)s.c)) != (uint32_t)s.last) WRONG("pmemrchrk: %d, the last match is at %d", (int)u, s.last);
        }
    }
    if (diff((unsigned char *)b, s.b, s.size) >= 0) sim_violation("input-changed", "the bytes of op %d were changed", i);
    free(b);
    sim_log(TX_SEEK, i, s.first);
}
static QUICK int wrong_text(const char *p, const char *want) { return diff((const unsigned char *)p, (const unsigned char *)want, len(want) + 1) >= 0; }
static void do_num(int i) {
    num_t n;
    char *b, *o = NULL;
    uint64_t u; int64_t s; double d, e;
    uint32_t l;
    int k, size;
    tx_number(MOP(i).b, &n);
    b = blockof(n.in, n.size);
    size = n.fn == NU_ITOA ? 22 : n.fn == NU_ITOA8 ? 10 : n.fn == NU_UTOAP ? ((n.width ? n.width : 1) + 7) / 8 * 8 + 1 : 2;
    o = blockof("                        ", size);
    switch (n.fn) {
    case NU_ATOU8: if ((u = atou8(b, n.len)) != n.u) WRONG("atou8(%.*s) is %llu", n.len, n.in, (unsigned long long)u); break;
    case NU_ATOU: if ((u = simd_atou(b, n.len)) != n.u) WRONG("simd_atou(%.*s) is %llu", n.len, n.in, (unsigned long long)u); break;
    case NU_ATOI: if ((s = simd_atoi(b, n.len)) != n.i) WRONG("simd_atoi(%.*s) is %lld", n.len, n.in, (long long)s); break;
    case NU_HTOU8: if ((u = htou8(b, n.len)) != n.u) WRONG("htou8(%.*s) is %llx", n.len, n.in, (unsigned long long)u); break;
    case NU_HTOU: if ((u = simd_htou(b, n.len)) != n.u) WRONG("simd_htou(%.*s) is %llx", n.len, n.in, (unsigned long long)u); break;
    case NU_ATOD:
        __asm__ volatile("pcmpeqd %%xmm0, %%xmm0" ::: "xmm0");      /* no result left over from the reference */
        d = simd_atod(b, n.len); e = d - n.d;
        if (!((e < 0 ? -e : e) <= (n.d < 0 ? -n.d : n.d) * 1e-14)) WRONG("simd_atod(%.*s) is %.17g", n.len, n.in, d);
        break;
    case NU_ITOA: l = simd_itoa(n.i, o); if ((int)l != len(n.out) || wrong_text(o, n.out)) WRONG("simd_itoa(%s) is %.21s, length %u", n.out, o, l); break;
    case NU_ITOA8: l = itoa8((int32_t)n.i, o); if ((int)l != len(n.out) || wrong_text(o, n.out)) WRONG("itoa8(%s) is %.9s, length %u", n.out, o, l); break;
    case NU_UTOAP: if (utoap(n.width, n.u, o) != o || wrong_text(o, n.out)) WRONG("utoap(%d, %llu) is %.20s", n.width, (unsigned long long)n.u, o); break;
    case NU_UTOA2P: {
        uint16_t t = utoa2p(n.u);
        utoa2p_ex(n.u, o);
        if (((char *)&t)[0] != n.out[0] || ((char *)&t)[1] != n.out[1]) WRONG("utoa2p(%s) is %.2s", n.out, (char *)&t);
        if (o[0] != n.out[0] || o[1] != n.out[1]) WRONG("utoa2p_ex(%s) is %.2s", n.out, o);
        break;
    }
    case NU_CAST8: if ((u = cast8(b, n.len)) != n.u) WRONG("cast8 of %d bytes is %llx, not %llx", n.len, (unsigned long long)u, (unsigned long long)n.u); break;
    case NU_BITS: {
        int lo = 0, hi = 63, zero = 0, has = 0;
        for (k = 0; k < 8; k++) { zero |= !(n.u >> 8 * k & 255); has |= (int)(n.u >> 8 * k & 255) == n.width; }
        if (n.u) { while (!(n.u >> lo & 1)) lo++; while (!(n.u >> hi & 1)) hi--; }
        if (n.u && countr_zero(n.u) != lo) WRONG("countr_zero(%llx) is %d", (unsigned long long)n.u, countr_zero(n.u));
        if (n.u && countl_zero(n.u) != 63 - hi) WRONG("countl_zero(%llx) is %d", (unsigned long long)n.u, countl_zero(n.u));
        if (countr_index(n.u) != (n.u ? lo + 1 : 0)) WRONG("countr_index(%llx) is %d", (unsigned long long)n.u, countr_index(n.u));
        if (haszero(n.u) != zero) WRONG("haszero(%llx) is %d", (unsigned long long)n.u, haszero(n.u));
        if (hasbyte(n.u, (uint8_t)n.width) != has) WRONG("hasbyte(%llx, %02x) is %d", (unsigned long long)n.u, n.width, hasbyte(n.u, (uint8_t)n.width));
        if (extend((char)n.width) != n.width * 0x0101010101010101ull) WRONG("extend(%02x)", n.width);
        break;
    }
    }
    if (diff((unsigned char *)b, (unsigned char *)n.in, n.size) >= 0) sim_violation("input-changed", "the text of op %d was changed", i);
    free(b); free(o);
    sim_log(TX_NUM, i, n.fn);
}
static void run_list(int i);
static void do_scope(int i) {
    scope_t sc;
    volatile int entered = 0, thrown = 0, done = 0, got = 0;
    sc.m = NULL; sc.up = top[me()];
    sc.own = MOP(i).kind == TX_GUARD ? OWN_GUARD : OWN_OBJECT;
    try {
        if (sc.own == OWN_GUARD) {
            guard {
                _assign_ptr(u);
                entered = 1; sc.m = u; top[me()] = &sc;
                run_list(m_child(i));
                sim_setop(i);
                if (MOP(i).c) { thrown = 1; throw(range_error); }
                done = 1;
            } guarded;
        } else {
            sc.m = unique_init();
            entered = 1; top[me()] = &sc;
            run_list(m_child(i));
            sim_setop(i);
            raii_delete(sc.m);
            done = 1;
        }
    } catch_any {
        got = 1;
        if (!thrown && !sim_oom_at(i)) sim_violation("spurious-failure", "op %d: '%s' although no allocation failed", i, err ? err : "(null)");
    } end_try;
    if (entered && !done && !thrown) sim_violation("spurious-failure", "the scope of op %d was left early", i);
    if (thrown && !got) sim_violation("lost-error", "the error thrown in the guard of op %d did not arrive", i);
    top[me()] = sc.up;
    gone(&sc, i);
    check_all(i);
}
static int thread_main(void *x) {
    int n = (int)(intptr_t)x;
    sim_set_logical(100 + MOP(n).a);
    top[me()] = &bottom[me()];
    run_list(m_child(n));
    sim_setop(n);
    raii_destroy();
    gone(&bottom[me()], n);
    return 0;
}
static void run_list(int i) {
    for (; i >= 0; i = m_next(i)) {
        sim_setop(i);
        switch (MOP(i).kind) {
        case MK_SPAWN: if (nth < MTHREADS && thrd_create(&th[nth], thread_main, (void *)(intptr_t)i) == thrd_success) nth++; break;
        case MK_JOIN: while (nth) thrd_join(th[--nth], NULL); break;
        case MK_YIELD: thrd_yield(); break;
        case TX_GUARD: case TX_OBJECT: do_scope(i); break;
        case TX_CLEAN: if (raii_local()) raii_deferred_clean(); gone(&bottom[me()], i); check_all(i); break;
        case TX_SEEK: do_seek(i); break;
        case TX_NUM: do_num(i); break;
        default: do_op(top[me()], i); break;
        }
        sim_setop(i);
    }
}
int text_main(void) {
    int i;
    sim_set_logical(0);
    top[0] = &bottom[0];
    for (i = 0; i < TX_SHARED; i++) {
        int n = tx_text((int)(R->seed >> 8 & 0xffff) + i, 1, 60, shared_copy[i]);
        sim_nofault(1); shared_in[i] = RAII_MALLOC(n + 1); sim_nofault(0);
        copy((unsigned char *)shared_in[i], (unsigned char *)shared_copy[i], n + 1);
    }
    run_list(R->prog.n ? 0 : -1);
    while (nth) thrd_join(th[--nth], NULL);
    sim_setop(MAXOPS - 1);
    check_all(MAXOPS - 1);
    if (raii_local()) raii_destroy();
    gone(&bottom[0], MAXOPS - 1);
    for (i = 0; i < TX_SHARED; i++) free(shared_in[i]);
    sim_setop(-1);
    return 0;
}
