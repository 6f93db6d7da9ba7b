/* Small workloads: arenas, atomics, thread storage. */
#ifndef MISC_H
#define MISC_H
#include "sim.h"
enum { MK_SPAWN = 100, MK_JOIN, MK_YIELD,
       AR_INIT, AR_UINIT, AR_ALLOC, AR_CHECK, AR_CLEAR, AR_CLEARX, AR_DEFER, AR_FREE,
       AT_OP, AT_LOCK, AT_TRY, AT_PUB, AT_GET, AT_NARROW, AT_CROSS,
       TL_GET, TL_SET, TL_UPD, TL_DEL, TL_EMPTY, TL_OWN,
       TX_SPLIT, TX_CONCAT, TX_REPLACE, TX_ENC, TX_DEC, TX_MEMDUP, TX_FIND, TX_SEEK, TX_NUM, TX_GUARD, TX_OBJECT, TX_CLEAN };
enum { VA_ONE, VA_MANY, VA_CLEAR };
enum { AR_FAILS = 64,        /* c: an error is thrown in the same block after it */
       AR_HUGE = 128,        /* c: a request that cannot be met, b selects which */
       AR_REST = 256 };      /* c: a request for all that is left */
enum { VT_RANDOM, VT_NARROW };
#define MTHREADS 6
#define MSLOT 4
#define MOP(i) (R->prog.op[i])
int m_child(int i);
int m_next(int i);

/* atomics: types and operations of one object */
enum { TY_8, TY_16, TY_32, TY_64, TY_I8, TY_I16, TY_I32, TY_I64, TY_F32, TY_F64, TY_PTR, TY_GEN, TY_N };
enum { OP_LOAD, OP_STORE, OP_XCHG, OP_CAS, OP_WEAK, OP_CASV, OP_ADD, OP_SUB, OP_OR, OP_XOR, OP_AND, OP_SET, OP_CLEAR, OP_N };
#define NOBJ 6
#define NCROSS 2
typedef struct { int thr, obj, op; uint64_t a, b, ret; int ok; uint64_t inv, res; } hist_t;
#define MAXHIST 512
extern hist_t at_hist[MAXHIST];
extern int at_nhist;
int at_type(int obj);
int at_bits(int type);
int at_has(int type, int op);
uint64_t at_val(int type, int k);      /* k-th value of the type, as bits */
void at_record(int node, uint64_t inv, int thr, int obj, int op, uint64_t a, uint64_t b, uint64_t ret, int ok);

void arena_gen(rng_t *r, int variant, prog_t *p, run_t *run);
int arena_main(void);
void atomic_gen(rng_t *r, int variant, prog_t *p, run_t *run);
int atomic_main(void);
void atomic_check(void);
void tls_gen(rng_t *r, int variant, prog_t *p, run_t *run);
int tls_main(void);
/* texts: everything follows from the seed of an operation */
#define TX_SHARED 3
int tx_text(int seed, int style, int max, char *buf);          /* a string, its length; buf holds 640 bytes */
void tx_styles(int seed, int kind, int *style, int *max);      /* of the arguments of an operation */
int tx_bytes(int seed, unsigned char *buf);
int tx_encode(const char *s, char *buf);                       /* reference */
int tx_coded(int seed, char *buf);                             /* base64 text, perhaps with other characters, perhaps of a wrong length */
int tx_decoded(int seed, char *buf);                           /* what tx_coded stands for, -1: nothing */
int tx_clean(const char *s);                                   /* only base64 characters */
/* bytes: a block, a part of it, and a byte to look for */
typedef struct { int size, off, len, c, first, last, printable; unsigned char b[1100]; } seek_t;
void tx_seek(int seed, seek_t *s);
enum { NU_ATOU8, NU_ATOU, NU_ATOI, NU_HTOU8, NU_HTOU, NU_ATOD, NU_ITOA, NU_ITOA8, NU_UTOAP, NU_UTOA2P, NU_CAST8, NU_BITS, NU_N };
typedef struct { int fn, len, size, width; uint64_t u; int64_t i; double d; char in[64], out[32]; } num_t;   /* text and value, or value and text */
void tx_number(int seed, num_t *n);
void text_gen(rng_t *r, int variant, prog_t *p, run_t *run);
int text_main(void);
void no_check(void);
#endif
