#include "driver.h"
#define V(T) T a = 0, b = 0, r = 0; if (A) memcpy(&a, A, sizeof a); if (B) memcpy(&b, B, sizeof b); T *d = D;
#define DONE { memcpy(R, &r, sizeof r); return 0; }
#define FN(op, N) static int op##_##N(int how, shmem_ctx_t *c, void *D, const void *A, const void *B, void *R, int pe)
/* OLD: expression for the deprecated name, or -1 */
#define STD_(N, T) \
FN(cswap, N) { V(T) if (how == 1) { if (c) shmem_ctx_##N##_atomic_compare_swap_nbi(*c, R, d, a, b, pe); \
    else shmem_##N##_atomic_compare_swap_nbi(R, d, a, b, pe); return 0; } \
  r = c ? shmem_ctx_##N##_atomic_compare_swap(*c, d, a, b, pe) : shmem_##N##_atomic_compare_swap(d, a, b, pe); DONE } \
FN(finc, N) { V(T) if (how == 1) { if (c) shmem_ctx_##N##_atomic_fetch_inc_nbi(*c, R, d, pe); \
    else shmem_##N##_atomic_fetch_inc_nbi(R, d, pe); return 0; } \
  r = c ? shmem_ctx_##N##_atomic_fetch_inc(*c, d, pe) : shmem_##N##_atomic_fetch_inc(d, pe); DONE } \
FN(inc, N) { V(T) if (c) shmem_ctx_##N##_atomic_inc(*c, d, pe); else shmem_##N##_atomic_inc(d, pe); return 0; } \
FN(fadd, N) { V(T) if (how == 1) { if (c) shmem_ctx_##N##_atomic_fetch_add_nbi(*c, R, d, a, pe); \
    else shmem_##N##_atomic_fetch_add_nbi(R, d, a, pe); return 0; } \
  r = c ? shmem_ctx_##N##_atomic_fetch_add(*c, d, a, pe) : shmem_##N##_atomic_fetch_add(d, a, pe); DONE } \
FN(add, N) { V(T) if (c) shmem_ctx_##N##_atomic_add(*c, d, a, pe); else shmem_##N##_atomic_add(d, a, pe); return 0; }
STD_TYPES(STD_)
#define EXT_(N, T) \
FN(fetch, N) { V(T) if (how == 1) { if (c) shmem_ctx_##N##_atomic_fetch_nbi(*c, R, d, pe); \
    else shmem_##N##_atomic_fetch_nbi(R, d, pe); return 0; } \
  r = c ? shmem_ctx_##N##_atomic_fetch(*c, d, pe) : shmem_##N##_atomic_fetch(d, pe); DONE } \
FN(set, N) { V(T) if (c) shmem_ctx_##N##_atomic_set(*c, d, a, pe); else shmem_##N##_atomic_set(d, a, pe); return 0; } \
FN(swap, N) { V(T) if (how == 1) { if (c) shmem_ctx_##N##_atomic_swap_nbi(*c, R, d, a, pe); \
    else shmem_##N##_atomic_swap_nbi(R, d, a, pe); return 0; } \
  r = c ? shmem_ctx_##N##_atomic_swap(*c, d, a, pe) : shmem_##N##_atomic_swap(d, a, pe); DONE }
EXT_TYPES(EXT_)
#define B1(N, T, f, nf, full) \
FN(f, N) { V(T) if (how == 1) { if (c) shmem_ctx_##N##_atomic_fetch_##full##_nbi(*c, R, d, a, pe); \
    else shmem_##N##_atomic_fetch_##full##_nbi(R, d, a, pe); return 0; } \
  r = c ? shmem_ctx_##N##_atomic_fetch_##full(*c, d, a, pe) : shmem_##N##_atomic_fetch_##full(d, a, pe); DONE } \
FN(nf, N) { V(T) if (c) shmem_ctx_##N##_atomic_##full(*c, d, a, pe); else shmem_##N##_atomic_##full(d, a, pe); \
    return 0; }
#define BITS_(N, T) B1(N, T, fand, and, and) B1(N, T, for, or, or) B1(N, T, fxor, xor, xor)
BITS_TYPES(BITS_)
/* deprecated names */
#define OLD_(N, T) \
FN(ocswap, N) { V(T) r = shmem_##N##_cswap(d, a, b, pe); DONE } \
FN(ofinc, N) { V(T) r = shmem_##N##_finc(d, pe); DONE } \
FN(oinc, N) { V(T) shmem_##N##_inc(d, pe); return 0; } \
FN(ofadd, N) { V(T) r = shmem_##N##_fadd(d, a, pe); DONE } \
FN(oadd, N) { V(T) shmem_##N##_add(d, a, pe); return 0; }
OLD_STD_TYPES(OLD_)
#define OLDE_(N, T) \
FN(ofetch, N) { V(T) r = shmem_##N##_fetch(d, pe); DONE } \
FN(oset, N) { V(T) shmem_##N##_set(d, a, pe); return 0; } \
FN(oswap, N) { V(T) r = shmem_##N##_swap(d, a, pe); DONE }
OLD_STD_TYPES(OLDE_) OLDE_(float, float) OLDE_(double, double)
/* C11 generic names */
#define GSTD_(N, T) \
FN(gcswap, N) { V(T) if (c) r = shmem_atomic_compare_swap(*c, d, a, b, pe); else r = shmem_atomic_compare_swap(d, a, b, pe); DONE } \
FN(gfinc, N) { V(T) if (c) r = shmem_atomic_fetch_inc(*c, d, pe); else r = shmem_atomic_fetch_inc(d, pe); DONE } \
FN(ginc, N) { V(T) if (c) shmem_atomic_inc(*c, d, pe); else shmem_atomic_inc(d, pe); return 0; } \
FN(gfadd, N) { V(T) if (c) r = shmem_atomic_fetch_add(*c, d, a, pe); else r = shmem_atomic_fetch_add(d, a, pe); DONE } \
FN(gadd, N) { V(T) if (c) shmem_atomic_add(*c, d, a, pe); else shmem_atomic_add(d, a, pe); return 0; } \
FN(gfetch, N) { V(T) if (c) r = shmem_atomic_fetch(*c, d, pe); else r = shmem_atomic_fetch(d, pe); DONE } \
FN(gset, N) { V(T) if (c) shmem_atomic_set(*c, d, a, pe); else shmem_atomic_set(d, a, pe); return 0; } \
FN(gswap, N) { V(T) if (c) r = shmem_atomic_swap(*c, d, a, pe); else r = shmem_atomic_swap(d, a, pe); DONE }
#define GEN_STD(X) X(int, int) X(long, long) X(longlong, long long) X(uint, unsigned int) X(ulong, unsigned long) \
    X(ulonglong, unsigned long long)
GEN_STD(GSTD_)
#define GBITS_(N, T) \
FN(gfand, N) { V(T) if (c) r = shmem_atomic_fetch_and(*c, d, a, pe); else r = shmem_atomic_fetch_and(d, a, pe); DONE } \
FN(gand, N) { V(T) if (c) shmem_atomic_and(*c, d, a, pe); else shmem_atomic_and(d, a, pe); return 0; } \
FN(gfor, N) { V(T) if (c) r = shmem_atomic_fetch_or(*c, d, a, pe); else r = shmem_atomic_fetch_or(d, a, pe); DONE } \
FN(gor, N) { V(T) if (c) shmem_atomic_or(*c, d, a, pe); else shmem_atomic_or(d, a, pe); return 0; } \
FN(gfxor, N) { V(T) if (c) r = shmem_atomic_fetch_xor(*c, d, a, pe); else r = shmem_atomic_fetch_xor(d, a, pe); DONE } \
FN(gxor, N) { V(T) if (c) shmem_atomic_xor(*c, d, a, pe); else shmem_atomic_xor(d, a, pe); return 0; }
#define GEN_BITS(X) X(uint, unsigned int) X(ulong, unsigned long) X(ulonglong, unsigned long long)
GEN_BITS(GBITS_)
#define E(op, N, f) {#op, #N, f, op##_##N},
#define RSTD(N, T) E(cswap, N, 1) E(finc, N, 1) E(inc, N, 0) E(fadd, N, 1) E(add, N, 0)
#define REXT(N, T) E(fetch, N, 1) E(set, N, 0) E(swap, N, 1)
#define RBITS(N, T) E(fand, N, 1) E(and, N, 0) E(for, N, 1) E(or, N, 0) E(fxor, N, 1) E(xor, N, 0)
#define ROLD(N, T) E(ocswap, N, 1) E(ofinc, N, 1) E(oinc, N, 0) E(ofadd, N, 1) E(oadd, N, 0)
#define ROLDE(N, T) E(ofetch, N, 1) E(oset, N, 0) E(oswap, N, 1)
#define RG(N, T) E(gcswap, N, 1) E(gfinc, N, 1) E(ginc, N, 0) E(gfadd, N, 1) E(gadd, N, 0) E(gfetch, N, 1) \
    E(gset, N, 0) E(gswap, N, 1)
#define RGB(N, T) E(gfand, N, 1) E(gand, N, 0) E(gfor, N, 1) E(gor, N, 0) E(gfxor, N, 1) E(gxor, N, 0)
const amo_fn amo_table[] = {
    STD_TYPES(RSTD) EXT_TYPES(REXT) BITS_TYPES(RBITS) OLD_STD_TYPES(ROLD) OLD_STD_TYPES(ROLDE)
    ROLDE(float, float) ROLDE(double, double) GEN_STD(RG) GEN_BITS(RGB) {NULL}
};

#define P2P_(N, T) \
static void wait_##N(void *d, int cmp, const void *v) { T x; memcpy(&x, v, sizeof x); shmem_##N##_wait_until(d, cmp, x); } \
static int test_##N(void *d, int cmp, const void *v) { T x; memcpy(&x, v, sizeof x); return shmem_##N##_test(d, cmp, x); }
#define P2P_TYPES(X) X(short, short) X(ushort, unsigned short) STD_TYPES(X)
P2P_TYPES(P2P_)
#define OLDW_(N, T) \
static void wait_o##N(void *d, int cmp, const void *v) { T x; memcpy(&x, v, sizeof x); shmem_##N##_wait(d, x); }
OLDW_(short, short) OLDW_(int, int) OLDW_(long, long) OLDW_(longlong, long long)
#define GENW_(N, T) \
static void wait_g##N(void *d, int cmp, const void *v) { T x; memcpy(&x, v, sizeof x); shmem_wait_until((T *) d, cmp, x); } \
static int test_g##N(void *d, int cmp, const void *v) { T x; memcpy(&x, v, sizeof x); return shmem_test((T *) d, cmp, x); }
#define GENW_TYPES(X) X(short, short) X(ushort, unsigned short) GEN_STD(X)
GENW_TYPES(GENW_)
#define P_(N, T) {#N, sizeof(T), wait_##N, test_##N},
#define PO_(N, T) {"o" #N, sizeof(T), wait_o##N, NULL},
#define PG_(N, T) {"g" #N, sizeof(T), wait_g##N, test_g##N},
const p2p_fn p2p_table[] = { P2P_TYPES(P_) PO_(short, short) PO_(int, int) PO_(long, long) PO_(longlong, long long)
    GENW_TYPES(PG_) {NULL} };
