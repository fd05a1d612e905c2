#include "driver.h"
#define W(N, T) \
static void put_##N(shmem_ctx_t *c, void *d, const void *s, size_t n, int pe) \
{ if (c) shmem_ctx_##N##_put(*c, d, s, n, pe); else shmem_##N##_put(d, s, n, pe); } \
static void get_##N(shmem_ctx_t *c, void *d, const void *s, size_t n, int pe) \
{ if (c) shmem_ctx_##N##_get(*c, d, s, n, pe); else shmem_##N##_get(d, s, n, pe); } \
static void putn_##N(shmem_ctx_t *c, void *d, const void *s, size_t n, int pe) \
{ if (c) shmem_ctx_##N##_put_nbi(*c, d, s, n, pe); else shmem_##N##_put_nbi(d, s, n, pe); } \
static void getn_##N(shmem_ctx_t *c, void *d, const void *s, size_t n, int pe) \
{ if (c) shmem_ctx_##N##_get_nbi(*c, d, s, n, pe); else shmem_##N##_get_nbi(d, s, n, pe); } \
static void iput_##N(shmem_ctx_t *c, void *d, const void *s, ptrdiff_t a, ptrdiff_t b, size_t n, int pe) \
{ if (c) shmem_ctx_##N##_iput(*c, d, s, a, b, n, pe); else shmem_##N##_iput(d, s, a, b, n, pe); } \
static void iget_##N(shmem_ctx_t *c, void *d, const void *s, ptrdiff_t a, ptrdiff_t b, size_t n, int pe) \
{ if (c) shmem_ctx_##N##_iget(*c, d, s, a, b, n, pe); else shmem_##N##_iget(d, s, a, b, n, pe); } \
static void p_##N(shmem_ctx_t *c, void *d, const void *v, int pe) \
{ T x; memcpy(&x, v, sizeof x); if (c) shmem_ctx_##N##_p(*c, d, x, pe); else shmem_##N##_p(d, x, pe); } \
static void g_##N(shmem_ctx_t *c, void *r, const void *s, int pe) \
{ T x = c ? shmem_ctx_##N##_g(*c, s, pe) : shmem_##N##_g(s, pe); memcpy(r, &x, sizeof x); }
RMA_TYPES(W)
#define S(N) \
static void put_##N(shmem_ctx_t *c, void *d, const void *s, size_t n, int pe) \
{ if (c) shmem_ctx_put##N(*c, d, s, n, pe); else shmem_put##N(d, s, n, pe); } \
static void get_##N(shmem_ctx_t *c, void *d, const void *s, size_t n, int pe) \
{ if (c) shmem_ctx_get##N(*c, d, s, n, pe); else shmem_get##N(d, s, n, pe); } \
static void putn_##N(shmem_ctx_t *c, void *d, const void *s, size_t n, int pe) \
{ if (c) shmem_ctx_put##N##_nbi(*c, d, s, n, pe); else shmem_put##N##_nbi(d, s, n, pe); } \
static void getn_##N(shmem_ctx_t *c, void *d, const void *s, size_t n, int pe) \
{ if (c) shmem_ctx_get##N##_nbi(*c, d, s, n, pe); else shmem_get##N##_nbi(d, s, n, pe); }
#define SI(N) \
static void iput_##N(shmem_ctx_t *c, void *d, const void *s, ptrdiff_t a, ptrdiff_t b, size_t n, int pe) \
{ if (c) shmem_ctx_iput##N(*c, d, s, a, b, n, pe); else shmem_iput##N(d, s, a, b, n, pe); } \
static void iget_##N(shmem_ctx_t *c, void *d, const void *s, ptrdiff_t a, ptrdiff_t b, size_t n, int pe) \
{ if (c) shmem_ctx_iget##N(*c, d, s, a, b, n, pe); else shmem_iget##N(d, s, a, b, n, pe); }
S(8) S(16) S(32) S(64) S(128) S(mem) SI(8) SI(16) SI(32) SI(64) SI(128)
#define R(N, T) {#N, sizeof(T), put_##N, get_##N, putn_##N, getn_##N, iput_##N, iget_##N, p_##N, g_##N},
#define Q(N) {#N, N / 8, put_##N, get_##N, putn_##N, getn_##N, iput_##N, iget_##N, NULL, NULL},
const rma_fn rma_table[] = {
    RMA_TYPES(R) Q(8) Q(16) Q(32) Q(64) Q(128) {"mem", 1, put_mem, get_mem, putn_mem, getn_mem},
    {NULL}
};

/* The C11 generic interface, for the types it names (one C type each). */
#define GEN_TYPES(X) X(float, float) X(double, double) X(longdouble, long double) X(char, char) \
    X(schar, signed char) X(short, short) X(int, int) X(long, long) X(longlong, long long) \
    X(uchar, unsigned char) X(ushort, unsigned short) X(uint, unsigned int) X(ulong, unsigned long) \
    X(ulonglong, unsigned long long)
#define G(N, T) \
static void Gput_##N(shmem_ctx_t *c, void *d, const void *s, size_t n, int pe) \
{ if (c) shmem_put(*c, (T *) d, (T *) s, n, pe); else shmem_put((T *) d, (T *) s, n, pe); } \
static void Gget_##N(shmem_ctx_t *c, void *d, const void *s, size_t n, int pe) \
{ if (c) shmem_get(*c, (T *) d, (T *) s, n, pe); else shmem_get((T *) d, (T *) s, n, pe); } \
static void Gputn_##N(shmem_ctx_t *c, void *d, const void *s, size_t n, int pe) \
{ if (c) shmem_put_nbi(*c, (T *) d, (T *) s, n, pe); else shmem_put_nbi((T *) d, (T *) s, n, pe); } \
static void Ggetn_##N(shmem_ctx_t *c, void *d, const void *s, size_t n, int pe) \
{ if (c) shmem_get_nbi(*c, (T *) d, (T *) s, n, pe); else shmem_get_nbi((T *) d, (T *) s, n, pe); } \
static void Giput_##N(shmem_ctx_t *c, void *d, const void *s, ptrdiff_t a, ptrdiff_t b, size_t n, int pe) \
{ if (c) shmem_iput(*c, (T *) d, (T *) s, a, b, n, pe); else shmem_iput((T *) d, (T *) s, a, b, n, pe); } \
static void Giget_##N(shmem_ctx_t *c, void *d, const void *s, ptrdiff_t a, ptrdiff_t b, size_t n, int pe) \
{ if (c) shmem_iget(*c, (T *) d, (T *) s, a, b, n, pe); else shmem_iget((T *) d, (T *) s, a, b, n, pe); } \
static void Gp_##N(shmem_ctx_t *c, void *d, const void *v, int pe) \
{ T x; memcpy(&x, v, sizeof x); if (c) shmem_p(*c, (T *) d, x, pe); else shmem_p((T *) d, x, pe); } \
static void Gg_##N(shmem_ctx_t *c, void *r, const void *s, int pe) \
{ T x = c ? GCTX_##N : shmem_g((T *) s, pe); memcpy(r, &x, sizeof x); }
#define GCTX_float shmem_g(*c, (float *) s, pe)
#define GCTX_double shmem_g(*c, (double *) s, pe)
#define GCTX_longdouble shmem_g(*c, (long double *) s, pe)
#define GCTX_char shmem_g(*c, (char *) s, pe)
#define GCTX_schar shmem_g(*c, (signed char *) s, pe)
#define GCTX_short shmem_g(*c, (short *) s, pe)
#define GCTX_int shmem_g(*c, (int *) s, pe)
#define GCTX_long shmem_g(*c, (long *) s, pe)
#define GCTX_longlong shmem_g(*c, (long long *) s, pe)
#define GCTX_uchar shmem_g(*c, (unsigned char *) s, pe)
#define GCTX_ushort shmem_g(*c, (unsigned short *) s, pe)
#define GCTX_uint shmem_g(*c, (unsigned int *) s, pe)
#define GCTX_ulong shmem_g(*c, (unsigned long *) s, pe)
#define GCTX_ulonglong shmem_g(*c, (unsigned long long *) s, pe)
GEN_TYPES(G)
#define GR(N, T) {#N, sizeof(T), Gput_##N, Gget_##N, Gputn_##N, Ggetn_##N, Giput_##N, Giget_##N, Gp_##N, Gg_##N},
const rma_fn rma_generic[] = { GEN_TYPES(GR) {NULL} };
