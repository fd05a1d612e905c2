#include "driver.h"
#include <complex.h>
#define TA shmem_team_t t, void *d, const void *s, size_t n, int root, ptrdiff_t ds, ptrdiff_t ss
#define AA void *d, const void *s, size_t n, int root, ptrdiff_t ds, ptrdiff_t ss, int st, int lg, int sz, void *wrk, long *sync
#define MOVE(N, T) \
static int bcast_##N(TA) { return shmem_##N##_broadcast(t, d, s, n, root); } \
static int collect_##N(TA) { return shmem_##N##_collect(t, d, s, n); } \
static int fcollect_##N(TA) { return shmem_##N##_fcollect(t, d, s, n); } \
static int alltoall_##N(TA) { return shmem_##N##_alltoall(t, d, s, n); } \
static int alltoalls_##N(TA) { return shmem_##N##_alltoalls(t, d, s, ds, ss, n); }
RMA_TYPES(MOVE)
static int bcast_mem(TA) { return shmem_broadcastmem(t, d, s, n, root); }
static int collect_mem(TA) { return shmem_collectmem(t, d, s, n); }
static int fcollect_mem(TA) { return shmem_fcollectmem(t, d, s, n); }
static int alltoall_mem(TA) { return shmem_alltoallmem(t, d, s, n); }
static int alltoalls_mem(TA) { return shmem_alltoallsmem(t, d, s, ds, ss, n); }
#define SMOVE(N) \
static void abcast_##N(AA) { shmem_broadcast##N(d, s, n, root, st, lg, sz, sync); } \
static void acollect_##N(AA) { shmem_collect##N(d, s, n, st, lg, sz, sync); } \
static void afcollect_##N(AA) { shmem_fcollect##N(d, s, n, st, lg, sz, sync); } \
static void aalltoall_##N(AA) { shmem_alltoall##N(d, s, n, st, lg, sz, sync); } \
static void aalltoalls_##N(AA) { shmem_alltoalls##N(d, s, ds, ss, n, st, lg, sz, sync); }
SMOVE(32) SMOVE(64)
/* reductions */
#define TR(op, N) static int op##_##N(TA) { return shmem_##N##_##op##_reduce(t, d, s, n); }
#define AR(op, N, T) static void a##op##_##N(AA) { shmem_##N##_##op##_to_all(d, s, (int) n, st, lg, sz, wrk, sync); }
#define TMM(N, T) TR(min, N) TR(max, N)
#define TSP(N, T) TR(sum, N) TR(prod, N)
#define TBW(N, T) TR(and, N) TR(or, N) TR(xor, N)
#define AMM(N, T) AR(min, N, T) AR(max, N, T)
#define ASP(N, T) AR(sum, N, T) AR(prod, N, T)
#define ABW(N, T) AR(and, N, T) AR(or, N, T) AR(xor, N, T)
#define CPLX_T(X) X(complexf, float _Complex) X(complexd, double _Complex)
#define BW_T(X) X(uchar, unsigned char) X(ushort, unsigned short) X(uint, unsigned int) X(ulong, unsigned long) \
    X(ulonglong, unsigned long long) X(int8, int8_t) X(int16, int16_t) X(int32, int32_t) X(int64, int64_t) \
    X(uint8, uint8_t) X(uint16, uint16_t) X(uint32, uint32_t) X(uint64, uint64_t) X(size, size_t)
#define A_BW(X) X(short, short) X(int, int) X(long, long) X(longlong, long long)
#define A_MM(X) A_BW(X) X(double, double) X(float, float) X(longdouble, long double)
#define A_SP(X) A_MM(X) CPLX_T(X)
RMA_TYPES(TMM) RMA_TYPES(TSP) CPLX_T(TSP) BW_T(TBW) A_MM(AMM) A_SP(ASP) A_BW(ABW)
#define E(op, N, T) {#op, #N, op##_##N, NULL, sizeof(T)},
#define RM(N, T) E(bcast, N, T) E(collect, N, T) E(fcollect, N, T) E(alltoall, N, T) E(alltoalls, N, T)
#define EA(op, N, T) {#op, #N, NULL, a##op##_##N, sizeof(T)},
#define RS(N, T) EA(bcast, N, T) EA(collect, N, T) EA(fcollect, N, T) EA(alltoall, N, T) EA(alltoalls, N, T)
#define RTMM(N, T) E(min, N, T) E(max, N, T)
#define RTSP(N, T) E(sum, N, T) E(prod, N, T)
#define RTBW(N, T) E(and, N, T) E(or, N, T) E(xor, N, T)
#define RAMM(N, T) EA(min, N, T) EA(max, N, T)
#define RASP(N, T) EA(sum, N, T) EA(prod, N, T)
#define RABW(N, T) EA(and, N, T) EA(or, N, T) EA(xor, N, T)
/* names: team forms carry "t" tables, active-set forms "a" tables; looked up by (name, type, form) */
const coll_fn coll_table[] = {
    RMA_TYPES(RM) {"bcast", "mem", bcast_mem, NULL, 1}, {"collect", "mem", collect_mem, NULL, 1},
    {"fcollect", "mem", fcollect_mem, NULL, 1}, {"alltoall", "mem", alltoall_mem, NULL, 1},
    {"alltoalls", "mem", alltoalls_mem, NULL, 1},
    RS(32, int) RS(64, long)
    RMA_TYPES(RTMM) RMA_TYPES(RTSP) CPLX_T(RTSP) BW_T(RTBW) A_MM(RAMM) A_SP(RASP) A_BW(RABW) {NULL}
};
