#ifndef DRIVER_H
#define DRIVER_H
#include <shmem.h>
#include <shmemx.h>
#include "mpi.h"

#define RMA_TYPES(X) X(float, float) X(double, double) X(longdouble, long double) X(char, char) \
    X(schar, signed char) X(short, short) X(int, int) X(long, long) X(longlong, long long) \
    X(uchar, unsigned char) X(ushort, unsigned short) X(uint, unsigned int) X(ulong, unsigned long) \
    X(ulonglong, unsigned long long) X(int8, int8_t) X(int16, int16_t) X(int32, int32_t) X(int64, int64_t) \
    X(uint8, uint8_t) X(uint16, uint16_t) X(uint32, uint32_t) X(uint64, uint64_t) X(size, size_t) \
    X(ptrdiff, ptrdiff_t)
#define STD_TYPES(X) X(int, int) X(long, long) X(longlong, long long) X(uint, unsigned int) X(ulong, unsigned long) \
    X(ulonglong, unsigned long long) X(int32, int32_t) X(int64, int64_t) X(uint32, uint32_t) X(uint64, uint64_t) \
    X(size, size_t) X(ptrdiff, ptrdiff_t)
#define EXT_TYPES(X) X(float, float) X(double, double) STD_TYPES(X)
#define BITS_TYPES(X) X(uint, unsigned int) X(ulong, unsigned long) X(ulonglong, unsigned long long) \
    X(int32, int32_t) X(int64, int64_t) X(uint32, uint32_t) X(uint64, uint64_t)
/* the deprecated names without "atomic" exist for these only */
#define OLD_STD_TYPES(X) X(int, int) X(long, long) X(longlong, long long)

typedef struct {
    const char *name;
    int size;
    void (*put) (shmem_ctx_t *, void *, const void *, size_t, int);
    void (*get) (shmem_ctx_t *, void *, const void *, size_t, int);
    void (*putn) (shmem_ctx_t *, void *, const void *, size_t, int);
    void (*getn) (shmem_ctx_t *, void *, const void *, size_t, int);
    void (*iput) (shmem_ctx_t *, void *, const void *, ptrdiff_t, ptrdiff_t, size_t, int);
    void (*iget) (shmem_ctx_t *, void *, const void *, ptrdiff_t, ptrdiff_t, size_t, int);
    void (*p) (shmem_ctx_t *, void *, const void *, int);
    void (*g) (shmem_ctx_t *, void *, const void *, int);
} rma_fn;
extern const rma_fn rma_table[], rma_generic[];

/* how: 0 plain, 1 nbi, 2 deprecated name, 3 C11 generic */
typedef struct {
    const char *name, *type;
    int fetches;
    int (*fn) (int how, shmem_ctx_t *, void *dst, const void *a, const void *b, void *res, int pe);
} amo_fn;
extern const amo_fn amo_table[];

typedef struct {
    const char *name;
    int size;
    void (*wait) (void *, int, const void *);
    int (*test) (void *, int, const void *);
} p2p_fn;
extern const p2p_fn p2p_table[];

typedef struct {
    const char *name, *type;
    int (*team) (shmem_team_t, void *, const void *, size_t, int, ptrdiff_t, ptrdiff_t);
    void (*aset) (void *, const void *, size_t, int, ptrdiff_t, ptrdiff_t, int, int, int, void *, long *);
    int esize;
} coll_fn;
extern const coll_fn coll_table[];
#endif
