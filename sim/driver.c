/* Script interpreter run by every PE.  It is an ordinary OpenSHMEM program: it only calls the public API, and
 * logs each call and return.  See README in /verif/sim for the script language. */
#include "driver.h"
#include <ctype.h>
#include <stdarg.h>

#define DATA_BYTES 1048576
static char sym_data[DATA_BYTES] __attribute__((aligned(4096)));
static size_t data_used = 256;

/* ---------------------------------------------------------------- types and values */
typedef struct { const char *name; int size; char cls; } type_t;        /* cls i,u,f,d,l(ong double),c,z(complex) */
static const type_t types[] = {
    {"float", 4, 'f'}, {"double", 8, 'd'}, {"longdouble", 16, 'l'}, {"char", 1, 'i'}, {"schar", 1, 'i'},
    {"short", 2, 'i'}, {"int", 4, 'i'}, {"long", 8, 'i'}, {"longlong", 8, 'i'}, {"uchar", 1, 'u'},
    {"ushort", 2, 'u'}, {"uint", 4, 'u'}, {"ulong", 8, 'u'}, {"ulonglong", 8, 'u'}, {"int8", 1, 'i'},
    {"int16", 2, 'i'}, {"int32", 4, 'i'}, {"int64", 8, 'i'}, {"uint8", 1, 'u'}, {"uint16", 2, 'u'},
    {"uint32", 4, 'u'}, {"uint64", 8, 'u'}, {"size", 8, 'u'}, {"ptrdiff", 8, 'i'}, {"complexf", 8, 'c'},
    {"complexd", 16, 'z'}, {"8", 1, 'u'}, {"16", 2, 'u'}, {"32", 4, 'u'}, {"64", 8, 'u'}, {"128", 16, 'x'}, {NULL}
};

static const type_t *find_type(const char *n)
{
    for (const type_t *t = types; t->name; t++)
        if (!strcmp(t->name, n))
            return t;
    fprintf(stderr, "driver: unknown type %s\n", n);
    abort();
}

static unsigned mix(unsigned k, unsigned i)
{
    unsigned x = k * 2654435761u + i * 40503u + 77;
    x ^= x >> 15;
    x *= 2246822519u;
    x ^= x >> 13;
    return x;
}

static int msize(const type_t *t)
{
    return t->cls == 'l' ? 10 : t->size;
}

/* value k as the bytes of an element; mode o = opaque pattern, n = number, b = raw limb table */
static void enc(const type_t *t, char mode, int k, void *out)
{
    unsigned char b[16] = { 0 };
    if (mode == 'n') {
        switch (t->cls) {
            case 'f': { float f = k; memcpy(b, &f, 4); break; }
            case 'd': { double f = k; memcpy(b, &f, 8); break; }
            case 'l': { long double f = k; memcpy(b, &f, 10); break; }
            case 'c': { float f[2] = { k, 0 }; memcpy(b, f, 8); break; }
            case 'z': { double f[2] = { k, 0 }; memcpy(b, f, 16); break; }
            default: { long long v = k; memcpy(b, &v, 8); break; }
        }
    } else if (k != 0) {
        if (t->size == 1)
            b[0] = (unsigned char) (k * 37);
        else {
            unsigned short s = (unsigned short) (k * 40503u);
            memcpy(b, &s, 2);
            for (int i = 2; i < t->size; i++)
                b[i] = (unsigned char) mix(k, i);
            if (t->cls == 'f')
                b[3] = 0x40 | (b[3] & 3);
            if (t->cls == 'd' || t->cls == 'c')
                b[7] = 0x40;
            if (t->cls == 'c')
                b[3] = 0x40;
            if (t->cls == 'l') {
                b[7] |= 0x80;
                b[9] = 0x40;
                memset(b + 10, 0, 6);
            }
        }
    }
    memcpy(out, b, t->size);
}

#define BADV (-999999)
static int dec(const type_t *t, char mode, const void *p)
{
    unsigned char b[16], c[16];
    memset(b, 0, 16);
    memcpy(b, p, t->size);
    if (mode == 'n') {
        long double v;
        switch (t->cls) {
            case 'f': { float f; memcpy(&f, b, 4); v = f; break; }
            case 'd': { double f; memcpy(&f, b, 8); v = f; break; }
            case 'l': memcpy(&v, b, 16); break;
            case 'c': { float f[2]; memcpy(f, b, 8); if (f[1] != 0) return BADV; v = f[0]; break; }
            case 'z': { double f[2]; memcpy(f, b, 16); if (f[1] != 0) return BADV; v = f[0]; break; }
            case 'i': { long long x = 0; memcpy(&x, b, t->size); if (t->size < 8)
                        x = x << (64 - 8 * t->size) >> (64 - 8 * t->size); v = x; break; }
            default: { unsigned long long x = 0; memcpy(&x, b, t->size > 8 ? 8 : t->size); v = x; break; }
        }
        if (!(v > -1000000000.0L && v < 1000000000.0L) || v != (int) v)
            return BADV;
        return (int) v;
    }
    if (t->size == 1) {
        for (int k = 0; k < 256; k++)
            if ((unsigned char) (k * 37) == b[0])
                return k;
    }
    unsigned short s;
    memcpy(&s, b, 2);
    static unsigned short inv[65536];
    static int ready;
    if (!ready) {
        for (unsigned k = 0; k < 65536; k++)
            inv[(unsigned short) (k * 40503u)] = (unsigned short) k;
        ready = 1;
    }
    int k = inv[s];
    enc(t, mode, k, c);
    return memcmp(b, c, msize(t)) ? BADV : k;
}

static void encw(const type_t *t, char mode, int k, char *out, int w)
{
    for (int i = 0; i < w; i++)
        enc(t, mode, k, out + (size_t) i * t->size);
}

/* the value of a cell; not a value while its elements differ */
static int decw(const type_t *t, char mode, const char *p, int w)
{
    for (int i = 1; i < w; i++)
        if (memcmp(p, p + (size_t) i * t->size, msize(t)))
            return SIM_MIXED;
    return dec(t, mode, p);
}

/* ---------------------------------------------------------------- symmetric objects */
/* a wide object has cells of w equal elements each */
typedef struct { int used, n, cell, w; const type_t *t; char mode; char seg[8]; char *a; } obj_t;
#define CS(o) ((size_t) (o)->t->size * (o)->w)
#define MAXOBJ 64
#define MAXCELL 1024
static obj_t objs[MAXOBJ];
static obj_t *cell_obj[MAXCELL];
#define GUARD 32

static int dec_cell(int cell, const void *p)
{
    obj_t *o = cell_obj[cell];
    return decw(o->t, o->mode, p, o->w);
}

static int dec_guard(int cell, const void *p)
{
    const unsigned char *b = p;
    int bad = 0;
    for (int i = 0; i < GUARD; i++)
        bad += b[i] != 0xA5;
    return bad;
}

static void obj_place(int id, char *a)
{
    obj_t *o = &objs[id];
    int me = sim_pe();
    o->a = a;
    memset(a - GUARD, 0xA5, GUARD);
    memset(a, 0, o->n * CS(o));
    memset(a + o->n * CS(o), 0xA5, GUARD);
    for (int i = 0; i < o->n; i++) {
        cell_obj[o->cell + i] = o;
        sim_watch(me, o->cell + i, a + i * CS(o), CS(o), dec_cell);
    }
    sim_watch(me, 9000 + 2 * id, a - GUARD, GUARD, dec_guard);
    sim_watch(me, 9001 + 2 * id, a + o->n * CS(o), GUARD, dec_guard);
}

static size_t obj_bytes(obj_t *o)
{
    return o->n * CS(o) + 2 * GUARD + 64;
}

static char *align64(char *p)
{
    return (char *) (((uintptr_t) p + 63) & ~(uintptr_t) 63);
}

static void obj_forget(int id)
{
    obj_t *o = &objs[id];
    for (int i = 0; i < o->n; i++)
        sim_unwatch(sim_pe(), o->cell + i);
    sim_unwatch(sim_pe(), 9000 + 2 * id);
    sim_unwatch(sim_pe(), 9001 + 2 * id);
    o->w = 1;
}

/* ---------------------------------------------------------------- state of the program */
static int me;
static shmem_ctx_t ctxs[32];
static shmem_team_t teams[64];
static shmemx_space_t spaces[32];
static void *raw[MAXOBJ];       /* the pointer the allocator returned */
static long lock_data[8];
static long *lock_at[8];        /* locks that are not in static memory */
static int skip_ops;
static void *raw_lock[8];
#define LOCK(l) (lock_at[l] ? lock_at[l] : &lock_data[l])
static long psync[64][8];
static char pwrk[65536] __attribute__((aligned(16)));
typedef struct { int live, ctx, get, n, id, w, seq; char *buf; size_t len; const type_t *t; char mode; int st; } pend_t;
static pend_t pend[256];
static int opno;
static struct { void *p; size_t n; int pat; } blk[128];
static char *heap_ref, *space_ref[32];

static shmem_ctx_t *ctx_arg(const char *s, int *x)
{
    static shmem_ctx_t c;
    if (!strcmp(s, "d")) {
        *x = 0;
        return NULL;
    }
    if (!strcmp(s, "D")) {
        *x = 0;
        c = SHMEM_CTX_DEFAULT;
        return &c;
    }
    *x = atoi(s);
    return &ctxs[*x];
}

static char *jl(char *b, const int *v, int n)
{
    char *p = b;
    *p++ = '[';
    for (int i = 0; i < n; i++)
        p += sprintf(p, i ? ",%d" : "%d", v[i]);
    *p++ = ']';
    *p = 0;
    return b;
}

static void ret0(void)
{
    sim_log("{\"e\":\"ret\",\"p\":%d,\"v\":[]}", me);
}

static void retv(const int *v, int n)
{
    char b[8192];
    sim_log("{\"e\":\"ret\",\"p\":%d,\"v\":%s}", me, jl(b, v, n));
}

/* completed nbi operations: results of gets become visible, source buffers may be reused */
static int pend_seq;
static void complete_to(int x, int seq)
{
    char b[8192];
    int v[512];
    for (int i = 0; i < 256; i++) {
        pend_t *p = &pend[i];
        if (!p->live || p->ctx != x || p->seq > seq)
            continue;
        if (p->get) {
            for (int k = 0; k < p->n; k++)
                v[k] = decw(p->t, p->mode, p->buf + (size_t) k * p->st * p->t->size * p->w, p->w);
            sim_log("{\"e\":\"nbi\",\"p\":%d,\"i\":%d,\"v\":%s}", me, p->id, jl(b, v, p->n));
        }
        memset(p->buf, 0xEE, p->len);
        p->live = 0;
    }
}

static pend_t *new_pend(void)
{
    for (int i = 0; i < 256; i++)
        if (!pend[i].live) {
            pend[i].live = 1;
            pend[i].seq = ++pend_seq;
            pend[i].w = 1;
            return &pend[i];
        }
    abort();
}

static int lookup_cmp(const char *s)
{
    if (!strcmp(s, "eq")) return SHMEM_CMP_EQ;
    if (!strcmp(s, "ne")) return SHMEM_CMP_NE;
    if (!strcmp(s, "gt")) return SHMEM_CMP_GT;
    if (!strcmp(s, "ge")) return SHMEM_CMP_GE;
    if (!strcmp(s, "lt")) return SHMEM_CMP_LT;
    return SHMEM_CMP_LE;
}

/* rma kind api obj idx sst tst n pe ctx v0 */
static void op_rma(char **a)
{
    const char *kind = a[0], *api = a[1];
    obj_t *o = &objs[atoi(a[2])];
    int idx = atoi(a[3]), sst = atoi(a[4]), tst = atoi(a[5]), n = atoi(a[6]), pe = atoi(a[7]), v0 = atoi(a[9]), x;
    shmem_ctx_t *cp = ctx_arg(a[8], &x), c;
    const rma_fn *f = api[0] == 'G' ? rma_generic : rma_table;
    int w = o->w, es = CS(o), put = !strcmp(kind, "put") || !strcmp(kind, "putn") || !strcmp(kind, "p") ||
        !strcmp(kind, "iput"), nbi = kind[strlen(kind) - 1] == 'n', str = kind[0] == 'i';
    int cells[512], vals[512];
    char b1[8192], b2[8192];
    size_t cnt = (size_t) n * w;
    if (cp) {
        c = *cp;
        cp = &c;
    }
    if (api[0] == 'G')
        api++;
    while (f->name && strcmp(f->name, api))
        f++;
    if (!f->name)
        abort();
    if (!str)
        sst = tst = 1;
    if (!strcmp(api, "mem"))
        cnt = (size_t) n * es;
    for (int i = 0; i < n; i++) {
        cells[i] = o->cell + idx + i * tst;
        vals[i] = v0 + i;
    }
    size_t len = (size_t) ((n > 0 ? n - 1 : 0) * sst + 1) * es;
    char *all = malloc(len + 2 * GUARD + 16), *buf = (char *) (((uintptr_t) all + GUARD + 15) & ~(uintptr_t) 15);
    memset(all, 0xEE, len + 2 * GUARD + 16);
    int id = ++opno;
    char *sym = o->a + (size_t) idx * es;
    if (put) {
        for (int i = 0; i < n; i++)
            encw(o->t, o->mode, vals[i], buf + (size_t) i * sst * es, w);
        sim_log("{\"e\":\"call\",\"p\":%d,\"o\":\"put\",\"n\":%d,\"i\":%d,\"x\":%d,\"t\":%d,\"c\":%s,\"v\":%s}", me, nbi,
                id, x, pe, jl(b1, cells, n), jl(b2, vals, n));
        if (!strcmp(kind, "put"))
            f->put(cp, sym, buf, cnt, pe);
        else if (!strcmp(kind, "putn"))
            f->putn(cp, sym, buf, cnt, pe);
        else if (!strcmp(kind, "p"))
            f->p(cp, sym, buf, pe);
        else
            f->iput(cp, sym, buf, tst, sst, n, pe);
        ret0();
        if (!nbi)
            memset(buf, 0xEE, len);
        else {
            pend_t *p = new_pend();
            p->ctx = x;
            p->get = 0;
            p->buf = buf;
            p->len = len;
        }
        return;
    }
    sim_log("{\"e\":\"call\",\"p\":%d,\"o\":\"get\",\"n\":%d,\"i\":%d,\"x\":%d,\"t\":%d,\"c\":%s}", me, nbi, id, x, pe,
            jl(b1, cells, n));
    if (!strcmp(kind, "get"))
        f->get(cp, buf, sym, cnt, pe);
    else if (!strcmp(kind, "getn"))
        f->getn(cp, buf, sym, cnt, pe);
    else if (!strcmp(kind, "g"))
        f->g(cp, buf, sym, pe);
    else
        f->iget(cp, buf, sym, sst, tst, n, pe);
    if (nbi) {
        pend_t *p = new_pend();
        ret0();
        p->ctx = x;
        p->get = 1;
        p->n = n;
        p->id = id;
        p->w = w;
        p->buf = buf;
        p->len = len;
        p->t = o->t;
        p->mode = o->mode;
        p->st = 1;
        return;
    }
    for (int i = 0; i < n; i++)
        vals[i] = decw(o->t, o->mode, buf + (size_t) i * sst * es, w);
    retv(vals, n);
    /* nothing but the selected elements may have been written */
    int bad = 0;
    for (char *q = all; q < all + len + 2 * GUARD + 16; q++) {
        long off = q - buf;
        if (off >= 0 && off < (long) len && (off / es) % sst == 0 && off / es / sst < n)
            continue;
        bad += (unsigned char) *q != 0xEE;
    }
    if (bad)
        sim_log("{\"e\":\"err\",\"p\":%d,\"m\":\"get wrote outside its destination\"}", me);
}

/* amo name how obj idx pe ctx a b */
static void op_amo(char **a)
{
    obj_t *o = &objs[atoi(a[2])];
    int idx = atoi(a[3]), pe = atoi(a[4]), va = atoi(a[6]), vb = atoi(a[7]), x, how = 0;
    shmem_ctx_t *cp = ctx_arg(a[5], &x), c;
    char name[32];
    char A[16], B[16];
    const amo_fn *f;
    if (cp) {
        c = *cp;
        cp = &c;
    }
    how = a[1][0] == 'n' ? 1 : 0;
    snprintf(name, sizeof name, "%s%s", a[1][0] == 'o' ? "o" : a[1][0] == 'g' ? "g" : "", a[0]);
    for (f = amo_table; f->name; f++)
        if (!strcmp(f->name, name) && !strcmp(f->type, o->t->name))
            break;
    if (!f->name)
        abort();
    enc(o->t, 'n', va, A);
    enc(o->t, 'n', vb, B);
    char *res = malloc(64);
    memset(res, 0xEE, 64);
    int id = ++opno;
    sim_log("{\"e\":\"call\",\"p\":%d,\"o\":\"amo\",\"k\":\"%s\",\"n\":%d,\"i\":%d,\"x\":%d,\"t\":%d,\"c\":[%d],"
            "\"a\":%d,\"b\":%d}", me, a[0], how, id, x, pe, o->cell + idx, va, vb);
    f->fn(how, cp, o->a + (size_t) idx * o->t->size, A, B, res + 16, pe);
    if (how == 1) {
        pend_t *p = new_pend();
        ret0();
        p->ctx = x;
        p->get = 1;
        p->n = 1;
        p->id = id;
        p->buf = res + 16;
        p->len = o->t->size;
        p->t = o->t;
        p->mode = 'n';
        p->st = 1;
        return;
    }
    if (f->fetches) {
        int v = dec(o->t, 'n', res + 16);
        retv(&v, 1);
    } else
        ret0();
}

/* wide AMO: amow name how obj idx pe ctx hexa hexb : one atomic on a full-width value; all values logged as bytes */
static void hexbytes(const char *h, unsigned char *b, int n)
{
    for (int i = 0; i < n; i++) {
        unsigned v = 0;
        sscanf(h + 2 * i, "%2x", &v);
        b[i] = (unsigned char) v;
    }
}

static void jb(char *o, const void *p, int n)
{
    int v[16];
    for (int i = 0; i < n; i++)
        v[i] = ((const unsigned char *) p)[i];
    jl(o, v, n);
}

static void op_amow(char **a)
{
    obj_t *o = &objs[atoi(a[2])];
    int idx = atoi(a[3]), pe = atoi(a[4]), x, how = 0, es = o->t->size;
    shmem_ctx_t *cp = ctx_arg(a[5], &x), c;
    char name[32];
    unsigned char A[16] = { 0 }, B[16] = { 0 };
    const amo_fn *f;
    if (cp) {
        c = *cp;
        cp = &c;
    }
    how = a[1][0] == 'n' ? 1 : 0;
    snprintf(name, sizeof name, "%s%s", a[1][0] == 'o' ? "o" : a[1][0] == 'g' ? "g" : "", a[0]);
    for (f = amo_table; f->name; f++)
        if (!strcmp(f->name, name) && !strcmp(f->type, o->t->name))
            break;
    if (!f->name)
        abort();
    hexbytes(a[6], A, es);
    hexbytes(a[7], B, es);
    char *res = malloc(64);
    memset(res, 0xEE, 64);
    f->fn(how, cp, o->a + (size_t) idx * es, A, B, res + 16, pe);
    if (how == 1 || !f->fetches) {
        if (cp)
            shmem_ctx_quiet(c);
        else
            shmem_quiet();
    }
    /* read it back with a get */
    char back[32], j1[128], j2[128], j3[128], j4[128], r[16] = { 0 };
    shmem_getmem(back, o->a + (size_t) idx * es, es, pe);
    if (f->fetches)
        memcpy(r, res + 16, es);
    jb(j1, A, es);
    jb(j2, B, es);
    jb(j3, r, es);
    jb(j4, back, es);
    sim_log("{\"e\":\"amow\",\"p\":%d,\"k\":\"%s\",\"t\":\"%s\",\"f\":%d,\"c\":[%d,%d],\"a\":%s,\"b\":%s,\"r\":%s,\"m\":%s}",
            me, a[0], o->t->name, f->fetches, pe, o->cell + idx, j1, j2, j3, j4);
}

/* store bytes locally */
static void op_stw(char **a)
{
    obj_t *o = &objs[atoi(a[0])];
    int idx = atoi(a[1]);
    unsigned char A[16];
    char j[128];
    hexbytes(a[2], A, o->t->size);
    sim_diff();
    memcpy(o->a + (size_t) idx * o->t->size, A, o->t->size);
    sim_rewatch(me);
    jb(j, A, o->t->size);
    sim_log("{\"e\":\"stw\",\"p\":%d,\"c\":%d,\"v\":%s}", me, o->cell + idx, j);
}

/* compare with a full-width value: testw type obj idx cmp hex */
static void op_testw(char **a)
{
    obj_t *o = &objs[atoi(a[1])];
    int idx = atoi(a[2]);
    unsigned char A[16];
    char j[128];
    const p2p_fn *f;
    for (f = p2p_table; f->name; f++)
        if (!strcmp(f->name, a[0]))
            break;
    if (!f->name || !f->test)
        abort();
    hexbytes(a[4], A, o->t->size);
    jb(j, A, o->t->size);
    int r = f->test(o->a + (size_t) idx * o->t->size, lookup_cmp(a[3]), A) ? 1 : 0;
    if (r)                      /* a wait for it must return at once */
        f->wait(o->a + (size_t) idx * o->t->size, lookup_cmp(a[3]), A);
    sim_log("{\"e\":\"testw\",\"p\":%d,\"c\":%d,\"t\":\"%s\",\"k\":\"%s\",\"a\":%s,\"r\":%d}", me, o->cell + idx,
            o->t->name, a[3], j, r);
}

/* log the bytes of all own elements */
static void op_rdw(char **a)
{
    obj_t *o = &objs[atoi(a[0])];
    char j[128];
    for (int i = 0; i < o->n; i++) {
        jb(j, o->a + (size_t) i * o->t->size, o->t->size);
        sim_log("{\"e\":\"rdw\",\"p\":%d,\"c\":%d,\"v\":%s}", me, o->cell + i, j);
    }
}

static void op_st(char **a)
{
    obj_t *o = &objs[atoi(a[0])];
    int idx = atoi(a[1]), v = atoi(a[2]), n = a[3] ? atoi(a[3]) : 1;
    sim_diff();
    for (int i = 0; i < n; i++) {
        encw(o->t, o->mode, v + i, o->a + (idx + i) * CS(o), o->w);
    }
    sim_rewatch(me);
    for (int i = 0; i < n; i++)
        sim_log("{\"e\":\"st\",\"p\":%d,\"c\":%d,\"v\":%d}", me, o->cell + idx + i, v + i);
}

/* wait|test type obj idx cmp val */
static void op_p2p(int test, char **a)
{
    obj_t *o = &objs[atoi(a[1])];
    int idx = atoi(a[2]), v = atoi(a[4]);
    const p2p_fn *f;
    char V[16];
    for (f = p2p_table; f->name; f++)
        if (!strcmp(f->name, a[0]))
            break;
    if (!f->name)
        abort();
    enc(o->t, 'n', v, V);
    char *ad = o->a + (size_t) idx * o->t->size;
    sim_log("{\"e\":\"call\",\"p\":%d,\"o\":\"%s\",\"c\":[%d],\"k\":\"%s\",\"a\":%d}", me, test == 2 ? "poll" : test ? "test" : "wait",
            o->cell + idx, a[3], v);
    if (test == 1) {
        int r = f->test(ad, lookup_cmp(a[3]), V) ? 1 : 0;
        retv(&r, 1);
    } else if (test == 2) {     /* poll until true, at most 100000 times */
        int r, k = 0;
        do {
            r = f->test(ad, lookup_cmp(a[3]), V) ? 1 : 0;
        } while (!r && ++k < 400000);
        retv(&r, 1);
    } else {
        f->wait(ad, lookup_cmp(a[3]), V);
        ret0();
    }
}

/* spin how obj idx pe v : read the element in a loop of calls (g: shmem_TYPE_g, get, iget, nbi: get_nbi and quiet, fetch: atomic
 * fetch, fence: get and fence) until it has the value; the whole loop counts as one read */
static void op_spin(char **a)
{
    obj_t *o = &objs[atoi(a[1])];
    int idx = atoi(a[2]), pe = atoi(a[3]), want = atoi(a[4]), v = 0, k = 0;
    const rma_fn *f;
    const amo_fn *m = amo_table;
    char buf[32];
    void *ad = o->a + (size_t) idx * o->t->size;
    for (f = rma_table; f->name && strcmp(f->name, o->t->name); f++);
    while (a[0][0] == 'f' && m->name && (strcmp(m->name, "fetch") || strcmp(m->type, o->t->name)))
        m++;
    if (!f->name || !m->name)
        abort();
    sim_log("{\"e\":\"call\",\"p\":%d,\"o\":\"get\",\"n\":0,\"i\":%d,\"x\":0,\"t\":%d,\"c\":[%d]}", me, ++opno, pe, o->cell + idx);
    do {
        memset(buf, 0xEE, sizeof buf);
        if (!strcmp(a[0], "g"))
            f->g(NULL, buf, ad, pe);
        else if (!strcmp(a[0], "iget"))
            f->iget(NULL, buf, ad, 1, 1, 1, pe);
        else if (!strcmp(a[0], "nbi")) {
            f->getn(NULL, buf, ad, 1, pe);
            shmem_quiet();
        } else if (!strcmp(a[0], "fetch"))
            m->fn(0, NULL, ad, buf, buf, buf, pe);
        else
            f->get(NULL, buf, ad, 1, pe);
        v = dec(o->t, o->mode, buf);
    } while (v != want && ++k < 100000);
    if (v != want)
        sim_log("{\"e\":\"err\",\"p\":%d,\"m\":\"the loop never ends\"}", me);
    retv(&v, 1);
}

static void simple(const char *o, const char *fmt, ...)
{
    char b[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    sim_log("{\"e\":\"call\",\"p\":%d,\"o\":\"%s\"%s}", me, o, b);
}

static shmem_team_t team_of(int k)
{
    return k == 0 ? SHMEM_TEAM_WORLD : k == 1 ? SHMEM_TEAM_SHARED : k < 0 ? SHMEM_TEAM_INVALID : teams[k];
}

/* coll name type form(t|a) team|start,log,size dobj sobj n root [ds ss] */
static void op_coll(char **a)
{
    const coll_fn *f;
    int team = a[2][0] == 't', st = 0, lg = 0, sz = 0, rc = 0;
    obj_t *d = &objs[atoi(a[4])], *s = &objs[atoi(a[5])];
    int n = atoi(a[6]), root = atoi(a[7]), ds = a[8] ? atoi(a[8]) : 1, ss = a[8] && a[9] ? atoi(a[9]) : 1;
    for (f = coll_table; f->name; f++)
        if (!strcmp(f->name, a[0]) && !strcmp(f->type, a[1]) && (team ? f->team != NULL : f->aset != NULL))
            break;
    if (!f->name)
        abort();
    int t = team ? atoi(a[3]) : -1;
    if (!team)
        sscanf(a[3], "%d,%d,%d", &st, &lg, &sz);
    sim_log("{\"e\":\"call\",\"p\":%d,\"o\":\"coll\",\"k\":\"%s\",\"x\":%d,\"s\":[%d,%d,%d],\"c\":[%d,%d],\"n\":%d,\"r\":%d,"
            "\"d\":[%d,%d],\"ty\":\"%s\"}", me, !strcmp(a[0], "bcast") ? "broadcast" : a[0], t, st, lg, sz, d->cell, s->cell, n, root, ds, ss, a[1]);
    size_t cnt = (size_t) n * d->w;
    if (!strcmp(a[1], "mem"))
        cnt = n * CS(d);
    if (team)
        rc = f->team(team_of(t), d->a, s->a, cnt, root, ds, ss);
    else
        f->aset(d->a, s->a, cnt, root, ds, ss, st, lg, sz, pwrk, psync[2 + (st * 17 + lg * 5 + sz) % 60]);
    retv(&rc, 1);
}

static void team_report(int rc, int k)
{
    int v[64], n = 0, np;
    v[n++] = rc == 0 ? 0 : 1;
    if (teams[k] == SHMEM_TEAM_INVALID) {
        v[n++] = -1;
        v[n++] = -1;
    } else {
        np = shmem_team_n_pes(teams[k]);
        v[n++] = np;
        v[n++] = shmem_team_my_pe(teams[k]);
        for (int i = 0; i < np && i < 32; i++)
            v[n++] = shmem_team_translate_pe(teams[k], i, SHMEM_TEAM_WORLD);
    }
    retv(v, n);
}

static void heap_ret(void *p, int slot, size_t n, int space)
{
    char **ref = space < 0 ? &heap_ref : &space_ref[space];
    int v[3] = { 0, 0, 0 };
    if (p) {
        if (!*ref)
            *ref = p;
        v[0] = 1;
        v[1] = (int) ((char *) p - *ref);
        v[2] = (int) ((uintptr_t) p & 0xfffff);
    }
    if (slot >= 0) {
        blk[slot].p = p;
        blk[slot].n = n;
        blk[slot].pat = 0;
    }
    retv(v, 3);
}

static void fill(char *p, size_t n, int pat)
{
    for (size_t i = 0; i < n; i++)
        p[i] = (char) mix(pat * 131 + 7, (unsigned) i);
}

static int checkfill(const char *p, size_t n, int pat)
{
    for (size_t i = 0; i < n; i++)
        if (p[i] != (char) mix(pat * 131 + 7, (unsigned) i))
            return 0;
    return 1;
}

static int logging_started;

static void begin_log(void)
{
    logging_started = 1;
}

static int run_line(int k, char **a, int na);

/* a thread runs the lines "PE.k ..." that follow the line "threads" up to the line "join" */
static char **script;
static int script_n;
typedef struct { int k, from, to; } threadarg_t;
static void *thread_main(void *v)
{
    threadarg_t *t = v;
    for (int i = t->from; i < t->to; i++) {
        char *l = script[i], *a[64], *s2 = NULL;
        int na = 0, tp, tk;
        if (sscanf(l, "%d.%d ", &tp, &tk) != 2 || tp != me || tk != t->k)
            continue;
        memset(a, 0, sizeof a);
        for (char *x = strtok_r(l, " ", &s2); x && na < 60; x = strtok_r(NULL, " ", &s2))
            a[na++] = x;
        run_line(i, a + 1, na - 1);
    }
    return NULL;
}
static int first_thread;

int pe_main(void)
{
    const char *s = sim_script();
    me = sim_pe();
    teams[0] = SHMEM_TEAM_WORLD;
    teams[1] = SHMEM_TEAM_SHARED;
    int autom = 1;
    static char *copy;
    copy = strdup(s);
    char *sv = NULL;
    char **lines = calloc(20000, sizeof(char *));
    int nl = 0;
    for (char *l = strtok_r(copy, "\n", &sv); l; l = strtok_r(NULL, "\n", &sv))
        lines[nl++] = l;
    for (int i = 0; i < nl; i++) {
        if (!strncmp(lines[i], "noauto", 6))
            autom = 0;
        if (!strncmp(lines[i], "obj ", 4)) {
            int id, n, cell, w = 1;
            char seg[8], ty[32], mode;
            sscanf(lines[i], "obj %d %7s %31s %d %c %d %d", &id, seg, ty, &n, &mode, &cell, &w);
            obj_t *o = &objs[id];
            o->w = w;
            o->used = 1;
            o->n = n;
            o->t = find_type(ty);
            o->mode = mode;
            o->cell = cell;
            strcpy(o->seg, seg);
            if (seg[0] == 'd') {
                char *p = sym_data + data_used;
                data_used += obj_bytes(o);
                if (data_used > DATA_BYTES)
                    abort();
                obj_place(id, align64(p + GUARD));
            }
        }
    }
    if (autom) {
        const char *lv = getenv("SIM_LEVEL");
        int got;
        if (lv)
            shmem_init_thread(atoi(lv), &got);
        else
            shmem_init();
        for (int id = 0; id < MAXOBJ; id++)
            if (objs[id].used && objs[id].seg[0] == 'h') {
                raw[id] = shmem_malloc(obj_bytes(&objs[id]));
                if (!raw[id]) {
                    sim_log("{\"e\":\"err\",\"p\":%d,\"m\":\"shmem_malloc failed\"}", me);
                    return 0;
                }
                obj_place(id, align64((char *) raw[id] + GUARD));
            }
        shmem_barrier_all();
        /* everybody has set up: nothing was logged so far */
    }
    for (int i = 0; i < nl; i++) {
        char *l = lines[i], *a[64], *s2 = NULL;
        int na = 0, tp, tk;
        if (sscanf(l, "%d.%d ", &tp, &tk) == 2)         /* of another thread */
            continue;
        script = lines;
        script_n = nl;
        if (!(isdigit((unsigned char) l[0]) || l[0] == '*'))
            continue;
        memset(a, 0, sizeof a);
        for (char *t = strtok_r(l, " ", &s2); t && na < 60; t = strtok_r(NULL, " ", &s2))
            a[na++] = t;
        if (strcmp(a[0], "*") && atoi(a[0]) != me) {
            continue;
        }
        run_line(i, a + 1, na - 1);
    }
    if (autom) {
        for (int id = 0; id < MAXOBJ; id++)
            for (int i = 0; objs[id].used && objs[id].w > 1 && i < objs[id].n; i++)
                if (dec_cell(objs[id].cell + i, objs[id].a + i * CS(&objs[id])) == SIM_MIXED)
                    sim_log("{\"e\":\"err\",\"p\":%d,\"m\":\"cell %d differs within itself\"}", me, objs[id].cell + i);
        simple("finalize", "");
        shmem_finalize();
        ret0();
    }
    sim_log("{\"e\":\"done\",\"p\":%d}", me);
    return 0;
}

static int run_line(int ln, char **a, int na)
{
    const char *op = a[0];
    int x, seq = pend_seq;      /* what other threads issue from now on need not be completed */
    shmem_ctx_t *cp;
#define I(k) atoi(a[k])
    if (skip_ops > 0) {
        skip_ops--;
        return 0;
    }
    if (!strcmp(op, "rma"))
        op_rma(a + 1);
    else if (!strcmp(op, "amo"))
        op_amo(a + 1);
    else if (!strcmp(op, "amow"))
        op_amow(a + 1);
    else if (!strcmp(op, "testw"))
        op_testw(a + 1);
    else if (!strcmp(op, "rdw"))
        op_rdw(a + 1);
    else if (!strcmp(op, "stw"))
        op_stw(a + 1);
    else if (!strcmp(op, "st"))
        op_st(a + 1);
    else if (!strcmp(op, "wait"))
        op_p2p(0, a + 1);
    else if (!strcmp(op, "test"))
        op_p2p(1, a + 1);
    else if (!strcmp(op, "testloop"))
        op_p2p(2, a + 1);
    else if (!strcmp(op, "spin"))
        op_spin(a + 1);
    else if (!strcmp(op, "lockspin")) {         /* test_lock in a loop, as one call */
        int l = I(1), r = 1;
        simple("test_lock", ",\"l\":%d", l);
        for (int k = 0; k < 100000 && r; k++)
            r = shmem_test_lock(LOCK(l)) ? 1 : 0;
        if (r)
            sim_log("{\"e\":\"err\",\"p\":%d,\"m\":\"the loop never ends\"}", me);
        retv(&r, 1);
    }
    else if (!strcmp(op, "idle")) {             /* looks at its own memory until others have changed it; calls nothing */
        obj_t *o = &objs[I(1)];
        while (dec_cell(o->cell + I(2), o->a + I(2) * CS(o)) != I(3))
            sim_pause(1);
    }
    else if (!strcmp(op, "threads")) {
        first_thread = sim_nthr();
        for (int k = 1; k <= I(1); k++) {
            threadarg_t *t = malloc(sizeof *t);
            t->k = k;
            t->from = t->to = ln + 1;
            while (t->to < script_n && !strstr(script[t->to], " join"))
                t->to++;
            sim_thr_create(NULL, NULL, thread_main, t);
        }
    } else if (!strcmp(op, "join"))
        sim_thr_join(first_thread);
    else if (!strcmp(op, "pause"))
        sim_pause(I(1));
    else if (!strcmp(op, "settle"))
        sim_settle();
    else if (!strcmp(op, "turn"))
        sim_turn();
    else if (!strcmp(op, "fence") || !strcmp(op, "quiet")) {
        cp = ctx_arg(a[1] ? a[1] : "d", &x);
        simple(op, ",\"x\":%d", x);
        if (op[0] == 'f') {
            if (cp) shmem_ctx_fence(*cp); else shmem_fence();
        } else {
            if (cp) shmem_ctx_quiet(*cp); else shmem_quiet();
        }
        ret0();
        if (op[0] == 'q')
            complete_to(x, seq);
    } else if (!strcmp(op, "barrier_all")) {
        simple("barrier", ",\"s\":[0,0,%d],\"x\":-1", sim_npes());
        shmem_barrier_all();
        ret0();
        complete_to(0, seq);
    } else if (!strcmp(op, "sync_all")) {
        simple("sync", ",\"s\":[0,0,%d],\"x\":-1", sim_npes());
        shmem_sync_all();
        ret0();
    } else if (!strcmp(op, "barrier") || !strcmp(op, "sync")) {        /* start log size */
        simple(op, ",\"s\":[%d,%d,%d],\"x\":-1", I(1), I(2), I(3));
        if (op[0] == 'b')
            shmem_barrier(I(1), I(2), I(3), psync[0]);
        else
            shmem_sync_aset(I(1), I(2), I(3), psync[1]);
        ret0();
        if (op[0] == 'b')
            complete_to(0, seq);
    } else if (!strcmp(op, "team_sync")) {
        simple("sync", ",\"s\":[0,0,0],\"x\":%d", I(1));
        int r = shmem_team_sync(team_of(I(1))) == 0 ? 0 : 1;
        retv(&r, 1);
    } else if (!strcmp(op, "coll"))
        op_coll(a + 1);
    else if (!strcmp(op, "set_lock") || !strcmp(op, "clear_lock") || !strcmp(op, "test_lock")) {
        int l = I(1), r = 0;
        simple(op, ",\"l\":%d", l);
        if (op[0] == 's')
            shmem_set_lock(LOCK(l));
        else if (op[0] == 'c')
            shmem_clear_lock(LOCK(l));
        else
            r = shmem_test_lock(LOCK(l));
        if (op[0] == 't') {
            if (r != 0 && r != 1)
                r = 2;
            retv(&r, 1);
            if (r != 0 && a[2])         /* test_lock l k: when it fails, skip the next k operations */
                skip_ops = I(2);
        } else
            ret0();
    } else if (!strcmp(op, "trylock_add")) {    /* lock obj idx : test_lock until acquired, increment cell on PE t, clear */
        int l = I(1), tries = I(5), r = 1, k;
        obj_t *o = &objs[I(2)];
        for (k = 0; k < tries && r; k++) {
            simple("test_lock", ",\"l\":%d", l);
            r = shmem_test_lock(LOCK(l)) ? 1 : 0;
            retv(&r, 1);
        }
        if (r == 0) {
            char *args[10] = { "get", (char *) o->t->name, a[2], a[3], "1", "1", "1", a[4], "d", "0" };
            op_rma(args);
            simple("clear_lock", ",\"l\":%d", l);
            shmem_clear_lock(LOCK(l));
            ret0();
        }
    } else if (!strcmp(op, "team_split")) {     /* parent new start stride size [contexts mask] */
        int p = I(1), k = I(2), m = a[6] && I(7), n = m ? I(6) : 0;
        shmem_team_config_t c = { a[6] ? I(6) : 0 };
        simple("tsplit", ",\"t\":%d,\"w\":%d,\"a\":[%d,%d,%d],\"cf\":[%d]", p, k, I(3), I(4), I(5), n);
        teams[k] = (shmem_team_t) 0x77;
        int rc = shmem_team_split_strided(team_of(p), I(3), I(4), I(5), a[6] ? &c : NULL, m ? SHMEM_TEAM_NUM_CONTEXTS : 0,
                                          &teams[k]);
        memset(&c, 0x55, sizeof c);
        team_report(rc, k);
    } else if (!strcmp(op, "team_split2d")) {   /* parent x y xrange [contexts mask contexts mask] */
        int p = I(1), k = I(2), y = I(3), mx = a[5] && I(6), my = a[5] && I(8);
        shmem_team_config_t cx = { a[5] ? I(5) : 0 }, cy = { a[5] ? I(7) : 0 };
        simple("tsplit2", ",\"t\":%d,\"w\":%d,\"y\":%d,\"a\":[%d],\"cf\":[%d,%d]", p, k, y, I(4), mx ? I(5) : 0, my ? I(7) : 0);
        teams[k] = teams[y] = (shmem_team_t) 0x77;
        int rc = shmem_team_split_2d(team_of(p), I(4), a[5] ? &cx : NULL, mx ? SHMEM_TEAM_NUM_CONTEXTS : 0, &teams[k],
                                     a[5] ? &cy : NULL, my ? SHMEM_TEAM_NUM_CONTEXTS : 0, &teams[y]);
        memset(&cx, 0x55, sizeof cx);
        memset(&cy, 0x55, sizeof cy);
        team_report(rc, k);
        team_report(rc, y);
    } else if (!strcmp(op, "team_config")) {
        shmem_team_config_t c = { -7 };
        simple("tconf", ",\"t\":%d", I(1));
        int rc = shmem_team_get_config(team_of(I(1)), SHMEM_TEAM_NUM_CONTEXTS, &c);
        int v[2] = { rc == 0 ? 0 : 1, c.num_contexts };
        retv(v, 2);
    } else if (!strcmp(op, "team_destroy")) {
        simple("tdestroy", ",\"t\":%d", I(1));
        shmem_team_destroy(team_of(I(1)));
        ret0();
    } else if (!strcmp(op, "team_query")) {
        shmem_team_t t = team_of(I(1));
        simple("tquery", ",\"t\":%d", I(1));
        int v[2] = { shmem_team_n_pes(t), shmem_team_my_pe(t) };
        retv(v, 2);
    } else if (!strcmp(op, "team_translate")) { /* src pe dst */
        simple("ttrans", ",\"t\":%d,\"a\":[%d,%d]", I(1), I(2), I(3));
        int v = shmem_team_translate_pe(team_of(I(1)), I(2), team_of(I(3)));
        retv(&v, 1);
    } else if (!strcmp(op, "malloc") || !strcmp(op, "malloc_hints") || !strcmp(op, "align") || !strcmp(op, "calloc")) {
        /* slot size [align|count|hints] */
        size_t n = strtoull(a[2], NULL, 10);
        long e = a[3] ? atol(a[3]) : 0;
        void *p;
        int leg = a[4] && a[4][0] == 'o';
        /* more than any heap has: numbers that fit into the history */
        int huge = n > (1u << 28) || (op[0] == 'c' && (e > (1 << 28) || n * e > (1u << 28)));
        simple("alloc", ",\"k\":\"%s\",\"s\":%d,\"n\":%d,\"a\":%ld,\"x\":-1", op, I(1), huge ? 1 << 28 : (int) n, huge && op[0] == 'c' ? 1L : e);
        if (!strcmp(op, "malloc"))
            p = leg ? shmalloc(n) : shmem_malloc(n);
        else if (op[0] == 'm')
            p = shmem_malloc_with_hints(n, e);
        else if (op[0] == 'a')
            p = leg ? shmemalign(e, n) : shmem_align(e, n);
        else
            p = shmem_calloc(e, n);
        size_t tot = huge ? 64 : op[0] == 'c' ? n * e : n;
        if (op[0] == 'c' && p) {
            int z = 1;
            for (size_t i = 0; i < tot; i++)
                if (((char *) p)[i])
                    z = 0;
            if (!z)
                sim_log("{\"e\":\"err\",\"p\":%d,\"m\":\"calloc returned memory that is not zero\"}", me);
        }
        heap_ret(p, I(1), tot, -1);
    } else if (!strcmp(op, "realloc")) {        /* slot size */
        int s = I(1);
        size_t n = strtoull(a[2], NULL, 10), m = blk[s].n < n ? blk[s].n : n;
        int pat = blk[s].p ? blk[s].pat : 0;
        simple("realloc", ",\"s\":%d,\"n\":%d", s, n > (1u << 28) ? 1 << 28 : (int) n);
        void *p = a[3] && a[3][0] == 'o' ? shrealloc(blk[s].p, n) : shmem_realloc(blk[s].p, n);
        int ok = !p || !pat || checkfill(p, m, pat);
        if (!ok)
            sim_log("{\"e\":\"err\",\"p\":%d,\"m\":\"realloc lost the contents\"}", me);
        void *old = blk[s].p;
        size_t on = blk[s].n;
        heap_ret(p, s, n, -1);
        if (!p && n > 0) {
            blk[s].p = old;
            blk[s].n = on;
            blk[s].pat = pat;
        }
    } else if (!strcmp(op, "free")) {
        int s = I(1);
        simple("free", ",\"s\":%d", s);
        if (a[2] && a[2][0] == 'o') shfree(blk[s].p); else shmem_free(blk[s].p);
        blk[s].p = NULL;
        blk[s].n = 0;
        ret0();
    } else if (!strcmp(op, "fill")) {   /* slot pat */
        int s = I(1);
        blk[s].pat = I(2);
        if (blk[s].p)
            fill(blk[s].p, blk[s].n, I(2));
    } else if (!strcmp(op, "check")) {  /* slot: its own fill is still there */
        int s = I(1);
        if (blk[s].p && blk[s].pat && !checkfill(blk[s].p, blk[s].n, blk[s].pat))
            sim_log("{\"e\":\"err\",\"p\":%d,\"m\":\"block %d lost its contents\"}", me, s);
    } else if (!strcmp(op, "rfill")) {  /* slot pe pat: put a pattern over the whole block of pe, then quiet */
        int s = I(1);
        if (blk[s].p && blk[s].n) {
            char *b = malloc(blk[s].n);
            fill(b, blk[s].n, I(3));
            shmem_putmem(blk[s].p, b, blk[s].n, I(2));
            shmem_quiet();
            free(b);
        }
    } else if (!strcmp(op, "rcheck")) { /* slot pe pat */
        int s = I(1);
        if (blk[s].p && blk[s].n) {
            char *b = malloc(blk[s].n);
            shmem_getmem(b, blk[s].p, blk[s].n, I(2));
            if (!checkfill(b, blk[s].n, I(3)))
                sim_log("{\"e\":\"err\",\"p\":%d,\"m\":\"block %d differs on PE %d\"}", me, s, I(2));
            free(b);
        }
    } else if (!strcmp(op, "setpat")) {
        blk[I(1)].pat = I(2);
    } else if (!strcmp(op, "lastamo")) {        /* slot pe: atomic on the last aligned word of the block */
        int s = I(1);
        if (blk[s].p && blk[s].n >= 8) {
            uint64_t *w = (uint64_t *) blk[s].p + (blk[s].n / 8 - 1), sav;
            shmem_uint64_atomic_fetch(w, I(2));
        }
    } else if (!strcmp(op, "accessible")) {     /* slot pe: addr_accessible for first and last byte */
        int s = I(1), v[2] = { 1, 1 };
        simple("access", ",\"s\":%d,\"t\":%d", s, I(2));
        if (blk[s].p && blk[s].n) {
            v[0] = shmem_addr_accessible(blk[s].p, I(2)) ? 1 : 0;
            v[1] = shmem_addr_accessible((char *) blk[s].p + blk[s].n - 1, I(2)) ? 1 : 0;
        }
        retv(v, 2);
    } else if (!strcmp(op, "space_create")) {   /* k size nctx hints */
        shmemx_space_config_t c;
        memset(&c, 0, sizeof c);
        c.sheap_size = strtoull(a[2], NULL, 10);
        c.num_contexts = I(3);
        c.memkind = SHMEMX_MEM_HOST;
        c.hints = I(4);
        simple("screate", ",\"s\":%d,\"n\":%d,\"a\":%d", I(1), I(2), I(3));
        shmemx_space_create(c, &spaces[I(1)]);
        ret0();
    } else if (!strcmp(op, "space_attach")) {
        simple("sattach", ",\"s\":%d", I(1));
        shmemx_space_attach(spaces[I(1)]);
        ret0();
    } else if (!strcmp(op, "space_detach")) {
        simple("sdetach", ",\"s\":%d", I(1));
        shmemx_space_detach(spaces[I(1)]);
        ret0();
    } else if (!strcmp(op, "space_destroy")) {
        simple("sdestroy", ",\"s\":%d", I(1));
        shmemx_space_destroy(spaces[I(1)]);
        space_ref[I(1)] = NULL;
        ret0();
    } else if (!strcmp(op, "space_ctx")) {      /* space ctxslot */
        simple("sctx", ",\"s\":%d,\"x\":%d", I(1), I(2));
        int rc = shmemx_space_create_ctx(spaces[I(1)], a[3] ? atol(a[3]) : 0, &ctxs[I(2)]);
        int v = rc == 0 ? 0 : rc == SHMEM_NO_CTX ? 1 : 2;
        retv(&v, 1);
    } else if (!strcmp(op, "ctx_destroy")) {
        simple("cdestroy", ",\"x\":%d", I(1));
        shmem_ctx_destroy(ctxs[I(1)]);
        ret0();
        complete_to(I(1), seq);
    } else if (!strcmp(op, "space_malloc") || !strcmp(op, "space_calloc") || !strcmp(op, "space_align")) {
        /* space slot size [count|align] */
        size_t n = strtoull(a[3], NULL, 10);
        long e = a[4] ? atol(a[4]) : 0;
        void *p;
        int k = I(1);
        simple("alloc", ",\"k\":\"%s\",\"s\":%d,\"n\":%d,\"a\":%ld,\"x\":%d", op + 6, I(2), (int) n, e, k);
        if (op[6] == 'm')
            p = shmemx_space_malloc(spaces[k], n);
        else if (op[6] == 'c')
            p = shmemx_space_calloc(spaces[k], e, n);
        else
            p = shmemx_space_align(spaces[k], e, n);
        size_t tot = op[6] == 'c' ? n * e : n;
        if (op[6] == 'c' && p) {
            int z = 1;
            for (size_t i = 0; i < tot; i++)
                if (((char *) p)[i])
                    z = 0;
            if (!z)
                sim_log("{\"e\":\"err\",\"p\":%d,\"m\":\"calloc returned memory that is not zero\"}", me);
        }
        heap_ret(p, I(2), tot, k);
    } else if (!strcmp(op, "lock_alloc")) {     /* lock [space]: a lock in allocated memory (not logged) */
        int l = I(1);
        long *q = a[2] ? shmemx_space_malloc(spaces[I(2)], 5 * sizeof(long)) : shmem_malloc(5 * sizeof(long));
        if (!q) {
            sim_log("{\"e\":\"err\",\"p\":%d,\"m\":\"no memory for a lock\"}", me);
            return 0;
        }
        memset(q, 0, 5 * sizeof(long));
        lock_at[l] = q + 2;
        raw_lock[l] = q;
    } else if (!strcmp(op, "lock_free")) {
        shmem_free(raw_lock[I(1)]);
        lock_at[I(1)] = NULL;
    } else if (!strcmp(op, "sobj")) {   /* obj space: place the object in the space (not logged) */
        int id = I(1);
        raw[id] = shmemx_space_malloc(spaces[I(2)], obj_bytes(&objs[id]));
        if (!raw[id]) {
            sim_log("{\"e\":\"err\",\"p\":%d,\"m\":\"shmemx_space_malloc failed\"}", me);
            return 0;
        }
        obj_place(id, align64((char *) raw[id] + GUARD));
    } else if (!strcmp(op, "sobj_free")) {
        obj_forget(I(1));
        shmem_free(raw[I(1)]);
    } else if (!strcmp(op, "init")) {
        simple("init", ",\"a\":-1");
        shmem_init();
        ret0();
    } else if (!strcmp(op, "start_pes")) {
        simple("init", ",\"a\":-1");
        start_pes(I(1));
        ret0();
    } else if (!strcmp(op, "init_thread")) {
        int p = -7;
        simple("init", ",\"a\":%d", I(1));
        int rc = shmem_init_thread(I(1), &p);
        int v[2] = { p, rc };
        retv(v, 2);
    } else if (!strcmp(op, "query")) {
        int p = -7, mj = -1, mn = -1;
        static char nm[SHMEM_MAX_NAME_LEN + 8];
        simple("query", "");
        shmem_query_thread(&p);
        shmem_info_get_version(&mj, &mn);
        memset(nm, 'Z', sizeof nm);
        shmem_info_get_name(nm);
        int v[9] = { p, shmem_my_pe(), shmem_n_pes(), _my_pe(), _num_pes(), mj, mn,
            memchr(nm, 0, SHMEM_MAX_NAME_LEN) && !strcmp(nm, SHMEM_VENDOR_STRING),
            0 };
        for (int i = -1; i <= sim_npes(); i++)
            v[8] += shmem_pe_accessible(i) ? 1 << (i + 1) : 0;
        retv(v, 9);
    } else if (!strcmp(op, "finalize")) {
        simple("finalize", "");
        shmem_finalize();
        ret0();
    } else if (!strcmp(op, "hobj")) {   /* place a heap object by hand (noauto scripts) */
        int id = I(1);
        raw[id] = shmem_malloc(obj_bytes(&objs[id]));
        obj_place(id, align64((char *) raw[id] + GUARD));
    } else if (!strcmp(op, "gexit")) {
        simple("gexit", ",\"a\":%d", I(1));
        shmem_global_exit(I(1));
        ret0();
    } else if (!strcmp(op, "mpi_init")) {       /* the program initialises MPI itself */
        int prov;
        MPI_Init_thread(NULL, NULL, I(1), &prov);
    } else if (!strcmp(op, "bounds")) { /* pe: addresses around the ends of everything that is exposed to the network */
        char *b;
        long n;
        for (int k = 0; sim_window(k, &b, &n); k++) {
            char *at[] = { b - 1, b, b + n / 2, b + n - 1, b + n, b + n + 4096 * 1024 };
            int v[12];
            if (n == 0)
                continue;
            simple("bounds", ",\"t\":%d", I(1));
            for (int i = 0; i < 6; i++) {
                char *b2;
                long n2;
                v[2 * i] = 0;
                for (int j = 0; sim_window(j, &b2, &n2); j++)
                    v[2 * i] |= at[i] >= b2 && at[i] < b2 + n2;
                v[2 * i + 1] = shmem_addr_accessible(at[i], I(1)) ? 1 : 0;
            }
            retv(v, 12);
        }
    } else if (!strcmp(op, "cachefns")) {
        shmem_set_cache_inv();
        shmem_clear_cache_inv();
        shmem_set_cache_line_inv(sym_data);
        shmem_clear_cache_line_inv(sym_data);
        shmem_udcflush();
        shmem_udcflush_line(sym_data);
        shmem_pcontrol(0);
    } else if (!strcmp(op, "ptr")) {    /* obj pe: NULL, or an address through which the object is reached */
        obj_t *o = &objs[I(1)];
        int idx = a[3] ? I(3) : 0;
        simple("ptr", ",\"t\":%d,\"c\":[%d]", I(2), o->cell + idx);
        char *q = shmem_ptr(o->a + (size_t) idx * o->t->size, I(2));
        int v[2] = { q != NULL, q ? dec(o->t, o->mode, q) : 0 };
        retv(v, 2);
    } else if (!strcmp(op, "repeat_amo")) {     /* n obj idx pe: n increments, logged as one addition; others must be idle */
        obj_t *o = &objs[I(2)];
        int n = I(1);
        sim_settle();
        sim_log("{\"e\":\"call\",\"p\":%d,\"o\":\"amo\",\"k\":\"add\",\"n\":0,\"i\":%d,\"x\":0,\"t\":%d,\"c\":[%d],\"a\":%d,\"b\":0}",
                me, ++opno, I(4), o->cell + I(3), n);
        sim_logging(0);
        for (int i = 0; i < n; i++) {
            shmem_long_atomic_inc((long *) (o->a + (size_t) I(3) * 8), I(4));
            if (i % 16 == 15)
                sim_progress();
        }
        shmem_quiet();
        sim_logging(1);
        ret0();
    } else if (!strcmp(op, "logging"))
        sim_logging(I(1));
    else {
        fprintf(stderr, "driver: unknown op %s (line %d)\n", op, ln);
        abort();
    }
    return 0;
}
