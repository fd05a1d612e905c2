/* simmpi: a simulated MPI.  N PEs (copies of pe.so, loaded RTLD_LOCAL) run as coroutines of one
 * process; every MPI call is a scheduling point; messages and RMA operations travel as separate
 * "network" actors which a seeded scheduler lets act in any order MPI allows.
 *
 * usage: sim <dir-with-pe-so> <npes> <script> <first-seed> <count> <out>
 *
 * One forked child per seed.  The child's trace (one JSON object per line) goes to the parent,
 * which drops duplicates and writes each distinct trace once, as
 *     {"trace":k,"seed":s,"n":number of events} followed by its events.
 *
 * The trace holds the driver's API events, plus a "chg" event for every change of a watched
 * symmetric cell, found by comparing memory after each step.  Nothing in it depends on which MPI
 * calls the library makes.
 */
#define _GNU_SOURCE
#include "mpi.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdbool.h>
#include <complex.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>

#define MAXPE 16
#define STACK (1 << 20)

/* ------------------------------------------------------------------ random numbers */
static uint64_t rs;
static uint64_t rnd64(void)
{
    uint64_t z = (rs += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

static unsigned rnd(unsigned n)
{
    return n <= 1 ? 0 : (unsigned) (rnd64() % n);
}

unsigned sim_rand(unsigned n)
{
    return rnd(n);
}

/* ------------------------------------------------------------------ data */
typedef struct { long off; int basic; } elem_t;
typedef struct { int used, committed, n; long lb, extent, size; elem_t *e; } dtype_t;

typedef struct comm {           /* shared by its members */
    int id, n, world[MAXPE], freed[MAXPE];
    int seq[MAXPE];             /* next collective number, per rank */
    int gseq;
    struct comm *next;
} comm_t;

typedef struct { int n, world[MAXPE]; int used; } group_t;

typedef struct win {
    int id;
    comm_t *c;
    int dynamic, alloc;
    char *base[MAXPE];
    long size[MAXPE];
    int du[MAXPE];
    int locked[MAXPE];
    int freed[MAXPE];
    struct { char *b; long n; } att[MAXPE][64];
    int natt[MAXPE];
    struct { char *b; long n; } was[MAXPE][64];         /* detached; its owner may free it after the window */
    int nwas[MAXPE];
} win_t;

enum { R_SEND = 1, R_RECV, R_COLL, R_RMA };
typedef struct msg {
    int src, dst;               /* world */
    comm_t *c;
    int csrc;                   /* source rank in c */
    int tag, sync, arrived, matched, captured;
    const void *ubuf;
    int ucount, upe;
    dtype_t *ut;
    char *data;
    size_t n;
    double w;
    struct msg *next;
} msg_t;

typedef struct req {
    int used, kind, done;
    int pe;
    msg_t *m;                   /* send: the message */
    void *buf;                  /* recv */
    int count;
    dtype_t *t;
    int src, tag;
    comm_t *c;
    MPI_Status st;
    struct coll *co;
    int crank;
    long order, rid;            /* rid: the RMA operations of this request */
    int grace;                  /* polls to answer "not yet" although done */
} req_t;

typedef struct coll {
    comm_t *c;
    int seq, kind, narr, nout;
    int arr[MAXPE], out[MAXPE];
    char *sbuf[MAXPE];
    size_t sn[MAXPE];
    void *rbuf[MAXPE];
    int count[MAXPE], root[MAXPE], ipl[MAXPE];
    dtype_t *t[MAXPE], *rt[MAXPE];
    int rcount[MAXPE];
    const int *rcounts[MAXPE], *displs[MAXPE];
    size_t *sb0[MAXPE], *sbn[MAXPE];    /* alltoallv: where each destination's data lies in sbuf */
    int op[MAXPE];
    long iv[MAXPE][4];
    void *res;                  /* object made by the collective (comm, win) */
    void *resv[MAXPE];
    struct coll *next;
} coll_t;
enum { C_BARRIER = 1, C_BCAST, C_ALLGATHER, C_ALLTOALL, C_ALLREDUCE, C_REDUCE, C_GATHER, C_DUP, C_SPLIT, C_CREATE,
    C_CREATE_GROUP, C_WINCREATE, C_WINFREE, C_FINALIZE, C_COMMFREE,
    C_SCATTER, C_SCAN, C_EXSCAN };

enum { K_PUT = 1, K_GET, K_ACC, K_GACC, K_FOP, K_CAS };
typedef struct seg { char *o, *t; int len; char *res; } seg_t;
typedef struct rma {
    int kind, origin, target;
    win_t *w;
    seg_t *s;
    int n;
    int op, basic;
    char *snap;                 /* origin data once captured */
    int phase;                  /* get-like: 0 to read, 1 to write back */
    char *tmp;
    int tmpn;
    char cas_cmp[32], cas_org[32];
    const void *ucmp;
    double wt;
    char pre[32];               /* single accumulates: the element when memory was last looked at */
    int haspre;
    long rid;                   /* request that waits for it, or 0 */
    struct rma *next;
} rma_t;

typedef struct { int cell, size, on; char *addr; int (*dec)(int, const void *); int last; char *shadow; } watch_t;

/* a further thread of a PE (pthread_create) */
typedef struct thr {
    ucontext_t uc;
    char *stack;
    void *(*fn)(void *);
    void *arg;
    int (*cond)(void *);
    void *carg;
    const char *where;
    double w;
    int done, id;
} thr_t;
#define MAXTHR 32

typedef struct pe {
    int id;
    ucontext_t uc;
    thr_t *thr[MAXTHR];
    int nthr;
    thr_t *on;                  /* the thread running now, NULL for the main thread */
    char *stack;
    int done, inited, finalized, tlevel;
    int (*cond)(void *);
    void *carg;
    long steps;
    int turn;                   /* waits for the schedule's own turn */
    double w;
    dtype_t types[512];
    comm_t *comms[256];
    group_t groups[256];
    req_t *reqs[2048];
    win_t *wins[256];
    int ninfo;
    watch_t *watch;
    int nwatch;
    void (*atex[16])(void);
    int natex;
    char *env[64];
    int nenv;
    int (*main)(void);
    const char *where;
} pe_t;

static pe_t *P[MAXPE];
static int NP;
static pe_t *cur;
static ucontext_t sched_uc;
static msg_t *msgs;             /* in flight and unexpected, per-channel order */
static rma_t *rmas;
static coll_t *colls;
static comm_t *world_comm, *self_comm[MAXPE];
static int next_id = 1;
static long order_no;
static char *script;
static long nsteps, api_mark, int_mark;
static int fair;
static int eager_pct, split_pct, grace_pct, chunky;
static int tag_ub = 32767;
static int thread_max = MPI_THREAD_MULTIPLE;
static int ppn = MAXPE;                 /* PEs per node */
static int logging = 1;
static int failed;
static FILE *dbg;

/* ------------------------------------------------------------------ log */
static char *lg;
static size_t lgn, lgcap;
static int lgevents;
static int outfd = -1;

static void lput(const char *s, size_t n)
{
    if (lgn + n + 2 > lgcap) {
        lgcap = (lgn + n + 2) * 2;
        lg = realloc(lg, lgcap);
    }
    memcpy(lg + lgn, s, n);
    lgn += n;
    lg[lgn++] = '\n';
    lgevents++;
}

static void vlog(const char *fmt, va_list ap)
{
    char b[16384];
    int n = vsnprintf(b, sizeof b, fmt, ap);
    if (n >= (int) sizeof b)
        n = sizeof b - 1;
    lput(b, n);
    if (dbg)
        fprintf(dbg, "%s\n", b);
}

static void rawlog(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vlog(fmt, ap);
    va_end(ap);
}

static void flush_exit(int code)
{
    size_t o = 0;
    while (o < lgn) {
        ssize_t k = write(outfd, lg + o, lgn - o);
        if (k <= 0)
            break;
        o += k;
    }
    _exit(code);
}

static void diff_pe(pe_t *p)
{
    if (!logging)
        return;
    for (int i = 0; i < p->nwatch; i++) {
        watch_t *w = &p->watch[i];
        if (!w->on || !memcmp(w->shadow, w->addr, w->size))
            continue;
        memcpy(w->shadow, w->addr, w->size);
        int v = w->dec(w->cell, w->shadow);
        if (v == w->last || v == SIM_MIXED)
            continue;
        rawlog("{\"e\":\"chg\",\"p\":%d,\"c\":%d,\"u\":%d,\"v\":%d}", p->id, w->cell, w->last, v);
        w->last = v;
        api_mark = int_mark = nsteps;
    }
}

/* An accumulate is atomic only with respect to other accumulates of its type.  When a PE changes an element by plain
 * stores (or a put does) while an accumulate on it is under way, then one of the two updates may get lost: the
 * accumulate has read the element before, and writes it after the other, or the other way round. */
static int apply_op(int op, int basic, char *inout, const char *in);
static void rma_done(rma_t *r);
static void rma_snap(rma_t *r);
static int races_on;
static int is_acc(rma_t *r)
{
    return r->n == 1 && r->phase == 0 && (r->kind == K_ACC || r->kind == K_GACC || r->kind == K_CAS) && r->s[0].len <= 32;
}

static int race(rma_t *r, const char *pre, int both)
{
    seg_t *s = &r->s[0];
    char now[32], fin[32];
    memcpy(now, s->t, s->len);
    memcpy(fin, pre, s->len);
    if (r->kind == K_CAS) {
        if (!memcmp(pre, r->ucmp, s->len))
            memcpy(fin, s->o, s->len);
    } else
        apply_op(r->op, r->basic, fin, s->o);
    if (!memcmp(fin, pre, s->len))
        return 0;
    if (both && rnd(2)) {
        memcpy(s->t, fin, s->len);
        diff_pe(P[r->target]);
        memcpy(s->t, now, s->len);
        diff_pe(P[r->target]);
    } else {
        diff_pe(P[r->target]);
        memcpy(s->t, fin, s->len);
        diff_pe(P[r->target]);
    }
    if (r->kind != K_ACC) {
        r->tmp = malloc(s->len + 1);
        memcpy(r->tmp, pre, s->len);
        r->phase = 1;
    } else
        rma_done(r);
    return 1;
}

static void look(void)
{
    if (!races_on)
        return;
    for (int again = 1; again;) {
        again = 0;
        for (rma_t *r = rmas; r; r = r->next)
            if (is_acc(r) && r->haspre && cur && cur->id == r->target && memcmp(r->pre, r->s[0].t, r->s[0].len) && rnd(2) &&
                race(r, r->pre, 1)) {
                again = 1;
                break;
            }
    }
    for (rma_t *r = rmas; r; r = r->next)
        if (is_acc(r)) {
            memcpy(r->pre, r->s[0].t, r->s[0].len);
            r->haspre = 1;
        }
}

void sim_diff(void)
{
    look();
    for (int i = 0; i < NP; i++)
        diff_pe(P[i]);
}

void sim_log(const char *fmt, ...)
{
    va_list ap;
    sim_diff();
    api_mark = int_mark = nsteps;
    if (!logging)
        return;
    va_start(ap, fmt);
    if (cur && cur->on) {       /* say which thread */
        char f2[4096];
        size_t n = strlen(fmt);
        snprintf(f2, sizeof f2, "%.*s,\"th\":%d}", (int) n - 1, fmt, cur->on->id);
        vlog(f2, ap);
    } else
        vlog(fmt, ap);
    va_end(ap);
}

void sim_logging(int on)
{
    sim_diff();
    logging = on;
    sim_diff();
}


/* An MPI usage error: the run ends here. */
static void mpierr(const char *fmt, ...)
{
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    sim_diff();
    rawlog("{\"e\":\"err\",\"p\":%d,\"m\":\"mpi: %s\"}", cur ? cur->id : -1, b);
    flush_exit(3);
}

static void on_signal(int sig)
{
    static char b[128];
    static int again;
    if (again++)
        _exit(4);
    sim_diff();
    int n = snprintf(b, sizeof b, "{\"e\":\"err\",\"p\":%d,\"m\":\"signal %d\"}", cur ? cur->id : -1, sig);
    lput(b, n);
    flush_exit(4);
}

static void on_alarm(int sig)
{
    static char b[128];
    (void) sig;
    /* The running PE has made no MPI call for very long: it spins without making progress. */
    int n = snprintf(b, sizeof b, "{\"e\":\"err\",\"p\":%d,\"m\":\"spin without progress\"}", cur ? cur->id : -1);
    lput(b, n);
    flush_exit(5);
}

/* ------------------------------------------------------------------ scheduler */
static void yield_(void)
{
    pe_t *p = cur;
    swapcontext(p->on ? &p->on->uc : &p->uc, &sched_uc);
}

void sim_point(const char *what)
{
    if (!cur)
        return;
    if (cur->on)
        cur->on->where = what;
    else
        cur->where = what;
    yield_();
}

/* an access to shared variables: others may come first if this PE has several threads */
void sim_point_threads(const char *what)
{
    if (cur && cur->nthr)
        for (int i = 0; i < cur->nthr; i++)
            if (!cur->thr[i]->done) {
                sim_point(what);
                return;
            }
}

static void block(int (*cond)(void *), void *arg)
{
    /* always one scheduling point; then until cond holds */
    thr_t *t = cur->on;
    if (t) {
        t->cond = cond;
        t->carg = arg;
        yield_();
        t->cond = NULL;
        return;
    }
    cur->cond = cond;
    cur->carg = arg;
    yield_();
    cur->cond = NULL;
}

void sim_pause(int n)
{
    for (int i = 0; i < n; i++)
        sim_point("pause");
}

int sim_pe(void)
{
    return cur->id;
}

int sim_npes(void)
{
    return NP;
}

const char *sim_script(void)
{
    return script;
}

int sim_steps(void)
{
    return (int) nsteps;
}

static double draw_weight(void)
{
    switch (rnd(6)) {
        case 0: return 0.001;
        case 1: return 0.05;
        case 2: return 8;
        case 3: return 200;
        default: return 1;
    }
}

static int styl;                /* network style of the run */
static double net_weight(void)
{
    switch (styl) {
        case 0: return 1;
        case 1: return draw_weight();
        case 2: return 0.002;   /* very slow network */
        case 3: return 50;      /* very fast network */
        default: return rnd(2) ? 0.005 : 5;
    }
}

static int msg_can_arrive(msg_t *m)
{
    if (m->arrived)
        return 0;
    for (msg_t *x = msgs; x != m; x = x->next)
        if (!x->arrived && x->src == m->src && x->dst == m->dst && x->c == m->c)
            return 0;
    return 1;
}

static void msg_arrive(msg_t *m);
static void rma_step(rma_t *r);
static int pe_ready(pe_t *p)
{
    return !p->done && (!p->cond || p->cond(p->carg));
}

static int thr_ready(pe_t *p, thr_t *t)
{
    return !p->done && !t->done && (!t->cond || t->cond(t->carg));
}

/* Schedule guidance: "turn" lines of the script name the order in which PEs pass sim_turn(). */
static int turns[4096], nturns, curturn;
static int turn_ok(void *a)
{
    return curturn >= nturns || turns[curturn] == ((pe_t *) a)->id;
}

void sim_turn(void)
{
    if (nturns == 0)
        return;
    block(turn_ok, cur);
    if (curturn < nturns)
        curturn++;
    int_mark = nsteps;
}

/* Wait until every other PE has got far into whatever it is doing, and say so in the log. */
typedef struct { pe_t *p; long at[MAXPE]; } settle_t;
static int pe_ready(pe_t *p);
static int msg_can_arrive(msg_t *m);
static int net_idle(void)
{
    if (rmas)
        return 0;
    for (msg_t *m = msgs; m; m = m->next)
        if (msg_can_arrive(m))
            return 0;
    return 1;
}

static int settle_ok(void *a)
{
    settle_t *s = a;
    int idle = net_idle();
    for (int i = 0; i < NP; i++) {
        long d = P[i]->steps - s->at[i];
        if (P[i] == s->p || P[i]->done || d >= 3000 || (idle && d >= 40))
            continue;
        if (idle && P[i]->cond && P[i]->cond != settle_ok && !pe_ready(P[i]))
            continue;
        return 0;
    }
    return 1;
}

/* wait until the others have come as far as they can without this PE */
void sim_settle(void)
{
    static settle_t st[MAXPE];
    settle_t *s = &st[cur->id];
    for (int k = 0; k < 6; k++) {
        s->p = cur;
        for (int i = 0; i < NP; i++)
            s->at[i] = P[i]->steps;
        block(settle_ok, s);
    }
    sim_log("{\"e\":\"settled\",\"p\":%d}", cur->id);
}

/* the caller is making progress; it goes on when not too much of what it sent is still on its way */
static int few_msgs(void *a)
{
    int n = 0;
    for (msg_t *m = msgs; m && n < 200; m = m->next)
        n++;
    return n < 200 || nsteps > *(long *) a;
}

void sim_progress(void)
{
    api_mark = int_mark = nsteps;
    long lim = nsteps + 10000;
    if (!few_msgs(&lim)) {
        block(few_msgs, &lim);
        api_mark = int_mark = nsteps;
    }
}

#define FAIR_AFTER 1500
#define STUCK_AFTER 12000

static void schedule(void)
{
    struct itimerval it = { {0, 0}, {0, 0} };
    api_mark = int_mark = nsteps = 0;
    for (;;) {
        int alive = 0;
        for (int i = 0; i < NP; i++)
            alive += !P[i]->done;
        if (!alive)
            break;
        if (nsteps - api_mark > FAIR_AFTER) {
            fair = 1;
            if (nsteps - api_mark > FAIR_AFTER + (long) STUCK_AFTER * NP)
                break;
        } else
            fair = 0;
        if ((nsteps & 255) == 255) {    /* redraw the speeds now and then */
            for (int i = 0; i < NP; i++)
                if (rnd(3) == 0)
                    P[i]->w = draw_weight();
            for (int i = 0; i < NP; i++)
                for (int j = 0; j < P[i]->nthr; j++)
                    if (rnd(3) == 0)
                        P[i]->thr[j]->w = draw_weight();
        }
        double tot = 0;
        double wp[MAXPE];
        for (int i = 0; i < NP; i++) {
            wp[i] = pe_ready(P[i]) ? (fair ? 1 : P[i]->w) : 0;
            tot += wp[i];
            for (int j = 0; j < P[i]->nthr; j++)
                if (thr_ready(P[i], P[i]->thr[j]))
                    tot += fair ? 1 : P[i]->thr[j]->w;
        }
        for (msg_t *m = msgs; m; m = m->next)
            if (msg_can_arrive(m))
                tot += fair ? 1 : m->w;
        for (rma_t *r = rmas; r; r = r->next)
            tot += fair ? 1 : r->wt;
        if (tot == 0)
            break;              /* nothing can move: stuck */
        double x = (double) (rnd64() >> 11) / 9007199254740992.0 * tot;
        pe_t *pick = NULL;
        thr_t *pt = NULL;
        msg_t *pm = NULL;
        rma_t *pr = NULL;
        for (int i = 0; i < NP && !pick; i++) {
            if (wp[i] > 0) {
                if (x < wp[i])
                    pick = P[i];
                x -= wp[i];
            }
            for (int j = 0; j < P[i]->nthr && !pick; j++)
                if (thr_ready(P[i], P[i]->thr[j])) {
                    double w = fair ? 1 : P[i]->thr[j]->w;
                    if (x < w) {
                        pick = P[i];
                        pt = P[i]->thr[j];
                    }
                    x -= w;
                }
        }
        if (!pick)
            for (msg_t *m = msgs; m; m = m->next)
                if (msg_can_arrive(m)) {
                    pm = m;
                    x -= fair ? 1 : m->w;
                    if (x < 0)
                        break;
                }
        if (!pick && (x >= 0 || !pm)) {
            pm = NULL;
            for (rma_t *r = rmas; r; r = r->next) {
                pr = r;
                x -= fair ? 1 : r->wt;
                if (x < 0)
                    break;
            }
        }
        nsteps++;
        if (pick) {
            cur = pick;
            pick->on = pt;
            if (pt)
                pt->cond = NULL;
            else {
                pick->steps++;
                pick->cond = NULL;
            }
            if ((nsteps & 1023) == 0) {
                it.it_value.tv_sec = 4;
                setitimer(ITIMER_VIRTUAL, &it, NULL);
            }
            swapcontext(&sched_uc, pt ? &pt->uc : &pick->uc);
            pick->on = NULL;
            cur = NULL;
        } else if (pr)
            rma_step(pr);
        else if (pm)
            msg_arrive(pm);
        sim_diff();
    }
    for (int i = 0; i < NP; i++)
        if (!P[i]->done)
            rawlog("{\"e\":\"stuck\",\"p\":%d}", i);
    rawlog("{\"e\":\"fin\"}");
}

static void pe_entry(void)
{
    pe_t *p = cur;
    p->main();
    while (p->natex > 0)
        p->atex[--p->natex] ();
    p->done = 1;
    api_mark = nsteps;
    yield_();
}

/* Threads of a PE.  The POSIX calls of the library come here; the threads are scheduled like the PEs are, and change
 * at scheduling points only. */
typedef struct { int locked, owner; } smutex_t;         /* lives in the memory of the pthread_mutex_t */
typedef struct { int seq; } scond_t;
#define THR_STACK (1 << 20)

static void thr_entry(void)
{
    thr_t *t = cur->on;
    t->fn(t->arg);
    t->done = 1;
    yield_();
}

int sim_thr_create(void *id, const void *attr, void *(*fn)(void *), void *arg)
{
    pe_t *p = cur;
    if (p->tlevel < MPI_THREAD_MULTIPLE)
        mpierr("a thread is created, but MPI is not thread-safe");
    if (p->nthr >= MAXTHR)
        mpierr("too many threads");
    thr_t *t = calloc(1, sizeof *t);
    t->fn = fn;
    t->arg = arg;
    t->w = draw_weight();
    t->stack = mmap(NULL, THR_STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_NORESERVE, -1, 0);
    getcontext(&t->uc);
    t->uc.uc_stack.ss_sp = t->stack;
    t->uc.uc_stack.ss_size = THR_STACK;
    t->uc.uc_link = &sched_uc;
    makecontext(&t->uc, thr_entry, 0);
    p->thr[p->nthr++] = t;
    t->id = p->nthr;
    sim_point("pthread_create");
    return 0;
}

static int thr_me(void)
{
    return cur->on ? cur->on->id : 0;
}

static int thr_over(void *a)
{
    return ((thr_t *) a)->done;
}

/* waits for all threads that the driver has started */
void sim_thr_join(int first)
{
    for (int i = first; i < cur->nthr; i++)
        block(thr_over, cur->thr[i]);
}

int sim_nthr(void)
{
    return cur->nthr;
}

static int mutex_free(void *a)
{
    return !((smutex_t *) a)->locked;
}

int sim_mutex_init(void *m, const void *a)
{
    memset(m, 0, sizeof(smutex_t));
    return 0;
}

int sim_mutex_lock(void *m)
{
    smutex_t *s = m;
    block(mutex_free, s);       /* for ever, when the caller itself holds it */
    s->locked = 1;
    s->owner = thr_me();
    return 0;
}

int sim_mutex_unlock(void *m)
{
    smutex_t *s = m;
    if (!s->locked || s->owner != thr_me())
        mpierr("a mutex is unlocked by a thread that does not hold it");
    s->locked = 0;
    sim_point("mutex_unlock");
    return 0;
}

int sim_mutex_destroy(void *m)
{
    if (((smutex_t *) m)->locked)
        mpierr("a locked mutex is destroyed");
    return 0;
}

typedef struct { scond_t *c; int seq; } swait_t;
static int cond_woken(void *a)
{
    swait_t *w = a;
    return w->c->seq != w->seq;
}

int sim_cond_init(void *c, const void *a)
{
    memset(c, 0, sizeof(scond_t));
    return 0;
}

int sim_cond_destroy(void *c)
{
    return 0;
}

int sim_cond_wait(void *c, void *m)
{
    swait_t w = { c, ((scond_t *) c)->seq };
    smutex_t *s = m;
    if (!s->locked || s->owner != thr_me())
        mpierr("pthread_cond_wait without the mutex");
    s->locked = 0;
    if (rnd(8))
        block(cond_woken, &w);  /* otherwise: a spurious wakeup */
    return sim_mutex_lock(m);
}

int sim_cond_signal(void *c)
{
    ((scond_t *) c)->seq++;
    return 0;
}

void sim_exit(int code)
{
    pe_t *p = cur;
    sim_log("{\"e\":\"exit\",\"p\":%d,\"v\":%d}", p->id, code);
    while (p->natex > 0)
        p->atex[--p->natex] ();
    p->done = 1;
    yield_();
    abort();
}

int sim_atexit(void (*f)(void))
{
    if (cur->natex < 16)
        cur->atex[cur->natex++] = f;
    return 0;
}

char *sim_getenv(const char *name)
{
    size_t n = strlen(name);
    if (!cur)
        return NULL;
    for (int i = 0; i < cur->nenv; i++)
        if (!strncmp(cur->env[i], name, n) && cur->env[i][n] == '=')
            return cur->env[i] + n + 1;
    return NULL;
}

void sim_watch(int pe, int cell, void *addr, int size, int (*dec)(int, const void *))
{
    pe_t *p = P[pe];
    p->watch = realloc(p->watch, (p->nwatch + 1) * sizeof(watch_t));
    watch_t *w = &p->watch[p->nwatch++];
    w->cell = cell;
    w->size = size;
    w->on = 1;
    w->addr = addr;
    w->dec = dec;
    w->shadow = malloc(size);
    memcpy(w->shadow, addr, size);
    w->last = dec(cell, addr);
}

static int crank(comm_t *c, int world);

/* the k-th window of the calling PE with memory: base and size; 0 when there are no more */
int sim_window(int k, char **base, long *size)
{
    for (int i = 0; i < 256; i++) {
        win_t *w = cur->wins[i];
        if (!w)
            continue;
        int r = crank(w->c, cur->id);
        if (w->dynamic) {
            for (int j = 0; j < w->natt[r]; j++)
                if (k-- == 0) {
                    *base = w->att[r][j].b;
                    *size = w->att[r][j].n;
                    return 1;
                }
        } else if (k-- == 0) {
            *base = w->base[r];
            *size = w->size[r];
            return 1;
        }
    }
    return 0;
}

void sim_unwatch(int pe, int cell)
{
    pe_t *p = P[pe];
    for (int i = 0; i < p->nwatch; i++)
        if (p->watch[i].cell == cell)
            p->watch[i].on = 0;
}

void sim_rewatch(int pe)
{
    pe_t *p = P[pe];
    for (int i = 0; i < p->nwatch; i++) {
        watch_t *w = &p->watch[i];
        if (!w->on)
            continue;
        memcpy(w->shadow, w->addr, w->size);
        w->last = w->dec(w->cell, w->addr);
    }
}

/* ------------------------------------------------------------------ datatypes */
static dtype_t basics[SIM_T_LAST - SIM_T_NULL];
static elem_t bel[SIM_T_LAST - SIM_T_NULL];
enum { CL_BYTE, CL_CHAR, CL_INT, CL_UINT, CL_FLT, CL_CPLX, CL_BOOL };
static int bclass(int b)
{
    switch (b) {
        case SIM_T_BYTE: return CL_BYTE;
        case SIM_T_WCHAR: return CL_CHAR;
        case SIM_T_FLOAT: case SIM_T_DOUBLE: case SIM_T_LDOUBLE: return CL_FLT;
        case SIM_T_CFLOAT: case SIM_T_CDOUBLE: case SIM_T_CLDOUBLE: return CL_CPLX;
        case SIM_T_BOOL: return CL_BOOL;
        case SIM_T_UCHAR: case SIM_T_USHORT: case SIM_T_UINT: case SIM_T_ULONG: case SIM_T_ULLONG:
        case SIM_T_U8: case SIM_T_U16: case SIM_T_U32: case SIM_T_U64: return CL_UINT;
        default: return CL_INT;
    }
}

static int bsize(int b)
{
    switch (b) {
        case SIM_T_SHORT: case SIM_T_USHORT: case SIM_T_I16: case SIM_T_U16: return 2;
        case SIM_T_INT: case SIM_T_UINT: case SIM_T_I32: case SIM_T_U32: case SIM_T_FLOAT: case SIM_T_WCHAR:
            return 4;
        case SIM_T_LONG: case SIM_T_LLONG: case SIM_T_ULONG: case SIM_T_ULLONG: case SIM_T_I64: case SIM_T_U64:
        case SIM_T_DOUBLE: case SIM_T_CFLOAT: case SIM_T_AINT: case SIM_T_COUNT: case SIM_T_OFFSET: return 8;
        case SIM_T_LDOUBLE: case SIM_T_CDOUBLE: return 16;
        case SIM_T_CLDOUBLE: return 32;
        default: return 1;
    }
}

static void init_basics(void)
{
    for (int b = SIM_T_BYTE; b < SIM_T_LAST; b++) {
        dtype_t *t = &basics[b - SIM_T_NULL];
        bel[b - SIM_T_NULL].basic = b;
        t->used = t->committed = 1;
        t->n = 1;
        t->extent = t->size = bsize(b);
        t->e = &bel[b - SIM_T_NULL];
    }
}

#define TBASE 0x100000
static dtype_t *gettype(MPI_Datatype d)
{
    uintptr_t x = (uintptr_t) d;
    if (x > SIM_T_NULL && x < SIM_T_LAST)
        return &basics[x - SIM_T_NULL];
    if (x >= TBASE && x < TBASE + 512 && cur->types[x - TBASE].used)
        return &cur->types[x - TBASE];
    mpierr("invalid datatype");
    return NULL;
}

static int isbasic(dtype_t *t)
{
    return t >= basics && t < basics + (SIM_T_LAST - SIM_T_NULL);
}

static MPI_Datatype newtype(dtype_t **tp)
{
    for (int i = 0; i < 512; i++)
        if (!cur->types[i].used) {
            memset(&cur->types[i], 0, sizeof(dtype_t));
            cur->types[i].used = 1;
            *tp = &cur->types[i];
            return H_(MPI_Datatype, TBASE + i);
        }
    mpierr("too many datatypes");
    return MPI_DATATYPE_NULL;
}

static void finish_type(dtype_t *t, dtype_t *o, long *disp, int nd)
{
    /* nd copies of o at byte displacements disp[] */
    t->e = malloc(sizeof(elem_t) * ((size_t) nd * o->n + 1));
    t->n = 0;
    long lo = 0, hi = 0;
    for (int i = 0; i < nd; i++) {
        for (int k = 0; k < o->n; k++) {
            t->e[t->n] = o->e[k];
            t->e[t->n++].off += disp[i];
        }
        long a = disp[i] + o->lb, z = disp[i] + o->lb + o->extent;
        if (i == 0 || a < lo)
            lo = a;
        if (i == 0 || z > hi)
            hi = z;
    }
    t->lb = lo;
    t->extent = hi - lo;
    t->size = (long) nd * o->size;
}

int MPI_Type_size(MPI_Datatype d, int *s)
{
    *s = (int) gettype(d)->size;
    return 0;
}

int MPI_Type_get_extent(MPI_Datatype d, MPI_Aint *lb, MPI_Aint *ex)
{
    dtype_t *t = gettype(d);
    *lb = t->lb;
    *ex = t->extent;
    return 0;
}

int MPI_Type_create_hvector(int count, int bl, MPI_Aint st, MPI_Datatype d, MPI_Datatype *nt)
{
    dtype_t *o = gettype(d), *t;
    if (count < 0 || bl < 0)
        mpierr("negative count in a vector type");
    long *disp = malloc(sizeof(long) * ((size_t) count * bl + 1));
    int n = 0;
    for (int i = 0; i < count; i++)
        for (int k = 0; k < bl; k++)
            disp[n++] = i * st + k * o->extent;
    *nt = newtype(&t);
    finish_type(t, o, disp, n);
    free(disp);
    return 0;
}

int MPI_Type_hvector(int c, int b, MPI_Aint s, MPI_Datatype d, MPI_Datatype *n)
{
    return MPI_Type_create_hvector(c, b, s, d, n);
}

int MPI_Type_vector(int count, int bl, int st, MPI_Datatype d, MPI_Datatype *nt)
{
    return MPI_Type_create_hvector(count, bl, (MPI_Aint) st * gettype(d)->extent, d, nt);
}

int MPI_Type_contiguous(int count, MPI_Datatype d, MPI_Datatype *nt)
{
    return MPI_Type_create_hvector(count, 1, gettype(d)->extent, d, nt);
}

int MPI_Type_dup(MPI_Datatype d, MPI_Datatype *nt)
{
    dtype_t *o = gettype(d), *t;
    *nt = newtype(&t);
    *t = *o;
    t->e = malloc(sizeof(elem_t) * (o->n + 1));
    memcpy(t->e, o->e, sizeof(elem_t) * o->n);
    return 0;
}

int MPI_Type_create_resized(MPI_Datatype d, MPI_Aint lb, MPI_Aint ex, MPI_Datatype *nt)
{
    MPI_Type_dup(d, nt);
    dtype_t *t = gettype(*nt);
    t->lb = lb;
    t->extent = ex;
    t->committed = 0;
    return 0;
}

int MPI_Type_create_hindexed(int c, const int *bl, const MPI_Aint *di, MPI_Datatype d, MPI_Datatype *nt)
{
    dtype_t *o = gettype(d), *t;
    int tot = 0;
    for (int i = 0; i < c; i++)
        tot += bl[i];
    long *disp = malloc(sizeof(long) * (tot + 1));
    int n = 0;
    for (int i = 0; i < c; i++)
        for (int k = 0; k < bl[i]; k++)
            disp[n++] = di[i] + k * o->extent;
    *nt = newtype(&t);
    finish_type(t, o, disp, n);
    free(disp);
    return 0;
}

int MPI_Type_indexed(int c, const int *bl, const int *di, MPI_Datatype d, MPI_Datatype *nt)
{
    MPI_Aint *x = malloc(sizeof(MPI_Aint) * (c + 1));
    for (int i = 0; i < c; i++)
        x[i] = di[i] * gettype(d)->extent;
    int r = MPI_Type_create_hindexed(c, bl, x, d, nt);
    free(x);
    return r;
}

int MPI_Type_create_indexed_block(int c, int bl, const int *di, MPI_Datatype d, MPI_Datatype *nt)
{
    int *b = malloc(sizeof(int) * (c + 1));
    for (int i = 0; i < c; i++)
        b[i] = bl;
    int r = MPI_Type_indexed(c, b, di, d, nt);
    free(b);
    return r;
}

int MPI_Type_create_hindexed_block(int c, int bl, const MPI_Aint *di, MPI_Datatype d, MPI_Datatype *nt)
{
    int *b = malloc(sizeof(int) * (c + 1));
    for (int i = 0; i < c; i++)
        b[i] = bl;
    int r = MPI_Type_create_hindexed(c, b, di, d, nt);
    free(b);
    return r;
}

int MPI_Type_get_true_extent(MPI_Datatype d, MPI_Aint *lb, MPI_Aint *ex)
{
    dtype_t *t = gettype(d);
    long lo = 0, hi = 0;
    for (int j = 0; j < t->n; j++) {
        long e = t->e[j].off + bsize(t->e[j].basic);
        if (j == 0 || t->e[j].off < lo)
            lo = t->e[j].off;
        if (j == 0 || e > hi)
            hi = e;
    }
    *lb = lo;
    *ex = hi - lo;
    return 0;
}

int MPI_Type_commit(MPI_Datatype *d)
{
    gettype(*d)->committed = 1;
    return 0;
}

/* Freed types keep their element list: operations that use them may be in flight. */
int MPI_Type_free(MPI_Datatype *d)
{
    dtype_t *t = gettype(*d);
    if (isbasic(t))
        mpierr("MPI_Type_free of a predefined type");
    t->used = 0;
    t->e = NULL;
    t->n = 0;
    *d = MPI_DATATYPE_NULL;
    return 0;
}

static dtype_t *usetype(MPI_Datatype d)
{
    dtype_t *t = gettype(d);
    if (!t->committed)
        mpierr("communication with a datatype that is not committed");
    return t;
}

/* element list of count x type at buf; returns number of elements */
static int flatten(const void *buf, int count, dtype_t *t, char ***addr, int **bas)
{
    int n = count * t->n;
    char **a = malloc(sizeof(char *) * (n + 1));
    int *b = malloc(sizeof(int) * (n + 1));
    int k = 0;
    for (int i = 0; i < count; i++)
        for (int j = 0; j < t->n; j++) {
            a[k] = (char *) buf + (long) i * t->extent + t->e[j].off;
            b[k++] = t->e[j].basic;
        }
    *addr = a;
    *bas = b;
    return n;
}

static char *pack(const void *buf, int count, dtype_t *t, size_t *np)
{
    size_t n = 0;
    char *d;
    if (count < 0)
        mpierr("negative count");
    d = malloc((size_t) count * t->size + 1);
    if (isbasic(t)) {
        n = (size_t) count * t->size;
        if (n)
            memcpy(d, buf, n);
    } else
        for (int i = 0; i < count; i++)
            for (int j = 0; j < t->n; j++) {
                int s = bsize(t->e[j].basic);
                memcpy(d + n, (char *) buf + (long) i * t->extent + t->e[j].off, s);
                n += s;
            }
    *np = n;
    return d;
}

static void unpack(void *buf, int count, dtype_t *t, const char *d, size_t n)
{
    size_t o = 0;
    if (isbasic(t)) {
        size_t m = (size_t) count * t->size;
        if (n < m)
            m = n;
        if (m)
            memcpy(buf, d, m);
        return;
    }
    for (int i = 0; i < count; i++)
        for (int j = 0; j < t->n; j++) {
            int s = bsize(t->e[j].basic);
            if (o + s > n)
                return;
            memcpy((char *) buf + (long) i * t->extent + t->e[j].off, d + o, s);
            o += s;
        }
}

int MPI_Get_count(const MPI_Status *st, MPI_Datatype d, int *c)
{
    dtype_t *t = gettype(d);
    *c = t->size == 0 ? 0 : st->nbytes % t->size ? MPI_UNDEFINED : (int) (st->nbytes / t->size);
    return 0;
}

int MPI_Get_elements(const MPI_Status *st, MPI_Datatype d, int *c)
{
    return MPI_Get_count(st, d, c);
}

/* ------------------------------------------------------------------ reductions */
#define ARITH(T) { T a, b, r; memcpy(&a, inout, sizeof a); memcpy(&b, in, sizeof b); \
    switch (op) { case SIM_O_MAX: r = a > b ? a : b; break; case SIM_O_MIN: r = a < b ? a : b; break; \
    case SIM_O_SUM: r = a + b; break; case SIM_O_PROD: r = a * b; break; default: return -1; } \
    memcpy(inout, &r, sizeof r); return 0; }
#define INTEG(T) { T a, b, r; memcpy(&a, inout, sizeof a); memcpy(&b, in, sizeof b); \
    switch (op) { case SIM_O_MAX: r = a > b ? a : b; break; case SIM_O_MIN: r = a < b ? a : b; break; \
    case SIM_O_SUM: r = (T) ((uint64_t) a + (uint64_t) b); break; \
    case SIM_O_PROD: r = (T) ((uint64_t) a * (uint64_t) b); break; \
    case SIM_O_BAND: r = a & b; break; case SIM_O_BOR: r = a | b; break; case SIM_O_BXOR: r = a ^ b; break; \
    case SIM_O_LAND: r = a && b; break; case SIM_O_LOR: r = a || b; break; case SIM_O_LXOR: r = !a != !b; break; \
    default: return -1; } memcpy(inout, &r, sizeof r); return 0; }
#define CPLX(T) { T a, b, r; memcpy(&a, inout, sizeof a); memcpy(&b, in, sizeof b); \
    switch (op) { case SIM_O_SUM: r = a + b; break; case SIM_O_PROD: r = a * b; break; default: return -1; } \
    memcpy(inout, &r, sizeof r); return 0; }

/* inout = inout op in; -1 when op is not defined on the type */
static int apply_op(int op, int basic, char *inout, const char *in)
{
    if (op == SIM_O_REPLACE) {
        memcpy(inout, in, bsize(basic));
        return 0;
    }
    if (op == SIM_O_NOOP)
        return 0;
    switch (basic) {
        case SIM_T_CHAR: case SIM_T_SCHAR: case SIM_T_I8: INTEG(int8_t)
        case SIM_T_UCHAR: case SIM_T_U8: INTEG(uint8_t)
        case SIM_T_SHORT: case SIM_T_I16: INTEG(int16_t)
        case SIM_T_USHORT: case SIM_T_U16: INTEG(uint16_t)
        case SIM_T_INT: case SIM_T_I32: INTEG(int32_t)
        case SIM_T_UINT: case SIM_T_U32: INTEG(uint32_t)
        case SIM_T_LONG: case SIM_T_LLONG: case SIM_T_I64: case SIM_T_AINT: case SIM_T_COUNT: case SIM_T_OFFSET:
            INTEG(int64_t)
        case SIM_T_ULONG: case SIM_T_ULLONG: case SIM_T_U64: INTEG(uint64_t)
        case SIM_T_FLOAT: ARITH(float)
        case SIM_T_DOUBLE: ARITH(double)
        case SIM_T_LDOUBLE: ARITH(long double)
        case SIM_T_CFLOAT: CPLX(float complex)
        case SIM_T_CDOUBLE: CPLX(double complex)
        case SIM_T_CLDOUBLE: CPLX(long double complex)
        case SIM_T_BYTE:
            if (op == SIM_O_BAND || op == SIM_O_BOR || op == SIM_O_BXOR) INTEG(uint8_t)
            return -1;
        default: return -1;
    }
}

static int getop(MPI_Op o)
{
    uintptr_t x = (uintptr_t) o;
    if (x <= SIM_O_NULL || x >= SIM_O_LAST)
        mpierr("invalid operation handle");
    return (int) x;
}

static int op_ok(int op, int basic)
{
    char a[32] = { 0 }, b[32] = { 0 };
    a[0] = b[0] = 1;
    return apply_op(op, basic, a, b) == 0;
}

int MPI_Reduce_local(const void *in, void *inout, int n, MPI_Datatype d, MPI_Op o)
{
    dtype_t *t = usetype(d);
    for (int i = 0; i < n; i++)
        if (apply_op(getop(o), t->e[0].basic, (char *) inout + i * t->extent, (const char *) in + i * t->extent))
            mpierr("operation is not defined on the type");
    return 0;
}

/* ------------------------------------------------------------------ handles */
#define CBASE 0x200000
#define GBASE 0x300000
#define RBASE 0x400000
#define WBASE 0x500000

static void check_init(void)
{
    if (!cur->inited || cur->finalized)
        mpierr("MPI call outside MPI_Init..MPI_Finalize");
}

static comm_t *getcomm(MPI_Comm c)
{
    uintptr_t x = (uintptr_t) c;
    check_init();
    if (c == MPI_COMM_WORLD)
        return world_comm;
    if (c == MPI_COMM_SELF)
        return self_comm[cur->id];
    if (x >= CBASE && x < CBASE + 256 && cur->comms[x - CBASE])
        return cur->comms[x - CBASE];
    mpierr("invalid communicator");
    return NULL;
}

static MPI_Comm addcomm(comm_t *c)
{
    if (!c)
        return MPI_COMM_NULL;
    for (int i = 0; i < 256; i++)
        if (!cur->comms[i]) {
            cur->comms[i] = c;
            return H_(MPI_Comm, CBASE + i);
        }
    mpierr("too many communicators");
    return MPI_COMM_NULL;
}

static int crank(comm_t *c, int world)
{
    for (int i = 0; i < c->n; i++)
        if (c->world[i] == world)
            return i;
    return -1;
}

static comm_t *newcomm(int n, const int *w)
{
    comm_t *c = calloc(1, sizeof *c);
    c->id = next_id++;
    c->n = n;
    memcpy(c->world, w, n * sizeof(int));
    return c;
}

static req_t *newreq(MPI_Request *h, int kind)
{
    for (int i = 0; i < 2048; i++)
        if (!cur->reqs[i]) {
            req_t *r = calloc(1, sizeof *r);
            r->used = 1;
            r->kind = kind;
            r->pe = cur->id;
            r->order = order_no++;
            if ((int) rnd(100) < grace_pct)
                r->grace = rnd(4);
            cur->reqs[i] = r;
            *h = H_(MPI_Request, RBASE + i);
            return r;
        }
    mpierr("too many requests");
    return NULL;
}

static req_t *getreq(MPI_Request h)
{
    uintptr_t x = (uintptr_t) h;
    check_init();
    if (x >= RBASE && x < RBASE + 2048 && cur->reqs[x - RBASE])
        return cur->reqs[x - RBASE];
    mpierr("invalid request");
    return NULL;
}

static void dropreq(MPI_Request *h)
{
    uintptr_t x = (uintptr_t) *h - RBASE;
    free(cur->reqs[x]);
    cur->reqs[x] = NULL;
    *h = MPI_REQUEST_NULL;
}

/* ------------------------------------------------------------------ point to point */
static void capture(msg_t *m)
{
    if (m->captured)
        return;
    m->captured = 1;
    m->data = pack(m->ubuf, m->ucount, m->ut, &m->n);
}

static int matches(req_t *r, msg_t *m)
{
    return r->kind == R_RECV && !r->done && r->c == m->c && r->pe == m->dst &&
        (r->src == MPI_ANY_SOURCE || r->src == m->csrc) && (r->tag == MPI_ANY_TAG || r->tag == m->tag);
}

static void unlink_msg(msg_t *m)
{
    msg_t **x = &msgs;
    while (*x && *x != m)
        x = &(*x)->next;
    if (*x)
        *x = m->next;
    m->next = NULL;
}

static void deliver(req_t *r, msg_t *m)
{
    capture(m);
    if (m->n > (size_t) r->count * r->t->size)
        mpierr("message truncated: %zu bytes into a buffer of %zu", m->n, (size_t) r->count * r->t->size);
    unpack(r->buf, r->count, r->t, m->data, m->n);
    r->done = 1;
    r->st.MPI_SOURCE = m->csrc;
    r->st.MPI_TAG = m->tag;
    r->st.nbytes = m->n;
    m->matched = 1;
    int_mark = nsteps;
    unlink_msg(m);
}

static void msg_arrive(msg_t *m)
{
    req_t *best = NULL;
    pe_t *p = P[m->dst];
    m->arrived = 1;
    capture(m);
    int_mark = nsteps;
    for (int i = 0; i < 2048; i++)
        if (p->reqs[i] && matches(p->reqs[i], m) && (!best || p->reqs[i]->order < best->order))
            best = p->reqs[i];
    if (best)
        deliver(best, m);
}

/* an arrived message that (src, tag, c) matches: per source the oldest, between sources any */
static msg_t *find_arrived(comm_t *c, int src, int tag)
{
    msg_t *cand[MAXPE];
    int n = 0, seen[MAXPE] = { 0 };
    for (msg_t *m = msgs; m; m = m->next) {
        if (m->c != c || m->dst != cur->id || !m->arrived || m->matched)
            continue;
        if ((src != MPI_ANY_SOURCE && src != m->csrc) || (tag != MPI_ANY_TAG && tag != m->tag))
            continue;
        if (seen[m->csrc]++)
            continue;
        cand[n++] = m;
    }
    return n ? cand[rnd(n)] : NULL;
}

static msg_t *post_send(const void *buf, int n, MPI_Datatype d, int dst, int tag, comm_t *c, int sync)
{
    msg_t *m = calloc(1, sizeof *m), **x = &msgs;
    if (dst < 0 || dst >= c->n)
        mpierr("send to rank %d of %d", dst, c->n);
    if (tag < 0 || tag > tag_ub)
        mpierr("send with tag %d outside 0..%d", tag, tag_ub);
    if (n < 0)
        mpierr("send with count %d", n);
    m->src = cur->id;
    m->dst = c->world[dst];
    m->c = c;
    m->csrc = crank(c, cur->id);
    m->tag = tag;
    m->ubuf = buf;
    m->ucount = n;
    m->ut = usetype(d);
    m->sync = sync || (int) rnd(100) >= eager_pct;
    m->w = net_weight();
    if (!isbasic(m->ut)) {      /* the type may be freed before the data is read */
        dtype_t *t = malloc(sizeof *t);
        *t = *m->ut;
        m->ut = t;
    }
    while (*x)
        x = &(*x)->next;
    *x = m;
    return m;
}

static int send_done(msg_t *m)
{
    if (m->sync)
        return m->matched;
    return 1;
}

static int c_send(void *a)
{
    return send_done(a);
}

static int c_req(void *a);

static int send_(const void *buf, int n, MPI_Datatype d, int dst, int tag, MPI_Comm comm, int sync)
{
    sim_point("send");
    comm_t *c = getcomm(comm);
    if (dst == MPI_PROC_NULL)
        return 0;
    msg_t *m = post_send(buf, n, d, dst, tag, c, sync);
    block(c_send, m);
    capture(m);
    return 0;
}

int MPI_Send(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c)
{
    return send_(b, n, d, dst, tag, c, 0);
}

int MPI_Ssend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c)
{
    return send_(b, n, d, dst, tag, c, 1);
}

static int isend_(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm comm, MPI_Request *h, int sync)
{
    sim_point("isend");
    comm_t *c = getcomm(comm);
    msg_t *m = post_send(b, n, d, dst, tag, c, sync);
    req_t *r = newreq(h, R_SEND);
    r->m = m;
    return 0;
}

int MPI_Isend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, MPI_Request *h)
{
    return isend_(b, n, d, dst, tag, c, h, 0);
}

int MPI_Issend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, MPI_Request *h)
{
    return isend_(b, n, d, dst, tag, c, h, 1);
}

static void post_recv(req_t *r, void *b, int n, MPI_Datatype d, int src, int tag, comm_t *c)
{
    if (src != MPI_ANY_SOURCE && (src < 0 || src >= c->n))
        mpierr("receive from rank %d of %d", src, c->n);
    if (tag != MPI_ANY_TAG && (tag < 0 || tag > tag_ub))
        mpierr("receive with tag %d", tag);
    if (n < 0)
        mpierr("receive with count %d", n);
    r->buf = b;
    r->count = n;
    r->t = usetype(d);
    r->src = src;
    r->tag = tag;
    r->c = c;
    msg_t *m = find_arrived(c, src, tag);
    if (m)
        deliver(r, m);
}

int MPI_Irecv(void *b, int n, MPI_Datatype d, int src, int tag, MPI_Comm comm, MPI_Request *h)
{
    sim_point("irecv");
    comm_t *c = getcomm(comm);
    post_recv(newreq(h, R_RECV), b, n, d, src, tag, c);
    return 0;
}

int MPI_Recv(void *b, int n, MPI_Datatype d, int src, int tag, MPI_Comm comm, MPI_Status *st)
{
    MPI_Request h;
    sim_point("recv");
    comm_t *c = getcomm(comm);
    if (src == MPI_PROC_NULL)
        return 0;
    req_t *r = newreq(&h, R_RECV);
    post_recv(r, b, n, d, src, tag, c);
    block(c_req, r);
    if (st)
        *st = r->st;
    dropreq(&h);
    return 0;
}

int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype sd, int dst, int stag, void *rb, int rn, MPI_Datatype rd,
                 int src, int rtag, MPI_Comm comm, MPI_Status *st)
{
    MPI_Request h[2];
    MPI_Irecv(rb, rn, rd, src, rtag, comm, &h[0]);
    MPI_Isend(sb, sn, sd, dst, stag, comm, &h[1]);
    MPI_Wait(&h[0], st);
    return MPI_Wait(&h[1], MPI_STATUS_IGNORE);
}

static int probe_(int src, int tag, comm_t *c, MPI_Status *st)
{
    msg_t *m = find_arrived(c, src, tag);
    if (!m)
        return 0;
    if (st) {
        st->MPI_SOURCE = m->csrc;
        st->MPI_TAG = m->tag;
        st->nbytes = m->n;
    }
    return 1;
}

int MPI_Iprobe(int src, int tag, MPI_Comm comm, int *flag, MPI_Status *st)
{
    sim_point("iprobe");
    *flag = probe_(src, tag, getcomm(comm), st);
    return 0;
}

int MPI_Probe(int src, int tag, MPI_Comm comm, MPI_Status *st)
{
    do
        sim_point("probe");
    while (!probe_(src, tag, getcomm(comm), st));
    return 0;
}

/* ------------------------------------------------------------------ collectives */
static coll_t *coll_get(comm_t *c, int seq, int kind)
{
    for (coll_t *k = colls; k; k = k->next)
        if (k->c == c && k->seq == seq) {
            if (k->kind != kind)
                mpierr("collective mismatch on a communicator: kind %d against %d", kind, k->kind);
            return k;
        }
    coll_t *k = calloc(1, sizeof *k);
    k->c = c;
    k->seq = seq;
    k->kind = kind;
    k->next = colls;
    colls = k;
    return k;
}

static coll_t *coll_arrive(comm_t *c, int kind, int *rank)
{
    int r = crank(c, cur->id);
    coll_t *k = coll_get(c, c->seq[r]++, kind);
    k->arr[r] = 1;
    k->narr++;
    *rank = r;
    int_mark = nsteps;
    return k;
}

static int coll_ready(coll_t *k, int r)
{
    if (k->kind == C_BCAST || k->kind == C_SCATTER)
        return r == k->root[r] ? 1 : k->arr[k->root[r]];
    if ((k->kind == C_REDUCE || k->kind == C_GATHER) && r != k->root[r])
        return 1;
    if (k->kind == C_COMMFREE)
        return 1;
    if (k->kind == C_SCAN || k->kind == C_EXSCAN) {
        for (int i = 0; i < r; i++)
            if (!k->arr[i])
                return 0;
        return 1;
    }
    return k->narr == k->c->n;
}

static void coll_drop(coll_t *k)
{
    coll_t **x = &colls;
    while (*x && *x != k)
        x = &(*x)->next;
    if (*x)
        *x = k->next;
    for (int i = 0; i < MAXPE; i++) {
        free(k->sbuf[i]);
        free(k->sb0[i]);
        free(k->sbn[i]);
    }
    free(k);
}

/* the results of rank r, once ready */
static void coll_finish(coll_t *k, int r)
{
    int n = k->c->n;
    char *o = k->rbuf[r];
    switch (k->kind) {
        case C_BCAST: {
            int root = k->root[r];
            if (r != root) {
                if (k->root[root] != root)
                    mpierr("broadcast roots differ");
                if (k->sn[root] != (size_t) k->count[r] * k->t[r]->size)
                    mpierr("broadcast sizes differ");
                unpack(o, k->count[r], k->t[r], k->sbuf[root], k->sn[root]);
            }
            break;
        }
        case C_ALLGATHER:
        case C_GATHER:
            if (k->kind == C_GATHER && r != k->root[r])
                break;
            for (int i = 0; i < n; i++) {
                long disp = k->displs[r] ? k->displs[r][i] : (long) i * k->rcount[r];
                int cnt = k->rcounts[r] ? k->rcounts[r][i] : k->rcount[r];
                if (k->ipl[r] && i == r)
                    continue;
                if (k->sn[i] != (size_t) cnt * k->rt[r]->size)
                    mpierr("allgather: %zu bytes from rank %d, %zu expected", k->sn[i], i,
                           (size_t) cnt * k->rt[r]->size);
                unpack(o + disp * k->rt[r]->extent, cnt, k->rt[r], k->sbuf[i], k->sn[i]);
            }
            break;
        case C_ALLTOALL:
            for (int i = 0; i < n; i++) {
                long disp = k->displs[r] ? k->displs[r][i] : (long) i * k->rcount[r];
                int cnt = k->rcounts[r] ? k->rcounts[r][i] : k->rcount[r];
                if (k->sbn[i][r] != (size_t) cnt * k->rt[r]->size)
                    mpierr("alltoall: %zu bytes from rank %d, %zu expected", k->sbn[i][r], i,
                           (size_t) cnt * k->rt[r]->size);
                unpack(o + disp * k->rt[r]->extent, cnt, k->rt[r], k->sbuf[i] + k->sb0[i][r], k->sbn[i][r]);
            }
            break;
        case C_SCATTER: {
            int root = k->root[r];
            if (k->root[root] != root)
                mpierr("scatter roots differ");
            if (k->ipl[r])
                break;
            if (k->sbn[root][r] != (size_t) k->rcount[r] * k->rt[r]->size)
                mpierr("scatter: %zu bytes, %zu expected", k->sbn[root][r], (size_t) k->rcount[r] * k->rt[r]->size);
            unpack(o, k->rcount[r], k->rt[r], k->sbuf[root] + k->sb0[root][r], k->sbn[root][r]);
            break;
        }
        case C_SCAN:
        case C_EXSCAN: {
            int basic = k->t[r]->e[0].basic, sz = bsize(basic), last = k->kind == C_SCAN ? r : r - 1;
            char *acc;
            if (last < 0)
                break;
            acc = malloc(k->sn[0] + 1);
            memcpy(acc, k->sbuf[0], k->sn[0]);
            for (int i = 1; i <= last; i++) {
                if (k->sn[i] != k->sn[0] || k->op[i] != k->op[0] || k->t[i]->e[0].basic != basic)
                    mpierr("scan arguments differ");
                for (size_t q = 0; q + sz <= k->sn[0]; q += sz)
                    apply_op(k->op[r], basic, acc + q, k->sbuf[i] + q);
            }
            unpack(o, k->count[r], k->t[r], acc, k->sn[0]);
            free(acc);
            break;
        }
        case C_REDUCE:
            if (r != k->root[r])
                break;
        case C_ALLREDUCE: {
            int basic = k->t[r]->e[0].basic, sz = bsize(basic);
            size_t len = k->sn[r];
            char *acc = malloc(len + 1);
            for (int i = 0; i < n; i++)
                if (k->sn[i] != len || k->op[i] != k->op[r] || k->t[i]->e[0].basic != basic)
                    mpierr("allreduce arguments differ");
            memcpy(acc, k->sbuf[0], len);
            for (int i = 1; i < n; i++)
                for (size_t q = 0; q + sz <= len; q += sz)
                    apply_op(k->op[r], basic, acc + q, k->sbuf[i] + q);
            unpack(o, k->count[r], k->t[r], acc, len);
            free(acc);
            break;
        }
        default:
            break;
    }
    int_mark = nsteps;
    if (++k->nout == n)
        coll_drop(k);
}

struct cw { coll_t *k; int r; };
static int c_coll(void *a)
{
    struct cw *w = a;
    return coll_ready(w->k, w->r);
}

static void coll_wait(coll_t *k, int r)
{
    struct cw w = { k, r };
    block(c_coll, &w);
    coll_finish(k, r);
}

static void coll_req(coll_t *k, int r, MPI_Request *h)
{
    req_t *q = newreq(h, R_COLL);
    q->co = k;
    q->crank = r;
}

static void done_or_req(coll_t *k, int r, MPI_Request *h)
{
    if (h)
        coll_req(k, r, h);
    else
        coll_wait(k, r);
}

static int barrier_(MPI_Comm comm, MPI_Request *h)
{
    int r;
    sim_point("barrier");
    coll_t *k = coll_arrive(getcomm(comm), C_BARRIER, &r);
    done_or_req(k, r, h);
    return 0;
}

static int bcast_(void *b, int n, MPI_Datatype d, int root, MPI_Comm comm, MPI_Request *h)
{
    int r;
    sim_point("bcast");
    comm_t *c = getcomm(comm);
    if (root < 0 || root >= c->n)
        mpierr("broadcast from rank %d of %d", root, c->n);
    coll_t *k = coll_arrive(c, C_BCAST, &r);
    k->root[r] = root;
    k->t[r] = usetype(d);
    k->count[r] = n;
    k->rbuf[r] = b;
    if (r == root)
        k->sbuf[r] = pack(b, n, k->t[r], &k->sn[r]);
    done_or_req(k, r, h);
    return 0;
}

static int gather_(int kind, const void *sb, int sn, MPI_Datatype sd, void *rb, int rn, const int *rcs,
                   const int *dis, MPI_Datatype rd, int root, MPI_Comm comm, MPI_Request *h)
{
    int r;
    sim_point("gather");
    comm_t *c = getcomm(comm);
    coll_t *k = coll_arrive(c, kind, &r);
    k->root[r] = root;
    k->rbuf[r] = rb;
    k->rcount[r] = rn;
    k->rcounts[r] = rcs;
    k->displs[r] = dis;
    if (kind == C_ALLGATHER || r == root)
        k->rt[r] = usetype(rd);
    if (sb == MPI_IN_PLACE) {
        long disp = dis ? dis[r] : (long) r * rn;
        k->ipl[r] = 1;
        k->sbuf[r] = pack((char *) rb + disp * k->rt[r]->extent, rcs ? rcs[r] : rn, k->rt[r], &k->sn[r]);
    } else {
        if (kind == C_ALLGATHER && sn && rb && (char *) sb == (char *) rb && rcs == NULL)
            mpierr("allgather: send and receive buffers overlap");
        k->sbuf[r] = pack(sb, sn, usetype(sd), &k->sn[r]);
    }
    done_or_req(k, r, h);
    return 0;
}

/* the data each rank is sent, packed one after the other */
static void pack_blocks(coll_t *k, int r, const void *sb, int sn, const int *scs, const int *dis, dtype_t *t)
{
    int n = k->c->n;
    size_t tot = 0;
    k->sb0[r] = calloc(n, sizeof(size_t));
    k->sbn[r] = calloc(n, sizeof(size_t));
    k->sbuf[r] = malloc(1);
    for (int i = 0; i < n; i++) {
        size_t m;
        char *d = pack((const char *) sb + (dis ? dis[i] : (long) i * sn) * t->extent, scs ? scs[i] : sn, t, &m);
        k->sbuf[r] = realloc(k->sbuf[r], tot + m + 1);
        memcpy(k->sbuf[r] + tot, d, m);
        k->sb0[r][i] = tot;
        k->sbn[r][i] = m;
        tot += m;
        free(d);
    }
}

static int alltoall_(const void *sb, int sn, const int *scs, const int *sdi, MPI_Datatype sd, void *rb, int rn,
                     const int *rcs, const int *rdi, MPI_Datatype rd, MPI_Comm comm, MPI_Request *h)
{
    int r;
    sim_point("alltoall");
    comm_t *c = getcomm(comm);
    coll_t *k = coll_arrive(c, C_ALLTOALL, &r);
    k->rbuf[r] = rb;
    k->rcount[r] = rn;
    k->rcounts[r] = rcs;
    k->displs[r] = rdi;
    k->rt[r] = usetype(rd);
    if (sb == MPI_IN_PLACE)
        pack_blocks(k, r, rb, rn, rcs, rdi, k->rt[r]);
    else
        pack_blocks(k, r, sb, sn, scs, sdi, usetype(sd));
    done_or_req(k, r, h);
    return 0;
}

static int scatter_(const void *sb, int sn, const int *scs, const int *sdi, MPI_Datatype sd, void *rb, int rn,
                    MPI_Datatype rd, int root, MPI_Comm comm, MPI_Request *h)
{
    int r;
    sim_point("scatter");
    comm_t *c = getcomm(comm);
    if (root < 0 || root >= c->n)
        mpierr("scatter from rank %d of %d", root, c->n);
    coll_t *k = coll_arrive(c, C_SCATTER, &r);
    k->root[r] = root;
    k->rbuf[r] = rb;
    k->rcount[r] = rn;
    k->ipl[r] = rb == MPI_IN_PLACE;
    if (!k->ipl[r])
        k->rt[r] = usetype(rd);
    if (r == root)
        pack_blocks(k, r, sb, sn, scs, sdi, usetype(sd));
    done_or_req(k, r, h);
    return 0;
}

static int reduce_(int kind, const void *sb, void *rb, int n, MPI_Datatype d, MPI_Op o, int root, MPI_Comm comm,
                   MPI_Request *h)
{
    int r;
    sim_point("reduce");
    comm_t *c = getcomm(comm);
    dtype_t *t = usetype(d);
    int op = getop(o);
    if (!isbasic(t) || !op_ok(op, t->e[0].basic) || op == SIM_O_REPLACE || op == SIM_O_NOOP)
        mpierr("reduction not defined for this type and operation");
    if (n > 0 && sb == rb)
        mpierr("reduction with aliased buffers");
    coll_t *k = coll_arrive(c, kind, &r);
    k->root[r] = root;
    k->t[r] = t;
    k->count[r] = n;
    k->op[r] = op;
    k->rbuf[r] = rb;
    k->sbuf[r] = pack(sb == MPI_IN_PLACE ? rb : sb, n, t, &k->sn[r]);
    done_or_req(k, r, h);
    return 0;
}

int MPI_Barrier(MPI_Comm c) { return barrier_(c, NULL); }
int MPI_Ibarrier(MPI_Comm c, MPI_Request *h) { return barrier_(c, h); }
int MPI_Bcast(void *b, int n, MPI_Datatype d, int root, MPI_Comm c) { return bcast_(b, n, d, root, c, NULL); }
int MPI_Ibcast(void *b, int n, MPI_Datatype d, int root, MPI_Comm c, MPI_Request *h)
{
    return bcast_(b, n, d, root, c, h);
}

int MPI_Gather(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, int root, MPI_Comm c)
{
    return gather_(C_GATHER, s, sn, sd, r, rn, NULL, NULL, rd, root, c, NULL);
}

int MPI_Igather(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, int root, MPI_Comm c,
                MPI_Request *h)
{
    return gather_(C_GATHER, s, sn, sd, r, rn, NULL, NULL, rd, root, c, h);
}

int MPI_Allgather(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, MPI_Comm c)
{
    return gather_(C_ALLGATHER, s, sn, sd, r, rn, NULL, NULL, rd, 0, c, NULL);
}

int MPI_Iallgather(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, MPI_Comm c,
                   MPI_Request *h)
{
    return gather_(C_ALLGATHER, s, sn, sd, r, rn, NULL, NULL, rd, 0, c, h);
}

int MPI_Allgatherv(const void *s, int sn, MPI_Datatype sd, void *r, const int *rc, const int *di, MPI_Datatype rd,
                   MPI_Comm c)
{
    return gather_(C_ALLGATHER, s, sn, sd, r, 0, rc, di, rd, 0, c, NULL);
}

int MPI_Iallgatherv(const void *s, int sn, MPI_Datatype sd, void *r, const int *rc, const int *di, MPI_Datatype rd,
                    MPI_Comm c, MPI_Request *h)
{
    return gather_(C_ALLGATHER, s, sn, sd, r, 0, rc, di, rd, 0, c, h);
}

int MPI_Gatherv(const void *s, int sn, MPI_Datatype sd, void *r, const int *rc, const int *di, MPI_Datatype rd,
                int root, MPI_Comm c)
{
    return gather_(C_GATHER, s, sn, sd, r, 0, rc, di, rd, root, c, NULL);
}

int MPI_Igatherv(const void *s, int sn, MPI_Datatype sd, void *r, const int *rc, const int *di, MPI_Datatype rd,
                 int root, MPI_Comm c, MPI_Request *h)
{
    return gather_(C_GATHER, s, sn, sd, r, 0, rc, di, rd, root, c, h);
}

int MPI_Alltoall(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, MPI_Comm c)
{
    return alltoall_(s, sn, NULL, NULL, sd, r, rn, NULL, NULL, rd, c, NULL);
}

int MPI_Ialltoall(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, MPI_Comm c,
                  MPI_Request *h)
{
    return alltoall_(s, sn, NULL, NULL, sd, r, rn, NULL, NULL, rd, c, h);
}

int MPI_Alltoallv(const void *s, const int *sc, const int *sdi, MPI_Datatype sd, void *r, const int *rc,
                  const int *rdi, MPI_Datatype rd, MPI_Comm c)
{
    return alltoall_(s, 0, sc, sdi, sd, r, 0, rc, rdi, rd, c, NULL);
}

int MPI_Ialltoallv(const void *s, const int *sc, const int *sdi, MPI_Datatype sd, void *r, const int *rc,
                   const int *rdi, MPI_Datatype rd, MPI_Comm c, MPI_Request *h)
{
    return alltoall_(s, 0, sc, sdi, sd, r, 0, rc, rdi, rd, c, h);
}

int MPI_Scatter(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, int root, MPI_Comm c)
{
    return scatter_(s, sn, NULL, NULL, sd, r, rn, rd, root, c, NULL);
}

int MPI_Iscatter(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, int root, MPI_Comm c,
                 MPI_Request *h)
{
    return scatter_(s, sn, NULL, NULL, sd, r, rn, rd, root, c, h);
}

int MPI_Scatterv(const void *s, const int *sc, const int *di, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd,
                 int root, MPI_Comm c)
{
    return scatter_(s, 0, sc, di, sd, r, rn, rd, root, c, NULL);
}

int MPI_Scan(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c)
{
    return reduce_(C_SCAN, s, r, n, d, o, 0, c, NULL);
}

int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c)
{
    return reduce_(C_EXSCAN, s, r, n, d, o, 0, c, NULL);
}

int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, int root, MPI_Comm c)
{
    return reduce_(C_REDUCE, s, r, n, d, o, root, c, NULL);
}

int MPI_Ireduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, int root, MPI_Comm c, MPI_Request *h)
{
    return reduce_(C_REDUCE, s, r, n, d, o, root, c, h);
}

int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c)
{
    return reduce_(C_ALLREDUCE, s, r, n, d, o, 0, c, NULL);
}

int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c, MPI_Request *h)
{
    return reduce_(C_ALLREDUCE, s, r, n, d, o, 0, c, h);
}

/* ------------------------------------------------------------------ requests */
static int req_done(req_t *r)
{
    if (r->kind == R_SEND)
        return send_done(r->m);
    if (r->kind == R_COLL)
        return r->co ? coll_ready(r->co, r->crank) : 1;
    if (r->kind == R_RMA) {     /* complete at the origin; a put or accumulate may still be on its way */
        for (rma_t *x = rmas; x; x = x->next)
            if (x->rid == r->rid && x->kind != K_PUT && x->kind != K_ACC)
                return 0;
        return 1;
    }
    return r->done;
}

static int c_req(void *a)
{
    return req_done(a);
}

static void req_complete(MPI_Request *h, MPI_Status *st)
{
    req_t *r = getreq(*h);
    if (r->kind == R_SEND)
        capture(r->m);
    if (r->kind == R_COLL && r->co)
        coll_finish(r->co, r->crank);
    if (r->kind == R_RMA)
        for (rma_t *x = rmas; x; x = x->next)
            if (x->rid == r->rid)
                rma_snap(x);
    if (st)
        *st = r->st;
    dropreq(h);
}

int MPI_Wait(MPI_Request *h, MPI_Status *st)
{
    sim_point("wait");
    if (*h == MPI_REQUEST_NULL)
        return 0;
    block(c_req, getreq(*h));
    req_complete(h, st);
    return 0;
}

int MPI_Waitall(int n, MPI_Request h[], MPI_Status st[])
{
    for (int i = 0; i < n; i++)
        MPI_Wait(&h[i], st ? &st[i] : NULL);
    return 0;
}

int MPI_Waitany(int n, MPI_Request h[], int *idx, MPI_Status *st)
{
    for (;;) {
        int live = 0;
        sim_point("waitany");
        for (int i = 0; i < n; i++) {
            if (h[i] == MPI_REQUEST_NULL)
                continue;
            live = 1;
            if (req_done(getreq(h[i]))) {
                *idx = i;
                req_complete(&h[i], st);
                return 0;
            }
        }
        if (!live) {
            *idx = MPI_UNDEFINED;
            return 0;
        }
    }
}

static int test_ready(MPI_Request h)
{
    req_t *r = getreq(h);
    if (!req_done(r))
        return 0;
    if (r->grace > 0) {
        r->grace--;
        return 0;
    }
    return 1;
}

int MPI_Test(MPI_Request *h, int *flag, MPI_Status *st)
{
    sim_point("test");
    *flag = 1;
    if (*h == MPI_REQUEST_NULL)
        return 0;
    if (!test_ready(*h)) {
        *flag = 0;
        return 0;
    }
    req_complete(h, st);
    return 0;
}

int MPI_Testall(int n, MPI_Request h[], int *flag, MPI_Status st[])
{
    sim_point("testall");
    *flag = 1;
    for (int i = 0; i < n; i++)
        if (h[i] != MPI_REQUEST_NULL && !test_ready(h[i])) {
            *flag = 0;
            return 0;
        }
    for (int i = 0; i < n; i++)
        if (h[i] != MPI_REQUEST_NULL)
            req_complete(&h[i], st ? &st[i] : NULL);
    return 0;
}

int MPI_Testany(int n, MPI_Request h[], int *idx, int *flag, MPI_Status *st)
{
    sim_point("testany");
    int live = 0;
    *flag = 0;
    *idx = MPI_UNDEFINED;
    for (int i = 0; i < n; i++) {
        if (h[i] == MPI_REQUEST_NULL)
            continue;
        live = 1;
        if (test_ready(h[i])) {
            *idx = i;
            *flag = 1;
            req_complete(&h[i], st);
            return 0;
        }
    }
    if (!live)
        *flag = 1;
    return 0;
}

int MPI_Testsome(int n, MPI_Request h[], int *out, int idx[], MPI_Status st[])
{
    int live = 0;
    sim_point("testsome");
    *out = 0;
    for (int i = 0; i < n; i++) {
        if (h[i] == MPI_REQUEST_NULL)
            continue;
        live = 1;
        if (test_ready(h[i])) {
            req_complete(&h[i], st ? &st[*out] : NULL);
            idx[(*out)++] = i;
        }
    }
    if (!live)
        *out = MPI_UNDEFINED;
    return 0;
}

int MPI_Waitsome(int n, MPI_Request h[], int *out, int idx[], MPI_Status st[])
{
    do
        MPI_Testsome(n, h, out, idx, st);
    while (*out == 0);
    return 0;
}

int MPI_Request_get_status(MPI_Request h, int *flag, MPI_Status *st)
{
    sim_point("request_get_status");
    *flag = h == MPI_REQUEST_NULL || req_done(getreq(h));
    if (*flag && h != MPI_REQUEST_NULL && st)
        *st = getreq(h)->st;
    return 0;
}

int MPI_Cancel(MPI_Request *h)
{
    req_t *r = getreq(*h);
    if (r->kind == R_RECV && !r->done) {
        r->done = 1;
        r->st.MPI_ERROR = -77;
    }
    return 0;
}

int MPI_Test_cancelled(const MPI_Status *s, int *f)
{
    *f = s->MPI_ERROR == -77;
    return 0;
}

int MPI_Request_free(MPI_Request *h)
{
    getreq(*h);                 /* the operation goes on; a send still reads its buffer when it likes */
    *h = MPI_REQUEST_NULL;
    return 0;
}

/* ------------------------------------------------------------------ communicators, groups */
int MPI_Comm_rank(MPI_Comm c, int *r)
{
    *r = crank(getcomm(c), cur->id);
    return 0;
}

int MPI_Comm_size(MPI_Comm c, int *n)
{
    *n = getcomm(c)->n;
    return 0;
}

int MPI_Comm_dup(MPI_Comm comm, MPI_Comm *out)
{
    int r;
    sim_point("comm_dup");
    comm_t *c = getcomm(comm);
    coll_t *k = coll_arrive(c, C_DUP, &r);
    if (!k->res)
        k->res = newcomm(c->n, c->world);
    comm_t *n = k->res;
    coll_wait(k, r);
    *out = addcomm(n);
    return 0;
}

int MPI_Comm_dup_with_info(MPI_Comm c, MPI_Info i, MPI_Comm *o)
{
    return MPI_Comm_dup(c, o);
}

static int do_split(MPI_Comm comm, int color, int key, MPI_Comm *out)
{
    int r;
    sim_point("comm_split");
    comm_t *c = getcomm(comm);
    if (color < 0 && color != MPI_UNDEFINED)
        mpierr("MPI_Comm_split with color %d", color);
    coll_t *k = coll_arrive(c, C_SPLIT, &r);
    k->iv[r][0] = color;
    k->iv[r][1] = key;
    if (k->narr == c->n) {      /* the last arrival makes the new communicators */
        for (int i = 0; i < c->n; i++) {
            if (k->resv[i] || k->iv[i][0] == MPI_UNDEFINED)
                continue;
            int idx[MAXPE], w[MAXPE], n = 0;
            for (int j = 0; j < c->n; j++)
                if (k->iv[j][0] == k->iv[i][0])
                    idx[n++] = j;
            for (int a = 1; a < n; a++)
                for (int b = a; b > 0 && k->iv[idx[b]][1] < k->iv[idx[b - 1]][1]; b--) {
                    int x = idx[b];
                    idx[b] = idx[b - 1];
                    idx[b - 1] = x;
                }
            for (int j = 0; j < n; j++)
                w[j] = c->world[idx[j]];
            comm_t *nc = newcomm(n, w);
            for (int j = 0; j < n; j++)
                k->resv[idx[j]] = nc;
        }
    }
    struct cw w = { k, r };
    block(c_coll, &w);
    comm_t *n = k->resv[r];
    coll_finish(k, r);
    *out = addcomm(n);
    return 0;
}

int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out)
{
    return do_split(c, color, key, out);
}

int MPI_Comm_split_type(MPI_Comm c, int type, int key, MPI_Info i, MPI_Comm *out)
{
    return do_split(c, type == MPI_UNDEFINED ? MPI_UNDEFINED : cur->id / ppn, key, out);
}

static group_t *getgroup(MPI_Group g)
{
    static group_t empty;
    uintptr_t x = (uintptr_t) g;
    if (g == MPI_GROUP_EMPTY)
        return &empty;
    if (x >= GBASE && x < GBASE + 256 && cur->groups[x - GBASE].used)
        return &cur->groups[x - GBASE];
    mpierr("invalid group");
    return NULL;
}

static MPI_Group newgroup(int n, const int *w)
{
    for (int i = 0; i < 256; i++)
        if (!cur->groups[i].used) {
            cur->groups[i].used = 1;
            cur->groups[i].n = n;
            memcpy(cur->groups[i].world, w, n * sizeof(int));
            return H_(MPI_Group, GBASE + i);
        }
    mpierr("too many groups");
    return MPI_GROUP_NULL;
}

int MPI_Comm_group(MPI_Comm c, MPI_Group *g)
{
    comm_t *k = getcomm(c);
    *g = newgroup(k->n, k->world);
    return 0;
}

int MPI_Group_size(MPI_Group g, int *n)
{
    *n = getgroup(g)->n;
    return 0;
}

int MPI_Group_rank(MPI_Group g, int *n)
{
    group_t *k = getgroup(g);
    *n = MPI_UNDEFINED;
    for (int i = 0; i < k->n; i++)
        if (k->world[i] == cur->id)
            *n = i;
    return 0;
}

int MPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *out)
{
    group_t *k = getgroup(g);
    int w[MAXPE];
    if (n == 0) {
        *out = MPI_GROUP_EMPTY;
        return 0;
    }
    if (n < 0 || n > k->n)
        mpierr("MPI_Group_incl of %d ranks", n);
    for (int i = 0; i < n; i++) {
        if (r[i] < 0 || r[i] >= k->n)
            mpierr("MPI_Group_incl of rank %d of %d", r[i], k->n);
        for (int j = 0; j < i; j++)
            if (r[j] == r[i])
                mpierr("MPI_Group_incl of a rank twice");
        w[i] = k->world[r[i]];
    }
    *out = newgroup(n, w);
    return 0;
}

int MPI_Group_excl(MPI_Group g, int n, const int *r, MPI_Group *out)
{
    group_t *k = getgroup(g);
    int w[MAXPE], m = 0, gone[MAXPE] = { 0 };
    for (int i = 0; i < n; i++) {
        if (r[i] < 0 || r[i] >= k->n || gone[r[i]])
            mpierr("MPI_Group_excl of rank %d of %d", r[i], k->n);
        gone[r[i]] = 1;
    }
    for (int i = 0; i < k->n; i++)
        if (!gone[i])
            w[m++] = k->world[i];
    *out = m ? newgroup(m, w) : MPI_GROUP_EMPTY;
    return 0;
}

static int group_op(MPI_Group a, MPI_Group b, int in, int extra, MPI_Group *out)
{
    group_t *x = getgroup(a), *y = getgroup(b);
    int w[2 * MAXPE], m = 0;
    for (int i = 0; i < x->n; i++) {
        int f = 0;
        for (int j = 0; j < y->n; j++)
            f |= y->world[j] == x->world[i];
        if (in < 0 || f == in)
            w[m++] = x->world[i];
    }
    for (int j = 0; extra && j < y->n; j++) {
        int f = 0;
        for (int i = 0; i < x->n; i++)
            f |= y->world[j] == x->world[i];
        if (!f)
            w[m++] = y->world[j];
    }
    *out = m ? newgroup(m, w) : MPI_GROUP_EMPTY;
    return 0;
}

int MPI_Group_union(MPI_Group a, MPI_Group b, MPI_Group *o) { return group_op(a, b, -1, 1, o); }
int MPI_Group_intersection(MPI_Group a, MPI_Group b, MPI_Group *o) { return group_op(a, b, 1, 0, o); }
int MPI_Group_difference(MPI_Group a, MPI_Group b, MPI_Group *o) { return group_op(a, b, 0, 0, o); }

int MPI_Group_compare(MPI_Group a, MPI_Group b, int *res)
{
    group_t *x = getgroup(a), *y = getgroup(b);
    *res = MPI_UNEQUAL;
    if (x->n != y->n)
        return 0;
    if (!memcmp(x->world, y->world, x->n * sizeof(int))) {
        *res = MPI_IDENT;
        return 0;
    }
    for (int i = 0; i < x->n; i++) {
        int f = 0;
        for (int j = 0; j < y->n; j++)
            f |= y->world[j] == x->world[i];
        if (!f)
            return 0;
    }
    *res = MPI_SIMILAR;
    return 0;
}

int MPI_Group_range_incl(MPI_Group g, int n, int rg[][3], MPI_Group *out)
{
    int r[MAXPE], k = 0;
    for (int i = 0; i < n; i++)
        for (int x = rg[i][0]; rg[i][2] > 0 ? x <= rg[i][1] : x >= rg[i][1]; x += rg[i][2]) {
            if (k >= MAXPE)
                mpierr("MPI_Group_range_incl of too many ranks");
            r[k++] = x;
        }
    return MPI_Group_incl(g, k, r, out);
}

int MPI_Group_free(MPI_Group *g)
{
    if (*g != MPI_GROUP_EMPTY)
        getgroup(*g)->used = 0;
    *g = MPI_GROUP_NULL;
    return 0;
}

int MPI_Group_translate_ranks(MPI_Group a, int n, const int *ra, MPI_Group b, int *rb)
{
    group_t *x = getgroup(a), *y = getgroup(b);
    for (int i = 0; i < n; i++) {
        if (ra[i] == MPI_PROC_NULL) {
            rb[i] = MPI_PROC_NULL;
            continue;
        }
        if (ra[i] < 0 || ra[i] >= x->n)
            mpierr("MPI_Group_translate_ranks of rank %d of %d", ra[i], x->n);
        rb[i] = MPI_UNDEFINED;
        for (int j = 0; j < y->n; j++)
            if (y->world[j] == x->world[ra[i]])
                rb[i] = j;
    }
    return 0;
}

typedef struct cg { comm_t *parent; int tag, n, world[MAXPE], here[MAXPE], narr, nout; comm_t *c; struct cg *next; } cg_t;
static cg_t *cgs;
static int c_cg(void *a)
{
    cg_t *g = a;
    return g->narr == g->n;
}

int MPI_Comm_create_group(MPI_Comm comm, MPI_Group grp, int tag, MPI_Comm *out)
{
    sim_point("comm_create_group");
    comm_t *c = getcomm(comm);
    group_t *g = getgroup(grp);
    int me = -1;
    for (int i = 0; i < g->n; i++)
        if (g->world[i] == cur->id)
            me = i;
    if (me < 0) {
        *out = MPI_COMM_NULL;
        return 0;
    }
    cg_t *k;
    for (k = cgs; k; k = k->next)
        if (k->parent == c && k->tag == tag && k->n == g->n && !k->here[me] &&
            !memcmp(k->world, g->world, g->n * sizeof(int)))
            break;
    if (!k) {
        k = calloc(1, sizeof *k);
        k->parent = c;
        k->tag = tag;
        k->n = g->n;
        memcpy(k->world, g->world, g->n * sizeof(int));
        k->c = newcomm(g->n, g->world);
        cg_t **x = &cgs;
        while (*x)
            x = &(*x)->next;
        *x = k;
    }
    k->here[me] = 1;
    k->narr++;
    int_mark = nsteps;
    block(c_cg, k);
    *out = addcomm(k->c);
    return 0;
}

int MPI_Comm_create(MPI_Comm comm, MPI_Group grp, MPI_Comm *out)
{
    int r;
    sim_point("comm_create");
    comm_t *c = getcomm(comm);
    group_t *g = getgroup(grp);
    coll_t *k = coll_arrive(c, C_CREATE, &r);
    int me = 0;
    for (int i = 0; i < g->n; i++)
        if (g->world[i] == cur->id)
            me = 1;
    if (me) {
        comm_t *nc = NULL;
        for (int i = 0; i < c->n; i++) {
            comm_t *q = k->resv[i];
            if (q && q->n == g->n && !memcmp(q->world, g->world, g->n * sizeof(int)))
                nc = q;
        }
        k->resv[r] = nc ? nc : newcomm(g->n, g->world);
    }
    struct cw w = { k, r };
    block(c_coll, &w);
    comm_t *n = k->resv[r];
    coll_finish(k, r);
    *out = addcomm(n);
    return 0;
}

int MPI_Comm_free(MPI_Comm *comm)
{
    int r;
    sim_point("comm_free");
    comm_t *c = getcomm(*comm);
    if (c == world_comm || (uintptr_t) *comm < CBASE)
        mpierr("MPI_Comm_free of a predefined communicator");
    /* collective; may or may not synchronize */
    coll_t *k = coll_arrive(c, (c->id & 1) ? C_BARRIER : C_COMMFREE, &r);
    coll_wait(k, r);
    cur->comms[(uintptr_t) *comm - CBASE] = NULL;
    *comm = MPI_COMM_NULL;
    return 0;
}

int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *res)
{
    comm_t *x = getcomm(a), *y = getcomm(b);
    *res = x == y ? MPI_IDENT : (x->n == y->n && !memcmp(x->world, y->world, x->n * sizeof(int))) ? MPI_CONGRUENT :
        MPI_UNEQUAL;
    return 0;
}

int MPI_Comm_get_attr(MPI_Comm c, int key, void *val, int *flag)
{
    getcomm(c);
    *flag = key == MPI_TAG_UB;
    if (*flag)
        *(int **) val = &tag_ub;
    return 0;
}

int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler e) { return 0; }
int MPI_Win_set_errhandler(MPI_Win c, MPI_Errhandler e) { return 0; }
int MPI_Comm_set_info(MPI_Comm c, MPI_Info i) { return 0; }
int MPI_Win_set_info(MPI_Win c, MPI_Info i) { return 0; }
int MPI_Info_create(MPI_Info *i) { *i = H_(MPI_Info, 0x51); return 0; }
int MPI_Info_set(MPI_Info i, const char *k, const char *v)
{
    if (i == MPI_INFO_NULL)
        mpierr("MPI_Info_set on a null handle");
    return 0;
}

static win_t *getwin(MPI_Win h);
int MPI_Info_get(MPI_Info i, const char *k, int n, char *v, int *flag) { *flag = 0; return 0; }
int MPI_Info_dup(MPI_Info i, MPI_Info *o) { *o = i; return 0; }
int MPI_Win_set_name(MPI_Win w, const char *n) { getwin(w); return 0; }
int MPI_Comm_set_name(MPI_Comm c, const char *n) { getcomm(c); return 0; }
int MPI_Win_get_group(MPI_Win h, MPI_Group *g)
{
    win_t *w = getwin(h);
    *g = newgroup(w->c->n, w->c->world);
    return 0;
}

int MPI_Get_version(int *a, int *b) { *a = 3; *b = 1; return 0; }
int MPI_Info_free(MPI_Info *i) { *i = MPI_INFO_NULL; return 0; }

/* ------------------------------------------------------------------ windows and RMA */
static win_t *getwin(MPI_Win h)
{
    uintptr_t x = (uintptr_t) h;
    check_init();
    if (x >= WBASE && x < WBASE + 256 && cur->wins[x - WBASE])
        return cur->wins[x - WBASE];
    mpierr("invalid window");
    return NULL;
}

static int win_make(MPI_Comm comm, void *base, MPI_Aint size, int du, int dynamic, int alloc, MPI_Win *out,
                    void **abase)
{
    int r;
    sim_point("win_create");
    comm_t *c = getcomm(comm);
    coll_t *k = coll_arrive(c, C_WINCREATE, &r);
    if (!k->res) {
        win_t *w = calloc(1, sizeof *w);
        w->id = next_id++;
        w->c = c;
        w->dynamic = dynamic;
        w->alloc = alloc;
        k->res = w;
    }
    win_t *w = k->res;
    if (alloc) {
        base = mmap(NULL, size ? size + 8192 : 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_NORESERVE,
                    -1, 0);
        if (base == MAP_FAILED)
            mpierr("out of memory for a window");
        *abase = base;
    }
    w->base[r] = base;
    w->size[r] = size;
    w->du[r] = du;
    coll_wait(k, r);
    for (int i = 0; i < 256; i++)
        if (!cur->wins[i]) {
            cur->wins[i] = w;
            *out = H_(MPI_Win, WBASE + i);
            return 0;
        }
    mpierr("too many windows");
    return 0;
}

int MPI_Win_create(void *b, MPI_Aint n, int du, MPI_Info i, MPI_Comm c, MPI_Win *w)
{
    return win_make(c, b, n, du, 0, 0, w, NULL);
}

int MPI_Win_allocate(MPI_Aint n, int du, MPI_Info i, MPI_Comm c, void *b, MPI_Win *w)
{
    return win_make(c, NULL, n, du, 0, 1, w, (void **) b);
}

int MPI_Win_create_dynamic(MPI_Info i, MPI_Comm c, MPI_Win *w)
{
    return win_make(c, NULL, 0, 1, 1, 0, w, NULL);
}

int MPI_Win_attach(MPI_Win h, void *b, MPI_Aint n)
{
    win_t *w = getwin(h);
    int r = crank(w->c, cur->id);
    if (!w->dynamic)
        mpierr("MPI_Win_attach on a window that is not dynamic");
    if (w->natt[r] >= 64)
        mpierr("too many attached regions");
    w->att[r][w->natt[r]].b = b;
    w->att[r][w->natt[r]++].n = n;
    return 0;
}

int MPI_Win_detach(MPI_Win h, const void *b)
{
    win_t *w = getwin(h);
    int r = crank(w->c, cur->id);
    for (int i = 0; i < w->natt[r]; i++)
        if (w->att[r][i].b == b) {
            if (w->nwas[r] < 64) {
                w->was[r][w->nwas[r]].b = w->att[r][i].b;
                w->was[r][w->nwas[r]++].n = w->att[r][i].n;
            }
            w->att[r][i] = w->att[r][--w->natt[r]];
            return 0;
        }
    mpierr("MPI_Win_detach of memory that is not attached");
    return 0;
}

int MPI_Win_get_attr(MPI_Win h, int key, void *val, int *flag)
{
    static int model = MPI_WIN_UNIFIED;
    win_t *w = getwin(h);
    int r = crank(w->c, cur->id);
    *flag = 1;
    if (key == MPI_WIN_BASE)
        *(void **) val = w->base[r];
    else if (key == MPI_WIN_SIZE)
        *(MPI_Aint **) val = (MPI_Aint *) &w->size[r];
    else if (key == MPI_WIN_DISP_UNIT)
        *(int **) val = &w->du[r];
    else if (key == MPI_WIN_MODEL)
        *(int **) val = &model;
    else
        *flag = 0;
    return 0;
}

struct fl { win_t *w; int origin, target, local; };
static int c_flush(void *a)
{
    struct fl *f = a;
    for (rma_t *r = rmas; r; r = r->next)
        if (r->w == f->w && r->origin == f->origin && (f->target < 0 || r->target == f->target)) {
            if (f->local && (r->kind == K_PUT || r->kind == K_ACC))
                continue;
            return 0;
        }
    return 1;
}

/* take the origin data of a put or accumulate now */
static void rma_snap(rma_t *r)
{
    int n = 0;
    if (r->snap)
        return;
    for (int i = 0; i < r->n; i++)
        n += r->s[i].len;
    r->snap = malloc(n + 1);
    n = 0;
    for (int i = 0; i < r->n; i++) {
        memcpy(r->snap + n, r->s[i].o, r->s[i].len);
        r->s[i].o = r->snap + n;
        n += r->s[i].len;
    }
}

static void flush_(win_t *w, int target, int local)
{
    struct fl f = { w, cur->id, target < 0 ? -1 : w->c->world[target], local };
    block(c_flush, &f);
    if (local)
        for (rma_t *r = rmas; r; r = r->next)
            if (r->w == w && r->origin == cur->id && (f.target < 0 || r->target == f.target))
                rma_snap(r);
}

static void need_epoch(win_t *w)
{
    if (!w->locked[crank(w->c, cur->id)])
        mpierr("RMA synchronization outside an access epoch");
}

int MPI_Win_flush(int t, MPI_Win h)
{
    sim_point("flush");
    win_t *w = getwin(h);
    need_epoch(w);
    if (t < 0 || t >= w->c->n)
        mpierr("flush of rank %d", t);
    flush_(w, t, 0);
    return 0;
}

int MPI_Win_flush_all(MPI_Win h)
{
    sim_point("flush_all");
    win_t *w = getwin(h);
    need_epoch(w);
    flush_(w, -1, 0);
    return 0;
}

int MPI_Win_flush_local(int t, MPI_Win h)
{
    sim_point("flush_local");
    win_t *w = getwin(h);
    need_epoch(w);
    if (t < 0 || t >= w->c->n)
        mpierr("flush of rank %d", t);
    flush_(w, t, 1);
    return 0;
}

int MPI_Win_flush_local_all(MPI_Win h)
{
    sim_point("flush_local_all");
    win_t *w = getwin(h);
    need_epoch(w);
    flush_(w, -1, 1);
    return 0;
}

int MPI_Win_sync(MPI_Win h)
{
    sim_point("win_sync");
    getwin(h);
    return 0;
}

int MPI_Win_lock_all(int a, MPI_Win h)
{
    sim_point("lock_all");
    win_t *w = getwin(h);
    w->locked[crank(w->c, cur->id)]++;
    return 0;
}

int MPI_Win_lock(int type, int t, int a, MPI_Win h)
{
    if (type == MPI_LOCK_EXCLUSIVE)
        mpierr("exclusive window locks are not simulated");
    return MPI_Win_lock_all(a, h);
}

int MPI_Win_unlock_all(MPI_Win h)
{
    sim_point("unlock_all");
    win_t *w = getwin(h);
    need_epoch(w);
    flush_(w, -1, 0);
    w->locked[crank(w->c, cur->id)]--;
    return 0;
}

int MPI_Win_unlock(int t, MPI_Win h)
{
    sim_point("unlock");
    win_t *w = getwin(h);
    need_epoch(w);
    flush_(w, t, 0);
    w->locked[crank(w->c, cur->id)]--;
    return 0;
}

int MPI_Win_fence(int a, MPI_Win h)
{
    mpierr("MPI_Win_fence is not simulated");
    return 0;
}

int MPI_Win_free(MPI_Win *h)
{
    int r;
    sim_point("win_free");
    win_t *w = getwin(*h);
    if (w->locked[crank(w->c, cur->id)])
        mpierr("MPI_Win_free inside an access epoch");
    coll_t *k = coll_arrive(w->c, C_WINFREE, &r);
    coll_wait(k, r);
    w->freed[crank(w->c, cur->id)] = 1;
    r = crank(w->c, cur->id);
    for (int i = 0; i < w->nwas[r]; i++)
        for (int j = 0; j < cur->nwatch; j++)
            if (cur->watch[j].addr >= w->was[r][i].b && cur->watch[j].addr < w->was[r][i].b + w->was[r][i].n)
                cur->watch[j].on = 0;
    cur->wins[(uintptr_t) *h - WBASE] = NULL;
    *h = MPI_WIN_NULL;
    return 0;
}

static char *target_addr(win_t *w, int t, MPI_Aint disp)
{
    return w->dynamic ? (char *) disp : w->base[t] + disp * w->du[t];
}

static void check_range(win_t *w, int t, char *a, int n)
{
    if (w->dynamic) {
        for (int i = 0; i < w->natt[t]; i++)
            if (a >= w->att[t][i].b && a + n <= w->att[t][i].b + w->att[t][i].n)
                return;
        mpierr("RMA to memory that is not attached");
    }
    if (a < w->base[t] || a + n > w->base[t] + w->size[t])
        mpierr("RMA outside the window: offset %ld, %d bytes, window of %ld", (long) (a - w->base[t]), n, w->size[t]);
}

static long cur_rid;

static void rma_add(rma_t *r)
{
    r->wt = net_weight();
    r->rid = cur_rid;
    /* no order between operations: insert anywhere */
    r->next = rmas;
    rmas = r;
}

static int quiet_issue;

static void rma_issue(int kind, const void *ob, int on, MPI_Datatype od, void *res, int t, MPI_Aint disp, int tn,
                      MPI_Datatype td, int op, MPI_Win h)
{
    if (!quiet_issue)           /* one of another process must not run while cur_rid is set */
        sim_point("rma");
    quiet_issue = 0;
    win_t *w = getwin(h);
    need_epoch(w);
    if (t == MPI_PROC_NULL)
        return;
    if (t < 0 || t >= w->c->n)
        mpierr("RMA to rank %d of %d", t, w->c->n);
    if (on < 0 || tn < 0)
        mpierr("RMA with count %d", on < 0 ? on : tn);
    dtype_t *ot = usetype(od), *tt = usetype(td);
    char **oa, **ta;
    int *obs, *tbs;
    if (op == SIM_O_NOOP && kind == K_GACC) {
        ob = res;               /* the origin buffer is ignored */
    }
    int n1 = flatten(ob, on, ot, &oa, &obs);
    int n2 = flatten(target_addr(w, t, disp), tn, tt, &ta, &tbs);
    if (n1 != n2)
        mpierr("RMA: origin has %d basic elements, target %d", n1, n2);
    for (int i = 0; i < n1; i++)
        if (bsize(obs[i]) != bsize(tbs[i]))
            mpierr("RMA: element %d has size %d at the origin and %d at the target", i, bsize(obs[i]), bsize(tbs[i]));
    if (kind == K_ACC || kind == K_GACC)
        for (int i = 0; i < n1; i++)
            if (!op_ok(op, tbs[i]))
                mpierr("accumulate: operation not defined on the type");
    for (int i = 0; i < n2; i++)
        check_range(w, t, ta[i], bsize(tbs[i]));
    /* split into up to three parts, at 16-byte boundaries of the target when the type is bytes */
    int parts = n1 > 1 && (int) rnd(100) < split_pct ? 2 + rnd(2) : 1;
    int cut[4] = { 0, n1, n1, n1 };
    if (parts >= 2) {
        cut[1] = 1 + rnd(n1 - 1);
        if (parts == 3)
            cut[2] = cut[1] + rnd(n1 - cut[1] + 1);
        for (int k = 1; k <= 2; k++)
            while (cut[k] > 0 && cut[k] < n1 && bsize(tbs[cut[k]]) == 1 && ((uintptr_t) ta[cut[k]] & 15))
                cut[k]++;
        if (cut[2] < cut[1])
            cut[2] = cut[1];
    }
    for (int k = 0; k < 3; k++) {
        int a = cut[k], z = cut[k + 1];
        if (a >= z)
            continue;
        rma_t *r = calloc(1, sizeof *r);
        r->kind = kind;
        r->origin = cur->id;
        r->target = w->c->world[t];
        r->w = w;
        r->op = op;
        r->s = malloc(sizeof(seg_t) * (z - a));
        r->basic = tbs[a];
        for (int i = a; i < z; i++) {
            int len = bsize(tbs[i]);
            seg_t *s = r->n ? &r->s[r->n - 1] : NULL;
            if (s && (kind == K_PUT || kind == K_GET) && s->o + s->len == oa[i] && s->t + s->len == ta[i])
                s->len += len;
            else {
                s = &r->s[r->n++];
                s->o = oa[i];
                s->t = ta[i];
                s->len = len;
                s->res = res ? (char *) res + (oa[i] - (char *) ob) : NULL;
            }
        }
        rma_add(r);
    }
    free(oa);
    free(ta);
    free(obs);
    free(tbs);
}

int MPI_Put(const void *o, int on, MPI_Datatype od, int t, MPI_Aint d, int tn, MPI_Datatype td, MPI_Win w)
{
    rma_issue(K_PUT, o, on, od, NULL, t, d, tn, td, 0, w);
    return 0;
}

int MPI_Get(void *o, int on, MPI_Datatype od, int t, MPI_Aint d, int tn, MPI_Datatype td, MPI_Win w)
{
    rma_issue(K_GET, o, on, od, NULL, t, d, tn, td, 0, w);
    return 0;
}

int MPI_Accumulate(const void *o, int on, MPI_Datatype od, int t, MPI_Aint d, int tn, MPI_Datatype td, MPI_Op op,
                   MPI_Win w)
{
    rma_issue(K_ACC, o, on, od, NULL, t, d, tn, td, getop(op), w);
    return 0;
}

int MPI_Get_accumulate(const void *o, int on, MPI_Datatype od, void *r, int rn, MPI_Datatype rd, int t, MPI_Aint d,
                       int tn, MPI_Datatype td, MPI_Op op, MPI_Win w)
{
    rma_issue(K_GACC, o, on, od, r, t, d, tn, td, getop(op), w);
    return 0;
}

int MPI_Fetch_and_op(const void *o, void *r, MPI_Datatype d, int t, MPI_Aint disp, MPI_Op op, MPI_Win w)
{
    if (!isbasic(usetype(d)))
        mpierr("MPI_Fetch_and_op with a derived type");
    if (op == MPI_NO_OP)
        o = r;
    rma_issue(K_GACC, o, 1, d, r, t, disp, 1, d, getop(op), w);
    return 0;
}

int MPI_Compare_and_swap(const void *o, const void *c, void *res, MPI_Datatype d, int t, MPI_Aint disp, MPI_Win h)
{
    dtype_t *ty = usetype(d);
    int cl = isbasic(ty) ? bclass(ty->e[0].basic) : -1;
    if (cl != CL_INT && cl != CL_UINT && cl != CL_BOOL && cl != CL_BYTE)
        mpierr("MPI_Compare_and_swap on a type it does not allow");
    sim_point("cas");
    win_t *w = getwin(h);
    need_epoch(w);
    if (t < 0 || t >= w->c->n)
        mpierr("RMA to rank %d of %d", t, w->c->n);
    rma_t *r = calloc(1, sizeof *r);
    r->kind = K_CAS;
    r->origin = cur->id;
    r->target = w->c->world[t];
    r->w = w;
    r->basic = ty->e[0].basic;
    r->s = calloc(1, sizeof(seg_t));
    r->n = 1;
    r->s[0].o = (char *) o;
    r->ucmp = c;
    r->s[0].res = res;
    r->s[0].t = target_addr(w, t, disp);
    r->s[0].len = ty->size;
    check_range(w, t, r->s[0].t, ty->size);
    rma_add(r);
    return 0;
}

static long rids;

static void rma_req(MPI_Request *h)
{
    newreq(h, R_RMA)->rid = rids;
    cur_rid = 0;
}

int MPI_Rput(const void *o, int on, MPI_Datatype od, int t, MPI_Aint d, int tn, MPI_Datatype td, MPI_Win w,
             MPI_Request *h)
{
    sim_point("rput");
    quiet_issue = 1;
    cur_rid = ++rids;
    rma_issue(K_PUT, o, on, od, NULL, t, d, tn, td, 0, w);
    rma_req(h);
    return 0;
}

int MPI_Rget(void *o, int on, MPI_Datatype od, int t, MPI_Aint d, int tn, MPI_Datatype td, MPI_Win w,
             MPI_Request *h)
{
    sim_point("rget");
    quiet_issue = 1;
    cur_rid = ++rids;
    rma_issue(K_GET, o, on, od, NULL, t, d, tn, td, 0, w);
    rma_req(h);
    return 0;
}

int MPI_Raccumulate(const void *o, int on, MPI_Datatype od, int t, MPI_Aint d, int tn, MPI_Datatype td, MPI_Op op,
                    MPI_Win w, MPI_Request *h)
{
    sim_point("raccumulate");
    quiet_issue = 1;
    cur_rid = ++rids;
    rma_issue(K_ACC, o, on, od, NULL, t, d, tn, td, getop(op), w);
    rma_req(h);
    return 0;
}

int MPI_Rget_accumulate(const void *o, int on, MPI_Datatype od, void *r, int rn, MPI_Datatype rd, int t, MPI_Aint d,
                        int tn, MPI_Datatype td, MPI_Op op, MPI_Win w, MPI_Request *h)
{
    sim_point("rget_accumulate");
    quiet_issue = 1;
    cur_rid = ++rids;
    rma_issue(K_GACC, o, on, od, r, t, d, tn, td, getop(op), w);
    rma_req(h);
    return 0;
}

static void rma_step(rma_t *r)
{
    int_mark = nsteps;
    if (r->phase == 0) {
        int n = 0;
        for (int i = 0; i < r->n; i++)
            n += r->s[i].len;
        if (r->kind != K_PUT && r->kind != K_ACC)
            r->tmp = malloc(n + 1);
        n = 0;
        for (int i = 0; i < r->n; i++) {
            seg_t *s = &r->s[i];
            switch (r->kind) {
                case K_PUT: {
                    rma_t *a = NULL;
                    char pre[32];
                    if (races_on)
                        for (a = rmas; a; a = a->next)
                            if (is_acc(a) && s->t <= a->s[0].t && a->s[0].t + a->s[0].len <= s->t + s->len)
                                break;
                    if (a)
                        memcpy(pre, a->s[0].t, a->s[0].len);
                    memmove(s->t, s->o, s->len);
                    if (a && rnd(2))
                        race(a, pre, 0);
                    break;
                }
                case K_GET:
                    memcpy(r->tmp + n, s->t, s->len);
                    break;
                case K_ACC:
                    apply_op(r->op, r->basic, s->t, s->o);
                    break;
                case K_GACC: {
                    char org[32];
                    memcpy(org, s->o, s->len);
                    memcpy(r->tmp + n, s->t, s->len);
                    apply_op(r->op, r->basic, s->t, org);
                    break;
                }
                case K_CAS:
                    memcpy(r->tmp + n, s->t, s->len);
                    if (!memcmp(s->t, r->ucmp, s->len))
                        memcpy(s->t, s->o, s->len);
                    break;
            }
            n += s->len;
        }
        if (r->tmp) {
            r->phase = 1;
            r->wt = net_weight();
            if (rnd(2))
                return;
        }
    }
    if (r->tmp) {
        int n = 0;
        for (int i = 0; i < r->n; i++) {
            seg_t *s = &r->s[i];
            memcpy(r->kind == K_GET ? s->o : s->res, r->tmp + n, s->len);
            n += s->len;
        }
    }
    rma_done(r);
}

static void rma_done(rma_t *r)
{
    rma_t **x = &rmas;
    while (*x && *x != r)
        x = &(*x)->next;
    if (*x)
        *x = r->next;
    free(r->tmp);
    free(r->snap);
    free(r->s);
    free(r);
}

/* ------------------------------------------------------------------ init, finalize */
static int initialised_by_script;

int MPI_Init_thread(int *a, char ***v, int req, int *prov)
{
    sim_point("init");
    if (cur->inited)
        mpierr("MPI_Init_thread called twice");
    cur->inited = 1;
    if (req < MPI_THREAD_SINGLE || req > MPI_THREAD_MULTIPLE)
        mpierr("MPI_Init_thread with level %d", req);
    cur->tlevel = req < thread_max ? req : thread_max;
    *prov = cur->tlevel;
    rawlog("{\"e\":\"mpi_init\",\"p\":%d,\"v\":%d}", cur->id, cur->tlevel);
    return 0;
}

int MPI_Init(int *a, char ***v)
{
    int p;
    return MPI_Init_thread(a, v, MPI_THREAD_SINGLE, &p);
}

int MPI_Initialized(int *f) { *f = cur->inited; return 0; }
int MPI_Finalized(int *f) { *f = cur->finalized; return 0; }
int MPI_Query_thread(int *p) { check_init(); *p = cur->tlevel; return 0; }
int MPI_Is_thread_main(int *f) { *f = 1; return 0; }

int MPI_Finalize(void)
{
    int r;
    sim_point("finalize");
    if (!cur->inited || cur->finalized)
        mpierr("MPI_Finalize called twice or before MPI_Init");
    coll_t *k = coll_arrive(world_comm, C_FINALIZE, &r);
    coll_wait(k, r);
    sim_diff();
    rawlog("{\"e\":\"mpi_fin\",\"p\":%d}", cur->id);
    cur->finalized = 1;
    return 0;
}

int MPI_Abort(MPI_Comm c, int code)
{
    sim_diff();
    rawlog("{\"e\":\"abort\",\"p\":%d,\"v\":%d}", cur->id, code);
    flush_exit(6);
    return 0;
}

int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "sim"); *l = 3; return 0; }
double MPI_Wtime(void) { return nsteps * 1e-6; }
double MPI_Wtick(void) { return 1e-6; }
int MPI_Error_string(int e, char *s, int *l) { strcpy(s, "error"); *l = 5; return 0; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint) p; return 0; }
MPI_Aint MPI_Aint_add(MPI_Aint a, MPI_Aint b) { return a + b; }
MPI_Aint MPI_Aint_diff(MPI_Aint a, MPI_Aint b) { return a - b; }
int MPI_T_init_thread(int r, int *p) { *p = r; return 0; }
int MPI_T_finalize(void) { return 0; }
int MPI_T_cvar_get_index(const char *n, int *i) { return MPI_T_ERR_INVALID_NAME; }
int MPI_T_cvar_handle_alloc(int i, void *o, MPI_T_cvar_handle *h, int *c) { return MPI_ERR_OTHER; }
int MPI_T_cvar_handle_free(MPI_T_cvar_handle *h) { return 0; }
int MPI_T_cvar_read(MPI_T_cvar_handle h, void *b) { return MPI_ERR_OTHER; }
int MPI_T_cvar_write(MPI_T_cvar_handle h, const void *b) { return MPI_ERR_OTHER; }
int MPI_T_cvar_get_num(int *n) { *n = 0; return 0; }

/* ------------------------------------------------------------------ main */
static char *readfile(const char *f)
{
    FILE *h = fopen(f, "r");
    if (!h) {
        perror(f);
        exit(2);
    }
    fseek(h, 0, SEEK_END);
    long n = ftell(h);
    rewind(h);
    char *b = malloc(n + 1);
    if (fread(b, 1, n, h) != (size_t) n)
        exit(2);
    b[n] = 0;
    fclose(h);
    return b;
}

static void *so[MAXPE];
static int (*mains[MAXPE])(void);

static void child(uint64_t seed)
{
    struct sigaction sa = { 0 };
    static char altstack[65536];
    stack_t ss = {.ss_sp = altstack,.ss_size = sizeof altstack };
    sigaltstack(&ss, NULL);
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK;
    sigaction(SIGSEGV, &sa, NULL);
    sigaction(SIGBUS, &sa, NULL);
    sigaction(SIGFPE, &sa, NULL);
    sigaction(SIGILL, &sa, NULL);
    sigaction(SIGABRT, &sa, NULL);
    sa.sa_handler = on_alarm;
    sigaction(SIGVTALRM, &sa, NULL);
    rs = seed * 0x2545f4914f6cdd1dull + 12345;
    rnd64();
    styl = rnd(5);
    eager_pct = (int[]) { 100, 50, 0, 80, 20 }[rnd(5)];
    split_pct = (int[]) { 0, 50, 90 }[rnd(3)];
    grace_pct = (int[]) { 0, 0, 40 }[rnd(3)];
    races_on = seed % 2;
    init_basics();
    int w[MAXPE];
    for (int i = 0; i < NP; i++)
        w[i] = i;
    world_comm = newcomm(NP, w);
    for (int i = 0; i < NP; i++)
        self_comm[i] = newcomm(1, &i);
    int uniform = rnd(3) == 0;
    for (int i = 0; i < NP; i++) {
        pe_t *p = calloc(1, sizeof *p);
        P[i] = p;
        p->id = i;
        p->w = uniform ? 1 : draw_weight();
        p->main = mains[i];
        p->stack = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_NORESERVE, -1, 0);
        getcontext(&p->uc);
        p->uc.uc_stack.ss_sp = p->stack;
        p->uc.uc_stack.ss_size = STACK;
        p->uc.uc_link = &sched_uc;
        makecontext(&p->uc, pe_entry, 0);
    }
    /* "env K=V" and "simopt name value" and "turns p p p ..." lines of the script */
    char *s = strdup(script), *sv = NULL;
    for (char *l = strtok_r(s, "\n", &sv); l; l = strtok_r(NULL, "\n", &sv)) {
        if (!strncmp(l, "env ", 4)) {
            for (int i = 0; i < NP; i++)
                P[i]->env[P[i]->nenv++] = strdup(l + 4);
        } else if (!strncmp(l, "simopt ", 7)) {
            char nm[32];
            int v;
            if (sscanf(l + 7, "%31s %d", nm, &v) == 2) {
                if (!strcmp(nm, "tag_ub"))
                    tag_ub = v;
                else if (!strcmp(nm, "thread_max"))
                    thread_max = v;
                else if (!strcmp(nm, "ppn"))
                    ppn = v;
                else if (!strcmp(nm, "style"))
                    styl = v;
                else if (!strcmp(nm, "eager"))
                    eager_pct = v;
                else if (!strcmp(nm, "split"))
                    split_pct = v;
            }
        } else if (!strncmp(l, "turns", 5)) {
            char *q = l + 5;
            int k, v;
            while (sscanf(q, "%d%n", &v, &k) == 1 && nturns < 4096) {
                turns[nturns++] = v;
                q += k;
            }
        }
    }
    free(s);
    schedule();
    flush_exit(0);
}

static uint64_t hash(const char *b, size_t n)
{
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++)
        h = (h ^ (unsigned char) b[i]) * 1099511628211ull;
    return h;
}

int main(int argc, char **argv)
{
    char path[4096];
    if (argc < 7) {
        fprintf(stderr, "usage: sim dir npes script seed0 count out\n");
        return 2;
    }
    NP = atoi(argv[2]);
    script = readfile(argv[3]);
    long seed0 = atol(argv[4]), count = atol(argv[5]);
    int verbose = getenv("SIM_VERBOSE") != NULL;
    FILE *out = strcmp(argv[6], "-") ? fopen(argv[6], "w") : stdout;
    if (!out) {
        perror(argv[6]);
        return 2;
    }
    for (int i = 0; i < NP; i++) {
        snprintf(path, sizeof path, "%s/pe%d.so", argv[1], i);
        so[i] = dlopen(path, RTLD_LAZY | RTLD_LOCAL);
        if (!so[i]) {
            fprintf(stderr, "%s\n", dlerror());
            return 2;
        }
        mains[i] = (int (*)(void)) dlsym(so[i], "pe_main");
        if (!mains[i]) {
            fprintf(stderr, "pe_main missing\n");
            return 2;
        }
    }
    uint64_t *seen = calloc(count + 1, sizeof *seen);
    long nseen = 0;
    if (getenv("SIM_DEBUG"))
        dbg = stderr;
    for (long k = 0; k < count; k++) {
        int pfd[2];
        if (pipe(pfd))
            return 2;
        fflush(NULL);
        pid_t pid = fork();
        if (pid == 0) {
            close(pfd[0]);
            outfd = pfd[1];
            if (!verbose) {
                int n = open("/dev/null", O_WRONLY);
                dup2(n, 1);
                dup2(n, 2);
            }
            child(seed0 + k);
        }
        close(pfd[1]);
        char *b = NULL;
        size_t n = 0, cap = 0;
        int late = 0;
        for (;;) {
            struct pollfd pf = { pfd[0], POLLIN, 0 };
            int pr = poll(&pf, 1, 60000);
            if (pr == 0) {
                late = 1;
                kill(pid, SIGKILL);
                break;
            }
            if (n + 65536 > cap) {
                cap = (n + 65536) * 2;
                b = realloc(b, cap);
            }
            ssize_t r = read(pfd[0], b + n, 65536);
            if (r <= 0)
                break;
            n += r;
        }
        close(pfd[0]);
        int st;
        waitpid(pid, &st, 0);
        if (late || (WIFSIGNALED(st))) {
            b = realloc(b, n + 256);
            n += sprintf(b + n, "{\"e\":\"err\",\"p\":-1,\"m\":\"%s\"}\n", late ? "timeout" : "killed");
        }
        uint64_t h = hash(b ? b : "", n);
        int dup = 0;
        for (long i = 0; i < nseen; i++)
            if (seen[i] == h)
                dup = 1;
        if (dup) {
            free(b);
            continue;
        }
        seen[nseen++] = h;
        int lines = 0;
        for (size_t i = 0; i < n; i++)
            lines += b[i] == '\n';
        fprintf(out, "{\"trace\":%ld,\"seed\":%ld,\"n\":%d}\n", nseen, seed0 + k, lines);
        if (n)
            fwrite(b, 1, n, out);
        free(b);
    }
    fclose(out);
    return 0;
}
