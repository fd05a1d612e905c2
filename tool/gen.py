"""Random OpenSHMEM programs for the simulator, grouped in families.

Every program is correct OpenSHMEM: what it does has only outcomes the specification defines, so that
whatever the library answers can be judged by the specification (spec/TraceShmem.tla).
A family is a function (rng, big) -> Prog.
"""
import random

RMA = "float double longdouble char schar short int long longlong uchar ushort uint ulong ulonglong int8 int16 int32 int64 uint8 uint16 uint32 uint64 size ptrdiff".split()
GEN = "float double longdouble char schar short int long longlong uchar ushort uint ulong ulonglong".split()
SIZE = dict(float=4, double=8, longdouble=16, char=1, schar=1, short=2, int=4, long=8, longlong=8, uchar=1, ushort=2,
            uint=4, ulong=8, ulonglong=8, int8=1, int16=2, int32=4, int64=8, uint8=1, uint16=2, uint32=4, uint64=8,
            size=8, ptrdiff=8, complexf=8, complexd=16)
SIZE.update({"8": 1, "16": 2, "32": 4, "64": 8, "128": 16})
AMO_STD = "int long longlong uint ulong ulonglong int32 int64 uint32 uint64 size ptrdiff".split()
AMO_FLT = ["float", "double"]
AMO_BIT = "uint ulong ulonglong int32 int64 uint32 uint64".split()
AMO_GEN = "int long longlong uint ulong ulonglong".split()
AMO_OLD = "int long longlong".split()
GEN_BIT = "uint ulong ulonglong".split()
FETCHING = ["fetch", "finc", "fadd", "swap", "cswap", "fand", "for", "fxor"]
P2P = ["short", "ushort"] + AMO_STD
P2P_GEN = ["short", "ushort"] + AMO_GEN
P2P_OLD = ["short", "int", "long", "longlong"]


class Prog:
    def __init__(self, r, n, seeds=24):
        self.r, self.n, self.seeds = r, n, seeds
        self.head, self.body = [], []
        self.objs = []
        self.cell = 0
        self.val = 0
        self.heap = 1 << 27
        self.tmax = 3
        self.ppn = 64
        self.sets = {}
        self.segs = ["h", "d"]

    def text(self):
        return "\n".join(self.head + self.body) + "\n"

    def env(self, k, v):
        self.head.append(f"env {k}={v}")

    def opt(self, k, v):
        self.head.append(f"simopt {k} {v}")

    def obj(self, ty, n, mode="o", seg=None, w=1):
        i = len(self.objs)
        given = seg
        seg = seg or self.r.choice(self.segs)
        o = dict(id=i, ty=ty, n=n, mode=mode, seg=seg, cell=self.cell)
        self.objs.append(o)
        self.head.append(f"obj {i} {seg} {ty} {n} {mode} {self.cell}" + (f" {w}" if w > 1 else ""))
        self.cell += n
        if seg[0] == "s" and not given:
            self.all("sobj", i, int(seg[1:]))
        return o

    def segments(self, prob=.35):
        """perhaps objects in attached spaces, too"""
        if self.r.random() < prob:
            for k in range(self.r.choice([1, 2, 2])):
                self.all("space_create", k, 65536, self.r.choice([0, 1]), self.r.choice([0, 1]))
                self.all("space_attach", k)
                self.segs.append(f"s{k}")

    def close_segments(self):
        for k in range(len(self.segs) - 2):
            self.all("space_detach", k)
            for o in self.objs:
                if o["seg"] == f"s{k}":
                    self.all("sobj_free", o["id"])
            self.all("space_destroy", k)

    def put(self, pe, *a):
        self.body.append(" ".join([str(pe)] + [str(x) for x in a]))

    def all(self, *a):
        self.put("*", *a)

    def fresh(self, o, k=1):
        """k consecutive values for object o"""
        lim = 100 if SIZE[o["ty"]] == 1 else 30000
        if self.val + k >= lim:
            self.val = 0
        v = self.val + 1
        self.val += k
        return v

    def modes(self, amo=True, rma=True):
        r = self.r
        if amo and r.random() < .5:
            self.env("OSHMPI_AMO_DBG_MODE", r.choice(["am", "direct", "auto"]))
        if rma and r.random() < .4:
            self.env("OSHMPI_RMA_DBG_MODE", r.choice(["am", "direct", "auto"]))

    def style(self):
        r = self.r
        if r.random() < .5:
            self.opt("style", r.randrange(0, 5))
        if r.random() < .3:
            self.opt("eager", r.choice([0, 20, 80, 100]))
        if r.random() < .3:
            self.opt("split", r.choice([0, 50, 100]))


def put_api(r, ty, kind):
    c = [ty]
    if ty in GEN:
        c.append("G" + ty)
    if kind not in ("p", "g"):
        c.append(str(SIZE[ty] * 8))
        if kind not in ("iput", "iget"):
            c.append("mem")
    return r.choice(c)


def emit_put(P, pe, o, t, ctx="d", lo=0, hi=None, kinds=None, flag=True):
    """a put by pe into elements lo..hi-1 of o on PE t"""
    r = P.r
    hi = o["n"] if hi is None else hi
    kind = r.choice(kinds or ["put", "put", "putn", "p", "iput"])
    if kind == "p":
        n, st, ss, i = 1, 1, 1, r.randrange(lo, hi)
    elif kind == "iput":
        st, ss = r.choice([1, 2, 3]), r.choice([1, 2, 3])
        n = r.randrange(0 if r.random() < .1 else 1, (hi - lo - 1) // st + 2)
        i = r.randrange(lo, hi - (max(n, 1) - 1) * st)
    else:
        st = ss = 1
        n = r.randrange(0, hi - lo + 1) if r.random() < .15 else r.randrange(1, hi - lo + 1)
        i = r.randrange(lo, hi - max(n, 1) + 1)
    v = P.fresh(o, max(n, 1))
    P.put(pe, "rma", kind, put_api(r, o["ty"], kind), o["id"], i, ss, st, n, t, ctx, v)
    return i, st, n


def emit_get(P, pe, o, t, ctx="d", lo=0, hi=None, kinds=None):
    r = P.r
    hi = o["n"] if hi is None else hi
    kind = r.choice(kinds or ["get", "get", "getn", "g", "iget"])
    if kind == "g":
        n, st, ss, i = 1, 1, 1, r.randrange(lo, hi)
    elif kind == "iget":
        st, ss = r.choice([1, 2, 3]), r.choice([1, 2, 3])
        n = r.randrange(0 if r.random() < .1 else 1, (hi - lo - 1) // st + 2)
        i = r.randrange(lo, hi - (max(n, 1) - 1) * st)
    else:
        st = ss = 1
        n = r.randrange(1, hi - lo + 1)
        i = r.randrange(lo, hi - n + 1)
    P.put(pe, "rma", kind, put_api(r, o["ty"], kind), o["id"], i, ss, st, n, t, ctx, 0)


def amo_ops(ty):
    if ty in AMO_FLT:
        return ["fetch", "set", "swap"]
    k = ["cswap", "finc", "inc", "fadd", "add", "fetch", "set", "swap"]
    if ty in AMO_BIT:
        k += ["fand", "and", "for", "or", "fxor", "xor"]
    return k


def emit_amo(P, pe, o, t, idx=None, ctx="d", ops=None, val=None):
    r, ty = P.r, o["ty"]
    k = r.choice(ops or amo_ops(ty))
    how = ["s", "s", "s"]
    if k in FETCHING:
        how.append("n")
        how.append("n")
    if ty in AMO_GEN and k in (["cswap", "finc", "inc", "fadd", "add", "fetch", "set", "swap"] +
                               (["fand", "and", "for", "or", "fxor", "xor"] if ty in GEN_BIT else [])):
        how.append("g")
    if ctx == "d" and ((ty in AMO_OLD and k in ["cswap", "finc", "inc", "fadd", "add", "fetch", "set", "swap"]) or
                       (ty in AMO_FLT)):
        how.append("o")
    a = val if val is not None else r.choice([0, 1, 2, 3, 5, 6, 9, r.randrange(0, 200)])
    b = r.randrange(0, 200)
    P.put(pe, "amo", k, r.choice(how), o["id"], r.randrange(o["n"]) if idx is None else idx, t, ctx, a, b)


def amo_obj(P, n=2, ty=None, seg=None):
    return P.obj(ty or P.r.choice(AMO_STD + AMO_FLT + AMO_BIT), n, "n", seg)


CMPS = ["eq", "ne", "gt", "ge", "lt", "le"]


def emit_test(P, pe, o):
    r, ty = P.r, o["ty"]
    if ty not in P2P:
        return
    P.put(pe, "test", ("g" if ty in P2P_GEN and r.random() < .3 else "") + ty, o["id"], r.randrange(o["n"]), r.choice(CMPS),
          r.randrange(0, 10))


def default_ctx(P):
    return P.r.choice("dddD")


def closing(P):
    """the end of a phase: everything issued on the default context is complete and visible"""
    r, k = P.r, P.r.random()
    if k < .6:
        P.all("barrier_all")
    elif k < .7:
        P.all("barrier", 0, 0, P.n)
    else:
        P.all("quiet")
        P.all(*(("sync_all",) if r.random() < .5 else ("sync", 0, 0, P.n)))


def verify(P, objs, k=3):
    r = P.r
    for o in objs:
        for _ in range(k):
            pe, t = r.randrange(P.n), r.randrange(P.n)
            P.put(pe, "rma", "get", o["ty"], o["id"], 0, 1, 1, o["n"], t, "d", 0)


# ------------------------------------------------------------------ memory model
def fam_rma(r, big=False):
    """puts and gets of every kind, with quiet and barriers"""
    P = Prog(r, r.choice([2, 2, 3, 4]))
    P.modes(amo=False)
    P.style()
    objs = [P.obj(r.choice(RMA), r.choice([1, 3, 8, 13])) for _ in range(r.choice([1, 2, 3]))]
    owners = {}
    for ph in range(r.choice([1, 2, 3])):
        # one writer per object and target, so that only completion matters
        for o in objs:
            o["w"] = [r.randrange(P.n) for _ in range(P.n)]
        seq = []
        for pe in range(P.n):
            for _ in range(r.randrange(1, 6)):
                o = r.choice(objs)
                ts = [t for t in range(P.n) if o["w"][t] == pe]
                if r.random() < .65 and ts:
                    emit_put(P, pe, o, r.choice(ts), default_ctx(P))
                elif r.random() < .6:
                    emit_get(P, pe, o, r.randrange(P.n), default_ctx(P))
                elif r.random() < .8:
                    P.put(pe, "quiet", *([] if r.random() < .7 else ["D"]))
                else:
                    P.put(pe, "fence", *([] if r.random() < .7 else ["D"]))
        closing(P)
        if r.random() < .5:
            verify(P, objs, 2)
            P.all("barrier_all")
    if r.random() < .5:
        r.shuffle(objs)
        verify(P, objs[:1], 2)
    return P


WIDTHS = [60, 64, 100, 128, 129, 255, 256, 257, 500, 512, 513, 1000, 1024, 1025, 2000, 2048, 2049, 4096, 4100,
          8192, 8193, 10000, 16384, 20000, 32768, 65536]


def fam_wide(r, big=False):
    """large transfers: every cell stands for many elements"""
    P = Prog(r, r.choice([2, 2, 3]), seeds=6)
    P.modes(amo=False)
    P.style()
    objs = []
    for _ in range(2):
        ty = r.choice(RMA)
        n = r.choice([1, 2, 3, 5])
        w = r.choice([w for w in WIDTHS if w * n * SIZE[ty] <= 200000])
        seg = None
        if r.random() < .06:
            # beyond any buffer that a library would use for pieces
            ty, n, w, seg = r.choice(["char", "long", "double"]), r.choice([1, 2]), r.choice([70000, 131073, 150000]), "h"
        objs.append(P.obj(ty, n, "o", seg, w))
    flag = P.obj("int", 3, "n")
    for ph in range(r.choice([1, 2])):
        for o in objs:
            o["w"] = [r.randrange(P.n) for _ in range(P.n)]
        for pe in range(P.n):
            for _ in range(r.randrange(1, 4)):
                o = r.choice(objs)
                ts = [t for t in range(P.n) if o["w"][t] == pe]
                if ts:      # once: overlapping puts could leave any mixture
                    t = r.choice(ts)
                    o["w"][t] = -1
                    emit_put(P, pe, o, t, default_ctx(P), kinds=["put", "put", "putn"])
                if r.random() < .2:
                    P.put(pe, r.choice(["quiet", "fence"]))
        if r.random() < .4:
            # told by a flag that the data is there
            w = r.randrange(P.n)
            P.put(w, r.choice(["quiet", "fence"]))
            for q in range(P.n):
                if q != w:
                    emit_flag(P, w, flag, ph, q, 1)
                    P.put(q, *wait_for(P, flag, ph, 1))
        closing(P)
        for o in objs:
            for _ in range(3):
                emit_get(P, r.randrange(P.n), o, r.randrange(P.n), default_ctx(P), kinds=["get", "getn"])
        P.all("barrier_all")
    return P


def fam_strided(r, big=False):
    """strided transfers whose shapes coincide in some respects and differ in others"""
    P = Prog(r, 2, seeds=8)
    P.modes(amo=False)
    P.style()
    tys = r.sample(RMA, 4)
    if r.random() < .5:
        big_, small = r.choice([("double", "int"), ("long", "char"), ("longdouble", "short"), ("int64", "int32"), ("uint16", "uint8")])
        tys[:2] = [big_, small]
    objs = [P.obj(ty, 13) for ty in tys]
    ns, sts = r.sample([1, 2, 3, 4], 2), r.sample([1, 2, 3, 4], 2)
    for _ in range(r.randrange(4, 10)):
        for pe in range(P.n):
            o = r.choice(objs)
            n, a, b = r.choice(ns), r.choice(sts), r.choice(sts)
            # PE pe's half of every target
            kind = r.choice(["iput", "iget"])
            if SIZE[o["ty"]] == 1 and kind == "iput" and r.random() < .5:
                continue
            i = r.randrange(0, 13 - (n - 1) * b)
            t = r.randrange(P.n) if kind == "iget" else pe if r.random() < .5 else 1 - pe
            if kind == "iput":
                # one writer per target within a phase
                if t != (pe + _) % 2:
                    t = 1 - t
                v = P.fresh(o, n)
            else:
                v = 0
            P.put(pe, "rma", kind, put_api(r, o["ty"], kind), o["id"], i, a, b, n, t, "d", v)
        P.all("barrier_all")
    verify(P, objs, 1)
    P.all("barrier_all")
    return P


def fam_many(r, big=False):
    """more operations than usual before each quiet, fence or barrier"""
    P = Prog(r, r.choice([2, 2, 3, 4]), seeds=2)
    P.modes()
    P.style()
    P.segments(.2)
    m = r.choice([40, 130, 260, 300])
    data = P.obj(r.choice(["int", "long", "short", "double", "uint16", "int64"]), 100)
    cnt = P.obj(r.choice(AMO_STD), 3, "n")
    flag = P.obj(r.choice(AMO_STD), 4, "n")
    w = r.randrange(P.n)
    far = [p for p in range(P.n) if p != w]
    d = 0
    for rnd in range(r.choice([1, 2])):
        mix = r.choice([["p"], ["put", "p"], ["putn"], ["add"], ["p", "putn", "add"], ["add", "faddn"], ["get", "p"], ["getn"], ["getn", "faddn"]])
        t1 = r.choice(far + [w])
        for i in range(m if rnd == 0 else r.choice([3, m])):
            k = r.choice(mix)
            t = t1 if r.random() < .9 else r.randrange(P.n)
            if k == "add" or k == "faddn":
                d += 1
                P.put(w, "amo", "add" if k == "add" else "fadd", "s" if k == "add" else "n", cnt["id"], r.randrange(3), t, default_ctx(P), d, 0)
            elif k in ("get", "getn"):
                P.put(w, "rma", k, put_api(r, data["ty"], k), data["id"], r.randrange(100), 1, 1, 1, t, "d", 0)
            else:
                P.put(w, "rma", k, put_api(r, data["ty"], k), data["id"], r.randrange(100), 1, 1, 1, t, default_ctx(P), P.fresh(data, 1))
            if r.random() < .004:
                P.put(w, "fence")
            # a nonblocking operation's buffer is taken until it is complete
            if (i + 1) % 200 == 0 and mix[-1] in ("putn", "getn", "faddn"):
                P.put(w, "quiet", "D" if r.random() < .3 else "d")
        k = r.random()
        if k < .5:
            P.put(w, "quiet")
        elif k < .8:
            P.put(w, "fence")
        if k < .8:
            for q in far:
                emit_flag(P, w, flag, rnd, q, 1)
                P.put(q, *wait_for(P, flag, rnd, 1))
                P.put(q, "rma", "get", data["ty"], data["id"], 0, 1, 1, 100, q, "d", 0)
                P.put(q, "rma", "get", data["ty"], data["id"], 0, 1, 1, 100, t1, "d", 0) if k < .5 else None
                P.put(q, "amo", "fetch", "s", cnt["id"], r.randrange(3), q, "d", 0, 0)
        closing(P)
        P.put(r.randrange(P.n), "rma", "get", data["ty"], data["id"], 0, 1, 1, 100, t1, "d", 0)
        P.all("barrier_all")
    return P


def fam_sets(r, big=False):
    """collectives and barriers over many active sets, coming back to earlier ones"""
    P = Prog(r, crowd(r, [4, 5, 6, 7, 8]), seeds=3)
    P.style()
    sets = [(0, 0, 1)]
    for _ in range(200):
        a = aset(r, P.n)
        if a not in sets and len(sets) < 30:
            sets.append(a)
    hist = []
    for i in range(r.choice([20, 40, 60])):
        a = r.choice(hist) if hist and r.random() < .5 else r.choice(sets)
        hist.append(a)
        mem = members(a)
        k = r.random()
        if k < .6 and P.cell < 850 and len(P.objs) < 60:
            ty = r.choice(["int", "long", "float", "double"])
            name = r.choice(["bcast", "fcollect", "collect", "max", "sum"])
            red = name in ("max", "sum")
            s = P.obj(ty, 1, "n" if red else "o")
            d = P.obj(ty, len(mem) if name.endswith("collect") else 1, "n" if red else "o")
            for p in mem:
                P.put(p, "st", s["id"], 0, r.randrange(1, 100) if red else P.fresh(s), 1)
            P.all("barrier_all") if r.random() < .2 else None
            for p in mem:
                P.put(p, "coll", name, ty if red else str(8 * SIZE[ty]), "a", ",".join(map(str, a)), d["id"], s["id"], 1, r.randrange(1) if red else (len(mem) - 1) * (i % 2), 1, 1)
        else:
            for p in mem:
                P.put(p, r.choice(["barrier", "sync"]) if False else "sync" if i % 2 else "barrier", *a)
    P.all("barrier_all")
    return P


def fam_shapes(r, big=False):
    """strided transfers of many shapes, coming back to earlier ones"""
    P = Prog(r, 2, seeds=2)
    P.modes(amo=False)
    P.style()
    objs = [P.obj(ty, 90) for ty in r.sample([t for t in RMA if SIZE[t] > 1], 3)]
    shapes = []
    for _ in range(r.choice([30, 80, 150])):
        if shapes and r.random() < .4:
            n, a, b = r.choice(shapes)
        else:
            a, b = r.choice([1, 2, 3, 4, 5, 7]), r.choice([1, 2, 3, 4, 5, 7])
            n = r.randrange(1, 89 // max(a, b) + 1)
            n = n if r.random() < .3 else min(n, r.choice([2, 4, 8, 16, 32]))
        shapes.append((n, a, b))
        o = r.choice(objs)
        kind = r.choice(["iput", "iget"])
        pe = r.randrange(2) if kind == "iget" else 0
        t = r.randrange(2)
        P.put(pe, "rma", kind, put_api(r, o["ty"], kind), o["id"], r.randrange(0, 90 - (n - 1) * b), a, b, n, t, "d", P.fresh(o, n) if kind == "iput" else 0)
        if r.random() < .1:
            P.all("barrier_all")
    P.all("barrier_all")
    verify(P, objs, 1)
    P.all("barrier_all")
    return P


def fam_quiet(r, big=False):
    """many operations to several targets, then quiet, then a look by another PE told through a flag"""
    P = Prog(r, r.choice([2, 3, 3, 4]))
    P.modes()
    P.style()
    P.segments()
    data = [P.obj(r.choice(RMA), r.choice([1, 4, 9])) for _ in range(2)]
    cnt = amo_obj(P, 3, r.choice(AMO_STD))
    flag = P.obj(r.choice(AMO_STD), P.n, "n")
    w = r.randrange(P.n)
    others = [p for p in range(P.n) if p != w]
    for rnd in range(1, r.choice([2, 3])):
        ctx = default_ctx(P)
        for _ in range(r.randrange(1, 7)):
            k = r.random()
            if k < .5:
                emit_put(P, w, r.choice(data), r.randrange(P.n), default_ctx(P))
            elif k < .9:
                emit_amo(P, w, cnt, r.randrange(P.n), ctx=default_ctx(P))
            else:
                P.put(w, "fence")
        P.put(w, "quiet", *([] if r.random() < .7 else ["D"]))
        for q in others:
            emit_flag(P, w, flag, rnd - 1, q, rnd)
        for q in others:
            P.put(q, *wait_for(P, flag, rnd - 1, rnd))
            for _ in range(3):
                if r.random() < .7:
                    emit_get(P, q, r.choice(data), r.randrange(P.n), kinds=["get", "g", "iget", "getn"])
                else:
                    emit_amo(P, q, cnt, r.randrange(P.n), ops=["fetch", "finc"] if cnt["ty"] else None)
        P.all("barrier_all")
    return P


def emit_flag(P, w, flag, idx, t, val, ctx="d"):
    """set a flag (element idx of flag on PE t) to val, with an atomic or a put"""
    k = P.r.random()
    if k < .5:
        P.put(w, "amo", "set", "s", flag["id"], idx, t, ctx, val, 0)
    elif k < .7:
        P.put(w, "amo", "add", "s", flag["id"], idx, t, ctx, val, 0)
    elif k < .85:
        P.put(w, "rma", "p", flag["ty"], flag["id"], idx, 1, 1, 1, t, ctx, val)
    else:
        P.put(w, "rma", "put", flag["ty"], flag["id"], idx, 1, 1, 1, t, ctx, val)


def wait_for(P, flag, idx, val):
    r, ty = P.r, flag["ty"]
    cmp, v = r.choice([("eq", val), ("ge", val), ("ne", 0), ("gt", val - 1)])
    k = r.random()
    if k < .15 and ty in P2P_OLD:
        return ("wait", "o" + ty, flag["id"], idx, "ne", 0)
    if k < .3 and ty in P2P_GEN:
        return (r.choice(["wait", "testloop"]), "g" + ty, flag["id"], idx, cmp, v)
    return (r.choice(["wait", "wait", "testloop"]), ty, flag["id"], idx, cmp, v)


def fam_fence(r, big=False):
    """ordered streams of puts, atomics and flags to one target, watched there"""
    P = Prog(r, r.choice([2, 2, 3]))
    P.modes()
    P.style()
    P.segments()
    data = [P.obj(r.choice(RMA), r.choice([1, 2, 6])) for _ in range(2)]
    cnt = amo_obj(P, 2, r.choice(AMO_STD))
    flag = P.obj(r.choice(AMO_STD), 4, "n")
    w = r.randrange(P.n)
    others = [p for p in range(P.n) if p != w]
    k = r.choice([1, 2, 3])
    for j in range(k):
        for _ in range(r.randrange(1, 4)):
            if r.random() < .6:
                emit_put(P, w, r.choice(data), r.choice(others), default_ctx(P))
            else:
                emit_amo(P, w, cnt, r.choice(others), ctx=default_ctx(P), ops=["inc", "add", "set", "finc", "fadd", "swap"])
        P.put(w, "fence", *([] if r.random() < .7 else ["D"]))
        for q in others:
            emit_flag(P, w, flag, j, q, 1)
        if r.random() < .5:
            P.put(w, "fence")
    for q in others:
        for j in range(k):
            P.put(q, *wait_for(P, flag, j, 1))
            for o in data:
                emit_get(P, q, o, q, kinds=["get"])
            if r.random() < .4:
                P.put(q, "amo", "fetch", "s", cnt["id"], r.randrange(2), q, "d", 0, 0)
    P.all("barrier_all")
    return P


def fam_amo(r, big=False):
    """atomics of every kind from all PEs on the same words"""
    P = Prog(r, crowd(r, [2, 3, 3, 4]), seeds=32)
    P.modes(rma=r.random() < .3)
    P.style()
    P.segments()
    objs = [amo_obj(P, r.choice([1, 2]))]
    if r.random() < .5:
        objs.append(amo_obj(P, 1))
    for o in objs:
        if r.random() < .4:
            P.put(r.randrange(P.n), "amo", "set", "s", o["id"], 0, r.randrange(P.n), "d", r.randrange(1, 9), 0)
    P.all("barrier_all")
    hot = r.randrange(P.n)
    for ph in range(r.choice([1, 2])):
        for pe in range(P.n):
            for _ in range(r.randrange(1, 5)):
                o = r.choice(objs)
                k = r.random()
                if k < .85:
                    emit_amo(P, pe, o, hot if r.random() < .8 else r.randrange(P.n), ctx=default_ctx(P))
                elif k < .92:
                    P.put(pe, "quiet")
                else:
                    emit_test(P, pe, o)
        closing(P)
        for o in objs:
            if r.random() < .6:
                P.put(r.randrange(P.n), "rma", "get", o["ty"], o["id"], 0, 1, 1, o["n"], hot, "d", 0)
                P.put(r.randrange(P.n), "amo", "fetch", "s", o["id"], 0, hot, "d", 0, 0)
        P.all("barrier_all")
    return P


def fam_mixed(r, big=False):
    """puts, gets and atomics together on separate objects, roles changing between phases; contexts and modes"""
    P = Prog(r, r.choice([2, 3, 4]))
    P.modes()
    P.style()
    P.segments()
    objs = [P.obj(r.choice(AMO_STD), r.choice([1, 2, 5]), "n") for _ in range(3)]
    P.all("barrier_all")
    for ph in range(r.choice([2, 3])):
        for o in objs:
            o["role"] = r.choice(["rma", "amo", "own"])
            o["w"] = [r.randrange(P.n) for _ in range(P.n)]
        for pe in range(P.n):
            for _ in range(r.randrange(2, 6)):
                o = r.choice(objs)
                if o["role"] == "rma":
                    ts = [t for t in range(P.n) if o["w"][t] == pe]
                    if ts and r.random() < .7:
                        emit_put(P, pe, o, r.choice(ts), default_ctx(P))
                    else:
                        emit_get(P, pe, o, r.randrange(P.n), default_ctx(P))
                elif o["role"] == "amo":
                    if r.random() < .85:
                        emit_amo(P, pe, o, r.randrange(P.n), ctx=default_ctx(P))
                    else:
                        emit_test(P, pe, o)
                else:
                    if r.random() < .5:
                        P.put(pe, "st", o["id"], r.randrange(o["n"]), P.fresh(o))
                    else:
                        emit_test(P, pe, o)
                if r.random() < .15:
                    P.put(pe, r.choice(["quiet", "fence"]))
        closing(P)
        verify(P, [r.choice(objs)], 2)
        P.all("barrier_all")
    return P


# ------------------------------------------------------------------ point to point
def fam_p2p(r, big=False):
    """message passing: chains and rings of flags, tokens, all comparisons"""
    kind = r.choice(["chain", "ring", "counter", "cmp", "pingpong"])
    # many equal increments at a time have too many explanations
    P = Prog(r, r.choice([2, 3, 3, 4]) if kind == "counter" else crowd(r, [2, 3, 3, 4]))
    P.modes()
    P.style()
    data = P.obj(r.choice(RMA), r.choice([1, 3, 7]))
    fl = P.obj(r.choice(P2P), 4, "n")
    if kind == "chain" or kind == "ring":
        order = list(range(P.n))
        r.shuffle(order)
        if kind == "ring":
            order.append(order[0])
        for i in range(len(order) - 1):
            a, b = order[i], order[i + 1]
            if i:
                P.put(a, *wait_for(P, fl, i % 4, 1))
            for t in range(P.n):
                if i == 0:
                    emit_put(P, a, data, t)
            P.put(a, "quiet")
            put_flag(P, a, fl, (i + 1) % 4, b, 1)
        last = order[-1]
        P.put(last, *wait_for(P, fl, (len(order) - 1) % 4, 1))
        for t in range(P.n):
            P.put(last, "rma", "get", data["ty"], data["id"], 0, 1, 1, data["n"], t, "d", 0)
    elif kind == "counter":
        if fl["ty"] in ("short", "ushort"):
            fl = P.obj("int", 2, "n")
        t = r.randrange(P.n)
        k = r.choice([1, 2])
        for pe in range(P.n):
            for _ in range(k):
                P.put(pe, "amo", "inc", "s", fl["id"], 0, t, "d", 0, 0)
        P.put(t, "wait", fl["ty"], fl["id"], 0, r.choice(["eq", "ge"]), k * P.n)
        P.put(t, "rma", "g", fl["ty"], fl["id"], 0, 1, 1, 1, t, "d", 0)
    elif kind == "cmp":
        # the flag goes through values; the waiter's condition holds at the end
        t = r.randrange(P.n)
        w = (t + 1) % P.n
        vals = [r.randrange(1, 9) for _ in range(r.choice([1, 2, 3]))]
        for v in vals:
            put_flag(P, w, fl, 0, t, v)
            P.put(w, "fence")
        f = vals[-1]
        # the initial value 0 must not be taken for the condition, so use any condition true of the final value
        c = r.choice(CMPS)
        x = {"eq": f, "ne": f + 1 + r.randrange(3), "gt": f - 1 - r.randrange(2), "ge": f - r.randrange(2),
             "lt": f + 1 + r.randrange(2), "le": f + r.randrange(2)}[c]
        x = max(x, 0)           # it may be unsigned
        P.put(t, "wait", fl["ty"], fl["id"], 0, c, x)
        P.put(t, "test", fl["ty"], fl["id"], 0, r.choice(CMPS), r.randrange(0, 9))
        P.put(t, "test", fl["ty"], fl["id"], 0, r.choice(CMPS), f)
    else:
        a, b = r.sample(range(P.n), 2)
        for k in range(1, r.choice([2, 3, 4])):
            emit_put(P, a, data, b)
            P.put(a, "fence")
            put_flag(P, a, fl, 0, b, k)
            P.put(b, *wait_eq(P, fl, 0, k))
            P.put(b, "rma", "get", data["ty"], data["id"], 0, 1, 1, data["n"], b, "d", 0)
            P.put(b, "quiet")
            put_flag(P, b, fl, 1, a, k)
            P.put(a, *wait_eq(P, fl, 1, k))
    P.all("barrier_all")
    return P


def wait_eq(P, fl, idx, v):
    return (P.r.choice(["wait", "testloop"]), fl["ty"], fl["id"], idx, P.r.choice(["eq", "ge"]), v)


def put_flag(P, w, fl, idx, t, v):
    ty = fl["ty"]
    if ty in ("short", "ushort") or P.r.random() < .4:
        P.put(w, "rma", P.r.choice(["p", "put", "putn"]), ty, fl["id"], idx, 1, 1, 1, t, "d", v)
    else:
        P.put(w, "amo", P.r.choice(["set", "swap"]), "s", fl["id"], idx, t, "d", v, 0)


# ------------------------------------------------------------------ locks
def own_locks(P, n):
    """perhaps locks in the heap or in a space"""
    own = []
    for l in range(n):
        x = P.r.random()
        if x < .2:
            P.all("lock_alloc", l)
            own.append(l)
        elif x < .35 and len(P.segs) > 2:
            P.all("lock_alloc", l, 0)
            own.append(l)
    return own


def free_locks(P, own):
    if own:
        P.all("barrier_all")
    for l in own:
        P.all("lock_free", l)


def fam_lock(r, big=False):
    """critical sections under one or two locks; updates inside are not completed by the program"""
    P = Prog(r, crowd(r, [2, 3, 3, 4, 5]), seeds=32)
    P.modes()
    P.style()
    P.segments()
    nl = r.choice([1, 1, 2])
    data = [P.obj(r.choice(RMA), r.choice([1, 3])) for _ in range(nl)]
    cnt = [amo_obj(P, 1, r.choice(AMO_STD)) for _ in range(nl)]
    home = [r.randrange(P.n) for _ in range(nl)]
    rounds = r.choice([1, 2, 3])
    own = own_locks(P, nl)
    for pe in range(P.n):
        for _ in range(rounds if r.random() < .8 else 1):
            l = r.randrange(nl)
            if r.random() < .25:
                P.put(pe, "trylock_add", l, data[l]["id"], 0, home[l], r.choice([1, 2, 5]))
                continue
            if r.random() < .2:
                P.put(pe, "pause", r.randrange(1, 60))
            P.put(pe, "set_lock", l)
            for _ in range(r.randrange(0, 4)):
                k = r.random()
                if k < .4:
                    P.put(pe, "rma", "get", data[l]["ty"], data[l]["id"], 0, 1, 1, data[l]["n"], home[l], "d", 0)
                elif k < .75:
                    emit_put(P, pe, data[l], home[l])
                else:
                    emit_amo(P, pe, cnt[l], r.randrange(P.n), ops=["inc", "add", "set", "finc", "fadd"])
            if r.random() < .2:
                P.put(pe, "pause", r.randrange(1, 30))
            P.put(pe, "clear_lock", l)
    P.all("barrier_all")
    if r.random() < .5:
        verify(P, data, 1)
    free_locks(P, own)
    return P


def fam_lock_order(r, big=False):
    """waiters join the queue one after the other while the lock is held: they get it in that order"""
    P = Prog(r, crowd(r, [3, 4, 4, 5]), seeds=24)
    P.modes(rma=False)
    P.style()
    pes = list(range(P.n))
    r.shuffle(pes)
    flag = P.obj("int", P.n + 2, "n")
    l = r.randrange(2)
    h = pes[0]
    P.put(h, "set_lock", l)
    # release the next waiter by a flag, let it settle in the queue
    for i, q in enumerate(pes[1:]):
        P.put(h, "amo", "set", "s", flag["id"], 0, q, "d", 1, 0)
        P.put(h, "quiet")
        P.put(h, "settle")
        P.put(q, "wait", "int", flag["id"], 0, "eq", 1)
        P.put(q, "set_lock", l)
        if r.random() < .3:
            P.put(q, "pause", r.randrange(1, 40))
        P.put(q, "clear_lock", l)
        if r.random() < .4:
            P.put(q, "set_lock", l)
            P.put(q, "clear_lock", l)
    if r.random() < .3:
        P.put(h, "pause", 20)
    P.put(h, "clear_lock", l)
    if r.random() < .4:
        P.put(h, "test_lock", 1 - l)
        P.put(h, "clear_lock", 1 - l)
    P.all("barrier_all")
    return P


def fam_lock_test(r, big=False):
    """test_lock against holders, waiters and hand-overs"""
    P = Prog(r, crowd(r, [2, 3, 4]), seeds=32)
    P.modes(rma=False)
    P.style()
    data = P.obj("int", 1)
    nl = 1
    own = own_locks(P, nl)
    for pe in range(P.n):
        for _ in range(r.choice([1, 2, 3])):
            if r.random() < .5:
                P.put(pe, "trylock_add", 0, data["id"], 0, r.randrange(P.n), r.choice([1, 2, 3, 8]))
            else:
                P.put(pe, "set_lock", 0)
                if r.random() < .5:
                    P.put(pe, "pause", r.randrange(1, 50))
                P.put(pe, "clear_lock", 0)
    P.all("barrier_all")
    free_locks(P, own)
    return P


# ------------------------------------------------------------------ barriers
def crowd(r, choice):
    """a number of PEs; now and then more than strides of 8 need"""
    return r.choice([9, 10, 12, 16]) if r.random() < .05 else r.choice(choice)


def aset(r, n):
    lg = r.choice([0, 0, 0, 1, 1, 2] if n < 9 else [0, 1, 2, 3])
    start = r.randrange(n)
    mx = (n - 1 - start) // (1 << lg) + 1
    size = r.randrange(1, mx + 1)
    return start, lg, size


def members(s):
    return [s[0] + i * (1 << s[1]) for i in range(s[2])]


def fam_barrier(r, big=False):
    """a common sequence of barriers and syncs over the world, active sets and teams, PEs arriving at any time"""
    P = Prog(r, crowd(r, [2, 3, 4, 5, 6]))
    P.modes()
    P.style()
    P.segments()
    data = P.obj(r.choice(RMA), P.n * 2)
    cnt = amo_obj(P, 2, r.choice(AMO_STD))
    teams = {0: list(range(P.n)), 1: list(range(P.n))}
    nxt = 2
    for _ in range(r.choice([0, 1, 2])):
        par = r.choice(list(teams))
        m = teams[par]
        st, sd = r.randrange(len(m)), r.choice([1, 1, 2])
        sz = r.randrange(1, (len(m) - 1 - st) // sd + 2)
        for pe in m:
            P.put(pe, "team_split", par, nxt, st, sd, sz)
        teams[nxt] = [m[st + i * sd] for i in range(sz)]
        nxt += 1
    bar = 0
    for _ in range(r.randrange(2, 6)):
        for pe in range(P.n):
            if r.random() < .4:
                P.put(pe, "pause", r.randrange(1, 60))
        k = r.random()
        if k < .25:
            s, op = list(range(P.n)), ("barrier_all",)
        elif k < .45:
            s, op = list(range(P.n)), ("sync_all",)
        elif k < .8:
            a = aset(r, P.n)
            s, op = members(a), (r.choice(["barrier", "sync"]),) + a
        else:
            t = r.choice(list(teams))
            s, op = teams[t], ("team_sync", t)
        if op[0].startswith("barrier"):
            # every member writes to its own slice at other PEs, and adds
            for pe in s:
                for _ in range(r.randrange(0, 3)):
                    t = r.randrange(P.n)
                    if r.random() < .6:
                        emit_put(P, pe, data, t, default_ctx(P), pe * 2, pe * 2 + 2)
                    else:
                        emit_amo(P, pe, cnt, t, ops=["inc", "add", "finc"])
        for pe in s:
            P.put(pe, *op)
        if op[0].startswith("barrier"):
            for pe in s:
                if r.random() < .5:
                    P.put(pe, "rma", "get", data["ty"], data["id"], 0, 1, 1, data["n"], r.choice(range(P.n)), "d", 0)
                if r.random() < .3:
                    P.put(pe, "amo", "fetch", "s", cnt["id"], r.randrange(2), r.choice(range(P.n)), "d", 0, 0)
    P.all("barrier_all")
    for t in teams:
        if t > 1 and r.random() < .5:
            for pe in teams[t]:
                P.put(pe, "team_destroy", t)
    return P


# ------------------------------------------------------------------ collectives
def like_strided(P, ty, k, ds, ss, mem):
    """strided puts and gets with the shapes of a strided collective, each PE on its own memory"""
    r = P.r
    n = k * r.choice([1, 1, len(mem)])
    if P.cell + (n - 1) * max(ds, ss) + 1 > 900:
        return
    z = P.obj(ty, (n - 1) * max(ds, ss) + 1, "o")
    for p in mem:
        for _ in range(r.choice([1, 2])):
            kind = r.choice(["iput", "iget"])
            a, b = r.choice([(ds, ss), (ss, ds), (ds, ds), (ss, ss)])
            v = P.fresh(z, n) if kind == "iput" else 0
            P.put(p, "rma", kind, put_api(r, ty, kind), z["id"], 0, a, b, n, p, "d", v)


def coll_rounds(P, rounds, names, aset_only=False):
    r = P.r
    n = P.n
    teams = {0: list(range(n)), 1: list(range(n))}
    nxt = 2
    for _ in range(r.choice([0, 1, 1, 2])):
        par = r.choice(list(teams))
        m = teams[par]
        st, sd = r.randrange(len(m)), r.choice([1, 1, 2])
        sz = r.randrange(1, (len(m) - 1 - st) // sd + 2)
        for pe in m:
            P.put(pe, "team_split", par, nxt, st, sd, sz)
        teams[nxt] = [m[st + i * sd] for i in range(sz)]
        nxt += 1
    for _ in range(rounds):
        name = r.choice(names)
        team = r.random() < .5
        red = name in ("sum", "prod", "min", "max", "and", "or", "xor")
        if team:
            t = r.choice(list(teams))
            mem, form, st = teams[t], "t", str(t)
            if not red:
                ty = r.choice(RMA)
            elif name in ("min", "max"):
                ty = r.choice(RMA)
            elif name in ("sum", "prod"):
                ty = r.choice(RMA + ["complexf", "complexd"])
            else:
                ty = r.choice("uchar ushort uint ulong ulonglong int8 int16 int32 int64 uint8 uint16 uint32 uint64 size".split())
        else:
            a = aset(r, n)
            mem, form, st = members(a), "a", ",".join(map(str, a))
            if not red:
                ty = r.choice(["32", "64"])
            elif name in ("min", "max"):
                ty = r.choice("short int long longlong double float longdouble".split())
            elif name in ("sum", "prod"):
                ty = r.choice("short int long longlong double float longdouble complexf complexd".split())
            else:
                ty = r.choice("short int long longlong".split())
        api = "mem" if team and not red and r.random() < .15 else ty
        oty = {"32": r.choice(["int", "float", "uint32"]), "64": r.choice(["long", "double", "uint64"])}.get(ty, ty)
        k = r.choice([0, 1, 1, 2, 3, 5]) if r.random() < .9 else 7
        ds = ss = 1
        sz = len(mem)
        if name == "alltoalls":
            ds, ss = r.choice([1, 2, 3]), r.choice([1, 2, 3])
            if api == "mem":
                api = ty
        if name == "alltoall":
            sn = dn = k * sz
        elif name == "alltoalls":
            sn, dn = (k * sz - 1) * ss + 1 if k else 1, (k * sz - 1) * ds + 1 if k else 1
        elif name in ("collect", "fcollect"):
            sn, dn = k, k * sz
        else:
            sn = dn = k
        cnts = {p: k for p in mem}
        if name == "collect":
            if r.random() < .7:
                cnts = {p: r.choice([0, 1, 2, 3, 4]) for p in mem}
            sn, dn = max(cnts.values()), sum(cnts.values())
        mode = "n" if red else "o"
        if SIZE[oty] == 1 and mode == "o" and sn * sz > 200:
            continue
        if P.cell + sn + dn + 4 > 900 or len(P.objs) > 55:
            break
        w = 1
        if name != "alltoalls" and r.random() < .15:
            w = r.choice([w for w in WIDTHS if w * max(sn, dn, 1) * SIZE[oty] <= (60000 if r.random() < .7 else 400000)])
        s = P.obj(oty, max(sn, 1), mode, None, w)
        d = s if red and r.random() < .2 else P.obj(oty, max(dn, 1), mode, None, w)
        lim = 7 if name == "prod" else 15 if SIZE[oty] == 1 else 1000
        if n > 8:
            lim = 7 if SIZE[oty] == 1 else lim
        root = r.randrange(sz)
        for p in mem:
            if red:
                top = (3 if n <= 8 or SIZE[oty] > 2 else 2) if name == "prod" else lim
                for i in range(sn):
                    P.put(p, "st", s["id"], i, r.randrange(1 if name == "prod" else 0, top), 1)
            elif sn:
                P.put(p, "st", s["id"], 0, P.fresh(s, sn), sn)
        # the destination must be ready
        if r.random() < .5:
            P.all("barrier_all")
        if name == "alltoalls" and k and r.random() < .6:
            like_strided(P, oty, k, ds, ss, mem)
        for p in mem:
            if r.random() < .3:
                P.put(p, "pause", r.randrange(1, 40))
            P.put(p, "coll", name, api, form, st, d["id"], s["id"], cnts[p], root, ds, ss)
            if red is False and r.random() < .2 and dn and w == 1:
                P.put(p, "rma", "get", oty, d["id"], 0, 1, 1, d["n"], p, "d", 0)
    P.all("barrier_all")
    for t in teams:
        if t > 1 and r.random() < .5:
            for pe in teams[t]:
                P.put(pe, "team_destroy", t)


def fam_coll(r, big=False):
    P = Prog(r, crowd(r, [2, 3, 4, 5, 6]), seeds=12)
    P.style()
    coll_rounds(P, r.randrange(2, 6), ["bcast", "collect", "fcollect", "alltoall", "alltoalls"])
    return P


def fam_reduce(r, big=False):
    P = Prog(r, crowd(r, [2, 3, 4, 5, 6]), seeds=12)
    P.style()
    coll_rounds(P, r.randrange(2, 6), ["sum", "prod", "min", "max", "and", "or", "xor"])
    return P


def fam_inplace(r, big=False):
    """reductions and collectives with source = destination where allowed (reductions)"""
    P = Prog(r, r.choice([2, 3, 4]), seeds=12)
    P.style()
    for _ in range(3):
        name = r.choice(["sum", "prod", "min", "max", "or", "xor"])
        ty = r.choice(["short", "int", "long"] if name in ("or", "xor") else ["short", "int", "long", "double"])
        k = r.choice([1, 2, 4])
        o = P.obj(ty, k, "n")
        for p in range(P.n):
            for i in range(k):
                P.put(p, "st", o["id"], i, r.randrange(1, 4), 1)
        P.all("barrier_all")
        P.all("coll", name, ty, "a", f"0,0,{P.n}", o["id"], o["id"], k, 0)
        P.all("barrier_all")
    return P


# ------------------------------------------------------------------ teams
def node_team(P):
    """the members of the shared team, seen from each PE"""
    return {p: [q for q in range(P.n) if q // P.ppn == p // P.ppn] for p in range(P.n)}


def nodes(P):
    if P.r.random() < .5:
        P.ppn = P.r.choice([1, 2, 3])
        P.opt("ppn", P.ppn)


def fam_team(r, big=False):
    """splits of all kinds, nested, with queries, translations, syncs and destructions"""
    P = Prog(r, crowd(r, [1, 2, 3, 4, 5, 6, 7]), seeds=6)
    P.style()
    nodes(P)
    n = P.n
    teams = {0: {p: list(range(n)) for p in range(n)}, 1: node_team(P)}    # handle -> PE -> members
    dead = []
    nxt = 2
    for _ in range(r.randrange(3, 9) if r.random() < .95 else 50):
        if nxt > 50:
            break
        k = r.random()
        par = r.choice(list(teams))
        V = teams[par]
        if k < .5:
            L = max(len(m) for m in V.values())
            if r.random() < .2:
                st, sd, sz = r.choice([(-1, 1, 1), (L, 1, 1), (0, 1, L + 1), (0, L, 2), (L - 1, 1, 2), (0, 1, 0), (0, 1, -1),
                                       (0, 0, 0), (0, 2147483647, 3), (0, 1, 2147483647), (1, 1073741824, 5), (0, 0, 2),
                                       (L, 1, 0), (-2147483648, 1, 1), (2147483647, 1, 1)])
            else:
                st, sd = r.randrange(L), r.choice([1, 1, 2, 3])
                sz = r.randrange(1, (L - 1 - st) // sd + 2)
            new = {}
            cf = [r.randrange(5), r.choice([0, 1, 1])] if r.random() < .5 else []
            for pe, m in V.items():
                P.put(pe, "team_split", par, nxt, st, sd, sz, *cf)
                if 0 <= st < len(m) and sz >= 1 and sd >= 1 and st + (sz - 1) * sd < len(m):
                    w = [m[st + i * sd] for i in range(sz)]
                    if pe in w:
                        new[pe] = w
            if new:
                teams[nxt] = new
            else:
                dead.append(nxt)
            nxt += 1
        elif k < .8:
            xr = r.choice([1, 2, 3, 4, n, n + 2, 2147483647]) if r.random() < .85 else r.choice([0, -1, -2147483648])
            X, Y = {}, {}
            cf = [r.randrange(5), r.choice([0, 1, 1]), r.randrange(5), r.choice([0, 1, 1])] if r.random() < .5 else []
            for pe, m in V.items():
                P.put(pe, "team_split2d", par, nxt, nxt + 1, xr, *cf)
                if xr >= 1:
                    i = m.index(pe)
                    X[pe] = [q for j, q in enumerate(m) if j // xr == i // xr]
                    Y[pe] = [q for j, q in enumerate(m) if j % xr == i % xr]
            if X:
                teams[nxt], teams[nxt + 1] = X, Y
            else:
                dead += [nxt, nxt + 1]
            nxt += 2
        elif k < .9 and len(teams) > 2:
            t = r.choice([x for x in teams if x > 1])
            for pe in teams[t]:
                P.put(pe, "team_destroy", t)
            del teams[t]
        else:
            P.put(r.randrange(n), "team_query", r.choice(list(teams) + dead + [-1]))
        for _ in range(2):
            P.put(r.randrange(n), "team_config", r.choice([t for t in teams if t > 1] + dead + [-1]))
        handles = list(teams) + dead
        for _ in range(2):
            pe = r.randrange(n)
            P.put(pe, "team_translate", r.choice(handles + [-1]), r.choice([-1, n, 100, 2147483647] + list(range(n)) * 2), r.choice(handles + [-1]))
        if r.random() < .4:
            t = r.choice(list(teams))
            for pe in teams[t]:
                P.put(pe, "team_sync", t)
    return P


# ------------------------------------------------------------------ symmetric heap
def late_user(P, s, pat):
    """one PE uses the block on another PE which may already be in the call that frees it"""
    r = P.r
    if P.n < 2 or not isinstance(pat, tuple) or r.random() < .3:
        return
    P.all("barrier_all")
    q = r.randrange(P.n)
    for _ in range(r.choice([1, 2])):
        P.put(q, "pause", r.randrange(5, 60))
        P.put(q, "rcheck", s, (q + 1) % P.n, pat[1])


# sizes that no heap has, among them those for which sums and products wrap around
HUGE = [1 << 28, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 100, (1 << 32) + 5000, 1 << 40, (1 << 63) - 1, 1 << 63, (1 << 64) - 1,
        (1 << 64) - 63, (1 << 64) - 4096]


def fam_heap(r, big=False):
    P = Prog(r, r.choice([1, 2, 2, 3]), seeds=4)
    small = r.random() < .5
    if small:
        P.heap = r.choice([65536, 131072, 262144])
        P.env("SHMEM_SYMMETRIC_SIZE", P.heap)
    cap = P.heap
    live = {}
    nslot = r.choice([4, 8, 16])

    def size():
        k = r.random()
        if k < .03:
            return r.choice(HUGE)
        if k < .1:
            return r.choice([0, 1])
        if k < .6 or not small:
            return r.choice([r.randrange(1, 64), r.randrange(1, 2000), r.randrange(1, 20000)])
        if k < .9:
            return r.randrange(1, cap // 3)
        return r.choice([cap // 2, cap - 9000, cap, cap + 1, cap * 2, cap - 256])

    pat = 1
    for _ in range(r.randrange(6, 30)):
        k = r.random()
        s = r.randrange(nslot)
        leg = ["x", "o"][r.random() < .2]
        if s not in live:
            n = size()
            if k < .5:
                P.all("malloc", s, n, 0, leg)
            elif k < .6:
                P.all("malloc_hints", s, n, r.choice([0, 1, 2]))
            elif k < .8:
                P.all("align", s, n, r.choice([8, 16, 32, 64, 128, 256, 1024, 4096]), leg)
            elif r.random() < .1:
                P.all("calloc", s, r.choice([1 << 32, (1 << 32) + 1, 1 << 33, 1 << 62, 1 << 63, (1 << 31) + 1]),
                      r.choice([1 << 32, 1 << 33, (1 << 31), 16, 3, 1 << 62]))
                n = 64
            else:
                c = r.choice([1, 2, 7, 100])
                P.all("calloc", s, max(1, n // c) if n else 0, c)
            live[s] = n
            if n >= 8:
                pat += 1
                P.all("fill", s, pat)
                live[s] = (n, pat)
        elif k < .45:
            P.all("check", s)
            late_user(P, s, live[s])
            P.all("free", s, leg)
            del live[s]
        elif k < .6:
            P.all("check", s)
            late_user(P, s, live[s])
            m = size()
            P.all("realloc", s, m, leg)
            pat += 1
            P.all("check", s)
            # the driver keeps the old block when it failed
            if m and isinstance(live[s], tuple) and min(m, live[s][0]) >= 8 and r.random() < .5:
                live[s] = (min(m, live[s][0]), pat)
                P.all("fill", s, pat)
            else:
                P.all("free", s)
                del live[s]
        elif k < .75:
            # another PE fills the block through the network, its owner checks
            if P.n > 1:
                w = r.randrange(P.n)
                t = (w + 1) % P.n
                pat += 1
                P.all("barrier_all")
                P.put(w, "rfill", s, t, pat)
                P.all("barrier_all")
                P.put(t, "setpat", s, pat)
                P.put(t, "check", s)
                q = r.randrange(P.n)
                P.put(q, "rcheck", s, t, pat)
                P.all("barrier_all")
                P.all("fill", s, pat)
                P.all("barrier_all")
                if isinstance(live[s], tuple):
                    live[s] = (live[s][0], pat)
        elif k < .85:
            P.put(r.randrange(P.n), "lastamo", s, r.randrange(P.n))
        elif k < .95:
            P.put(r.randrange(P.n), "accessible", s, r.choice([-1, P.n] + list(range(P.n)) * 3))
        else:
            P.all("check", s)
    for s in list(live):
        P.all("check", s)
        P.all("free", s)
    if r.random() < .5:
        P.all("malloc", 100, cap // 2)
        P.all("free", 100)
    return P


def fam_bigalign(r, big=False):
    """alignments above the page size: the blocks must be symmetric all the same"""
    P = Prog(r, 2, seeds=2)
    P.all("malloc", 0, r.choice([8, 100, 5000]))
    P.all("align", 1, r.choice([8, 100, 5000]), 65536)
    P.all("barrier_all")
    return P


def fam_heap_exhaust(r, big=False):
    """fill the heap to the end with blocks, use each of them from everywhere, free all, do it again"""
    P = Prog(r, r.choice([2, 3]), seeds=3)
    P.heap = r.choice([65536, 100000, 131072])
    P.env("SHMEM_SYMMETRIC_SIZE", P.heap if r.random() < .5 else f"{P.heap}")
    b = r.choice([1000, 4096, 8192, 20000])
    k = min(P.heap // b + 10, 60)
    for rd in range(2):
        for s in range(k):
            P.all("malloc", s, b)
            P.all("fill", s, s + 1)
        P.all("barrier_all")
        for s in range(k):
            P.all("check", s)
            if s % 7 == 3 or s > k - 14:
                w = r.randrange(P.n)
                t = r.randrange(P.n)
                P.put(w, "lastamo", s, t)
                P.put(w, "rcheck", s, t, s + 1)
        P.all("barrier_all")
        order = list(range(k))
        r.shuffle(order)
        for s in order:
            P.all("free", s)
    P.all("malloc", 0, P.heap // 2)
    P.all("free", 0)
    return P


SIZES = [("1048576", 1 << 20), ("1M", 1 << 20), ("1m", 1 << 20), ("2048K", 1 << 21), ("2048k", 1 << 21), ("0.5M", 1 << 19),
         ("1.5M", 3 << 19), ("64K", 65536), ("0.001G", int(0.001 * 2**30)), ("100000", 100000), ("65537", 65537),
         ("3M", 3 << 20), ("16777217", 16777217), ("33554433", 33554433), ("0.0625G", 1 << 26), ("0.25g", 1 << 28),
         ("0.0001T", int(0.0001 * 2**40)), ("20000001", 20000001), ("16777219", 16777219), ("40000003", 40000003),
         ("99999999", 99999999), ("1e6", 1000000), ("1048577", 1048577), ("8388609", 8388609), ("67108865", 67108865),
         ("16385.0001K", 16385 * 1024), ("32.00001M", int(32.00001 * 2**20)), ("4.7m", int(4.7 * 2**20)), ("777k", 777 * 1024)]


def fam_heapsize(r, big=False):
    """the heap has the size the environment asks for: that much can be allocated, and not much more"""
    P = Prog(r, r.choice([1, 2]), seeds=2)
    if r.random() < .1:
        text, size = None, 1 << 27
    elif r.random() < .7:
        text, size = r.choice(SIZES)
    else:
        k = r.choice(["", "K", "M", "k", "m"])
        if k == "":
            size = r.randrange(70000, 200000000)
            text = str(size)
        elif k in "Kk":
            v = r.randrange(64, 200000)
            text, size = f"{v}{k}", v * 1024
        else:
            v = r.randrange(1, 150)
            text, size = f"{v}{k}", v << 20
    if text:
        P.env("SHMEM_SYMMETRIC_SIZE", text)
    P.heap = size
    P.all("malloc", 0, size - 8192 - 4096)
    P.all("free", 0)
    P.all("malloc", 1, size + 70000)
    P.all("malloc", 2, size // 2 - 5000)
    P.all("malloc", 3, size // 3 - 5000)
    # the bytes are really there
    P.all("free", 2)
    P.all("free", 3)
    return P


# ------------------------------------------------------------------ spaces and contexts
def fam_ctx(r, big=False):
    """contexts of several spaces: independent streams, completed by their own quiet, fence, destroy"""
    P = Prog(r, r.choice([2, 2, 3]), seeds=24)
    P.modes()
    P.style()
    ns = r.choice([1, 1, 2])
    slot = 1
    ctx = []
    for k in range(ns):
        nc = r.choice([0, 1, 2, 3]) if r.random() < .88 else r.randrange(4, 11)
        P.all("space_create", k, r.choice([65536, 262144]), nc, r.choice([0, 0, 1]))
        objs = [P.obj(r.choice(RMA), r.choice([1, 4, 7]), "o", f"s{k}"), P.obj(r.choice(AMO_STD), 2, "n", f"s{k}"),
                P.obj(r.choice(AMO_STD), 3, "n", f"s{k}")]
        for o in objs:
            P.all("sobj", o["id"], k)
        P.all("space_attach", k)
        cs = []
        for _ in range(nc + (1 if r.random() < .2 else 0)):
            P.all("space_ctx", k, slot)
            if len(cs) < nc:
                cs.append(slot)
            slot += 1
        ctx.append((objs, cs))
    P.all("barrier_all")
    for ph in range(r.choice([1, 2, 3])):
        wr = {}
        for k in range(ns):
            objs, cs = ctx[k]
            for o in objs:
                o["w"] = [r.randrange(P.n) for _ in range(P.n)]
        for pe in range(P.n):
            for _ in range(r.randrange(2, 7)):
                objs, cs = r.choice(ctx)
                c = r.choice([str(x) for x in cs] * 2 + ["d"])
                o = r.choice(objs)
                k = r.random()
                if k < .2:
                    P.put(pe, "quiet", c)
                elif k < .3:
                    P.put(pe, "fence", c)
                elif o is objs[1]:
                    emit_amo(P, pe, o, r.randrange(P.n), ctx=c)
                else:
                    ts = [t for t in range(P.n) if o["w"][t] == pe]
                    if ts and r.random() < .7:
                        emit_put(P, pe, o, r.choice(ts), c)
                    else:
                        emit_get(P, pe, o, r.randrange(P.n), c)
        # complete all streams
        for pe in range(P.n):
            for objs, cs in ctx:
                for c in cs:
                    P.put(pe, "quiet", c)
        P.all("barrier_all")
        for objs, cs in ctx:
            verify(P, objs[:2], 1)
        P.all("barrier_all")
    # destroying a context completes it
    for objs, cs in ctx:
        for c in list(cs):
            if r.random() < .6:
                pe = r.randrange(P.n)
                emit_put(P, pe, objs[0], r.randrange(P.n), str(c))
                emit_amo(P, pe, objs[1], r.randrange(P.n), ctx=str(c))
                P.all("ctx_destroy", c)
                cs.remove(c)
                if r.random() < .4:
                    k = ctx.index((objs, cs))
                    P.all("space_ctx", k, slot)
                    cs.append(slot)
                    slot += 1
    P.all("barrier_all")
    for k in range(ns):
        objs, cs = ctx[k]
        for c in cs:
            P.all("ctx_destroy", c)
        P.all("space_detach", k)
        for o in objs:
            P.all("sobj_free", o["id"])
        P.all("space_destroy", k)
    return P


def fam_ctx_mp(r, big=False):
    """message passing on a context: fence or quiet on it, then a flag"""
    P = Prog(r, r.choice([2, 3]), seeds=32)
    P.modes()
    P.style()
    P.all("space_create", 0, 65536, 2, 0)
    data = P.obj(r.choice(RMA), r.choice([1, 4]), "o", "s0")
    cnt = P.obj(r.choice(AMO_STD), 2, "n", "s0")
    flag = P.obj(r.choice(AMO_STD), 3, "n", "s0")
    for o in (data, cnt, flag):
        P.all("sobj", o["id"], 0)
    P.all("space_attach", 0)
    P.all("space_ctx", 0, 1)
    P.all("space_ctx", 0, 2)
    P.all("barrier_all")
    w = r.randrange(P.n)
    for j in range(r.choice([1, 2])):
        c = r.choice([1, 2])
        for _ in range(r.randrange(1, 4)):
            t = r.randrange(P.n)
            if r.random() < .6:
                emit_put(P, w, data, t, c)
            else:
                emit_amo(P, w, cnt, t, ctx=c, ops=["inc", "add", "set"])
        if r.random() < .5:
            P.put(w, "fence", c)
            fc = c
        else:
            P.put(w, "quiet", c)
            fc = r.choice([c, 3 - c])
        for q in range(P.n):
            if q != w:
                emit_flag(P, w, flag, j, q, 1, fc)
        for q in range(P.n):
            if q != w:
                P.put(q, "wait", flag["ty"], flag["id"], j, "eq", 1)
                P.put(q, "rma", "get", data["ty"], data["id"], 0, 1, 1, data["n"], q, "d", 0)
                P.put(q, "amo", "fetch", "s", cnt["id"], r.randrange(2), r.randrange(P.n), "d", 0, 0)
        P.put(w, "quiet", 1)
        P.put(w, "quiet", 2)
        P.all("barrier_all")
    P.all("ctx_destroy", 1)
    P.all("ctx_destroy", 2)
    P.all("space_detach", 0)
    for o in (data, cnt, flag):
        P.all("sobj_free", o["id"])
    P.all("space_destroy", 0)
    return P


def fam_space(r, big=False):
    """the life cycle of spaces: create, attach, detach, destroy, allocate in several at a time"""
    P = Prog(r, r.choice([1, 2, 3]), seeds=4)
    P.style()
    live = {}      # space -> (attached, {slot})
    gone = set()
    nid = 0
    slot = 0
    ctxslot = 1
    pat = 1
    for _ in range(r.randrange(6, 22)):
        k = r.random()
        if (k < .2 or not live) and nid < 20:
            sz = r.choice([4096, 10000, 65536, 200000])
            nc = r.choice([0, 1, 2])
            P.all("space_create", nid, sz, nc, r.choice([0, 1]))
            live[nid] = dict(att=False, sl={}, sz=sz, nc=nc, cx=[])
            nid += 1
        else:
            s = r.choice(list(live))
            L = live[s]
            if k < .5 and slot < 90:
                op = r.choice(["space_malloc", "space_malloc", "space_calloc", "space_align"])
                n = r.choice([0, 1, 100, 1000, L["sz"] // 4, L["sz"] // 2]) if r.random() < .8 else L["sz"] + 1
                a = {"space_malloc": 0, "space_calloc": r.choice([1, 2, 3, 10]), "space_align": r.choice([8, 16, 64, 256, 4096])}[op]
                if op == "space_calloc":
                    n = n // a
                P.all(op, s, slot, n, a)
                pat += 1
                P.all("fill", slot, pat)
                L["sl"][slot] = pat
                slot += 1
            elif k < .6 and L["sl"]:
                b = r.choice(list(L["sl"]))
                P.all("check", b)
                P.all("free", b)
                del L["sl"][b]
            elif k < .7:
                if L["att"]:
                    for c in L["cx"]:
                        P.all("ctx_destroy", c)
                    L["cx"] = []
                    P.all("space_detach", s)
                else:
                    P.all("space_attach", s)
                L["att"] = not L["att"]
            elif k < .78:
                for b in list(L["sl"]):
                    P.all("check", b)
                    P.all("free", b)
                for c in L["cx"]:
                    P.all("ctx_destroy", c)
                if L["att"]:
                    P.all("space_detach", s)
                P.all("space_destroy", s)
                del live[s]
            elif k < .85 and ctxslot < 30 and L["att"]:
                P.all("space_ctx", s, ctxslot)
                if len(L["cx"]) < L["nc"]:
                    L["cx"].append(ctxslot)
                ctxslot += 1
            elif L["sl"]:
                b = r.choice(list(L["sl"]))
                if L["att"] and P.n > 1 and r.random() < .7:
                    w = r.randrange(P.n)
                    t = (w + 1) % P.n
                    pat += 1
                    P.all("barrier_all")
                    P.put(w, "rfill", b, t, pat)
                    P.all("barrier_all")
                    P.put(t, "setpat", b, pat)
                    P.put(t, "check", b)
                    P.all("barrier_all")
                    P.all("fill", b, pat)
                    P.all("barrier_all")
                else:
                    P.put(r.randrange(P.n), "accessible", b, r.choice([-1, P.n] + list(range(P.n)) * 3))
        for s in live:
            for b in live[s]["sl"]:
                if r.random() < .15:
                    P.all("check", b)
    for s in list(live):
        L = live[s]
        for b in L["sl"]:
            P.all("check", b)
            P.all("free", b)
        for c in L["cx"]:
            P.all("ctx_destroy", c)
        if L["att"]:
            P.all("space_detach", s)
        P.all("space_destroy", s)
    return P


def fam_spaces(r, big=False):
    """several spaces attached and detached in any order, with traffic to all that are attached"""
    P = Prog(r, r.choice([2, 2, 3]), seeds=6)
    P.modes()
    P.style()
    S = []
    for k in range(r.choice([2, 3, 3, 4]) if r.random() < .85 else r.randrange(6, 13)):
        sz = r.choice([8192, 65536])
        P.all("space_create", k, sz, r.choice([0, 0, 1]), r.choice([0, 1]))
        objs = [P.obj(r.choice(AMO_STD + AMO_FLT), 2, "n", f"s{k}"), P.obj(r.choice(RMA), 2, "o", f"s{k}")]
        for o in objs:
            P.all("sobj", o["id"], k)
        S.append(dict(objs=objs, att=False, id=k))
    if r.random() < .5:
        S[0]["objs"].append(P.obj(r.choice(AMO_STD), 2, "n"))
    for _ in range(r.randrange(4, 9)):
        for s in r.sample(S, r.choice([1, 1, 2])):
            P.all("space_detach" if s["att"] else "space_attach", s["id"])
            s["att"] = not s["att"]
        on = [s for s in S if s["att"]]
        for pe in range(P.n):
            for s in on:
                for _ in range(r.randrange(1, 3)):
                    o = r.choice(s["objs"])
                    if o["mode"] == "n":
                        emit_amo(P, pe, o, r.randrange(P.n), ctx=default_ctx(P))
                    elif r.random() < .6:
                        emit_put(P, pe, o, pe if r.random() < .3 else (pe + 1) % P.n, default_ctx(P)) if r.random() < .5 else \
                            emit_get(P, pe, o, r.randrange(P.n), default_ctx(P))
        P.all("barrier_all")
        for s in on:
            if r.random() < .4:
                verify(P, s["objs"], 1)
        P.all("barrier_all")
    for s in S:
        if s["att"]:
            P.all("space_detach", s["id"])
        for o in s["objs"]:
            if o["seg"][0] == "s":
                P.all("sobj_free", o["id"])
        P.all("space_destroy", s["id"])
    return P


def fam_pool(r, big=False):
    """a pool of a few pages, filled and emptied in any order"""
    P = Prog(r, 1, seeds=1)
    pages = r.randrange(1, 24)
    P.all("space_create", 0, pages * 4096 - r.choice([0, 0, 1, 4000]), 0, 0)
    if r.random() < .5:
        P.all("space_attach", 0)
    at = r.random() < .5
    live, slot, pat = {}, 0, 0
    for _ in range(r.randrange(8, 60)):
        if slot < 120 and (not live or r.random() < .6):
            n = r.choice([1, 100, 4096, 4097, 4096 * r.randrange(1, 6), 4096 * r.randrange(1, 6) - r.randrange(4096)])
            k = r.random()
            if k < .7:
                P.all("space_malloc", 0, slot, n, 0)
            elif k < .85:
                P.all("space_align", 0, slot, n, r.choice([8, 64, 4096]))
            else:
                P.all("space_calloc", 0, slot, n, 1)
            pat += 1
            P.all("fill", slot, pat)
            live[slot] = pat
            slot += 1
        else:
            b = r.choice(list(live))
            P.all("check", b)
            P.all("free", b)
            del live[b]
        if r.random() < .2:
            for b in live:
                P.all("check", b)
    for b in live:
        P.all("check", b)
        P.all("free", b)
    P.all("space_malloc", 0, 121, pages * 4096, 0)
    P.all("free", 121)
    return P


# ------------------------------------------------------------------ life cycle
def fam_init(r, big=False):
    P = Prog(r, r.choice([1, 2, 3, 4]), seeds=10)
    P.modes()
    P.style()
    P.head.append("noauto")
    if r.random() < .3:
        P.tmax = r.choice([0, 1, 2, 3])
        P.opt("thread_max", P.tmax)
    k = r.random()
    legacy = False
    if r.random() < .3:
        P.all("mpi_init", r.randrange(4))
    if k < .3:
        P.all("init")
    elif k < .5:
        P.all("start_pes", r.choice([0, 1, 4]))
        legacy = True
    else:
        P.all("init_thread", r.choice([0, 1, 2, 3]))
    d = P.obj("int", 3, "o", "d")
    c = P.obj("long", 2, "n", "d")
    for _ in range(r.randrange(0, 3)):
        if r.random() < .3:
            P.all(*r.choice([("init",), ("init_thread", r.randrange(4)), ("start_pes", 0)]))
        else:
            P.put(r.randrange(P.n), "query")
    # work whose completion is left to the finalisation
    for pe in range(P.n):
        for _ in range(r.randrange(0, 5)):
            if r.random() < .5:
                emit_put(P, pe, d, r.randrange(P.n), kinds=["put", "p", "iput", "putn"])
            else:
                emit_amo(P, pe, c, r.randrange(P.n), ops=["inc", "add", "set", "finc"])
    if r.random() < .2:
        P.all("barrier_all")
    for pe in range(P.n):
        if r.random() < .4:
            P.put(pe, "pause", r.randrange(1, 80))
    if legacy and r.random() < .7:
        pass
    else:
        P.all("finalize")
        if r.random() < .3:
            P.all("finalize")
    return P


def fam_gexit(r, big=False):
    P = Prog(r, r.choice([1, 2, 3]), seeds=10)
    P.style()
    d = P.obj("int", 3)
    for pe in range(P.n):
        if r.random() < .5:
            emit_put(P, pe, d, r.randrange(P.n), kinds=["put", "p"])
    q = r.randrange(P.n)
    if r.random() < .5:
        P.put(q, "pause", r.randrange(1, 50))
    P.put(q, "gexit", r.choice([0, 1, 7, 42, 255]))
    for pe in range(P.n):
        if pe != q:
            P.put(pe, *r.choice([("barrier_all",), ("sync_all",), ("set_lock", 0)]))
    P.all("barrier_all")
    return P


# ------------------------------------------------------------------ progress
def fam_progress(r, big=False):
    """targets that are busy in every kind of call (or none) while others need them; few message tags; small buffers"""
    P = Prog(r, r.choice([2, 2, 3]), seeds=16)
    P.modes(rma=True)
    P.style()
    if r.random() < .7:
        P.opt("eager", r.choice([0, 0, 10]))
    k = r.choice(["tags", "coll", "wait", "lock", "split", "alloc", "spin", "spin"])
    c = amo_obj(P, 2, "long")
    d = P.obj(r.choice(RMA), 4)
    if k == "tags":
        P.seeds = 1
        t = r.randrange(P.n)
        P.put((t + 1) % P.n, "repeat_amo", 34000, c["id"], 0, t)
        P.all("barrier_all")
        emit_amo(P, t, c, (t + 1) % P.n)
        P.all("barrier_all")
        return P
    busy = r.randrange(P.n)
    others = [p for p in range(P.n) if p != busy]
    if k == "wait":
        f = P.obj("int", 1, "n")
        for q in others:
            for _ in range(r.randrange(1, 4)):
                emit_amo(P, q, c, busy, ops=["finc", "fadd", "swap", "inc"])
        for q in others:
            P.put(q, "amo", "inc", "s", f["id"], 0, busy, "d", 0, 0)
            if r.random() < .5:
                P.put(q, "quiet")
        P.put(busy, r.choice(["wait", "testloop"]), "int", f["id"], 0, "eq", len(others))
    elif k == "spin":
        # the busy PE looks at the same place again and again
        f = P.obj(r.choice(["int", "long"]), 3, "n")
        q = r.choice(others)
        how = r.choice(["g", "get", "iget", "nbi", "fetch", "lock", "lock"])
        lk = how == "lock"
        at = r.randrange(P.n)
        if lk:
            P.put(q, "set_lock", 0)
            P.all("barrier_all")
        for _ in range(r.randrange(1, 4)):
            x = r.random()
            if x < .6:
                emit_amo(P, q, c, busy, ops=["finc", "fadd", "swap", "cswap"])
            elif x < .8:
                emit_get(P, q, d, busy)
            else:
                emit_put(P, q, d, busy)
                P.put(q, "quiet")
        if lk:
            P.put(q, "clear_lock", 0)
            P.put(busy, "lockspin", 0)
            P.put(busy, "clear_lock", 0)
        else:
            if how == "fetch":
                P.put(q, "amo", "set", "s", f["id"], 0, at, "d", 1, 0)
            else:
                P.put(q, "rma", r.choice(["p", "put"]), f["ty"], f["id"], 0, 1, 1, 1, at, "d", 1)
            P.put(q, "quiet")
            P.put(busy, "spin", how, f["id"], 0, at, 1)
    elif k == "lock":
        P.put(busy, "set_lock", 0)
        for q in others:
            emit_amo(P, q, c, busy, ops=["finc", "fadd", "swap"])
            P.put(q, "set_lock", 0)
            emit_amo(P, q, c, busy, ops=["finc", "fadd"])
            P.put(q, "clear_lock", 0)
        P.put(busy, "clear_lock", 0)
    else:
        # the busy PE enters a collective first; the others talk to it before they join
        for q in others:
            for _ in range(r.randrange(1, 4)):
                x = r.random()
                if x < .6:
                    emit_amo(P, q, c, busy)
                elif x < .8:
                    emit_put(P, q, d, busy)
                else:
                    emit_get(P, q, d, busy)
            if r.random() < .4:
                P.put(q, "quiet")
        if k == "split":
            op = r.choice(["split", "split2d"])
            if op == "split":
                P.all("team_split", 0, 2, 0, 1, P.n)
            else:
                P.all("team_split2d", 0, 2, 3, 2)
            for q in others:
                emit_amo(P, q, c, busy, ops=["finc"])
            P.all(*r.choice([("team_sync", 2), ("team_destroy", 2), ("sync_all",)]))
        elif k == "alloc":
            op = r.choice(["malloc", "align", "calloc"])
            P.all(op, 1, 100, 8)
            for q in others:
                emit_amo(P, q, c, busy, ops=["finc"])
            P.all(*r.choice([("free", 1), ("realloc", 1, 300)]))
            if r.random() < .5:
                P.all("space_create", 0, 8192, 1, 0)
                for q in others:
                    emit_amo(P, q, c, busy, ops=["finc"])
                P.all("space_attach", 0)
                for q in others:
                    emit_amo(P, q, c, busy, ops=["finc"])
                P.all("space_detach", 0)
                for q in others:
                    emit_amo(P, q, c, busy, ops=["finc"])
                P.all("space_destroy", 0)
        else:
            nm = r.choice(["bcast", "collect", "fcollect", "alltoall", "alltoalls", "sum", "min", "or"])
            ty = "int"
            s, t = P.obj(ty, 8, "n"), P.obj(ty, 8 * P.n, "n")
            form = r.choice(["a", "t"])
            if form == "t" and nm == "or":
                nm = "max"
            ty2 = ("32" if nm not in ("sum", "min", "or", "max") else "int") if form == "a" else "int"
            P.all("coll", nm, ty2, form, f"0,0,{P.n}" if form == "a" else "0", t["id"], s["id"], 2, 0)
            for q in others:
                emit_amo(P, q, c, busy, ops=["finc"])
            P.all(*r.choice([("sync_all",), ("barrier_all",), ("sync", 0, 0, P.n), ("barrier", 0, 0, P.n), ("team_sync", 0)]))
    for q in others:
        emit_amo(P, q, c, busy, ops=["finc", "add"])
    P.all("barrier_all")
    return P


def fam_idle(r, big=False):
    """PEs that compute and call nothing, while others need them; only the asynchronous progress thread can help"""
    P = Prog(r, r.choice([2, 2, 3, 4]), seeds=10)
    P.modes(rma=True)
    P.style()
    if r.random() < .5:
        P.opt("eager", r.choice([0, 0, 10]))
    c = amo_obj(P, 2, "long")
    d = P.obj(r.choice(RMA), 4)
    f = P.obj(r.choice(["int", "long"]), 2, "n")
    for turn in range(r.choice([1, 1, 2])):
        idle = r.sample(range(P.n), r.randrange(1, P.n))
        others = [p for p in range(P.n) if p not in idle]
        lk = r.random() < .3
        if lk:                      # an idle PE has passed the lock on
            q = r.choice(idle)
            P.put(q, "set_lock", 0)
            P.put(q, "clear_lock", 0)
        for q in others:
            for _ in range(r.randrange(1, 4)):
                t = r.choice(idle)
                x = r.random()
                if x < .5:
                    emit_amo(P, q, c, t)
                elif x < .75:
                    emit_put(P, q, d, t)
                else:
                    emit_get(P, q, d, t)
                if r.random() < .3:
                    P.put(q, r.choice(["quiet", "fence"]))
            if lk and r.random() < .5:
                P.put(q, "set_lock", 0)
                emit_amo(P, q, c, r.choice(idle), ops=["finc", "fadd"])
                P.put(q, "clear_lock", 0)
            for t in idle:
                P.put(q, "amo", r.choice(["inc", "finc"]), "s", f["id"], turn, t, "d", 0, 0)
            if r.random() < .5:
                P.put(q, "quiet")
        for t in idle:
            P.put(t, "idle", f["id"], turn, len(others))
        P.all("barrier_all")
    return P


def fam_threads(r, big=False):
    """several threads of a PE call the library at the same time (THREAD_MULTIPLE only): on the same contexts and on their own,
    each with its own quiets; operations whose call had returned before a quiet was called are complete when it returns"""
    P = Prog(r, r.choice([2, 2, 3]), seeds=24)
    P.modes()
    P.style()
    spaces = r.random() < .5
    if spaces:
        nc = r.choice([0, 1, 2])
        P.all("space_create", 0, 65536, nc, 0)
    nt = r.choice([1, 1, 2, 3])           # threads besides the main one
    thr = [(q, k) for q in range(P.n) for k in range(nt + 1)]
    c = amo_obj(P, 2, r.choice(["int", "long", "uint64"]), r.choice("hd"))
    own = {}                                # objects that one thread puts into
    priv = [P.obj(r.choice(["int", "long", "short", "double"]), r.choice([2, 4]), "o", r.choice("hd")) for _ in range(3)]
    fl = P.obj(r.choice(["int", "long"]), 8, "n", r.choice("hd"))
    ctxs = ["d"]
    slot = 0
    if spaces:
        sc = P.obj(r.choice(AMO_STD), 2, "n", "s0")
        so = P.obj(r.choice(["int", "long"]), 6, "o", "s0")
        for o in (sc, so):
            P.all("sobj", o["id"], 0)
        P.all("space_attach", 0)
        for k in range(nc):
            P.all("space_ctx", 0, k + 1)
            ctxs.append(str(k + 1))
    P.all("barrier_all")
    name = lambda q, k: f"{q}.{k}" if k else q
    for ph in range(r.choice([1, 1, 2])):
        # who may put into which object of which PE in this phase
        wr = {(i, t): r.choice(thr) for i in range(4) for t in range(P.n)}
        P.all("threads", nt)
        used = 0
        busy = r.choice(["no", "locks", "barrier", "heap"])
        for q, k in thr:
            me = name(q, k)
            for _ in range(r.randrange(1, 7)):
                x = r.random()
                if k == 0 and busy == "locks" and r.random() < .4:
                    P.put(q, "set_lock", 0)
                    emit_amo(P, q, c, r.randrange(P.n))
                    P.put(q, "clear_lock", 0)
                sp = spaces and r.random() < .4
                ctx = r.choice(ctxs) if sp else "d"
                if x < .25:
                    emit_amo(P, me, sc if sp else c, r.randrange(P.n), ctx=ctx)
                elif x < .6:
                    can = [(i, t) for (i, t), w in wr.items() if w == (q, k) and (i < 3) != sp]
                    if can:
                        i, t = r.choice(can)
                        emit_put(P, me, so if i == 3 else priv[i], t, ctx)
                    else:
                        P.put(me, "pause", r.randrange(1, 20))
                elif x < .75:
                    emit_get(P, me, so if sp else r.choice(priv), r.randrange(P.n), ctx)
                elif x < .95:
                    P.put(me, r.choice(["quiet", "quiet", "fence"]), ctx)
                else:
                    P.put(me, "pause", r.randrange(1, 30))
            if used < 8 and r.random() < .3:         # a thread is waited for by another PE's thread
                t, j = r.choice([w for w in thr if w[0] != q])
                P.put(me, "quiet", r.choice(ctxs))
                P.put(me, "amo", "inc", "s", fl["id"], used, t, "d", 0, 0)
                if r.random() < .5:
                    P.put(me, "quiet")
                own.setdefault((t, j), []).append(used)
                used += 1
        for (t, j), fs in own.items():
            for i in fs:
                P.put(name(t, j), r.choice(["wait", "testloop"]), fl["ty"], fl["id"], i, "ge", ph + 1)
                if r.random() < .5:
                    emit_get(P, name(t, j), r.choice(priv), r.randrange(P.n))
        own.clear()
        # the main threads call something collective meanwhile
        if busy == "barrier":
            P.all(r.choice(["barrier_all", "sync_all"]))
        elif busy == "heap":
            slot += 1
            P.all("malloc", slot, r.randrange(1, 3000), 0, "x")
            P.all("fill", slot, slot % 9 + 1)
            if r.random() < .7:
                P.all("check", slot)
                P.all("free", slot)
        P.all("join")
        for x in ctxs:
            P.all("quiet", x)
        P.all("barrier_all")
        verify(P, [c] + priv + ([sc, so] if spaces else []), 2)
        P.all("barrier_all")
        if ph == 0:                              # flags count from 0 again in the next phase
            for i in range(8):
                for q in range(P.n):
                    P.put(q, "st", fl["id"], i, ph + 1)
            P.all("barrier_all")
    if spaces:
        for x in ctxs[1:]:
            P.all("ctx_destroy", x)
        P.all("space_detach", 0)
        for o in (sc, so):
            P.all("sobj_free", o["id"])
        P.all("space_destroy", 0)
    return P


# ------------------------------------------------------------------ addresses
def fam_query(r, big=False):
    P = Prog(r, r.choice([1, 2, 3]), seeds=4)
    P.style()
    objs = [P.obj(r.choice(RMA), r.choice([1, 4])) for _ in range(2)]
    if r.random() < .6:
        P.all("space_create", 0, 32768, 1, r.choice([0, 1]))
        o = P.obj(r.choice(RMA), 3, "o", "s0")
        P.all("sobj", o["id"], 0)
        P.all("space_malloc", 0, 0, 100)
        if r.random() < .5:
            P.all("accessible", 0, r.randrange(P.n))
        P.all("space_attach", 0)
        objs.append(o)
        P.all("accessible", 0, r.randrange(P.n))
    P.all("malloc", 1, r.choice([1, 100, 5000]))
    for _ in range(3):
        P.put(r.randrange(P.n), "accessible", 1, r.randrange(-1, P.n + 1))
    for o in objs:
        for p in range(P.n):
            P.put(p, "st", o["id"], 0, P.fresh(o, o["n"]), o["n"])
    P.all("barrier_all")
    for _ in range(2):
        P.put(r.randrange(P.n), "bounds", r.randrange(-1, P.n + 1))
    for _ in range(6):
        o = r.choice(objs)
        P.put(r.randrange(P.n), "ptr", o["id"], r.randrange(-1, P.n + 1), r.randrange(o["n"]))
    P.put(r.randrange(P.n), "query")
    P.put(r.randrange(P.n), "cachefns")
    P.all("barrier_all")
    return P


def wval(r, n):
    """an interesting full-width value, as bytes"""
    k = r.random()
    if k < .15:
        return bytes(n)
    if k < .3:
        return b"\xff" * n
    if k < .4:
        return b"\xff" * (n - 1) + b"\x7f"
    if k < .5:
        return bytes(n - 1) + b"\x80"
    if k < .6:
        v = bytearray(n)
        v[r.randrange(n)] = r.choice([1, 0x80, 0xff])
        return bytes(v)
    if k < .7:
        return b"\xff" * (n // 2) + bytes(n - n // 2)
    return bytes(r.randrange(256) for _ in range(n))


FNAN = {4: [b"\x01\x00\x80\x7f", b"\x00\x00\x00\x80", b"\x01\x00\x00\x00", b"\xff\xff\xff\xff"],
        8: [b"\x01\x00\x00\x00\x00\x00\xf0\x7f", bytes(7) + b"\x80", b"\x01" + bytes(7), b"\xff" * 8]}


def wapply(k, a, b, u):
    n = len(u)
    i = lambda x: int.from_bytes(x, "little")
    o = lambda v: (v % (1 << (8 * n))).to_bytes(n, "little")
    if k in ("set", "swap"):
        return a
    if k in ("inc", "finc"):
        return o(i(u) + 1)
    if k in ("add", "fadd"):
        return o(i(u) + i(a))
    if k in ("and", "fand"):
        return o(i(u) & i(a))
    if k in ("or", "for"):
        return o(i(u) | i(a))
    if k in ("xor", "fxor"):
        return o(i(u) ^ i(a))
    if k == "cswap":
        return b if u == a else u
    return u


def wvalue(r, ty, n, cur=None):
    if ty in AMO_FLT and r.random() < .3:
        return r.choice(FNAN[n])
    if cur is not None and r.random() < .35:
        c = bytearray(cur)
        if r.random() < .4:
            c[r.randrange(n)] ^= 1 << r.randrange(8)
        return bytes(c)
    return wval(r, n)


def words_init(P, o, w):
    for p in range(P.n):
        for i in range(o["n"]):
            v = wvalue(P.r, o["ty"], SIZE[o["ty"]])
            w[p, o["id"], i] = v
            P.put(p, "stw", o["id"], i, v.hex())


def fam_words(r):
    """atomics on full-width values; PE p works on its own element of every target, next to the others"""
    P = Prog(r, r.choice([2, 3]), seeds=4)
    P.spec = "TraceWords"
    P.modes()
    P.style()
    P.nodes() if hasattr(P, "nodes") and r.random() < .2 else None
    tys = r.sample(AMO_STD + AMO_FLT + AMO_BIT, 3)
    objs = [P.obj(ty, P.n + 1, "n") for ty in tys]
    w = {}
    P.all("barrier_all")
    for o in objs:
        words_init(P, o, w)
    P.all("barrier_all")
    for _ in range(r.randrange(6, 14)):
        for pe in range(P.n):
            o = r.choice(objs)
            ty, n = o["ty"], SIZE[o["ty"]]
            t = r.randrange(P.n)
            u = w[t, o["id"], pe]
            k = r.choice(amo_ops(ty))
            how = ["s", "s", "s"] + (["n", "n"] if k in FETCHING else [])
            if ty in AMO_GEN and k in (["cswap", "finc", "inc", "fadd", "add", "fetch", "set", "swap"] +
                                       (["fand", "and", "for", "or", "fxor", "xor"] if ty in GEN_BIT else [])):
                how.append("g")
            how = r.choice(how)
            ctx = "d" if how == "n" else default_ctx(P)
            if (ty in AMO_OLD + AMO_FLT) and k in ["cswap", "finc", "inc", "fadd", "add", "fetch", "set", "swap"] and r.random() < .2:
                how, ctx = "o", "d"
            a, b = wvalue(r, ty, n, u), wvalue(r, ty, n, u)
            w[t, o["id"], pe] = wapply(k, a, b, u)
            P.put(pe, "amow", k, how, o["id"], pe, t, ctx, a.hex(), b.hex())
    P.all("barrier_all")
    for o in objs:
        P.all("rdw", o["id"])
    P.all("barrier_all")
    return P


def fam_wtest(r):
    """comparisons of full-width values by test and wait_until"""
    P = Prog(r, 1 if r.random() < .5 else 2, seeds=1)
    P.spec = "TraceWords"
    P.style()
    objs = [P.obj(ty, 2, "n") for ty in r.sample(P2P, 4)]
    w = {}
    P.all("barrier_all")
    for _ in range(4):
        for o in objs:
            words_init(P, o, w)
        for _ in range(12):
            for pe in range(P.n):
                o = r.choice(objs)
                ty = o["ty"]
                i = r.randrange(2)
                v = wvalue(r, ty, SIZE[ty], w[pe, o["id"], i])
                P.put(pe, "testw", ("g" if ty in P2P_GEN and r.random() < .3 else "") + ty, o["id"], i, r.choice(CMPS), v.hex())
    P.all("barrier_all")
    return P


def fvalue(r, n):
    """a floating-point number: no NaN, no zero (its sign could depend on the order)"""
    while True:
        b = bytearray(wval(r, n))
        if r.random() < .5:
            b[-1] = r.choice([0x3f, 0x40, 0xbf, 0xc0, 0x00, 0x80])
        e = (b[-1] & 0x7f) << 8 | b[-2]
        if (e >> (7 if n == 4 else 4)) != (0xff if n == 4 else 0x7ff) and any(b[:-1]):
            return bytes(b)


def fam_wred(r):
    """reductions of full-width values, sources and destinations next to each other or the same"""
    n = crowd(r, [1, 2, 3, 4, 5])
    P = Prog(r, n, seeds=4)
    P.spec = "TraceWords"
    P.style()
    teams = {0: list(range(n))}
    for k in range(2, 2 + r.choice([0, 1, 2])):
        par = r.choice(list(teams))
        m = teams[par]
        st, sd = r.randrange(len(m)), r.choice([1, 1, 2])
        sz = r.randrange(1, (len(m) - 1 - st) // sd + 2)
        for pe in m:
            P.put(pe, "team_split", par, k, st, sd, sz)
        teams[k] = [m[st + i * sd] for i in range(sz)]
    objs = {}
    for _ in range(r.randrange(3, 8) if n < 9 else 2):
        name = r.choice(["sum", "prod", "min", "max", "and", "or", "xor"])
        if r.random() < .6:
            t = r.choice(list(teams))
            mem, form, st = teams[t], "t", str(t)
            tys = RMA if name in ("sum", "prod", "min", "max") else \
                "uchar ushort uint ulong ulonglong int8 int16 int32 int64 uint8 uint16 uint32 uint64 size".split()
        else:
            a = aset(r, n)
            mem, form, st = members(a), "a", ",".join(map(str, a))
            tys = "short int long longlong".split() + (["double", "float"] if name in ("min", "max") else [])
        ty = r.choice([t for t in tys if t != "longdouble" and (name in ("min", "max") or t not in ("float", "double"))])
        k = r.choice([0, 1, 1, 2, 3])
        if ty not in objs:
            objs[ty] = [P.obj(ty, 4, "n"), P.obj(ty, 4, "n")]
        s = r.choice(objs[ty])
        d = r.choice(objs[ty])
        for p in range(n):
            for o in objs[ty]:
                for i in range(4):
                    v = fvalue(r, SIZE[ty]) if ty in ("float", "double") else wval(r, SIZE[ty])
                    P.put(p, "stw", o["id"], i, v.hex())
        P.all("barrier_all")
        for p in mem:
            if r.random() < .3:
                P.put(p, "pause", r.randrange(1, 40))
            P.put(p, "coll", name, ty, form, st, d["id"], s["id"], k, 0)
        P.all("barrier_all")
        for o in objs[ty]:
            P.all("rdw", o["id"])
        P.all("barrier_all")
    for t in teams:
        if t > 1 and r.random() < .5:
            for pe in teams[t]:
                P.put(pe, "team_destroy", t)
    return P


FAMILIES = {k[4:]: v for k, v in list(globals().items()) if k.startswith("fam_")}


def make(family, seed):
    r = random.Random(f"{family}/{seed}")
    P = FAMILIES[family](r)
    # nobody uses an object or a lock before all PEs have it
    k = [i for i, l in enumerate(P.body) if l.split()[1] in ("sobj", "lock_alloc")]
    if k and family not in ("space", "spaces", "ctx", "ctx_mp"):
        P.body.insert(k[-1] + 1, "* barrier_all")
    if len(P.segs) > 2:
        P.all("barrier_all")
        P.close_segments()
    return P


if __name__ == "__main__":
    import sys
    P = make(sys.argv[1], sys.argv[2])
    print(f"# {P.n} PEs, {P.seeds} schedules, heap {P.heap}, tmax {P.tmax}")
    sys.stdout.write(P.text())
