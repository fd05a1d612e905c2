"""Which programs and which models decide which property."""
import concurrent.futures as cf
import engine, plans, re

LIMIT = {"quick": 420, "thorough": 1500}

# property -> [(family, weight)] ; weights are numbers of programs in a quick check
FAMS = {
    "C01": [("rma", 200), ("strided", 120), ("mixed", 60), ("wide", 60), ("shapes", 60), ("query", 20)],
    "C02": [("quiet", 220), ("mixed", 60), ("ctx", 60), ("wide", 30), ("many", 60)],
    "C03": [("fence", 300), ("ctx", 60), ("many", 40)],
    "C04": [("rma", 120), ("strided", 40), ("wide", 40), ("many", 40), ("shapes", 20), ("quiet", 100), ("mixed", 100)],
    "C05": [("amo", 240), ("mixed", 80), ("spaces", 60), ("many", 30)],
    "C06": [("words", 700), ("amo", 60)],
    "C07": [("p2p", 240), ("wtest", 300), ("progress", 40)],
    "C08": [("lock", 220), ("lock_test", 140)],
    "C09": [("lock_order", 220), ("lock", 100)],
    "C10": [("lock", 320)],
    "C11": [("barrier", 260), ("team", 100), ("sets", 60)],
    "C12": [("barrier", 220), ("mixed", 60), ("ctx", 40), ("space", 60), ("many", 40), ("sets", 30)],
    "C13": [("coll", 280), ("inplace", 60), ("sets", 50)],
    "C14": [("reduce", 300), ("wred", 300), ("inplace", 60), ("sets", 40)],
    "C15": [("team", 900)],
    "C16": [("heap", 700), ("heap_exhaust", 100), ("bigalign", 3)],
    "C17": [("space", 300), ("spaces", 200), ("pool", 400), ("ctx", 40)],
    "C18": [("ctx", 160), ("ctx_mp", 100), ("space", 100)],
    "C19": [("progress", 300), ("mixed", 50), ("lock", 50)],
    "C20": [("init", 600), ("gexit", 200), ("progress", 40)],
    "C22": [("heapsize", 500), ("heap_exhaust", 60)],
    "C23": [("query", 500), ("space", 100), ("spaces", 60)],
}
# C24: every family once under each of the other configurations (tool/build.py), and these more often
VARIANTS = {
    "dynwin": {"lock": 12, "lock_order": 4, "space": 8, "spaces": 8, "heap": 4, "rma": 4, "strided": 4, "amo": 6, "p2p": 4, "query": 8, "coll": 4, "ctx": 4},
    "lean": {"strided": 12, "shapes": 6, "quiet": 8, "fence": 8, "many": 4, "mixed": 4, "ctx": 4, "barrier": 4, "coll": 4},
    "am": {"rma": 10, "strided": 8, "quiet": 8, "fence": 8, "shapes": 4, "mixed": 6, "space": 4, "progress": 6, "wide": 4},
    "direct": {"amo": 10, "words": 10, "quiet": 6, "fence": 6, "mixed": 6, "init": 4, "ctx": 4, "p2p": 4},
    "single": {"init": 10, "mixed": 4, "lock": 4, "team": 2},
    "multiple": {"ctx": 8, "ctx_mp": 4, "space": 10, "spaces": 6, "pool": 6, "heap": 8, "heap_exhaust": 4, "team": 6, "strided": 6, "mixed": 6,
                 "amo": 6, "init": 8, "quiet": 4, "threads": 60},
    "async": {"idle": 40, "threads": 25, "progress": 10, "lock": 8, "mixed": 8, "space": 8, "init": 8, "gexit": 6, "amo": 8, "rma": 4, "ctx": 4},
    "ndebug": {"heap": 4, "space": 4, "team": 4, "coll": 4, "reduce": 4, "lock": 4, "query": 4, "strided": 4},
}
MODES = [(r, a) for r in ("direct", "am", "auto") for a in ("direct", "am", "auto")]
C21_FAMS = ["rma", "quiet", "fence", "amo", "mixed", "p2p", "lock", "barrier", "space", "ctx"]



def S(*a):
    """a TLA+ set of strings"""
    return "{" + ", ".join(f'"{x}"' for x in a) + "}"


RED = S("sum", "prod", "min", "max", "and", "or", "xor")
# property -> [(generator, constants, share in a quick check, share in a thorough check)]; see plans.py
PLANS = {
    "C01": [("coll", dict(NPes=3, Kinds=S("alltoalls")), .3, 1)],
    "C02": [("litmus", dict(Syncs=S("none", "quiet"), Syncs2=S("none"), CtxsUsed="{0, 1}"), .2, 9),
            ("litmus", dict(AKinds=S("put", "add"), BKinds=S("put", "add"), Syncs=S("quiet", "fence", "barrier"), Syncs2=S("quiet"),
                            CtxsUsed="{0, 1}"), .3, 9)],
    "C03": [("litmus", dict(Syncs=S("fence"), Syncs2=S("none"), CtxsUsed="{0, 1}"), .35, 9),
            ("litmus", dict(AKinds=S("put", "add"), BKinds=S("put", "add"), Syncs=S("quiet", "fence", "sync"), Syncs2=S("fence"),
                            CtxsUsed="{0, 1}", ATargets="{1}"), .5, 9)],
    "C04": [("litmus", dict(AKinds=S("put", "fadd", "swap"), BKinds=S("put", "add"), Syncs=S("none", "quiet", "fence"), Syncs2=S("none")), .2, 9)],
    "C05": [("amo", dict(Kinds=S("finc", "add", "swap", "cswap", "fetch")), .3, 1),
            ("amo", dict(NPes=3, MaxOps=1, Kinds=S("inc", "fadd", "swap", "cswap", "fand", "or", "fxor", "set")), .3, 1)],
    "C07": [("wait", dict(Operands="{0, 1, 2}", Kinds=S("put", "add")), .25, 1)],
    "C08": [("lock", dict(NPes=3, MaxSections=1), 3, 9), ("lock", dict(NPes=2, MaxSections=2, Locks="{0, 1}"), .3, 3)],
    "C09": [("lock", dict(NPes=3, MaxSections=1), 3, 9), ("lock", dict(NPes=2, MaxSections=2, Locks="{0, 1}"), .3, 3)],
    "C10": [("lock", dict(NPes=3, MaxSections=1), 3, 9), ("lock", dict(NPes=2, MaxSections=2, Locks="{0, 1}"), .3, 3)],
    "C11": [("sync", dict(NPes=3), 1, 1)],
    "C12": [("sync", dict(NPes=3), 1, 1),
            ("litmus", dict(Syncs=S("barrier", "alloc", "sync"), Syncs2=S("none", "fence"), CtxsUsed="{0, 1}", BKinds=S("put", "add")), .2, 9)],
    "C13": [("coll", dict(NPes=4), .5, 1), ("coll", dict(NPes=3), .5, 1)],
    "C14": [("coll", dict(NPes=4, MaxN=2, Kinds=RED), 1, 1), ("coll", dict(NPes=5, MaxN=1, Kinds=RED), .5, 1)],
    "C15": [("team", dict(NPes=4, NPpn=4), 1, 1), ("team", dict(NPes=3, NPpn=2), 1, 1)],
    "C16": [("heap", dict(Kinds=S("malloc", "calloc", "align"), MaxDepth=5), .5, 1)],
    "C17": [("space", {}, .25, 1)],
    "C18": [("litmus", dict(AKinds=S("put", "add"), BKinds=S("put", "add"), Syncs=S("quiet", "fence"), Syncs2=S("none", "quiet"), ATargets="{1, 2}",
                            CtxsUsed="{0, 1, 2}"), .2, 9), ("space", {}, .1, 1)],
    "C19": [("busy", dict(NPes=2), .3, 1)],
    "C20": [("init", {}, .25, 1)],
    "C21": [("litmus", {}, .15, 9)],
    "C23": [("space", {}, .1, 1)],
    "C24": [("lock", dict(NPes=2, MaxSections=2, Locks="{0, 1}"), .1, 3), ("space", {}, .08, 1), ("init", {}, .1, 1),
            ("litmus", dict(AKinds=S("put", "add"), BKinds=S("put", "add"), Syncs=S("quiet", "fence", "barrier"), Syncs2=S("none")), .15, 9)],
}
# thorough checks go through larger models as well
MORE = {
    "C05": [("amo", dict(Kinds=S("finc", "add", "swap", "cswap", "fetch"), Nbs="{FALSE, TRUE}"), .3)],
    "C07": [("wait", dict(Kinds=S("put", "add", "set", "inc")), .5), ("wait", dict(MaxOps=3, Vals="{0, 1}", Operands="{0, 1, 2}"), .3)],
    "C08": [("lock", dict(NPes=3, MaxSections=2), 1)],
    "C09": [("lock", dict(NPes=3, MaxSections=2), 1)],
    "C10": [("lock", dict(NPes=3, MaxSections=2), 1)],
    "C11": [("sync", dict(NPes=4), 1), ("sync", dict(NPes=3, MaxCalls=3), .3)],
    "C12": [("sync", dict(NPes=4), 1)],
    "C13": [("coll", dict(NPes=5, MaxN=2, MaxStride=2), 1)],
    "C14": [("coll", dict(NPes=6, MaxN=1, Kinds=RED), 1)],
    "C15": [("team", dict(NPes=5, NPpn=5), 1), ("team", dict(NPes=6, NPpn=4), .3)],
    "C16": [("heap", dict(Kinds=S("malloc", "calloc", "align"), MaxDepth=6, Units=4), .5)],
    "C17": [("space", dict(NSpaces=2, Pages=3, MaxCtx=1, MaxBlocks=3, MaxDepth=10), .3)],
    "C18": [("space", dict(NSpaces=2, Pages=1, MaxCtx=2, MaxBlocks=1, MaxDepth=12), .5)],
    "C19": [("busy", dict(NPes=3, MaxOps=1), 1), ("busy", dict(NPes=2, MaxOps=3), .2)],
}
# models that are only checked, not replayed: spec/<name>.tla
AM = ["AmProgress", "AmProgress:3"]
MODELS = {"C02": AM, "C03": AM, "C08": ["QLock"], "C09": ["QLock"], "C10": ["QLock"], "C19": ["QLock"] + AM, "C20": AM}


def plan_programs(prop, tier, seed):
    """-> (programs generated by TLC, figures about the models they come from)"""
    jobs = [(k, c, q if tier == "quick" else t) for k, c, q, t in PLANS.get(prop, [])]
    if tier != "quick":
        jobs += MORE.get(prop, [])
    with cf.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda x: plans.make(x[0], x[1], seed, x[2]), jobs))
    return [p for ps, _ in res for p in ps], [f for _, f in res]


def merged(a, b, nb):
    """a list and an iterator of about nb items, interleaved evenly"""
    k = 0
    for i, x in enumerate(b):
        while k < len(a) and k * nb <= i * len(a):
            yield a[k]
            k += 1
        yield x
    yield from a[k:]


def with_mode(p, rma, amo, ops=None):
    """the same program under other environment settings"""
    lines = [l for l in p.text.splitlines() if not re.match(r"env OSHMPI_(RMA|AMO)_DBG_MODE=|env OSHMPI_AMO_OPS=", l)]
    pre = [f"env OSHMPI_RMA_DBG_MODE={rma}", f"env OSHMPI_AMO_DBG_MODE={amo}"]
    if ops:
        pre.append("env OSHMPI_AMO_OPS=" + ops)
    return engine.Program(p.name + f"/{rma}-{amo}", "\n".join(pre + lines) + "\n", p.par, max(1, p.seeds // 4), p.spec, p.seed0)


def programs(prop, tier, seed, planned=()):
    if prop == "C24":
        vs = sorted(VARIANTS)
        planned = [p.under(v, .5) for i, p in enumerate(planned) for v in [vs[i % len(vs)]] if fits(p, v)]
    nb = (22 if tier == "quick" else 440) * 90 if prop == "C21" else 700 * (1 if tier == "quick" else 20) if prop == "C24" else sum(n for _, n in FAMS[prop]) * (1 if tier == "quick" else 20)
    yield from merged(list(planned), generated(prop, tier, seed), nb)


def fits(p, variant):
    """with the asynchronous thread, OSHMPI supports no other thread level than MULTIPLE"""
    return variant != "async" or (p.par["tmax"] == 3 and not re.search(r"mpi_init [012]$", p.text, re.M))


def generated(prop, tier, seed):
    base = seed * 100000
    mult = 1 if tier == "quick" else 20
    if prop == "C21":
        for i in range(22 * mult):
            for f in C21_FAMS:
                p = engine.from_family(f, base + i)
                for r, a in MODES:
                    yield with_mode(p, r, a)
        return
    if prop == "C24":
        every = sorted({f for fs in FAMS.values() for f, _ in fs} - {"bigalign"})
        jobs = []                  # how often each family under each configuration
        for v, fs in VARIANTS.items():
            for f in every + sorted(set(fs) - set(every)):
                n = max(1, fs.get(f, 0))
                jobs += [((k + .5) / n, f, v, k) for k in range(n)]
        jobs.sort(key=lambda j: j[0])
        for rnd in range(mult):
            for _, f, v, k in jobs:
                s = base + rnd * 64 + k
                p = engine.from_family(f, s + sorted(VARIANTS).index(v) * 7777)
                if fits(p, v):
                    yield p.under(v, .6)
        return
    # interleave the families, so that a deadline cuts all of them
    fams = FAMS[prop]
    top = max(n for _, n in fams) * mult
    nxt = {f: 0 for f, _ in fams}
    for i in range(top):
        for f, n in fams:
            want = (i + 1) * n * mult // top
            while nxt[f] < want:
                yield engine.from_family(f, base + nxt[f])
                nxt[f] += 1


def models(prop, tier):
    return MODELS.get(prop, [])
