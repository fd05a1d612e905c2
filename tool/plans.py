"""Client behaviours generated by TLC from the specification (spec/Gen*.tla), turned into programs.

Each Gen module is a bounded model of the specification together with its clients.  TLC visits every state of it, checks
the invariants of the module, and prints for every transition the calls that lead to it (one plan).  Here the plans are
packed into driver scripts, so that every transition of the abstract machine is replayed in the library."""
import json, os, random, re, shutil, subprocess, tempfile
import engine, gen


def tlc(module, consts, workers=1, limit=900):
    """run the model; -> (plans, distinct states, generated states)"""
    d = tempfile.mkdtemp(prefix="shmemplan.")
    try:
        for x in os.listdir(engine.SPEC):
            if x.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(engine.SPEC, x), d)
        cfg = open(f"{d}/{module}.cfg").read()
        for k, v in consts.items():
            cfg, n = re.subn(rf"(?m)^(\s*{k} = ).*$", lambda m: m[1] + str(v), cfg)
            if n != 1:
                raise engine.Tool(f"{module}.cfg has no constant {k}")
        open(f"{d}/{module}.cfg", "w").write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss16m", "-Xmx3g", "-Djava.io.tmpdir=" + d, "-cp", engine.JARS, "tlc2.TLC", "-workers",
               str(workers), "-metadir", d + "/m", "-config", module + ".cfg", module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
        except subprocess.TimeoutExpired:
            raise engine.Tool(f"model {module} {consts} took too long")
        if "Model checking completed. No error" not in r.stdout:
            raise engine.Tool(f"model {module} {consts} fails: " + r.stdout[-3000:])
        m = re.search(r"(\d+) states generated, (\d+) distinct", r.stdout)
        seen, plans = set(), []
        for x in re.findall(r'(?m)^<<"PLAN", (".*")>>$', r.stdout):
            if x not in seen:
                seen.add(x)
                plans.append(x)
        plans.sort()          # the order does not depend on TLC's threads
        return [json.loads(json.loads(x)) for x in plans], int(m[2]), int(m[1])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def program(name, n, lines, seeds, seed0=1, heap=1 << 27, tmax=3, ppn=64, spec="TraceShmem"):
    return engine.Program(name, "\n".join(lines) + "\n", dict(n=n, heap=heap, tmax=tmax, ppn=ppn), seeds, spec, seed0)


# ------------------------------------------------------------------ teams
def team(consts, seed, part):
    n, ppn = consts["NPes"], consts["NPpn"]
    plans, ds, gs = tlc("GenTeam", consts)
    first = {}
    for p in plans:
        first.setdefault(json.dumps(p[0]), []).append(p[1:])
    groups = []
    for k in sorted(first):
        rest = [x for x in first[k] if x]
        random.Random(seed).shuffle(rest)
        for i in range(0, max(1, len(rest)), 40):
            groups.append((json.loads(k), rest[i:i + 40]))
    random.Random(seed).shuffle(groups)
    # the first splits that lead nowhere: many in one program
    lone = [g for g in groups if not g[1]]
    groups = [[g] for g in groups if g[1]] + [lone[i:i + 40] for i in range(0, len(lone), 40)]

    def call(L, c):
        for p in c["pes"]:
            if c["o"] == "s":
                L.append(f"{p} team_split {c['t']} {c['w']} {c['a'][0]} {c['a'][1]} {c['a'][2]} {c['w'] % 4} 1")
            else:
                L.append(f"{p} team_split2d {c['t']} {c['w']} {c['y']} {c['a'][0]} {c['w'] % 4} 1 {c['y'] % 4} 1")

    def end(L, c):
        for p, h in c["new"]:
            L.append(f"{p} team_destroy {h}")

    def gen():
        r = random.Random(seed * 7 + 1)
        for i, g in enumerate(groups):
            L = [f"simopt ppn {ppn}"] if ppn < n else []
            for a, rest in g:
                call(L, a)
                for b in [x[0] for x in rest]:
                    call(L, b)
                    hs = [0, 1, a["w"], b["w"]] + ([a["y"]] if a["y"] else []) + ([b["y"]] if b["y"] else [])
                    for _ in range(2):
                        L.append(f"{r.randrange(n)} team_translate {r.choice(hs)} {r.randrange(-1, n + 1)} {r.choice(hs)}")
                    L.append(f"{r.randrange(n)} team_query {r.choice(hs)}")
                    L.append(f"{r.randrange(n)} team_config {r.choice(hs[2:])}")
                    if r.random() < .3:
                        for p, h in b["new"]:
                            if h == b["w"]:
                                L.append(f"{p} team_sync {h}")
                    end(L, b)
                end(L, a)
            yield program(f"plan-team{n}/{i}", n, L, 1, seed0=seed * 1000 + i, ppn=ppn if ppn < n else 64)
    return gen(), len(plans), ds, gs


# ------------------------------------------------------------------ memory model
MODES = [(r, a) for r in ("direct", "am", "auto") for a in ("direct", "am", "auto")]


def litmus(consts, seed, share):
    """message passing: A, synchronisation, B | wait for B, read A.  With everything the abstract plan leaves open chosen at random"""
    plans, ds, gs = tlc("GenLitmus", consts, workers=4)
    uniq = sorted({json.dumps(x["p"], sort_keys=True) for x in plans})
    rr = random.Random(seed * 31 + 5)
    rr.shuffle(uniq)
    if share < 1:
        uniq = uniq[:max(24, int(len(uniq) * share))]
    reps = max(1, int(share))

    def gen():
        k = 0
        for rep in range(reps):
            for i in range(0, len(uniq), 12):
                yield _litmus(f"plan-litmus/{seed}.{rep}.{i // 12}", [json.loads(x) for x in uniq[i:i + 12]],
                              random.Random(seed * 1000003 + rep * 7919 + i), MODES[(k + seed) % 9])
                k += 1
    return gen(), len(uniq), ds, gs


def _litmus(name, plans, r, mode):
    P = gen.Prog(r, 3 if r.random() < .8 else 4, seeds=6)
    P.env("OSHMPI_RMA_DBG_MODE", mode[0])
    P.env("OSHMPI_AMO_DBG_MODE", mode[1])
    P.style()
    N = P.n
    ctxs = any(p["xa"] or p["xb"] or p["xs"] for p in plans)
    nsp = 3 if ctxs or r.random() < .5 else 0
    locs = ["h", "d"] + [f"s{k}" for k in range(nsp)]
    second = r.choice([0, 1])
    for k in range(nsp):
        P.all("space_create", k, 65536, {0: 2, 1: 1, 2: r.choice([0, 1])}[k] if ctxs else r.choice([0, 1]), r.choice([0, 0, 1]))
    O = {}
    for L in locs:
        O[L] = dict(D=P.obj(r.choice(gen.RMA), 3 * len(plans), "o", L), C=P.obj(r.choice(gen.AMO_STD), len(plans) + 1, "n", L),
                    N=P.obj(r.choice(gen.RMA), 2, "o", L),
                    F=P.obj(r.choice(gen.AMO_STD), len(plans), "n", L))
        if L[0] == "s":
            for o in O[L].values():
                P.all("sobj", o["id"], L[1])
    on = set()
    for k in r.sample(range(nsp), nsp):
        P.all("space_attach", k)
        on.add(k)
    if ctxs:
        P.all("space_ctx", 0, 1)
        P.all("space_ctx", second, 2)
    home = {1: "s0", 2: f"s{second}"}
    P.all("barrier_all")
    slot = 0
    free = [k for k in range(nsp) if not (ctxs and f"s{k}" in home.values())]
    for j, p in enumerate(plans):
        if free and r.random() < .3:
            k = r.choice(free)
            P.all("space_detach" if k in on else "space_attach", k)
            on ^= {k}
        here = ["h", "d"] + [f"s{k}" for k in on]
        la = home[p["xa"]] if p["xa"] else r.choice(here)
        lb = home[p["xb"]] if p["xb"] else r.choice(here)
        perm = r.sample(range(N), N)
        w, q, ta = perm[0], perm[1], perm[p["ta"]]
        cx = lambda x: str(x) if x else r.choice("ddD")
        tgt = {}

        def op(kind, L, t, x, idx, flag):
            nb = kind[-1] == "n"
            if kind in ("put", "putn"):
                o = O[L]["F" if flag else "D"]
                if flag:
                    api = r.choice(["putn"] if nb else ["put", "p", "iput"])
                    P.put(w, "rma", api, gen.put_api(r, o["ty"], api), o["id"], idx, 1, 1, 1, t, cx(x), 1)
                    return o, idx, 1
                e, st, _ = gen.emit_put(P, w, o, t, cx(x), 3 * idx, 3 * idx + 3, kinds=["putn"] if nb else ["put", "put", "p", "iput"])
                return o, 3 * idx, 3
            o = O[L]["F" if flag else "C"]
            ops = {"add": ["add", "inc", "set"], "set": ["set"], "fadd": ["fadd", "finc", "swap", "cswap"], "swap": ["swap"]}[kind[:-1] if nb else kind]
            k = r.choice(ops)
            how = ["n"] if nb else ["s", "s"]
            if not nb and o["ty"] in gen.AMO_GEN and k in ("set", "add", "inc", "fadd", "finc", "swap", "cswap"):
                how.append("g")
            a, b = (0, 1) if k == "cswap" else (1, 0)
            P.put(w, "amo", k, r.choice(how), o["id"], idx, t, cx(x), a, b)
            return o, idx, 1
        def noise():
            """something unrelated on another object, on any context: what the library remembers about A must not suffer"""
            x = r.choice([0, 0, 1, 2]) if ctxs else 0
            L = home[x] if x else r.choice(here)
            k = r.random()
            if k < .3:
                P.put(w, "rma", r.choice(["get", "g", "getn", "iget"]), O[L]["D"]["ty"], O[L]["D"]["id"], e, 1, 1, 1, r.randrange(N), cx(x), 0)
            elif k < .5:
                P.put(w, "amo", "fetch", r.choice("sn"), O[L]["C"]["id"], j, r.randrange(N), cx(x), 0, 0)
            elif k < .75:
                gen.emit_put(P, w, O[L]["N"], r.randrange(N), cx(x), kinds=["put", "p", "putn"])
            else:
                P.put(w, "amo", r.choice(["add", "inc", "finc"]), "s", O[L]["C"]["id"], len(plans), r.randrange(N), cx(x), 1, 0)
        o, e, n = op(p["a"], la, ta, p["xa"], j, False)
        for s, xs in ((p["s"], p["xs"]), (p["s2"], p["xs2"])):
            for _ in range(r.choice([0, 0, 1, 2])):
                noise()
            if s in ("fence", "quiet"):
                P.put(w, s, *([str(xs)] if xs else r.choice([[], ["D"]])))
            elif s == "barrier":
                P.all(*r.choice([["barrier_all"], ["barrier", 0, 0, N]]))
            elif s == "sync":
                P.all(*r.choice([["sync_all"], ["sync", 0, 0, N], ["team_sync", 0]]))
            elif s == "alloc":
                if slot and r.random() < .4:
                    slot -= 1
                    P.all("free", slot)
                else:
                    P.all("malloc", slot, r.choice([8, 100, 5000]))
                    slot += 1
        f, _, _ = op(p["b"], lb, q, p["xb"], j, True)
        ty = f["ty"]
        if ty in gen.P2P:
            P.put(q, r.choice(["wait", "wait", "testloop"]), ("g" if ty in gen.P2P_GEN and r.random() < .3 else "") + ty, f["id"], j,
                  *r.choice([["eq", 1], ["ne", 0], ["ge", 1], ["gt", 0]]))
        if o["mode"] == "n" and r.random() < .5:
            P.put(q, "amo", "fetch", "s", o["id"], e, ta, "d", 0, 0)
        else:
            P.put(q, "rma", r.choice(["get", "iget"]), o["ty"], o["id"], e, 1, 1, n, ta, "d", 0)
        if r.random() < .5:
            P.put(q, "rma", "get", f["ty"], f["id"], j, 1, 1, 1, q, "d", 0)
        for x in ([1, 2] if ctxs else []):
            P.put(w, "quiet", x)
        P.all("barrier_all")
    while slot:
        slot -= 1
        P.all("free", slot)
    if ctxs:
        P.all("ctx_destroy", 1)
        P.all("ctx_destroy", 2)
    for k in range(nsp):
        if k in on:
            P.all("space_detach", k)
        for o in O[f"s{k}"].values():
            P.all("sobj_free", o["id"])
        P.all("space_destroy", k)
    return engine.Program(name, P.text(), dict(n=N, heap=P.heap, tmax=P.tmax, ppn=P.ppn), P.seeds, "TraceShmem", 1)


# ------------------------------------------------------------------ collectives
NAME = {"broadcast": "bcast"}


def coll(consts, seed, share):
    plans, ds, gs = tlc("GenColl", consts)
    r0 = random.Random(seed * 17 + 3)
    r0.shuffle(plans)
    if share < 1:
        plans = plans[:max(40, int(len(plans) * share))]

    def progs():
        i = k = 0
        while i < len(plans):
            P, j = _coll(plans, i, consts["NPes"], random.Random(seed * 1000003 + i), 3)
            yield engine.Program(f"plan-coll{consts['NPes']}/{seed}.{k}", P.text(), dict(n=P.n, heap=P.heap, tmax=3, ppn=64), P.seeds, "TraceShmem", 1)
            i, k = j, k + 1
    return progs(), len(plans), ds, gs


def _coll(plans, i, n, r, seeds):
    P = gen.Prog(r, n, seeds=seeds)
    P.style()
    teams = {(0, 1, n): 0}
    start = i
    while i < len(plans) and i < start + 12:
        p = plans[i]
        s = tuple(p["s"])
        name = NAME.get(p["k"], p["k"])
        mem = [s[0] + a * s[1] for a in range(s[2])]
        red = name in ("sum", "prod", "min", "max", "and", "or", "xor")
        if p["team"]:
            ty = r.choice(gen.RMA if not red or name in ("min", "max") else gen.RMA + ["complexf", "complexd"] if name in ("sum", "prod") else
                          "uchar ushort uint ulong ulonglong int8 int16 int32 int64 uint8 uint16 uint32 uint64 size".split())
        else:
            ty = r.choice(["32", "64"] if not red else "short int long longlong double float longdouble".split() if name in ("min", "max") else
                          "short int long longlong double float longdouble complexf complexd".split() if name in ("sum", "prod") else
                          "short int long longlong".split())
        oty = {"32": r.choice(["int", "float", "uint32"]), "64": r.choice(["long", "double", "uint64"])}.get(ty, ty)
        k, sz, d1, d2 = p["n"], s[2], p["ds"], p["ss"]
        sn = dn = k
        cnts = [k] * sz
        if name == "alltoall":
            sn = dn = k * sz
        elif name == "alltoalls":
            sn, dn = ((k * sz - 1) * d2 + 1, (k * sz - 1) * d1 + 1) if k else (1, 1)
        elif name == "fcollect":
            dn = k * sz
        elif name == "collect":
            cnts = p["cnt"]
            sn, dn = max(cnts), sum(cnts)
        if P.cell + sn + dn + 4 > 900 or len(P.objs) > 55:
            break
        if p["team"] and s not in teams:
            t = teams[s] = len(teams) + 1
            for pe in range(n):
                P.put(pe, "team_split", 0, t, s[0], s[1], s[2])
        S = P.obj(oty, max(sn, 1), "n" if red else "o")
        D = P.obj(oty, max(dn, 1), "n" if red else "o")
        lim = 3 if name == "prod" else 15 if gen.SIZE[oty] == 1 else 1000
        for pe in mem:
            if red:
                for e in range(sn):
                    P.put(pe, "st", S["id"], e, r.randrange(1 if name == "prod" else 0, lim), 1)
            elif sn:
                P.put(pe, "st", S["id"], 0, P.fresh(S, sn), sn)
        if r.random() < .3:
            P.all("barrier_all")
        form, st = ("t", str(teams[s])) if p["team"] else ("a", f"{s[0]},{s[1].bit_length() - 1},{s[2]}")
        api = "mem" if p["team"] and not red and name != "alltoalls" and r.random() < .2 else ty
        for c, pe in zip(cnts, mem):
            if r.random() < .2:
                P.put(pe, "pause", r.randrange(1, 40))
            P.put(pe, "coll", name, api, form, st, D["id"], S["id"], c, p["r"], d1, d2)
        i += 1
    P.all("barrier_all")
    return P, max(i, start + 1)


# ------------------------------------------------------------------ spaces, life cycle, heap
def maximal(plans):
    """without those that are the beginning of another one"""
    keys = [tuple(json.dumps(c, sort_keys=True) for c in p) for p in plans]
    pre = {k[:i] for k in keys for i in range(1, len(k))}
    return [p for p, k in zip(plans, keys) if k not in pre]


def sampled(plans, seed, share):
    plans = maximal(plans)
    random.Random(seed * 13 + 7).shuffle(plans)
    return plans if share >= 1 else plans[:max(20, int(len(plans) * share))]


def space(consts, seed, share):
    plans, ds, gs = tlc("GenSpace", consts)
    n0 = len(plans)
    plans = sampled(plans, seed, share)
    pages = consts.get("Pages", 2)

    def progs():
        for i in range(0, len(plans), 8):
            r = random.Random(seed * 1000003 + i)
            P = gen.Prog(r, r.choice([1, 2, 2, 3]), seeds=2)
            P.modes()
            P.style()
            pat = 0
            for plan in plans[i:i + 8]:
                att, nctx, cx, bl = {}, {}, {}, {}
                for c in plan:
                    o, s = c["o"], c["s"]
                    if o == "create":
                        P.all("space_create", s, pages * 4096 - r.choice([0, 0, 1, 100]), c["a"], r.choice([0, 1]))
                        att[s], nctx[s] = False, c["a"]
                    elif o in ("attach", "detach"):
                        P.all("space_" + o, s)
                        att[s] = o == "attach"
                    elif o == "destroy":
                        P.all("space_destroy", s)
                        del att[s]
                    elif o == "ctx":
                        P.all("space_ctx", s, c["a"])
                        if c["b"] == 0:
                            cx[c["a"]] = s
                    elif o == "ctxdel":
                        P.all("ctx_destroy", c["a"])
                        del cx[c["a"]]
                    elif o == "alloc":
                        n = c["b"] * 4096 - r.choice([0, 0, 1, 2000])
                        k = r.choice(["space_malloc", "space_malloc", "space_calloc", "space_align"])
                        P.all(k, s, c["a"], n, {"space_malloc": 0, "space_calloc": 1, "space_align": r.choice([8, 64, 4096])}[k])
                        pat += 1
                        P.all("fill", c["a"], pat)
                        bl[c["a"]] = (s, pat)
                    elif o == "free":
                        P.all("check", c["a"])
                        P.all("free", c["a"])
                        del bl[c["a"]]
                    if bl and r.random() < .4:
                        b = r.choice(list(bl))
                        P.put(r.randrange(P.n), "accessible", b, r.choice([-1, P.n] + list(range(P.n)) * 3))
                    if bl and r.random() < .3:
                        b = r.choice(list(bl))
                        if att[bl[b][0]] and P.n > 1:
                            w = r.randrange(P.n)
                            P.all("barrier_all")
                            pat += 1
                            P.put(w, "rfill", b, (w + 1) % P.n, pat)
                            P.all("barrier_all")
                            P.put((w + 1) % P.n, "setpat", b, pat)
                            P.put((w + 1) % P.n, "check", b)
                            P.all("barrier_all")
                            P.all("fill", b, pat)
                            P.all("barrier_all")
                        else:
                            P.all("check", b)
                for b in bl:
                    P.all("check", b)
                    P.all("free", b)
                for x in cx:
                    P.all("ctx_destroy", x)
                for s in att:
                    if att[s]:
                        P.all("space_detach", s)
                    P.all("space_destroy", s)
            yield engine.Program(f"plan-space/{seed}.{i // 8}", P.text(), dict(n=P.n, heap=P.heap, tmax=3, ppn=64), P.seeds, "TraceShmem", 1)
    return progs(), n0, ds, gs


# ------------------------------------------------------------------ symmetric heap
def heap(consts, seed, share):
    plans, ds, gs = tlc("GenHeap", consts, workers=3)
    n0 = len(plans)
    plans = sampled(plans, seed, share)
    units, U = consts.get("Units", 3), 16384

    def progs():
        per = 10
        for i in range(0, len(plans), per):
            r = random.Random(seed * 1000003 + i)
            P = gen.Prog(r, r.choice([1, 2, 2, 3]), seeds=2)
            P.heap = units * U + 8192
            P.env("SHMEM_SYMMETRIC_SIZE", P.heap)
            P.modes()
            P.style()
            pat = 0

            def size(n):
                return 0 if n == 0 else n * U - 256 - r.choice([0, 0, 0, 1, 7, 100, 5000])
            for plan in plans[i:i + per]:
                bl = {}
                for c in plan:
                    o, s, n = c["o"], c["s"], c["n"]
                    if o == "free":
                        P.all("check", s)
                        gen.late_user(P, s, bl[s])
                        P.all("free", s)
                        del bl[s]
                        continue
                    if o == "realloc":
                        P.all("check", s)
                        gen.late_user(P, s, bl[s])
                        P.all("realloc", s, size(n))
                        P.all("check", s)
                    elif o == "malloc" and r.random() < .2:
                        P.all("malloc_hints", s, size(n), r.choice([0, 1, 2]))
                    elif o == "malloc":
                        P.all("malloc", s, size(n), 0)
                    elif o == "align":
                        P.all("align", s, size(n), r.choice([8, 16, 64, 256, 4096]))
                    else:
                        z = size(n)
                        k = r.choice([x for x in (1, 2, 3, 8, 64) if z % x == 0])
                        P.all("calloc", s, z // k, k)
                    bl[s] = n
                    pat += 1
                    P.all("fill", s, pat)
                    bl[s] = (n * U, pat)
                    k = r.random()
                    if k < .25 and P.n > 1:
                        w = r.randrange(P.n)
                        P.all("barrier_all")
                        pat += 1
                        P.put(w, "rfill", s, (w + 1) % P.n, pat)
                        P.all("barrier_all")
                        P.put((w + 1) % P.n, "setpat", s, pat)
                        P.put((w + 1) % P.n, "check", s)
                        P.all("barrier_all")
                        P.all("fill", s, pat)
                        P.all("barrier_all")
                        bl[s] = (n * U, pat)
                    elif k < .35:
                        P.put(r.randrange(P.n), "lastamo", s, r.randrange(P.n))
                    elif k < .45:
                        P.put(r.randrange(P.n), "accessible", s, r.choice([-1, P.n] + list(range(P.n)) * 3))
                for s in bl:
                    P.all("check", s)
                    P.all("free", s)
            yield engine.Program(f"plan-heap/{seed}.{i // per}", P.text(), dict(n=P.n, heap=P.heap, tmax=3, ppn=64), P.seeds, "TraceShmem", 1)
    return progs(), n0, ds, gs


# ------------------------------------------------------------------ wait and test
def wait(consts, seed, share):
    plans, ds, gs = tlc("GenWait", consts, workers=4)
    n0 = len(plans)
    random.Random(seed * 13 + 7).shuffle(plans)
    if share < 1:
        plans = plans[:max(50, int(len(plans) * share))]

    def progs():
        per = 12
        for i in range(0, len(plans), per):
            r = random.Random(seed * 1000003 + i)
            P = gen.Prog(r, r.choice([2, 2, 3]), seeds=3)
            P.modes()
            P.style()
            P.segments()
            objs = [P.obj(r.choice(gen.P2P), per, "n") for _ in range(3)]
            for j, plan in enumerate(plans[i:i + per]):
                amo = any(o["k"] != "put" for o in plan["s"])
                fl = r.choice([o for o in objs if not (amo and o["ty"] in ("short", "ushort"))] or [None])
                if fl is None:
                    continue
                t = r.randrange(P.n)
                w = (t + 1) % P.n
                P.put(t, "st", fl["id"], j, plan["i"], 1)
                if j == 0 or r.random() < .5:
                    P.all("barrier_all")
                else:           # only these two
                    P.put(t, "sync", min(t, w), 0, 2) if abs(t - w) == 1 else P.all("sync_all")
                    if abs(t - w) == 1:
                        P.put(w, "sync", min(t, w), 0, 2)
                if r.random() < .5:
                    P.put(w, "pause", r.randrange(1, 40))
                for o in plan["s"]:
                    if o["k"] == "put":
                        P.put(w, "rma", r.choice(["p", "put", "putn", "iput"]), fl["ty"], fl["id"], j, 1, 1, 1, t, default(r), o["a"])
                    else:
                        k = {"set": r.choice(["set", "swap"])}.get(o["k"], r.choice([o["k"], "f" + o["k"]]))
                        P.put(w, "amo", k, "s", fl["id"], j, t, default(r), o["a"], 0)
                    P.put(w, r.choice(["fence", "fence", "quiet"]))
                ty = fl["ty"]
                if ty in gen.P2P_GEN and r.random() < .3:
                    ty = "g" + ty
                if r.random() < .5:
                    P.put(t, "pause", r.randrange(1, 40))
                if plan["t"]:
                    P.put(t, "test", ty, fl["id"], j, plan["c"], plan["v"])
                else:
                    P.put(t, r.choice(["wait", "wait", "wait", "testloop"]), ty, fl["id"], j, plan["c"], plan["v"])
            P.all("barrier_all")
            yield engine.Program(f"plan-wait/{seed}.{i // per}", P.text(), dict(n=P.n, heap=P.heap, tmax=3, ppn=64), P.seeds, "TraceShmem", 1)
    return progs(), n0, ds, gs


def init(consts, seed, share):
    plans, ds, gs = tlc("GenInit", consts)
    n0 = len(plans)
    # a program must finalise the library, unless it was start_pes that initialised it
    plans = [p for p in plans if p["c"][-1]["o"] == "finalize" or
             next(c["o"] for c in p["c"] if c["o"] in ("init", "init_thread", "start_pes")) == "start_pes"]
    random.Random(seed * 13 + 7).shuffle(plans)
    if share < 1:
        plans = plans[:max(50, int(len(plans) * share))]

    def progs():
        for i, plan in enumerate(plans):
            r = random.Random(seed * 1000003 + i)
            P = gen.Prog(r, r.choice([1, 2, 2, 3]), seeds=2)
            P.modes()
            P.style()
            P.head.append("noauto")
            P.tmax = plan["t"]
            P.opt("thread_max", P.tmax)
            d = P.obj("int", 3, "o", "d")
            c = P.obj("long", 2, "n", "d")
            up = False
            for x in plan["c"]:
                o = x["o"]
                if o == "finalize" and up and r.random() < .5:
                    for pe in range(P.n):
                        if r.random() < .5:
                            gen.emit_put(P, pe, d, r.randrange(P.n), kinds=["put", "p", "iput", "putn"])
                        else:
                            gen.emit_amo(P, pe, c, r.randrange(P.n), ops=["inc", "add", "set", "finc"])
                P.all(o, *([x["a"]] if o in ("mpi_init", "init_thread", "start_pes") else []))
                up = o != "finalize" and (up or o in ("init", "init_thread", "start_pes"))
            yield engine.Program(f"plan-init/{seed}.{i}", P.text(), dict(n=P.n, heap=P.heap, tmax=P.tmax, ppn=64), P.seeds, "TraceShmem", 1)
    return progs(), n0, ds, gs


# ------------------------------------------------------------------ locks
def lock(consts, seed, share):
    plans, ds, gs = tlc("GenLock", consts, workers=3)
    random.Random(seed * 13 + 7).shuffle(plans)
    n0 = len(plans)
    if share < 1:
        plans = plans[:max(20, int(len(plans) * share))]
    reps = max(1, int(share))

    def progs():
        for rep in range(reps):
            for i in range(0, len(plans), 4):
                yield _lock(f"plan-lock/{seed}.{rep}.{i // 4}", [x["p"] for x in plans[i:i + 4]], random.Random(seed * 1000003 + rep * 7919 + i))
    return progs(), n0, ds, gs


def _lock(name, plans, r):
    n = len(plans[0])
    P = gen.Prog(r, n, seeds=12)
    P.modes()
    P.style()
    spc = r.random() < .3
    if spc:
        P.all("space_create", 0, 65536, 0, 0)
        P.all("space_attach", 0)
    # where the locks are: static memory, heap, a space
    used = sorted({s["l"] for p in plans for q in p for s in q})
    place = {l: r.choice("dh" + ("ss" if spc else "")) for l in used}
    for l in used:
        if place[l] != "d":
            P.all("lock_alloc", l, *([0] if place[l] == "s" else []))
    segs = ["h", "d"] + (["s0"] if spc else [])
    so = []
    P.all("barrier_all")
    for plan in plans:
        # roles: PE 0 keeps the queues, so it keeps its role half of the time
        perm = list(range(n))
        if r.random() < .5:
            r.shuffle(perm)
        data = {l: P.obj(r.choice(gen.RMA), r.choice([1, 2]), "o", r.choice(segs)) for l in used}
        cnt = {l: P.obj(r.choice(gen.AMO_STD), 1, "n", r.choice(segs)) for l in used}
        for o in list(data.values()) + list(cnt.values()):
            if o["seg"] == "s0":
                P.all("sobj", o["id"], 0)
                so.append(o["id"])
        home = {l: r.randrange(n) for l in used}
        P.all("barrier_all")
        for i in range(n):
            pe = perm[i]
            for s in plan[i]:
                l = s["l"]
                B0 = len(P.body)
                d, c = data[l], cnt[l]
                if r.random() < .8:
                    P.put(pe, "rma", "get", d["ty"], d["id"], 0, 1, 1, d["n"], home[l], "d", 0)
                k = r.random()
                if k < .7:
                    gen.emit_put(P, pe, d, home[l], kinds=["put", "p", "iput", "putn"])
                if k > .4:
                    gen.emit_amo(P, pe, c, r.randrange(n), ops=["inc", "add", "set", "finc", "fadd"])
                if r.random() < .2:
                    P.put(pe, "pause", r.randrange(1, 30))
                P.put(pe, "clear_lock", l)
                body = P.body[B0:]
                del P.body[B0:]
                if r.random() < .2:
                    P.put(pe, "pause", r.randrange(1, 50))
                if s["k"] == "set":
                    P.put(pe, "set_lock", l)
                else:
                    P.put(pe, "test_lock", l, len(body))
                P.body += body
        P.all("barrier_all")
    for l in used:
        if place[l] != "d":
            P.all("lock_free", l)
    for o in so:
        P.all("sobj_free", o)
    if spc:
        P.all("space_detach", 0)
        P.all("space_destroy", 0)
    return engine.Program(name, P.text(), dict(n=n, heap=P.heap, tmax=3, ppn=64), P.seeds, "TraceShmem", 1)


# ------------------------------------------------------------------ atomics
def amo(consts, seed, share):
    plans, ds, gs = tlc("GenAmo", consts, workers=3)
    random.Random(seed * 13 + 7).shuffle(plans)
    n0 = len(plans)
    if share < 1:
        plans = plans[:max(40, int(len(plans) * share))]

    def progs():
        for i in range(0, len(plans), 8):
            r = random.Random(seed * 1000003 + i)
            n = len(plans[i]["p"])
            P = gen.Prog(r, n, seeds=10)
            m = MODES[(i // 8 + seed) % 9]
            P.env("OSHMPI_RMA_DBG_MODE", m[0])
            P.env("OSHMPI_AMO_DBG_MODE", m[1])
            P.style()
            spc = r.random() < .3
            if spc:
                P.all("space_create", 0, 65536, 0, r.choice([0, 1]))
                P.all("space_attach", 0)
            segs = ["h", "d"] + (["s0", "s0"] if spc else [])
            objs = []
            for _ in range(4):
                o = P.obj(r.choice(gen.AMO_BIT), 8, "n", r.choice(segs))
                objs.append(o)
                if o["seg"] == "s0":
                    P.all("sobj", o["id"], 0)
            P.all("barrier_all")
            for j, plan in enumerate(plans[i:i + 8]):
                perm = r.sample(range(n), n)
                o = r.choice(objs)
                home = r.randrange(n)
                for q, prog in enumerate(plan["p"]):
                    pe = perm[q]
                    for e, (k, nb) in enumerate(prog, 1):
                        tag = 10 * (q + 1) + e
                        a = {"add": q + 1, "fadd": q + 1, "and": 14 - q, "fand": 14 - q, "or": 2 ** (q + 1), "for": 2 ** (q + 1),
                             "xor": 2 ** (q + 1), "fxor": 2 ** (q + 1), "cswap": 0}.get(k, tag)
                        how = "n" if nb else r.choice("ss" + ("g" if o["ty"] in gen.GEN_BIT else ""))
                        P.put(pe, "amo", k, how, o["id"], j, home, default(r), a, tag)
                        if r.random() < .1:
                            P.put(pe, "pause", r.randrange(1, 20))
                    if any(nb for _, nb in prog) or r.random() < .3:
                        P.put(pe, "quiet")
                if r.random() < .4:
                    P.all("barrier_all")
                    P.put(r.randrange(n), "amo", "fetch", "s", o["id"], j, home, "d", 0, 0)
            P.all("barrier_all")
            for o in objs:
                P.put(r.randrange(n), "rma", "get", o["ty"], o["id"], 0, 1, 1, 8, r.randrange(n), "d", 0)
            if spc:
                P.all("barrier_all")
                P.all("space_detach", 0)
                for o in objs:
                    if o["seg"] == "s0":
                        P.all("sobj_free", o["id"])
                P.all("space_destroy", 0)
            yield engine.Program(f"plan-amo/{seed}.{i // 8}", P.text(), dict(n=n, heap=P.heap, tmax=3, ppn=64), P.seeds, "TraceShmem", 1)
    return progs(), n0, ds, gs


# ------------------------------------------------------------------ barriers and syncs
def sync(consts, seed, share):
    n = consts["NPes"]
    plans, ds, gs = tlc("GenSync", consts, workers=3)
    random.Random(seed * 17 + 3).shuffle(plans)
    n0 = len(plans)
    if share < 1:
        plans = plans[:max(40, int(len(plans) * share))]
    per = 5

    def progs():
        for i in range(0, len(plans), per):
            r = random.Random(seed * 1000003 + i)
            P = gen.Prog(r, n, seeds=10)
            m = MODES[(i // per + seed) % 9]
            P.env("OSHMPI_RMA_DBG_MODE", m[0])
            P.env("OSHMPI_AMO_DBG_MODE", m[1])
            P.style()
            spc = r.random() < .3
            if spc:
                P.all("space_create", 0, 65536, 0, r.choice([0, 1]))
                P.all("space_attach", 0)
            segs = ["h", "d"] + (["s0", "s0"] if spc else [])
            data = P.obj(r.choice(gen.RMA), n * 2, "n", r.choice(segs))
            cnt = P.obj(r.choice(gen.AMO_STD), 2, "n", r.choice(segs))
            for o in (data, cnt):
                if o["seg"] == "s0":
                    P.all("sobj", o["id"], 0)
            teams = {}
            P.all("barrier_all")
            for plan in plans[i:i + per]:
                flood = r.random() < .25
                for kind, (st, lg, sz) in plan:
                    mem = [st + j * 2 ** lg for j in range(sz)]
                    for pe in mem:
                        if r.random() < .25:
                            P.put(pe, "pause", r.randrange(1, 40))
                        tgt = (pe + 1) % n
                        if flood:
                            for t in r.sample(range(n), n):
                                gen.emit_amo(P, pe, cnt, t, ops=["inc", "add"])
                        k = r.random()
                        if k < .7:
                            gen.emit_put(P, pe, data, tgt, default(r), pe * 2, pe * 2 + 2)
                        if k > .5:
                            gen.emit_amo(P, pe, cnt, tgt, ops=["inc", "add", "finc"])
                    if kind == "sync" and (st, lg, sz) not in teams and len(teams) < 20 and r.random() < .3:
                        teams[st, lg, sz] = 2 + len(teams)
                        for pe in range(n):
                            P.put(pe, "team_split", 0, teams[st, lg, sz], st, 2 ** lg, sz)
                    for pe in mem:
                        if kind == "sync" and (st, lg, sz) in teams:
                            P.put(pe, "team_sync", teams[st, lg, sz])
                        elif sz == n and len(plan) % 2 == 0:
                            P.put(pe, kind + "_all")
                        else:
                            P.put(pe, kind, st, lg, sz)
                    if kind == "barrier":
                        for pe in mem:
                            if r.random() < .6:
                                P.put(pe, "rma", "get", data["ty"], data["id"], 0, 1, 1, data["n"], (r.choice(mem) + 1) % n, "d", 0)
                            if r.random() < .4:
                                P.put(pe, "amo", "fetch", "s", cnt["id"], r.randrange(2), (r.choice(mem) + 1) % n, "d", 0, 0)
            P.all("barrier_all")
            if spc:
                P.all("space_detach", 0)
                for o in (data, cnt):
                    if o["seg"] == "s0":
                        P.all("sobj_free", o["id"])
                P.all("space_destroy", 0)
            yield engine.Program(f"plan-sync/{seed}.{i // per}", P.text(), dict(n=n, heap=P.heap, tmax=3, ppn=64), P.seeds, "TraceShmem", 1)
    return progs(), n0, ds, gs


# ------------------------------------------------------------------ progress
def busy(consts, seed, share):
    plans, ds, gs = tlc("GenBusy", consts, workers=4)
    n0 = len(plans)
    random.Random(seed * 13 + 7).shuffle(plans)
    if share < 1:
        plans = plans[:max(50, int(len(plans) * share))]
    last = [p for p in plans if "finalize" in p["w"]]
    plans = [p for p in plans if "finalize" not in p["w"]]

    def progs():
        per = 8
        groups = [plans[i:i + per] for i in range(0, len(plans), per)]
        for i in range(max(len(groups), len(last))):
            g = (groups[i] if i < len(groups) else []) + last[i:i + 1]
            yield _busy(f"plan-busy/{seed}.{i}", g, random.Random(seed * 1000003 + i))
    return progs(), n0, ds, gs


def _busy(name, plans, r):
    n = len(plans[0]["w"]) + 1
    P = gen.Prog(r, n, seeds=3)
    P.modes()
    P.style()
    if r.random() < .7:
        P.opt("eager", r.choice([0, 0, 10]))
    P.segments(.2)
    c = [gen.amo_obj(P, 2, "long"), gen.amo_obj(P, 2)]
    d = [P.obj(r.choice(gen.RMA), 4) for _ in range(2)]
    flags = P.obj(r.choice(["int", "long"]), len(plans) * (n - 1) + 1, "n")
    cs, ct = P.obj("int", 2 * n, "n"), P.obj("int", 2 * n, "n")
    for j, plan in enumerate(plans):
        w, s = [None] + plan["w"], plan["s"]
        joined = w[1] not in BUSY_FLAG and w[1] not in BUSY_LOCK
        if joined:
            _enter(P, w[1], 0)
        if j and any(x in BUSY_LOCK for x in w[1:]):
            P.all("barrier_all")        # nobody is still after the lock
        for p in range(1, n):
            if w[p] in BUSY_LOCK:
                P.put(p - 1, "set_lock", p - 1)
        if not joined or r.random() < .7:
            P.all("barrier_all")
        for p in range(n):
            f = j * (n - 1) + p - 1
            if p > 0 and not joined:
                # the call in which p waits
                k = w[p]
                if k in ("wait", "testloop"):
                    P.put(p, k, flags["ty"], flags["id"], f, "eq", 1)
                elif k == "set_lock":
                    P.put(p, "set_lock", p - 1)
                    P.put(p, "clear_lock", p - 1)
                elif k == "lockspin":
                    P.put(p, "lockspin", p - 1)
                    P.put(p, "clear_lock", p - 1)
                else:
                    P.put(p, "spin", k, flags["id"], f, at[p], 1)
            if p == n - 1 or joined and p > 0:
                break
            # what p does to its successors
            for k, o in enumerate(s[p]):
                _busy_op(P, p, o, p + 1 + k % (n - 1 - p), c, d)
            if not joined:
                f = j * (n - 1) + p
                if p == 0:
                    at = [r.randrange(n) for _ in range(n)]
                k = w[p + 1]
                if k in BUSY_LOCK:
                    P.put(p, "clear_lock", p)
                else:
                    t = p + 1 if k in ("wait", "testloop") else at[p + 1]
                    if k == "fetch" or r.random() < .5:
                        P.put(p, "amo", r.choice(["inc", "set", "fadd"]), "s", flags["id"], f, t, "d", 1, 0)
                    else:
                        P.put(p, "rma", r.choice(["p", "put", "putn", "iput"]), flags["ty"], flags["id"], f, 1, 1, 1, t, "d", 1)
                    if r.random() < .6:
                        P.put(p, "quiet")
        if joined and w[1] != "finalize":
            _enter(P, w[1], 1, cs, ct)
            # and on: the others ask again while 1.. wait here
            _enter(P, w[1], 2)
    if "finalize" not in plans[-1]["w"]:
        P.all("barrier_all")
        P.close_segments()
    return engine.Program(name, P.text(), dict(n=P.n, heap=P.heap, tmax=3, ppn=64), P.seeds, "TraceShmem", 1)


BUSY_FLAG = ("wait", "testloop", "g", "get", "iget", "nbi", "fetch")
BUSY_LOCK = ("set_lock", "lockspin")


def _busy_op(P, p, o, t, c, d):
    r = P.r
    if o == "quiet":
        P.put(p, "quiet")
    elif o in ("inc", "fadd", "cswap", "set"):
        x = r.choice(c)
        if o == "inc":
            o = r.choice(["inc", "add"]) if x["ty"] not in gen.AMO_FLT else "set"
        elif o != "set" and x["ty"] in gen.AMO_FLT:
            o = r.choice(["swap", "fetch"])
        elif o == "fadd":
            o = r.choice(["fadd", "finc", "fetch"])
        elif o == "cswap":
            o = r.choice(["cswap", "swap"])
        gen.emit_amo(P, p, x, t, ops=[o])
    elif o in ("put", "iput"):
        gen.emit_put(P, p, r.choice(d), t, kinds=["put", "p"] if o == "put" else ["iput"])
        P.put(p, r.choice(["quiet", "fence"]))
    elif o in ("get", "iget"):
        gen.emit_get(P, p, r.choice(d), t, kinds=["get", "g"] if o == "get" else ["iget"])
    else:
        if r.random() < .5:
            gen.emit_put(P, p, r.choice(d), t, kinds=["putn"])
        else:
            gen.emit_get(P, p, r.choice(d), t, kinds=["getn"])


def _enter(P, k, phase, cs=None, ct=None):
    """a collective call: 0 what has to come before it, 1 the call, 2 what comes after it"""
    r, n = P.r, P.n
    pre = {"free": [("malloc", 1, 100)], "realloc": [("malloc", 1, 100)], "team_destroy": [("team_split", 0, 2, 0, 1, n)],
           "attach": [("space_create", 9, 8192, 1, 0)], "detach": [("space_create", 9, 8192, 1, 0), ("space_attach", 9)],
           "space_malloc": [("space_create", 9, 8192, 1, 0)]}
    post = {"malloc": [("free", 1)], "calloc": [("free", 1)], "align": [("free", 1)], "realloc": [("free", 1)],
            "split": [("team_destroy", 2)], "split2d": [("team_destroy", 2), ("team_destroy", 3)],
            "attach": [("space_detach", 9), ("space_destroy", 9)], "detach": [("space_destroy", 9)], "space_malloc": [("free", 40), ("space_destroy", 9)]}
    if phase == 0:
        for x in pre.get(k, []):
            P.all(*x)
        return
    if phase == 2:
        for x in post.get(k, []):
            P.all(*x)
        return
    if k in ("barrier", "sync"):
        P.all(k, 0, 0, n)
    elif k in ("barrier_all", "sync_all"):
        P.all(k)
    elif k == "team_sync":
        P.all("team_sync", 0)
    elif k in ("malloc", "align", "calloc"):
        P.all(k, 1, *{"malloc": (100,), "align": (100, 64), "calloc": (25, 4)}[k])
    elif k == "free":
        P.all("free", 1)
    elif k == "realloc":
        P.all("realloc", 1, r.choice([50, 300]))
    elif k == "split":
        P.all("team_split", 0, 2, 0, 1, n)
    elif k == "split2d":
        P.all("team_split2d", 0, 2, 3, r.choice([1, 2, n]))
    elif k == "team_destroy":
        P.all("team_destroy", 2)
    elif k == "attach":
        P.all("space_attach", 9)
    elif k == "detach":
        P.all("space_detach", 9)
    elif k == "space_malloc":
        P.all("space_malloc", 9, 40, 100, 0)
    else:
        red = k == "reduce"
        nm = r.choice(["sum", "prod", "min", "max", "and", "or", "xor"]) if red else k
        form = r.choice(["a", "t"])
        ty = "int" if red or form == "t" else "32"
        if red and form == "t" and nm in ("and", "or", "xor"):
            ty = "int"
            nm = r.choice(["sum", "min"])
        P.all("coll", nm, ty, form, f"0,0,{n}" if form == "a" else "0", ct["id"], cs["id"], 2, 0)


def default(r):
    return r.choice("dddD")


GENS = {"busy": busy, "wait": wait, "heap": heap, "sync": sync, "amo": amo, "lock": lock, "init": init, "team": team, "litmus": litmus, "coll": coll, "space": space}


OWN_SHARE = {"busy", "wait", "heap", "sync", "amo", "lock", "init", "litmus", "coll", "space"}      # generators that sample the plans themselves


def make(kind, consts, seed, share=1.0):
    """-> (programs, figures); share < 1: a random part of the programs"""
    g, n, ds, gs = GENS[kind](consts, seed, share)
    progs = list(g)
    if share < 1 and kind not in OWN_SHARE:
        progs = random.Random(seed).sample(progs, max(1, int(len(progs) * share)))
    return progs, {"model": f"Gen:{kind} {consts}", "plans": n, "distinct": ds, "generated": gs, "programs": len(progs), "ok": True}
