"""Runs programs on the library (built against the simulated MPI) and checks the recorded histories with TLC."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
sys.path.insert(0, HERE)
import build as B
import gen

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = int(os.environ.get("VERIF_JOBS", "8"))


class Tool(Exception):
    """the machinery itself failed: no verdict"""


class Trace:
    __slots__ = ("prog", "seed", "ev", "spec")


class Program:
    """one program: its script and how to run it"""
    def __init__(self, name, text, par, seeds, spec="TraceShmem", seed0=1):
        self.name, self.text, self.par, self.seeds, self.n = name, text, par, seeds, par["n"]
        self.spec, self.seed0, self.variant = spec, seed0, None

    def under(self, variant, share=1.0):
        """the same program for the library in another configuration"""
        lv = B.LEVEL.get(variant, 2)
        text = "env SIM_LEVEL=3\n" + self.text if lv == 3 else self.text
        spec = self.spec.split("@")[0]
        q = Program(self.name + "/" + variant, text, self.par, max(1, int(self.seeds * share)), spec if lv == 2 else f"{spec}@{lv}", self.seed0)
        q.variant = variant
        return q


def from_family(fam, seed, mult=1.0):
    P = gen.make(fam, seed)
    return Program(f"{fam}/{seed}", P.text(), dict(n=P.n, heap=P.heap, tmax=P.tmax, ppn=P.ppn),
                   max(1, int(P.seeds * mult)), getattr(P, "spec", "TraceShmem"))


class Run:
    def __init__(self, seed):
        self.seed = seed
        self.tmp = tempfile.mkdtemp(prefix="shmemcheck.")
        self.states = self.trans = self.accepted = self.programs = self.events = self.undecided = self.executions = 0
        self.known = lambda t, k: False     # is this failure a listed finding?
        self.found = 0
        self.rejected = []         # (trace, index of the event that has no explanation)
        self.fam = {}
        self.lock = threading.Lock()
        self.deadline = None
        self.dir = None
        self.dirs = {}             # the other configurations

    def build_variants(self, names):
        """-> the names of those that can be built"""
        for v in names:
            try:
                self.dirs[v] = B.build(v)
            except B.BuildError:
                pass
        return [v for v in names if v in self.dirs]

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ------------------------------------------------------------ simulation
    def simulate(self, p, k):
        sc, out = f"{self.tmp}/s{k}", f"{self.tmp}/o{k}"
        with open(sc, "w") as f:
            f.write(p.text)
        try:
            dr = self.dirs[p.variant] if p.variant else self.dir
            r = subprocess.run([dr + "/sim", dr, str(p.n), sc, str(p.seed0), str(p.seeds), out],
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=600)
        except subprocess.TimeoutExpired:
            raise Tool(f"the simulator took too long on {p.name}")
        if r.returncode != 0:
            raise Tool(f"the simulator failed on {p.name}: {r.stderr[-500:]}")
        res, cur = [], None
        with open(out, errors="replace") as f:
            for line in f:
                if line.startswith('{"trace"'):
                    d = json.loads(line)
                    cur = Trace()
                    cur.prog, cur.seed, cur.ev, cur.spec = p, d["seed"], [], p.spec
                    res.append(cur)
                else:
                    try:
                        cur.ev.append(json.loads(line))
                    except ValueError:
                        cur.ev.append({"e": "err", "p": -1, "m": "garbled"})
        os.unlink(sc)
        os.unlink(out)
        return res

    # ------------------------------------------------------------ TLC
    def tlc(self, spec, traces, limit):
        d = tempfile.mkdtemp(dir=self.tmp)
        spec, _, level = spec.partition("@")
        tf = d + "/t"
        with open(tf, "w") as f:
            for t in traces:
                f.write(json.dumps(dict(t.prog.par, ev=t.ev)) + "\n")
        for x in os.listdir(SPEC):
            if x.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, x), d)
        if level:
            with open(f"{d}/{spec}.cfg") as f:
                text = f.read()
            with open(f"{d}/{spec}.cfg", "w") as f:
                f.write(re.sub(r"ConfLevel = \d", "ConfLevel = " + level, text))
        env = dict(os.environ, TRACES=tf)
        cmd = ["java", "-XX:+UseSerialGC", "-Xss16m", "-Xmx2500m", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC", "-workers", "1", "-metadir", d + "/m",
               "-config", spec + ".cfg", spec + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
            out = r.stdout
        except subprocess.TimeoutExpired:
            out = None
        shutil.rmtree(d, ignore_errors=True)
        return out

    def judge(self, spec, traces, limit=150):
        """-> list of (trace, failing event) ; None for undecided"""
        out = self.tlc(spec, traces, limit)
        if out is not None and "Model checking completed" in out:
            m = re.search(r"(\d+) states generated, (\d+) distinct", out)
            with self.lock:
                self.trans += int(m[1])
                self.states += int(m[2])
            rej = {int(a): int(b) for a, b in re.findall(r'"REJECTED", (\d+), (\d+)', out)}
            return [(t, rej.get(i + 1)) for i, t in enumerate(traces)]
        if len(traces) > 1:
            h = len(traces) // 2
            return self.judge(spec, traces[:h], max(30, limit / 2)) + self.judge(spec, traces[h:], max(30, limit / 2))
        if out is None or "OutOfMemory" in out or "StackOverflow" in out or "Error:" not in out:
            if os.environ.get("VERIF_TRACE"):
                sys.stderr.write((out or "timeout")[-1500:])
            return [(traces[0], -1)]
        # the history contains a value which the specification cannot even interpret
        if os.environ.get("VERIF_TRACE"):
            sys.stderr.write(out[-3000:])
        return [(traces[0], 0)]

    # ------------------------------------------------------------ models
    def models(self, names, limit=600):
        """model check the bounded models (spec/<name>.tla): every state of the specification within the bounds"""
        def one(nm):
            d = tempfile.mkdtemp(dir=self.tmp)
            for x in os.listdir(SPEC):
                if x.endswith((".tla", ".cfg")):
                    shutil.copy(os.path.join(SPEC, x), d)
            mod = nm.split(":")[0]
            cfg = nm.replace(":", "_")
            cmd = ["java", "-XX:+UseParallelGC", "-Xss16m", "-Xmx3g", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC", "-workers", "2",
                   "-metadir", d + "/m", "-config", cfg + ".cfg", mod + ".tla"]
            try:
                r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
            except subprocess.TimeoutExpired:
                raise Tool(f"model {nm} took too long")
            m = re.search(r"(\d+) states generated, (\d+) distinct", r.stdout)
            ok = "Model checking completed. No error" in r.stdout
            return {"model": nm, "ok": ok, "out": r.stdout, "generated": int(m[1]) if m else 0, "distinct": int(m[2]) if m else 0}
        with cf.ThreadPoolExecutor(4) as ex:
            return list(ex.map(one, names))

    # ------------------------------------------------------------ all
    def check(self, programs, stop_after=40):
        """simulate and judge; stops early when enough violations were found"""
        self.dir = self.dir or B.build()
        pend = {}
        futs = []
        jl = threading.Lock()

        def flush(pool, spec):
            ts = pend.pop(spec, [])
            if ts:
                futs.append(pool.submit(self.judge, spec, ts))

        def absorb(f):
            for t, k in f.result():
                self.events += len(t.ev)
                if k == -1:
                    self.undecided += 1
                elif k is None:
                    self.accepted += 1
                elif self.known(t, k):
                    self.found += 1
                else:
                    self.rejected.append((t, k))

        with cf.ThreadPoolExecutor(WORKERS) as sims, cf.ThreadPoolExecutor(WORKERS) as jv:
            it = iter(enumerate(programs))
            active = set()
            budget = {}

            def more():
                for k, p in it:
                    active.add(sims.submit(self.simulate, p, k))
                    self.programs += 1
                    f = p.name.split("/")[0] + ("@" + p.variant if p.variant else "")
                    self.fam[f] = self.fam.get(f, 0) + 1
                    self.executions += p.seeds
                    return True
                return False
            for _ in range(WORKERS * 2):
                more()
            stop = False
            while active:
                done, rest = cf.wait(active, return_when=cf.FIRST_COMPLETED)
                active = set(rest)
                for f in done:
                    for t in f.result():
                        pend.setdefault(t.spec, []).append(t)
                    for spec in list(pend):
                        if sum(len(t.ev) for t in pend[spec]) > 25000:
                            flush(jv, spec)
                    if not stop:
                        more()
                for f in [x for x in futs if x.done()]:
                    futs.remove(f)
                    absorb(f)
                if len(self.rejected) >= stop_after or (self.deadline and time.time() > self.deadline):
                    stop = True
            for spec in list(pend):
                flush(jv, spec)
            for f in futs:
                absorb(f)


def describe(t, k, path):
    """write what is needed to see a violation again"""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(f"# program {t.prog.name}, {t.prog.n} PEs, schedule seed {t.seed}\n")
        f.write("# run again: D=$(python3 /verif/tool/build.py%s); $D/sim $D %d <this script> %d 1 -\n" % (" " + t.prog.variant if t.prog.variant else "", t.prog.n, t.seed))
        f.write(f"# judged by spec/{t.spec.split('@')[0]}.tla with {t.prog.par}\n")
        f.write(f"# event {k} (from 1; 0: some event cannot be interpreted) has no explanation in the specification\n")
        f.write("# --- script\n" + t.prog.text + "# --- history\n")
        for i, e in enumerate(t.ev, 1):
            f.write("#%s %d %s\n" % (">>" if i == k else "  ", i, json.dumps(e)))
