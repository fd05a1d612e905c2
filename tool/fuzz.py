#!/usr/bin/env python3
"""development helper: fuzz.py family [first] [count] : run programs of a family, report rejected histories"""
import sys, os, json, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
R = engine.Run(1)
t0 = time.time()
fams = sys.argv[1].split(",")
a = int(sys.argv[2]) if len(sys.argv) > 2 else 0
n = int(sys.argv[3]) if len(sys.argv) > 3 else 20
show = int(sys.argv[4]) if len(sys.argv) > 4 else 1
try:
    ps = [engine.from_family(f, s) for s in range(a, a + n) for f in fams]
    v = os.environ.pop("OSHMPI_VARIANT", None)
    if v:
        R.build_variants([v])
        ps = [p.under(v) for p in ps if v != "async" or p.par["tmax"] == 3]
    R.check(ps)
    print(fams, f"programs {R.programs} accepted {R.accepted} rejected {len(R.rejected)} undecided {R.undecided} events {R.events} states {R.states} {time.time()-t0:.1f}s")
    seen = {}
    for t, k in R.rejected:
        seen.setdefault(t.prog.name, []).append((t, k))
    for i, (nm, l) in enumerate(seen.items()):
        t, k = l[0]
        e = t.ev[k - 1] if k else "?"
        c = ""
        if k and isinstance(e, dict) and e.get("e") == "ret":
            c = next((x for x in reversed(t.ev[:k - 1]) if x.get("p") == e["p"] and x["e"] == "call"), "")
        print(nm, len(l), "seed", t.seed, "event", k, json.dumps(e)[:200], "<-", json.dumps(c)[:200])
        engine.describe(t, k, f"/tmp/rej/{nm.replace('/', '-')}.txt")
finally:
    R.close()
