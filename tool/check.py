#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]

Decides one property: generated programs are run on the library (built from /repo's working tree against the
simulated MPI) under many schedules, and TLC decides for each recorded history whether some behaviour of the
specification (spec/*.tla) explains it.  Exit 0: all explained; 1: some history has no explanation; 2: no verdict."""
import argparse, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build, engine, props

VERIF = engine.VERIF


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    t0 = time.time()
    R = engine.Run(a.seed)
    try:
        R.dir = build.build()
        R.deadline = t0 + props.LIMIT[a.tier]
        planned, figures = props.plan_programs(a.prop, a.tier, a.seed)
        built = R.build_variants(list(props.VARIANTS)) if a.prop == "C24" else []
        progs = props.programs(a.prop, a.tier, a.seed, planned)
        models = props.models(a.prop, a.tier)
        mres = R.models(models) + figures
        samples = []

        def it():
            for p in progs:
                if p.variant and p.variant not in built:
                    continue
                if len(samples) < 3 or p.name.split("/")[0] not in [s["program"].split("/")[0] for s in samples]:
                    samples.append({"program": p.name, "par": p.par, "schedules": p.seeds, "script": p.text[:1500]})
                yield p
        known = load_known(a.prop)
        R.known = lambda t, k: any(matches(f, t, k) for f in known)
        R.check(it())
        bad = R.rejected
        for m in mres:
            if not m["ok"]:
                raise engine.Tool("model " + m["model"] + " fails: the specification is broken\n" + m["out"][-2000:])
        for f in known:
            print(f"KNOWN-FINDING: property={a.prop} {f['text']}")
        wall = time.time() - t0
        cov = {
            "states": R.states + sum(m["distinct"] for m in mres),
            "transitions": R.trans + sum(m["generated"] for m in mres),
            "traces_validated_against_impl": R.accepted,
            "programs": R.programs, "executions": R.executions, "events": R.events,
            "undecided": R.undecided, "rejected": len(R.rejected), "known_finding_histories": R.found, "by_family": R.fam,
            "models": [{x: m[x] for x in ("model", "distinct", "generated", "plans", "programs") if x in m} for m in mres],
            "samples": samples[:6],
        }
        if built:
            cov["configurations"] = {v: " ".join(build.VARIANTS[v]) for v in built}
        ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "model_checking", "coverage": cov,
              "assumptions": ["the simulated MPI (sim/) behaves as MPI 3.1 allows an implementation to behave",
                              "histories record memory changes at the granularity of watched elements",
                              "the schedules explored are a random sample"],
              "wall_s": round(wall, 1), "violations": len(bad)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        rc = 0
        if bad:
            # the shortest history is the easiest to read
            bad.sort(key=lambda x: (x[1] == 0, x[1] or 10**9))
            seen = set()
            for t, k in bad:
                if t.prog.name in seen or len(seen) >= 5:
                    continue
                seen.add(t.prog.name)
                path = f"{VERIF}/evidence/{a.prop}-{t.prog.name.replace('/', '-')}-{t.seed}.txt"
                engine.describe(t, k, path)
                print(f"VIOLATION property={a.prop} replay={path}")
            rc = 1
        elif R.accepted == 0:
            raise engine.Tool("no history was judged")
        with open(f"{VERIF}/evidence/{a.prop}.json", "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{a.prop} {a.tier}: {R.programs} programs, {R.executions} executions, {R.accepted} histories explained, "
              f"{len(R.rejected)} rejected, {R.undecided} undecided, {cov['states']} states, {wall:.0f} s")
        return rc
    except (engine.Tool, build.BuildError) as e:
        print("no verdict: " + str(e)[-1500:])
        return 2
    finally:
        R.close()


def load_known(prop):
    """lines `finding: property=<id> match=<regex on the failing event, followed by `<-` and its call if it is a return; no blanks> <what fails>`"""
    res = []
    try:
        for l in open(VERIF + "/known_findings.txt"):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
            if m and m[1] == prop:
                res.append({"re": re.compile(m[2]), "text": m[3]})
    except FileNotFoundError:
        pass
    return res


def matches(f, t, k):
    if not k:
        return False
    e = t.ev[k - 1]
    s = json.dumps(e, separators=(",", ":"))
    if isinstance(e, dict) and e.get("e") == "ret":
        c = next((x for x in reversed(t.ev[:k - 1]) if isinstance(x, dict) and x.get("p") == e["p"] and x["e"] == "call"), "")
        s += "<-" + json.dumps(c, separators=(",", ":"))
    return bool(f["re"].search(s))


if __name__ == "__main__":
    sys.exit(main())
