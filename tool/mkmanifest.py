#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
V = os.path.dirname(HERE)
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
MOD = {"C01": "Shmem", "C02": "Shmem", "C03": "Shmem", "C04": "Shmem", "C05": "Shmem", "C06": "Shmem", "C07": "Shmem", "C08": "ShmemLock",
       "C09": "ShmemLock", "C10": "ShmemLock", "C11": "Shmem", "C12": "Shmem", "C13": "ShmemColl", "C14": "ShmemColl", "C15": "ShmemTeam",
       "C16": "ShmemHeap", "C17": "ShmemInit", "C18": "ShmemInit", "C19": "TraceShmem", "C20": "ShmemInit", "C21": "Shmem", "C22": "ShmemHeap",
       "C23": "ShmemInit", "C24": "TraceShmem"}
checks, na = [], []
for p in P:
    i = p["id"]
    if i not in props.FAMS and i not in ("C21", "C24"):
        na.append({"property": i, "reason": "not built yet"})
        continue
    mods = props.models(i, "quick")
    gens = sorted({"Gen" + k.capitalize() for k, *_ in props.PLANS.get(i, [])})
    checks.append({
        "property": i,
        "quick_cmd": f"python3 tool/check.py {i} --tier quick",
        "thorough_cmd": f"python3 tool/check.py {i} --tier thorough",
        "technique": f"TLA+ specification (spec/{MOD[i]}.tla{', Words.tla' if i == 'C06' else ''}): TLC checks histories recorded from "
                     "the real library against it"
                     + (f"; TLC model checks the clients in {', '.join(gens)} and the behaviours it enumerates are replayed in the library"
                        if gens else "")
                     + (", and model checks the implementation-level model " + ", ".join(mods) if mods else ""),
        "level": "model_checking",
        "level_note": "every recorded history of the library (generated programs x schedules, on a simulated MPI with weak progress and arbitrary "
                      "delivery order) is explained by the specification; assumes the simulated MPI behaves as MPI allows; programs and "
                      "schedules are a sample, bounded at 16 PEs",
    })
json.dump({"version": 1, "setup_cmd": "python3 tool/build.py", "checks": checks, "not_applicable": na,
           "notes": "no hooks in /repo: the library is built unchanged against the simulated MPI in sim/"},
          open(V + "/MANIFEST.json", "w"), indent=1)
