#!/usr/bin/env python3
"""fills in the generated tables of DESIGN.md (from props.py and the planted bugs' meta.json)"""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props, mkmanifest as mm
V = os.path.dirname(HERE)


def params(c):
    return ", ".join(f"{k}={v}" for k, v in c.items()).replace('"', "").replace("|", "\\|")


def table():
    r = ["| | property | specification | families (programs of a quick check) | plans (times replayed) | models |", "|---|---|---|---|---|---|"]
    for p in mm.P:
        i = p["id"]
        v = "every family under each of " + " ".join(f"`{x}`" for x in props.VARIANTS)
        f = v if i == "C24" else ", ".join(f"`{a}` {b}" for a, b in props.FAMS.get(i, [])) or "`" + "` `".join(props.C21_FAMS) + "`, each in all nine modes"
        g = "; ".join(f"`Gen{k.capitalize()}`" + (f" {params(c)}" if c else "") + f" ({q})" for k, c, q, _ in props.PLANS.get(i, []))
        r.append(f"| {i} | {p['title']} | `{mm.MOD[i]}`{', `Words`' if i == 'C06' else ''} | {f} | {g} | {', '.join('`'+m+'`' for m in props.models(i, 'quick'))} |")
    return "\n".join(r)


def seeds():
    caught = json.load(open(os.path.join(HERE, "caught.json")))
    r = ["| planted bug | property | needs | checks that report it |", "|---|---|---|---|"]
    d = os.path.join(V, "seeded")
    for s in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, s, "meta.json")))
        c = caught.get(s)
        r.append(f"| {s} | {m['property']} | {m['needs']} | {', '.join(c) if c else '**not reported**'} |".replace("\n", " "))
    return "\n".join(r)


def fill(t, name, text):
    return re.sub(rf"(<!-- {name} -->\n).*?(<!-- /{name} -->)", lambda m: m[1] + text + "\n" + m[2], t, flags=re.S)


if __name__ == "__main__":
    f = os.path.join(V, "DESIGN.md")
    t = open(f).read()
    open(f, "w").write(fill(fill(t, "table", table()), "seeds", seeds()))
