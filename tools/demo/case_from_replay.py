#!/usr/bin/env python3
"""Turn the function of a replay file into a case for minisim.
Usage: case_from_replay.py REPLAY > case.txt"""
import json, sys

def find(o):
    if isinstance(o, dict):
        if "prog" in o and "env" in o:
            return o
        for v in o.values():
            r = find(v)
            if r: return r
    if isinstance(o, list):
        for v in o:
            r = find(v)
            if r: return r

d = json.load(open(sys.argv[1]))
s = find(d.get("scenario", d))
p, e = s["prog"], s["env"]
def cons(c):
    if isinstance(c, str): return c.lower()
    k, v = next(iter(c.items()))
    return k.lower() + str(v)
out = []
out.append("algo " + ("fast" if s.get("fast") else "ion"))
for k in ("pref", "nonpref"):
    rs = [f"{c}:{h}" for c in range(3) for h in e[k][c]]
    if rs: out.append(k + " " + " ".join(rs))
rs = [f"{c}:{h}" for c, h in enumerate(e["scratch"]) if h is not None]
if rs: out.append("scratch " + " ".join(rs))
if e["fixed_stack"]: out.append("fixedstack " + " ".join(f"{c}:{h}" for c, h in e["fixed_stack"]))
out.append("slots " + " ".join(map(str, p["slot_size"])))
if p.get("by_last"): out.append("bylast")
if p.get("multi_defs"): out.append("multidefs")
out.append(f"entry {p['entry']}")
out.append("vregs " + " ".join(map(str, p["vclass"])))
for v, a, b, l in p.get("dbg", []): out.append(f"dbg {v} {a} {b} {l}")
for i, b in enumerate(p["blocks"]):
    out.append(f"# block {i}")
    out.append(("block " + " ".join(map(str, b["params"]))).strip())
    for kind, ins in [("inst", x) for x in b["ins"]] + [("term", b["term"])]:
        w = [kind]
        for o in ins["ops"]:
            w.append(",".join(["def" if o["def"] else "use", "late" if o["late"] else "early", str(o["v"]), cons(o["c"])]))
        w += [f"nonalloc={c}:{h}" for c, h in ins.get("nonalloc", [])]
        w += [f"clob={c}:{h}" for c, h in ins.get("clob", [])]
        out.append(" ".join(w))
    out.append(("succs " + " ".join(f"{t}({','.join(map(str, a))})" for t, a in b["succs"])).strip())
print("\n".join(out))
