#!/usr/bin/env python3
"""fills the generated parts of DESIGN.md between its markers (run by hand)"""
import json, os, re, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS, NOT_APPLICABLE
def block(s, name, text):
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    if f"@@{name}@@" in s: return s.replace(f"@@{name}@@", f"{a}\n{text}\n{b}")
    return re.sub(re.escape(a) + ".*?" + re.escape(b), lambda m: f"{a}\n{text}\n{b}", s, flags=re.S)
s = open(V + "/DESIGN.md").read()
P = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
fns = {}
def unit_fns(u, seen=()):
    o = []
    for l in open(f"{V}/contracts/{u}.rs"):
        if l.strip().startswith("//@include ") :
            f = l.split()[1][:-3]
            o += unit_fns(f)
        m = re.match(r"\s*//@fn (\S+) (.+)", l)
        if m: o.append((m.group(1), m.group(2).split()))
    return o
t = []
for i in sorted(PROPS, key=lambda x: (x not in P, x)):
    c = PROPS[i]
    names = []
    for u in c["units"]:
        for path, w in unit_fns(u):
            if i in w:
                n = w[0]
                names.append(f"`{n}`")
    names = list(dict.fromkeys(names))
    h = c["harness"] if isinstance(c["harness"], list) else [c["harness"] or "none"]
    t.append(f"**{i} {P[i]['title']}.** Units {', '.join('`'+u+'`' for u in c['units'])}. Under contract: {', '.join(names)}. Not proved: {c['note']} Replay (bounded): {', '.join(h)}. {c.get('design', '')}".rstrip() + "\n")
s = block(s, "TABLE", "\n".join(t))
s = block(s, "NA", "\n".join(f"* **{i} {P[i]['title']}**: {NOT_APPLICABLE.get(i, 'no check built yet')}" for i in P if i not in PROPS))
k = [json.loads(l) for l in open(V + "/known_findings.jsonl")]
s = block(s, "FIXED", "\n".join(f"* {x['text']}" for x in k))
r = []
res = json.load(open(V + "/tools/seeded.json")) if os.path.exists(V + "/tools/seeded.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    r.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {res.get(n, '')} |")
s = block(s, "SEEDED", "| bug | property | breaks | caught by |\n|---|---|---|---|\n" + "\n".join(r))
open(V + "/DESIGN.md", "w").write(s)
