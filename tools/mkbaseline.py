#!/usr/bin/env python3
"""writes contracts/baseline.json: the helpers that are inlined, and every name called, on the unchanged tree (run by hand when units change)"""
import glob, json, os, re, subprocess
CALL = re.compile(r"\b([A-Za-z_]\w*)\s*!?\s*(?:::\s*<[^<>()]*>\s*)?\(")  # as in check.py
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = {}
for u in sorted(glob.glob(V + "/contracts/*.rs")):
    n = os.path.basename(u)[:-3]
    if "//@fn " not in open(u).read() and n not in ("req", "dapsrv", "lspsrv"): continue
    r = subprocess.run([V + "/build/target/debug/vx", u, "--repo", "/repo", "--out", "/tmp/b.rs", "--map", "/tmp/b.json"], capture_output=True, text=True)
    if r.returncode: continue
    o.setdefault(n, {})[""] = sorted(set(m for l in open("/tmp/b.rs") for m in CALL.findall(l.split("//")[0]) + re.findall(r"\bfn\s+(\w+)", l)))
    for f in json.load(open("/tmp/b.json"))["fns"]:
        ns = [x for x in f["notes"] if x.startswith("inlined")]
        if ns: o.setdefault(n, {})[f["name"]] = ns
json.dump(o, open(V + "/contracts/baseline.json", "w"), indent=1)
