#!/usr/bin/env python3
"""runs each planted bug's check against a scratch copy of /repo and notes the outcome in tools/seeded.json (run by hand)"""
import glob, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = V + "/tools/seeded.json"
res = json.load(open(out)) if os.path.exists(out) else {}
todo = sys.argv[1:] or [os.path.basename(os.path.dirname(p)) for p in sorted(glob.glob(V + "/seeded/*/meta.json"))]
for n in todo:
    m = json.load(open(f"{V}/seeded/{n}/meta.json"))
    assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout
    if subprocess.run(["git", "-C", "/repo", "apply", f"{V}/seeded/{n}/patch.diff"]).returncode: print(n, "does not apply"); continue
    try:
        r = subprocess.run(["python3", V + "/check.py", m["property"]], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
    o = r.stdout
    w = [x for x, k in (("proof", "FAILED OBLIGATION"), ("input", "FAILING INPUT"), ("undecided", "UNDECIDED")) if k in o]
    res[n] = ("" if r.returncode == 1 and "VIOLATION" in o else "MISSED ") + " + ".join(w)
    print(n, m["property"], r.returncode, res[n], flush=True)
    json.dump(res, open(out, "w"), indent=1)
