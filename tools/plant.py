#!/usr/bin/env python3
"""Plant a bug: plant.py DEF.py...   (development tool; no check uses it)
DEF.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN (demo source), DEPS (Cargo lines) or
DEMO (whole demo.sh) and FILES={name: text}.  Writes /verif/seeded/ID and tries everything in /repo."""
import json, os, shutil, subprocess, sys, re
R = "/repo"
DEMO = '''#!/bin/bash
# exit 0: the property holds here; otherwise it is broken
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p /tmp/vx-demo-@ID@/src /tmp/vx-demo-@ID@/scratch
cp "$here/Cargo.toml" "$here/Cargo.lock" /tmp/vx-demo-@ID@/
cp "$here/main.rs" /tmp/vx-demo-@ID@/src/main.rs
cd /tmp/vx-demo-@ID@ || exit 3
CARGO_TARGET_DIR=/tmp/vx-demo-@ID@/target cargo +1.85 build -q --offline 2>build.log || { tail -20 build.log; rm -rf /tmp/vx-demo-@ID@; exit 3; }
cd /tmp/vx-demo-@ID@/scratch && timeout 60 /tmp/vx-demo-@ID@/target/debug/demo
rc=$?
rm -rf /tmp/vx-demo-@ID@
exit $rc
'''
TOML = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[workspace]

[dependencies]
%s
[profile.dev]
debug = 0
incremental = false
'''
D = {
 "ls": 'sync-ls = { path = "/repo/crates/sync-lsp", features = ["lsp", "dap", "server"] }\n',
 "std": 'tinymist-std = { path = "/repo/crates/tinymist-std", default-features = false, features = ["system"] }\n',
 "l10n": 'tinymist-l10n = { path = "/repo/crates/tinymist-l10n", default-features = false }\n',
 "json": 'serde_json = "1"\n', "ch": 'crossbeam-channel = "0.5"\n', "tokio": 'tokio = { version = "1", features = ["rt", "time", "sync"] }\n',
 "lspt": 'lsp-types = { version = "=0.95.0", features = ["proposed"] }\n', "fut": 'futures = "0.3"\n', "serde": 'serde = { version = "1", features = ["derive"] }\n',
 "anyhow": 'anyhow = "1"\n', "dapts": 'dapts = "0.0.6"\n',
}
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def plant(path):
    g = {"DEMO": None, "FILES": {}, "DEPS": []}
    exec(open(path).read(), g)
    i = g["ID"]; d = f"/verif/seeded/{i}"; os.makedirs(d, exist_ok=True)
    assert not sh(f"git -C {R} status --porcelain").stdout, "dirty repo"
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    if g["DEMO"]:
        open(d + "/demo.sh", "w").write(g["DEMO"])
    else:
        open(d + "/demo.sh", "w").write(DEMO.replace("@ID@", i))
        open(d + "/Cargo.toml", "w").write(TOML % "".join(D[x] for x in g["DEPS"]))
        shutil.copy("/verif/harness/Cargo.lock", d + "/Cargo.lock")
        open(d + "/main.rs", "w").write(g["MAIN"])
    for n, t in g["FILES"].items(): open(f"{d}/{n}", "w").write(t)
    try:
        for f, a, b in g["EDITS"]:
            s = open(f"{R}/{f}").read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(f"{R}/{f}", "w").write(s.replace(a, b))
        open(d + "/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
        b = sh("bash /opt/vp/build.sh"); 
        if b.returncode: print(i, "DOES NOT BUILD", (b.stdout + b.stderr)[-1500:]); return
        sh("bash /opt/vp/test.sh /tmp/plant.json")
        o = json.load(open("/tmp/plant.json")); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = [t for t in base if t not in o["passed"]]
        de = sh(f"bash {d}/demo.sh", cwd=R)
        ck = sh(f"VERIF_TIER=quick VERIF_SEED=1 python3 /verif/check.py {g['PROP']}")
        print(i, g["PROP"], "tests-lost", miss, "| demo rc", de.returncode, (de.stdout + de.stderr)[-300:].strip(), "| check rc", ck.returncode, ck.stdout.strip()[-600:])
    finally:
        sh(f"git -C {R} checkout -- .")
    b = sh("bash /opt/vp/build.sh")
    de = sh(f"bash {d}/demo.sh", cwd=R)
    print("   unchanged: demo rc", de.returncode, (de.stdout + de.stderr)[-300:].strip())
for p in sys.argv[1:]: plant(p)
