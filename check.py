#!/usr/bin/env python3
"""check.py <property> : the check of one property (see DESIGN.md, "Driver")."""
import glob, hashlib, json, os, re, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, REPO

BUILD = os.path.join(V, os.environ.get("VX_BUILD", "build"))  # elsewhere for runs against scratch copies
EV = os.path.join(V, "evidence" if "VX_BUILD" not in os.environ else os.environ["VX_BUILD"] + "/evidence")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
REPO = os.environ.get("VX_REPO", REPO)
ENV = dict(os.environ, HOME=os.environ.get("HOME", "/root"), RUSTUP_TOOLCHAIN="1.85", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "")
for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
VENV = dict(os.environ)  # verus brings its own toolchain
VX = os.path.join(BUILD, "target/debug/vx")
T0 = time.time()
BUDGET = 780 if TIER == "quick" else 3000


def left():
    return max(5, BUDGET - (time.time() - T0))


def run(cmd, timeout=None, env=None, cwd=V, inp=None):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout or left(), env=env or ENV, cwd=cwd, input=inp)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        d = lambda x: (x.decode(errors="replace") if isinstance(x, bytes) else (x or ""))
        return "timeout", d(e.stdout), d(e.stderr)


def build_vx():
    return run(["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(V, "tools/vx/Cargo.toml")])


# ------------------------------------------------------------------ deductive part

KINDS = [
    ("postcondition not satisfied", "postcondition"),
    ("precondition not satisfied", "precondition"),
    ("invariant not satisfied", "invariant"),
    ("assertion failed", "assertion"),
    ("possible arithmetic", "overflow"),
    ("possible division", "division by zero"),
    ("decreases not satisfied", "decreases"),
    ("possible bit shift", "shift"),
    ("failed this postcondition", "postcondition"),
    ("loop ensures not satisfied", "loop ensures"),
    ("unable to prove assertion safety", "assertion"),
]


def verus(path, extra=()):
    cmd = ["verus", path, "--output-json", "--time-expanded", "--error-format=json", "--triggers-mode", "silent",
           "--num-threads", "4"] + list(extra)
    rc, out, err = run(cmd, timeout=min(400, left()), env=VENV, cwd=os.path.dirname(path))
    res = dict(rc=rc, cmd=" ".join(cmd), diags=[], fns=[], ok=False, raw="")
    i = out.find("{")
    try:
        d = json.loads(out[i:])
    except Exception:
        d = {}
    res["summary"] = d.get("verification-results", {})
    try:
        for m in d["times-ms"]["smt"]["smt-run-module-times"]:
            res["fns"] += m.get("function-breakdown", [])
        res["smt_ms"] = d["times-ms"]["smt"]["total"]
    except KeyError:
        res["smt_ms"] = 0
    for l in err.splitlines():
        if l.startswith("{"):
            try:
                x = json.loads(l)
            except Exception:
                continue
            if x.get("$message_type") == "diagnostic":
                res["diags"].append(x)
    res["raw"] = "\n".join(x.get("rendered") or x.get("message", "") for x in res["diags"] if x["level"] in ("error", "note"))
    if not res["diags"] and rc != 0:
        res["raw"] = err[-4000:]
    s = res["summary"]
    res["ran"] = bool(s) and not s.get("encountered-vir-error", False) and ("verified" in s)
    if s.get("encountered-error") and not s.get("verified") and not s.get("errors"):
        res["ran"] = False  # the text does not compile
    res["ok"] = rc == 0 and s.get("success", False)
    return res


def lines_of(diag):
    return [(s["line_start"], s["line_end"], s["is_primary"], s.get("label") or "") for s in diag.get("spans", [])]


def fn_at(fns, line):
    for f in fns:
        if f["start"] <= line <= f["end"]:
            return f
    return None


def unit_run(name, out):
    """extract + verify one unit; result dict stored into out[name]"""
    r = dict(unit=name, status="undecided", why="", fns=[], failed=[], vac_missing=[], lemmas=[], left_out={})
    out[name] = r
    tpl = os.path.join(V, "contracts", name + ".rs")
    d = os.path.join(BUILD, "units", name)
    os.makedirs(d, exist_ok=True)
    gen, mp = os.path.join(d, name + ".rs"), os.path.join(d, name + ".json")
    vgen, vmp = os.path.join(d, name + "_vac.rs"), os.path.join(d, name + "_vac.json")
    for p in (gen, mp, vgen, vmp):
        if os.path.exists(p):
            os.remove(p)
    drops = []
    while True:
        more = [x for d_ in drops for x in ("--drop", d_)]
        rc, o, e = run([VX, tpl, "--repo", REPO, "--out", gen, "--map", mp] + more)
        if rc != 0:
            r["why"] = "extraction: " + (e.strip().splitlines() or ["?"])[-1]
            return
        m = json.load(open(mp))
        r["fns"] = m["fns"]
        r["files"] = m["files"]
        run([VX, tpl, "--repo", REPO, "--out", vgen, "--map", vmp, "--vacuity"] + more)
        vres = {}
        vt = threading.Thread(target=lambda: vres.update(verus(vgen, ["--multiple-errors", "60"])))
        vt.start()
        res = verus(gen, ["--multiple-errors", "5", "--rlimit", "60" if TIER == "thorough" else "30"])
        vt.join()
        if res["ran"] or len(drops) > 5:
            break
        # functions the verifier does not accept: keep their contracts, leave out their bodies, decide the rest
        bad = {}
        for dg in res["diags"]:
            if dg["level"] == "error":
                for a, b, prim, lab in lines_of(dg):
                    f = fn_at(m["fns"], a)
                    if f and not f.get("dropped") and (prim or f["name"] not in bad):
                        bad.setdefault(f["name"], dg["message"])
        if not bad:
            break
        drops += list(bad)
        r["left_out"].update(bad)
    r["verus"] = dict(verified=res["summary"].get("verified"), errors=res["summary"].get("errors"), smt_ms=res["smt_ms"], cmd=res["cmd"])
    r["raw"] = res["raw"]
    text = open(gen).read().splitlines()
    # function level results, by name
    r["results"] = [dict(name=f["function"].split("::", 1)[-1], mode=f.get("mode:"), ms=f["time-micros"] / 1000, ok=f.get("success", False)) for f in res["fns"]]
    if not res["ran"]:
        r["why"] = "the verifier does not accept the extracted text: " + (res["raw"].strip().splitlines() or ["?"])[0]
        return
    # vacuity
    vac_lines = [i + 1 for i, l in enumerate(open(vgen).read().splitlines()) if "// VACUITY" in l] if os.path.exists(vgen) else []
    hit = set()
    for dg in vres.get("diags", []):
        for a, b, prim, lab in lines_of(dg):
            for x in vac_lines:
                if a <= x <= b:
                    hit.add(x)
    r["vac_total"] = len(vac_lines)
    if vres.get("ran"):
        vm = json.load(open(vmp))
        vt_ = open(vgen).read().splitlines()
        for x in vac_lines:
            if x not in hit:
                f = fn_at(vm["fns"], x)
                # a function that ran out of resources does not show anything
                r["vac_missing"].append((f["name"] if f else "?") + ": " + vt_[x - 1].split("VACUITY")[-1].strip())
    else:
        r["vac_missing"].append("vacuity run failed: " + vres.get("raw", "")[:200])
    # failures
    for dg in res["diags"]:
        if dg["level"] != "error" or dg["message"].startswith("aborting"):
            continue
        msg = dg["message"]
        kind = next((k for p, k in KINDS if msg.startswith(p)), None)
        sp = lines_of(dg)
        f = None
        for a, b, prim, lab in sorted(sp, key=lambda s: not s[2]):
            g = fn_at(m["fns"], a)
            if g and (kind != "precondition" or prim):
                f = g
                if prim or kind != "precondition":
                    break
        if f is None:
            for a, b, prim, lab in sp:
                f = f or fn_at(m["fns"], a)
        clause = ""
        for s in dg.get("spans", []):
            if "failed" in (s.get("label") or ""):
                clause = " ".join(t["text"].strip() for t in s.get("text", []))
        rl = "rlimit" in msg.lower() or "resource limit" in msg.lower() or "timed out" in msg.lower()
        r["failed"].append(dict(fn=f["name"] if f else None, source=(f["file"] + ": " + f["source"]) if f else None, tags=f["tags"] if f else [],
                                kind="resource" if rl else (kind or "other"), message=msg, clause=clause[:400],
                                loops_ok=f["loops_ok"] if f else True, notes=f["notes"] if f else [], new_calls=call_names(text[f["start"] - 1:f["end"]]) if f else set(), rendered=(dg.get("rendered") or "")[:3000]))
    r["status"] = "ok" if res["ok"] else "failed"


DECL = re.compile(r"\bfn\s+(\w+)")
CALL = re.compile(r"\b([A-Za-z_]\w*)\s*!?\s*(?:::\s*<[^<>()]*>\s*)?\(")


def call_names(lines):
    """names called in generated text (comments aside)"""
    return set(m for l in lines for m in CALL.findall(l.split("//")[0]) + DECL.findall(l))


# what the verifier knows in full about std
WELL_KNOWN = {"min", "max", "is_some", "is_none", "is_ok", "is_err", "unwrap", "unwrap_or", "len", "is_empty", "push", "Some", "None", "Ok", "Err"}


def base_notes():
    try:
        return json.load(open(os.path.join(V, "contracts", "baseline.json")))
    except Exception:
        return {}


# ------------------------------------------------------------------ replay part

def harness_build(out):
    t = time.time()
    h = os.path.join(V, "harness")
    manifest = os.path.join(h, "Cargo.toml")
    if REPO != "/repo":  # scratch use only
        h2 = os.path.join(BUILD, "harness_scratch")
        subprocess.run(["rm", "-rf", h2]); subprocess.run(["cp", "-a", h, h2])
        s = open(os.path.join(h2, "Cargo.toml")).read().replace("/repo/", REPO + "/")
        open(os.path.join(h2, "Cargo.toml"), "w").write(s)
        m = os.path.join(h2, "src", "main.rs")
        s = open(m).read().replace('"../../lift/', '"' + os.path.join(V, "lift") + "/")
        open(m, "w").write(s)
        manifest = os.path.join(h2, "Cargo.toml")
    rc, o, e = run(["cargo", "build", "--offline", "-q", "--manifest-path", manifest])
    out["rc"], out["err"], out["s"] = rc, e[-3000:], time.time() - t
    out["bin"] = os.path.join(BUILD, "target/debug/replay")


def lift_build(prop, out):
    """generated crate: functions taken verbatim from uncompiled crates, with stand-in types"""
    t = time.time()
    d = os.path.join(BUILD, "lift", prop)
    os.makedirs(d, exist_ok=True)
    gen = os.path.join(d, "main.rs")
    binp = os.path.join(d, "replay")
    for p in (gen, binp):
        if os.path.exists(p):
            os.remove(p)
    rc, o, e = run([VX, os.path.join(V, "lift", prop + ".rs"), "--repo", REPO, "--out", gen, "--map", os.path.join(d, "map.json")])
    if rc != 0:
        out.update(rc=rc, err="extraction: " + e[-500:], bin=binp)
        return
    rc, o, e = run(["rustc", "--edition", "2021", "-C", "debug-assertions=on", "-C", "opt-level=1", "-A", "warnings", "-o", binp, gen], cwd=d)
    out.update(rc=rc, err=e[-3000:], bin=binp, s=time.time() - t)


def replay(prop, hb, known):
    r = dict(status="undecided", why="", data={})
    if hb.get("rc") != 0:
        r["why"] = "replay harness does not build against the current tree: " + str(hb.get("err", ""))[-600:]
        return r
    d = os.path.join(BUILD, "run", prop)
    subprocess.run(["rm", "-rf", d])
    os.makedirs(d, exist_ok=True)
    tmo = min(left() - 3, 400 if TIER == "quick" else 2400)
    env = dict(os.environ, VX_KNOWN=",".join(k["key"] for k in known), VX_DIR=d, RUST_BACKTRACE="0",
               VX_BUDGET_S=str(int(min(tmo * 0.5, 60 if TIER == "quick" else 900))))
    rc, o, e = run([hb["bin"], prop, str(SEED), TIER], timeout=tmo, env=env, cwd=d)
    data = None
    for l in reversed(o.splitlines()):
        if l.startswith("{") and '"status"' in l:
            try:
                data = json.loads(l)
                break
            except Exception:
                pass
    case = ""
    cp = os.path.join(d, "case")
    if os.path.exists(cp):
        case = open(cp, errors="replace").read()
    subprocess.run(["rm", "-rf", d])
    if data is None:
        if rc == "timeout":
            # a hang of the code under test is reported by the harness' own watchdog; this is the harness itself
            r["why"] = "replay harness timed out"
        elif isinstance(rc, int) and rc < 0 and case:
            r["status"] = "fail"
            r["data"] = dict(status="fail", fail=dict(what=f"the process died with signal {-rc} (abort)", case=case, stderr=e[-1500:]))
        else:
            r["why"] = f"replay harness ended with {rc} and no result: {e[-500:]}"
        return r
    r["status"] = data["status"]
    r["data"] = data
    return r


def merge(rs):
    """several replay binaries of one property: the first failure counts"""
    if not rs:
        return dict(status="none", why="no replay harness", data={})
    if len(rs) == 1:
        return rs[0]
    for st in ("fail", "undecided"):
        for r in rs:
            if r["status"] == st:
                return r
    d = [r["data"] for r in rs]
    return dict(status="ok", why="", data=dict(
        status="ok", evaluations=sum(x.get("evaluations", 0) for x in d), distinct_nontrivial=sum(x.get("distinct_nontrivial", 0) for x in d),
        rule=" / ".join(x.get("rule", "") for x in d), samples=sum((x.get("samples", []) for x in d), [])[:8], fail=None,
        known=sum((x.get("known", []) for x in d), [])))


# ------------------------------------------------------------------ verdict

def trusted_scan(units):
    """every unverified contract in the generated files, mechanically"""
    tb, cheats = [], []
    for u in units:
        p = os.path.join(BUILD, "units", u, u + ".rs")
        if not os.path.exists(p):
            continue
        ls = open(p).read().splitlines()
        pend = False
        for l in ls:
            s = l.strip()
            if s.startswith("#[verifier::external_body]"):
                pend = True
            m = re.search(r"\b(?:fn|struct|trait)\s+(\w+)", s)
            if pend and m:
                tb.append(f"{u}: {'assumed contract of' if ' fn ' in ' '+s else 'opaque type'} {m.group(1)}")
                pend = False
            m = re.search(r"\baxiom fn (\w+)", s)
            if m:
                tb.append(f"{u}: axiom {m.group(1)}")
            if s.startswith("//@") or s.startswith("//"):
                continue
            if re.search(r"\bassume\s*\(|\badmit\s*\(", s):
                cheats.append(f"{u}: {s[:100]}")
    return sorted(set(tb)), cheats


def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    os.makedirs(EV, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    evp = os.path.join(EV, prop + ".json")
    rpp = os.path.join(EV, prop + ".replay.json")
    for p in (evp, rpp):
        if os.path.exists(p):
            os.remove(p)
    known = []
    kf = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(kf):
        for l in open(kf):
            if l.strip():
                k = json.loads(l)
                if k["property"] == prop and k["kind"] == "finding":
                    known.append(k)
    rc, o, e = build_vx()
    vx_ok = rc == 0
    kinds = cfg["harness"] or []
    kinds = [kinds] if isinstance(kinds, str) else kinds
    hbs = [({}, k) for k in kinds]
    hts = [threading.Thread(target=harness_build, args=(b,)) if k == "main" else threading.Thread(target=lift_build, args=(prop, b)) for b, k in hbs]
    for ht in hts:
        ht.start()
    units = {}
    ths = []
    if vx_ok:
        for u in cfg["units"]:
            t = threading.Thread(target=unit_run, args=(u, units))
            t.start()
            ths.append(t)
    for t in ths:
        t.join()
    for ht in hts:
        ht.join()
    rp = merge([replay(prop, b, known) for b, k in hbs])

    base = base_notes()
    lost, alarms, undec = [], [], []
    if not vx_ok:
        lost.append("extractor does not build: " + e[-300:])
    oblig = disch = 0
    fn_rows = []
    for u in cfg["units"]:
        r = units.get(u)
        if r is None:
            lost.append(f"{u}: not run")
            continue
        mine = [f for f in r["fns"] if prop in f["tags"]]
        if r["status"] == "undecided":
            lost.append(f"{u}: {r['why']}")
            continue
        failed_names = {}
        for f in r["failed"]:
            failed_names.setdefault(f["fn"], []).append(f)
        for f in mine:
            rows = [x for x in r["results"] if x["name"].rsplit("::", 1)[-1] == f["name"]]
            bad = failed_names.get(f["name"], [])
            oblig += 1
            if f.get("dropped"):
                undec.append(f"{u}.{f['name']}: the verifier does not accept the extracted text: {r['left_out'].get(f['name'], '?')}")
                fn_rows.append(dict(function=f["source"], file=f["file"], lines=f["lines"], discharged=False, solver_ms=0.0, loops=[], transformations=f["notes"]))
                continue
            if not bad:
                disch += 1
            fn_rows.append(dict(function=f["source"], file=f["file"], lines=f["lines"], discharged=not bad,
                                solver_ms=round(sum(x["ms"] for x in rows), 1), loops=f["loops"], transformations=f["notes"]))
        # lemmas of the unit
        for x in r["results"]:
            if x["mode"] == "proof":
                oblig += 1
                disch += 1 if x["ok"] else 0
        for f in r["failed"]:
            if f["fn"] is None:
                undec.append(f"{u}: {f['message']}")
                continue
            if prop not in f["tags"]:
                continue
            newn = [n for n in f["notes"] if n.startswith("inlined") and n not in base.get(u, {}).get(f["fn"], [])]
            if f["kind"] == "resource":
                undec.append(f"{u}.{f['fn']}: solver resource limit")
            elif f["kind"] == "other":
                undec.append(f"{u}.{f['fn']}: {f['message']}")
            elif not f["loops_ok"]:
                undec.append(f"{u}.{f['fn']}: the annotated loop structure changed ({f['kind']})")
            elif f["new_calls"] - WELL_KNOWN - set(base.get(u, {}).get("", [])):
                # no contract was vetted for what this function now calls; the replay decides
                nc = sorted(f["new_calls"] - WELL_KNOWN - set(base.get(u, {}).get("", [])))
                undec.append(f"{u}.{f['fn']}: {f['kind']} fails, but the function now calls {', '.join(nc)}, which the contracts of this unit were not written for")
            elif newn:
                undec.append(f"{u}.{f['fn']}: {f['kind']} fails, but after {', '.join(newn)}")
            else:
                alarms.append(f)
        for x in r["vac_missing"]:
            undec.append(f"{u}: vacuity check: {x}")
    proved = not lost and not alarms and not undec and oblig > 0 and disch == oblig

    violations = 0
    lines = []
    for kx in known:
        hit = [x for x in rp.get("data", {}).get("known", []) if x.get("key") == kx["key"]]
        if hit or rp["status"] in ("none",):
            lines.append(f"KNOWN-FINDING: property={prop} {kx['text']}")
    rep = None
    if rp["status"] == "fail":
        violations = 1
        rep = dict(property=prop, seed=SEED, tier=TIER, failing_input=rp["data"].get("fail"), failed_obligations=alarms, undecided=undec + lost)
        lines.append(f"VIOLATION property={prop} replay={rpp}")
    elif alarms:
        violations = 1
        rep = dict(property=prop, seed=SEED, tier=TIER, failing_input=None, failed_obligations=alarms, undecided=undec + lost,
                   verifier_output={u: units[u].get("raw", "")[:20000] for u in units if units[u]["failed"]},
                   note="obligations that hold on the unchanged tree and fail now; the replay harness found no failing input")
        lines.append(f"VIOLATION property={prop} replay={rpp} no-failing-input-found")
    for f in alarms:
        f.pop("new_calls", None)
    if rep:
        json.dump(rep, open(rpp, "w"), indent=1)

    tb, cheats = trusted_scan(cfg["units"])
    d = rp.get("data", {})
    cov = {}
    if cfg["units"] and cfg.get("level", "proof") == "proof" and (proved or alarms):
        level = "proof"
        cov.update(obligations=oblig, discharged=disch,
                   checker_cmd="; ".join(units[u]["verus"]["cmd"] for u in cfg["units"] if "verus" in units.get(u, {})),
                   trusted_base=tb + ["Verus 0.2026.09.13 and Z3 (its bundled version)", "the extractor /verif/tools/vx (its listed transformations)"])
    else:
        level = "exploration" if hbs else "other"
        cov["explanation"] = "The deductive part gave no complete verdict on this tree (see undecided); only the bounded stand-in decided."
        cov.update(obligations=oblig, discharged=disch)
    cov["functions"] = fn_rows
    cov["units"] = {u: dict(verus=units[u].get("verus"), vacuity_points=units[u].get("vac_total"), status=units[u]["status"]) for u in units}
    cov["solver_ms"] = sum((units[u].get("verus") or {}).get("smt_ms") or 0 for u in units)
    cov["assumes_in_contracts"] = cheats
    cov["undecided"] = lost + undec
    cov["replay"] = dict(status=rp["status"], why=rp.get("why", ""), note="bounded stand-in on the real code; never counted as proved")
    if d:
        cov["evaluations"] = d.get("evaluations", 0)
        cov["distinct_nontrivial"] = d.get("distinct_nontrivial", 0)
        cov["rule"] = d.get("rule", "")
        cov["samples"] = d.get("samples", [])[:5]
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov, wall_s=round(time.time() - T0, 2),
              assumptions=cfg.get("assumptions", []), violations=violations)
    json.dump(ev, open(evp, "w"), indent=1)
    print(f"{prop}: deductive {disch}/{oblig} obligations discharged, replay {rp['status']} "
          f"({d.get('evaluations', 0)} cases), {time.time()-T0:.1f}s")
    for x in lost + undec:
        print("UNDECIDED:", x)
    if rp["status"] not in ("ok", "fail", "none"):
        print("UNDECIDED: replay:", rp["why"])
    for a in alarms:
        print(f"FAILED OBLIGATION: {a['source']}: {a['kind']}: {a['clause'] or a['message']}")
    if rp["status"] == "fail":
        print("FAILING INPUT:", json.dumps(d.get("fail"))[:2000])
    for l in lines:
        print(l)
    sys.exit(1 if violations else 0)


def setup():
    """build what the checks need (a check builds it again if it is missing)"""
    os.makedirs(BUILD, exist_ok=True)
    rc, o, e = build_vx()
    hb = {}
    harness_build(hb)
    print("extractor:", rc, e[-500:], "harness:", hb.get("rc"), str(hb.get("err"))[-500:])
    sys.exit(0)


if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        setup()
    try:
        main()
    except SystemExit:
        raise
    except Exception:  # an error of the machinery is never an alarm
        import traceback
        traceback.print_exc()
        print("UNDECIDED: internal error of the check")
        prop = sys.argv[1]
        try:
            json.dump(dict(property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="other",
                           coverage=dict(explanation="internal error of the check: nothing decided"), wall_s=time.time() - T0),
                      open(os.path.join(EV, prop + ".json"), "w"))
        except Exception:
            pass
        sys.exit(0)
