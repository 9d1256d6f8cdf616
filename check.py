#!/usr/bin/env python3
"""Decides one property: python3 check.py ID [--replay FILE]

1. vcgen generates the obligations of the property from /repo's current source and
   discharges them (the deciding step).
2. The executable oracle of the property runs on the real code, built from the
   same source through an overlay: it looks for a concrete failing input when an
   obligation failed, and is the bounded stand-in for assumed contracts otherwise.
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off",
           PATH="/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:" + os.environ.get("PATH", ""))
CFG = json.load(open(os.path.join(HERE, "checks.json")))


def build_vcgen():
    out = os.path.join(HERE, "bin", "vcgen")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = subprocess.run(["go", "build", "-o", out, "."], cwd=os.path.join(HERE, "vcgen"), env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout)
        sys.exit(2)
    return out


def build_oracle(kind, scratch):
    """Builds the oracle into the module of REPO; returns argv or None and the reason."""
    if kind is None:
        return None, "no oracle"
    srcs = [x for d in kind.get("dirs", [kind.get("dir")]) for x in glob.glob(os.path.join(HERE, "replay", d, "*.go"))]
    at = os.path.join(REPO, kind.get("at", "zzverif"))
    ov = os.path.join(scratch, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": {os.path.join(at, os.path.basename(x)): x for x in srcs}}, f)
    out = os.path.join(scratch, "oracle")
    if kind.get("test"):
        argv = ["go", "test", "-c", "-overlay", ov, "-o", out]
    else:
        argv = ["go", "build", "-overlay", ov, "-o", out]
    if kind.get("race"):
        argv.append("-race")
    r = subprocess.run(argv + ["./" + kind.get("at", "zzverif")], cwd=REPO, env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, "the oracle does not build: " + r.stdout[-2000:]
    return [out], ""


def run_oracle(argv, prop, seed, ms, scratch, replay=None):
    rep = os.path.join(scratch, "oracle.json")
    if os.path.exists(rep):
        os.unlink(rep)
    args = ["-prop", prop, "-seed", str(seed), "-ms", str(ms), "-out", rep]
    if replay:
        args += ["-replay", replay]
    env = dict(ENV, GORACE="halt_on_error=1 exitcode=66", TMPDIR=scratch, ZZVERIF_ARGS="\x1f".join(args))
    try:
        r = subprocess.run(argv + ([] if argv[-1] == "-test.run=ZZVerif" else args), env=env, cwd=scratch,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=ms / 1000 + 150)
    except subprocess.TimeoutExpired:
        return {"failed": False, "error": "oracle timed out"}
    if os.path.exists(rep):
        d = json.load(open(rep))
        d["output"] = r.stdout[-2000:]
        return d
    if r.returncode == 3 or "oracle failure:" in r.stdout:
        return {"failed": False, "error": "the oracle failed: " + r.stdout[-2000:]}
    if r.returncode == 66 or "DATA RACE" in r.stdout:
        return {"failed": True, "what": "data race:\n" + r.stdout[:6000], "case": None, "evaluations": 1}
    if "fatal error:" in r.stdout or "goroutine " in r.stdout:
        # not recoverable in process (stack overflow, concurrent map access, out of memory, panic in a goroutine)
        return {"failed": True, "what": "the process died:\n" + r.stdout[:6000], "case": None, "evaluations": 1}
    return {"failed": False, "error": "oracle ended with %d: %s" % (r.returncode, r.stdout[-2000:])}


def known_findings(prop):
    out = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", line)
        if m and m.group(1) == prop:
            out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out


def main():
    prop = sys.argv[1]
    cfg = CFG[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-" + prop + "-")
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            sys.exit(do_replay(prop, cfg, sys.argv[3], scratch))
        code = decide(prop, cfg, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def oracle_argv(cfg, scratch):
    argv, why = build_oracle(cfg.get("oracle"), scratch)
    if argv and cfg["oracle"].get("test"):
        argv.append("-test.run=ZZVerif")
    return argv, why


def do_replay(prop, cfg, path, scratch):
    argv, why = oracle_argv(cfg, scratch)
    if not argv:
        print(why)
        return 2
    d = run_oracle(argv, prop, 1, 1000, scratch, replay=os.path.abspath(path))
    print(json.dumps(d, indent=1, ensure_ascii=False))
    return 1 if d.get("failed") else 0


def vcgen_run(vcgen, args, scratch, name):
    rep = os.path.join(scratch, name)
    cmd = [vcgen, "-repo", REPO, "-specs", os.path.join(HERE, "specs")] + args + ["-json", rep]
    r = subprocess.run(cmd, env=ENV, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(rep):
        return {"units": [], "error": "vcgen ended with %d: %s" % (r.returncode, r.stdout[-3000:])}
    return json.load(open(rep))


def problems(prop, rep):
    """Failed obligations of this property as (unit, label, position, output)."""
    out = []
    if rep.get("error"):
        out.append(("load", rep["error"], "", ""))
    for u in rep.get("units") or []:
        if u.get("error") and prop in (u.get("tags") or []):
            out.append((u["name"], "no obligations generated: " + u["error"], "", ""))
        for o in u.get("results") or []:
            if prop in (o.get("tags") or []) and o["status"] != "proved":
                out.append((u["name"], "%s: %s" % (o["kind"], o["label"]), o.get("pos", ""),
                            "%s [%s] %s" % (o["status"], o.get("backend", ""), o.get("output", ""))))
    return out


def decide(prop, cfg, tier, seed, t0, scratch):
    quick = tier == "quick"
    argv, why = oracle_argv(cfg, scratch)
    vcgen = build_vcgen()
    rep = vcgen_run(vcgen, ["-tag", prop], scratch, "vc.json")
    bad = problems(prop, rep)
    if bad and not rep.get("error"):
        # solver limits depend a little on the load of the machine: try the failed units once more alone
        names = sorted({b[0] for b in bad})
        rep2 = vcgen_run(vcgen, ["-tag", prop, "-j", "4", "-only", "^(" + "|".join(re.escape(n) for n in names) + ")$"], scratch, "vc2.json")
        if not rep2.get("error") and len(rep2.get("units") or []) == len(names):
            new = {u["name"]: u for u in rep2["units"]}
            rep["units"] = [new.get(u["name"], u) for u in rep["units"]]
            bad = problems(prop, rep)
    obl = [o for u in rep.get("units") or [] for o in (u.get("results") or []) if prop in (o.get("tags") or [])]
    done = [o for o in obl if o["status"] == "proved"]
    if not obl and not bad:
        bad.append(("vcgen", "no obligation of this property was generated from the current source", "", ""))

    orc = {"failed": False, "error": why}
    if argv:
        ms = (cfg.get("ms_failed", 60000) if bad else cfg.get("ms", 8000)) if quick else cfg.get("ms_thorough", 120000)
        orc = run_oracle(argv, prop, seed, ms, scratch)
    known, code = known_findings(prop), 0
    for rx, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    orc_bad = orc.get("failed") and not any(rx.search(orc.get("what", "")) for rx, _ in known)
    bad = [b for b in bad if not any(rx.search(" ".join(b)) for rx, _ in known)]
    if bad or orc_bad:
        code = 1
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", prop + ".json")
        doc = {"property": prop, "failed_obligations": [dict(zip(("unit", "obligation", "position", "verifier"), b)) for b in bad]}
        if orc_bad:
            doc.update(case=orc.get("case"), what=orc.get("what"), seed=seed,
                       rerun="python3 %s/check.py %s --replay %s" % (HERE, prop, path))
        with open(path, "w") as f:
            json.dump(doc, f, indent=1, ensure_ascii=False)
            f.write("\n")
        for b in bad[:20]:
            print("failed obligation: %s %s %s" % b[:3])
        if orc_bad:
            print("failing input:", (orc.get("what") or "")[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    write_evidence(prop, cfg, tier, seed, t0, rep, obl, done, orc, why, len(bad) + (1 if orc_bad else 0))
    if code == 0:
        print("property %s: %d of %d obligations discharged, %s bounded evaluations, %.1f s" % (
            prop, len(done), len(obl), orc.get("evaluations", 0), time.time() - t0))
    return code


def write_evidence(prop, cfg, tier, seed, t0, rep, obl, done, orc, why, nbad):
    units = rep.get("units") or []
    backends, ms = {}, 0
    for o in done:
        backends[o.get("backend") or "simplifier"] = backends.get(o.get("backend") or "simplifier", 0) + 1
    trusted = sorted({t for u in units for t in (u.get("trusted") or [])})
    under = sorted(u["name"] for u in units)
    used = sorted({c for u in units for c in (u.get("callees") or [])})
    cov = {
        "obligations": len(obl),
        "discharged": len(done),
        "checker_cmd": "bin/vcgen -repo /repo -specs specs -tag %s" % prop,
        "trusted_base": ["z3 4.8.12, z3 5.3.2, cvc5 1.1.2", "the Go type checker and golang.org/x/tools/go/ssa v0.52.0", "vcgen's translation of SSA into logic"] + trusted,
        "functions_under_contract": under,
        "contracts_used_at_calls": used,
        "backends": backends,
        "solver_ms": sum(u.get("solver_ms", 0) for u in units),
        "inlined_functions": sorted({c for u in units for c in (u.get("inlined") or [])}),
        "loop_invariants_found": sum(len(u.get("invariants") or []) for u in units),
        "contracts_without_function": rep.get("unbound") or [],
        "bounded": {
            "label": "bounded, not counted as proved",
            "bound": orc.get("bound", ""),
            "evaluations": orc.get("evaluations", 0),
            "distinct_nontrivial": orc.get("distinct_nontrivial", 0),
            "rule": orc.get("rule", ""),
            "note": orc.get("error", ""),
        },
    }
    if orc.get("samples"):
        cov["bounded"]["samples"] = orc["samples"]
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": cfg.get("level", "proof"), "coverage": cov,
        "assumptions": CFG["assumptions"] + cfg.get("assumptions", []) + ["assumed contract: " + a for a in sorted(rep.get("assumed_contracts") or [])],
        "wall_s": round(time.time() - t0, 2), "violations": nbad,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
