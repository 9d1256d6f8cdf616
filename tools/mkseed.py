"""Makes /verif/seeded/<id> from a description and confirms it: mkseed.py FILE.py

FILE.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=<Go main or test body>, ...)].
Works on a scratch copy of /repo; the patch must apply, build, pass the stable tests, and the
demonstration must pass without it and fail with it.
"""
import json, os, subprocess, sys, shutil, runpy

ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
SCR = "/tmp/seedwork/repo"
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/@AT@":"%s/@SRC@"}}' "$PWD" "$d" > "$t/overlay.json"
@RUN@
'''
RUN_MAIN = 'go build -overlay "$t/overlay.json" -o "$t/demo" ./zzdemo || exit 3\n"$t/demo"'
RUN_TEST = 'go test -count=1 -overlay "$t/overlay.json" -run ZZDemo ./@PKG@'


def sh(cmd, **kw):
    return subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    stable = json.load(open("/opt/vp/BASELINE.json"))
    for s in seeds:
        if only and s["id"] not in only:
            continue
        shutil.rmtree(SCR, ignore_errors=True)
        sh(["git", "clone", "-q", "/repo", SCR])
        for f, old, new in s["edits"]:
            p = os.path.join(SCR, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "edit matches", t.count(old), "times:", f, old[:60])
                break
            open(p, "w").write(t.replace(old, new))
        else:
            if s.get("gofmt", True):
                r = sh(["gofmt", "-l"] + [e[0] for e in s["edits"]], cwd=SCR)
                if r.stdout.strip():
                    print(s["id"], "gofmt:", r.stdout)
            diff = sh(["git", "diff"], cwd=SCR).stdout
            d = os.path.join("/verif/seeded", s["id"])
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            if "test" in s:
                src, run = "demo_test.go.txt", RUN_TEST.replace("@PKG@", s["pkg"])
                at = s["pkg"] + "/zz_demo_test.go"
                open(d + "/" + src, "w").write(s["test"])
            else:
                src, run, at = "demo.go.txt", RUN_MAIN, "zzdemo/main.go"
                open(d + "/" + src, "w").write(s["demo"])
            open(d + "/demo.sh", "w").write(DEMO.replace("@AT@", at).replace("@SRC@", src).replace("@RUN@", run))
            os.chmod(d + "/demo.sh", 0o755)
            # confirm
            pk = sh("go list ./... | grep -v /wasm/aqlparse$", shell=True, cwd=SCR).stdout.split()
            b = sh(["go", "build"] + pk, cwd=SCR)
            if b.returncode:
                print(s["id"], "does not build", b.stdout[-500:])
                continue
            t = sh(["go", "test", "-json", "-vet=off", "-count=1", "-exec", "/bin/bash /opt/vp/testexec.sh"] + pk, cwd=SCR)
            failed = set()
            passed = set()
            for line in t.stdout.splitlines():
                try:
                    e = json.loads(line)
                except ValueError:
                    continue
                if e.get("Test") and e["Action"] in ("pass", "fail"):
                    (passed if e["Action"] == "pass" else failed).add(e["Test"])
            broken = sorted(x for x in failed)
            d1 = sh(["bash", d + "/demo.sh"], cwd="/repo")
            d2 = sh(["bash", d + "/demo.sh"], cwd=SCR)
            ok = d1.returncode == 0 and d2.returncode not in (0, 3)
            print(s["id"], "tests failing:", broken[:5], "demo", d1.returncode, d2.returncode, "OK" if ok and not broken else "REJECTED", d2.stdout.strip()[-200:] if ok else d1.stdout[-800:] + d2.stdout[-800:])


main()
