#!/usr/bin/env python3
# Development aid: applies textual mutants to a scratch copy of /repo and reports
# which units of vcgen fail. Usage: mutate.py MUTANTS.txt [vcgen args]
# A mutant is: file @@ old @@ new
import subprocess, sys, os, shutil
src, scratch = "/repo", "/tmp/mutrepo"
shutil.rmtree(scratch, ignore_errors=True)
shutil.copytree(src, scratch, ignore=shutil.ignore_patterns(".git"))
extra = sys.argv[2:]
for line in open(sys.argv[1]):
    line = line.rstrip("\n")
    if not line or line.startswith("#"):
        continue
    f, old, new = line.split(" @@ ")
    old, new = old.replace("\\n", "\n").replace("\\t", "\t"), new.replace("\\n", "\n").replace("\\t", "\t")
    p = os.path.join(scratch, f)
    text = open(p).read()
    if old not in text:
        print("NOT FOUND", line)
        continue
    open(p, "w").write(text.replace(old, new, 1))
    b = subprocess.run(["go", "build", "./jsonmatcher/...", "./parser/...", "./sampler/...", "./internal/...", "./cmd/..."], cwd=scratch, capture_output=True, text=True)
    t = ""
    if b.returncode:
        print("NO BUILD", line, b.stderr[:300])
    else:
        r = subprocess.run(["/tmp/vcgen", "-repo", scratch, "-specs", "/verif/specs", "-quick"] + extra, capture_output=True, text=True)
        bad = [l.strip()[:150] for l in r.stdout.splitlines() if "    failed" in l or "internal" in l or "unsupported" in l or "error" in l.lower()]
        print(("CAUGHT " if r.returncode == 1 else "MISSED " if r.returncode == 0 else "ERROR ") + line[:160])
        for l in bad[:4]:
            print("      ", l)
        if r.returncode > 1:
            print(r.stdout[-300:], r.stderr[-500:])
    open(p, "w").write(text)
    sys.stdout.flush()
shutil.rmtree(scratch, ignore_errors=True)
