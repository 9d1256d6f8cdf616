"""Writes MANIFEST.json from properties.jsonl and checks.json."""
import json
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
cfg = json.load(open("/verif/checks.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    c = cfg.get(i)
    if not c:
        na.append({"property": i, "reason": cfg["not_applicable"].get(i, "not built yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "python3 check.py " + i,
        "technique": c.get("technique", "contract-based deductive verification: verification conditions from the SSA of /repo's current source against contracts in specs/, discharged by Z3 and cvc5"),
        "level": c.get("level", "proof"),
        "level_note": c["note"],
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: contracts are bound by name to the source as it is. See DESIGN.md."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
