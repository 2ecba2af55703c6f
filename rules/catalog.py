#!/usr/bin/env python3
"""catalog/*.json (one property each) -> properties.jsonl and MANIFEST.json"""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "rules"))
import run
run.register()
props, checks, na = [], [], []
for f in sorted(glob.glob(os.path.join(V, "catalog", "*.json"))):
    for p in json.load(open(f)):
        meta = {k: p.pop(k) for k in ("technique", "level_note", "not_applicable") if k in p}
        props.append(p)
        pid = p["id"]
        assert len(p["title"]) <= 80, pid
        if "not_applicable" in meta:
            assert pid not in run.RULES, pid
            na.append({"property": pid, "reason": meta["not_applicable"]})
            continue
        if pid not in run.RULES:
            print("no rule for", pid)
            continue
        cmd = "python3 rules/run.py " + pid
        checks.append({"property": pid, "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                       "technique": meta["technique"], "level": "other", "level_note": meta["level_note"]})
props.sort(key=lambda p: p["id"])
checks.sort(key=lambda c: c["property"])
ids = {p["id"] for p in props}
assert len(ids) == len(props)
for r in run.RULES:
    if r not in ids:
        print("rule without a property:", r)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 rules/run.py setup", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
