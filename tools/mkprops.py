#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and props.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


exec(open(os.path.join(V, "tools", "properties.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
cfg = json.load(open(os.path.join(V, "props.json")))
hooks = {"guard": "none", "enable": "no hooks are needed: the checks extract functions from /repo's source and link /repo's crates as they are", "source_commits": []}
checks = []
for p in P:
    c = cfg.get(p["id"])
    if not c:
        continue
    checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": c["technique"], "level": c.get("level", "proof"), "level_note": c["note"],
                   **({"theorems": c["theorems"]} if c.get("theorems") else {})})
na = [{"property": k, "reason": r} for k, r in NA.items() if k not in cfg]
missing = [p["id"] for p in P if p["id"] not in cfg and p["id"] not in NA]
assert not missing, missing
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": hooks, "checks": checks, "not_applicable": na,
           "notes": "Every check re-extracts the functions under contract from /repo, verifies them with Verus, and rebuilds the replay harness against /repo's crates."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
