#!/usr/bin/env python3
import json, os, sys
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(d, "tools"))
import props
for p in props.P:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
with open(f"{d}/properties.jsonl", "w") as f:
    for p in sorted(props.P, key=lambda p: p["id"]):
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    for n in props.NA:
        f.write(json.dumps(n["prop"]) + "\n")
claimed = sorted((p for p in props.P), key=lambda p: p["id"])
with open(f"{d}/bins.txt", "w") as f:
    for p in claimed: f.write(f"{p['id']} {p['bin']}\n")
m = {"version": 1, "setup_cmd": "bash build.sh " + " ".join(sorted({p["bin"] for p in claimed})),
     "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} --tier quick", "thorough_cmd": f"./check.sh {p['id']} --tier thorough",
                 "technique": p["tech"], "level": "exploration", "level_note": p["note"]} for p in claimed],
     "not_applicable": [{"property": n["prop"]["id"], "reason": n["reason"]} for n in props.NA],
     "notes": "Property-based testing and fuzzing; see DESIGN.md."}
json.dump(m, open(f"{d}/MANIFEST.json", "w"), indent=1)
