#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and analyzer/props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "analyzer"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl")) if l.strip()]
checks = []; na = []
for i in ids:
    P = props.PROPS.get(i)
    if P is None:
        na.append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "machinery for this property is not built yet")}); continue
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": P.get("technique", props.TECHNIQUE), "level": P.get("level", "proof"),
                   "level_note": P["rule"] + " Bounds: " + P.get("bounds", "none") + "."})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
