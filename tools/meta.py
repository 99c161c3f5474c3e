#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions in tools/props_text.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props_text as T
ROOT = os.path.dirname(HERE)
ids = set()
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in T.PROPS:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["title"]
        assert d["id"] not in ids
        ids.add(d["id"])
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --selftest",
     "checks": [], "not_applicable": [], "notes": T.NOTES}
for p in T.PROPS:
    if p.get("na"):
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({
            "property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "deterministic simulation with fault injection: " + p["technique"],
            "level": "exploration", "level_note": p["level_note"]})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
