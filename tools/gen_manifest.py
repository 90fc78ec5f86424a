#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks = json.load(open(HERE + "/checks.json"))
TECH = "TLA+ specification: TLC model checking, TLC-generated behaviours replayed in the code, TLC acceptance of recorded traces"
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks: the harness observes the exported API only", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    c = checks.get(p["id"])
    if c:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                            "technique": c.get("technique", TECH), "level": "model_checking",
                            "level_note": c["explanation"] + ". Trusts: TLC, the Float64 Java override, the Go driver's projection; the code is judged on the recorded executions."})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
