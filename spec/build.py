#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec/properties.py."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "spec"))
sys.path.insert(0, V)
from properties import P, NA
from props import PROPS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["where"]]}},
            ensure_ascii=False) + "\n")
        n = len(re.findall(r"[.](?=\s+[A-Z(]|$)", p["statement"]))
        if n > 3:
            print(p["id"], n, "sentences")
        assert set(p["over"]) <= {"schedules", "crash_points", "inputs", "programs", "histories",
                                  "configurations", "fault_sequences"}
        assert len(p["title"]) <= 80, p["id"]
claimed = [p for p in P if p["id"] in PROPS]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"]} for p in claimed],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()] +
    [{"property": p["id"], "reason": "no check yet"} for p in P
     if p["id"] not in PROPS and p["id"] not in NA],
    "notes": "No hooks are needed in /repo: the monitors use the public API and compiler-inserted "
             "instrumentation (SanitizerCoverage, overflow and debug assertions) of a harness build.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties,", len(claimed), "claimed")
