#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (tools/props.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import CLAIMED, NOT_APPLICABLE, NOTES            # noqa: E402

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in CLAIMED + NOT_APPLICABLE:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                         "state": [{"name": a, "meaning": b, "where": c}
                                   for a, b, c in p.get("state", [])],
                         "observe_at": p.get("obs", []), "hook_needed": None}}
        assert len(d["title"]) <= 80, (p["id"], len(d["title"]))
        f.write(json.dumps(d) + "\n")

man = {
    "version": 1,
    "setup_cmd": "./run.py setup",
    "hooks": {"guard": "none", "enable": "no hooks were needed: every seam is installed from outside "
              "(module-level functions, locks, clocks, network and file opening are replaced in the "
              "simulator's own process)", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"VERIF_TIER=quick ./run.py check {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./run.py check {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "deterministic simulation with fault injection: " + p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in CLAIMED],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
    "notes": NOTES,
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(CLAIMED), "claimed,", len(NOT_APPLICABLE), "not applicable")
