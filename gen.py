#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from catalog.py and props.py."""
import json, os
from catalog import CATALOG
from props import PROPS
HERE = os.path.dirname(os.path.abspath(__file__))
lines = []
for pid, c in sorted(CATALOG.items()):
    assert len(c["title"]) <= 80, pid
    lines.append(json.dumps({"id": pid, "title": c["title"], "statement": c["statement"].strip(),
        "quantifier": {"over": c["over"], "text": c["text"]}, "why_tests_cant": c["why"],
        "anchors": {"files": c["files"], "state": c["state"], "mechanism": [{"name": n, "where": w} for n, w in c["mech"]], "observe_at": c["observe"], "hook_needed": None}}))
open(os.path.join(HERE, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
checks = []
for pid in sorted(PROPS):
    c = CATALOG[pid]
    checks.append({"property": pid, "quick_cmd": "python3 run.py %s quick" % pid, "thorough_cmd": "python3 run.py %s thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid, "technique": c["technique"], "level": "exploration", "level_note": c["note"].strip()})
man = {"version": 1, "setup_cmd": "python3 harness/gen_names.py --check", "checks": checks,
       "not_applicable": [{"property": p, "reason": "no check has been built for it yet"} for p in sorted(CATALOG) if p not in PROPS],
       "notes": "Every check is run.py <property> <tier>; catalog.py states the properties, props.py names the monitors, harness/*.cpp are the monitors. No hooks in /repo."}
open(os.path.join(HERE, "MANIFEST.json"), "w").write(json.dumps(man, indent=1) + "\n")
