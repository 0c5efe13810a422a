#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, subprocess, sys
sys.dont_write_bytecode = True
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE

TESTS = "Unit tests fix a handful of concrete calls; "
with open("properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": p.get("hook")},
        }) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 setup_all.py",
    "hooks": {"guard": "none", "enable": "No hooks are committed in /repo: harness packages and, for the scheduler, a rewritten copy of the sync-using sources are laid over the tree with go build -overlay.", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} quick",
        "thorough_cmd": f"python3 check.py {p['id']} thorough",
        "technique": p["technique"], "level": p.get("level", "model_checking"), "level_note": p["note"],
    } for p in PROPS if p["id"] not in NOT_APPLICABLE],
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
    "notes": "See DESIGN.md. Counterexamples: python3 check.py replay FILE.",
}
json.dump(man, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
