#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/*.json-like python dicts (props.py)."""
import json
import os

from props import NOT_APPLICABLE, PROPS

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "properties.jsonl"), "w") as fp:
    for p in PROPS:
        fp.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None},
        }) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
    json.dump({
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"./run.sh {p['id']} --quick",
            "thorough_cmd": f"./run.sh {p['id']} --thorough",
            "technique": p["technique"], "level": p["level"], "level_note": p["note"],
        } for p in PROPS],
        "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks in /repo: the checks drive the real code through its API, a fake HTTP "
                 "layer, a virtual clock and a controlled scheduler.",
    }, fp, indent=1)
    fp.write("\n")
