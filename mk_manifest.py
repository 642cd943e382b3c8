#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os
from plan import PLAN, TECHNIQUE, NOTE
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
json.dump({
    "version": 1,
    "setup_cmd": "python3 /verif/check.py --setup",
    "checks": [{
        "property": i,
        "quick_cmd": f"python3 /verif/check.py {i}",
        "thorough_cmd": f"python3 /verif/check.py {i} --thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECHNIQUE[i],
        "level": "exploration",
        "level_note": NOTE,
    } for i in ids if i in PLAN],
    "not_applicable": [{"property": i, "reason": "the monitor of this property is not built yet"} for i in ids if i not in PLAN],
    "notes": "No hooks in /repo are needed: the monitors use the public api, instrumented payloads and a delegating monitored storage. "
             "--thorough (or VERIF_TIER=thorough) selects the deeper exploration, VERIF_SEED seeds every random choice.",
}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
