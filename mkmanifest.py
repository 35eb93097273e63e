#!/usr/bin/env python3
"""Write MANIFEST.json from the table in check.py."""
import json, os
import check
here = os.path.dirname(os.path.abspath(__file__))
notes = {p: n for p, n in check.NOTES.items()}
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {
            "property": p,
            "technique": check.TECHNIQUE[p],
            "level": level,
            "level_note": notes[p],
            "quick_cmd": f"./check.py {p} quick",
            "thorough_cmd": f"./check.py {p} thorough",
            "evidence_file": f"evidence/{p}.json",
        }
        for p, (level, _) in sorted(check.PROPS.items())
    ],
    "not_applicable": [
        {"property": p, "reason": "no check yet"}
        for p in sorted(json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl")))
        if p not in check.PROPS
    ],
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
