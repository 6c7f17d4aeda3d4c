#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS, NOTES, NOT_APPLICABLE
checks = []
for p in sorted(PROPS):
    c = PROPS[p]
    mods = ", ".join(sorted({m["module"] for m in c["models"]}))
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py " + p,
        "thorough_cmd": "python3 check.py " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "TLA+/TLC: model %s; its behaviours replayed into the code and recordings judged by trace specification %s" % (mods, c["trace"]),
        "level": "model_checking",
        "level_note": c["note"],
    })
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "verif (Go build tag)", "enable": "go build -tags verif -overlay: harness sources are mapped into /repo/internal/ at build time; /repo itself carries no hooks", "source_commits": []},
     "checks": checks, "not_applicable": NOT_APPLICABLE, "notes": NOTES}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
