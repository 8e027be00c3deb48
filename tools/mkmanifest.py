#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the list of built checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
NA = {}
NOTE = ("Trace validation against an executable TLA+ specification: every recorded behaviour of the real code in the "
        "enumerated and sampled input space is one the specification allows, and the specification's invariants hold in every "
        "state on the way. Inputs beyond the explored space are not covered; the TLA+ specification, TLC and the observation "
        "harness are trusted.")
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(l)
    i = p["id"]
    if i in props.CHECKS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": props.TECHNIQUE.get(i, "TLA+ specification checked with TLC; conformance by trace validation of the real parser"),
                       "level": "model_checking", "level_note": props.NOTES.get(i, "") + NOTE})
    else:
        na.append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the harness uses the public API only."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
