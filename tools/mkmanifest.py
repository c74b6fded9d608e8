#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)) + "/.."
sys.path.insert(0, H)
import suites
NOTES = json.load(open(H + "/tools/level_notes.json"))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in suites.PROPS:
        n = NOTES.get(i, {})
        checks.append({"property": i, "quick_cmd": f"python3 vrun.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 vrun.py {i}",
                       "technique": n.get("technique", "TLA+ spec checked with TLC; TLC behaviours replayed on the code, recorded events judged by a TLA+ trace spec"),
                       "level": "model_checking", "level_note": n.get("note", "Exhaustive for the model's stated constants; the code is bound by replaying every model transition and by judging larger seeded random runs against the same specification. Trusts TLC, the projection in the harness and the pinned tables in the spec.")})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3 setup.py", "hooks": {"guard": "none", "enable": "no hooks are needed: all state is observed through the public API and the bytes of the files", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
