#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from kit/properties.py and kit/props.json."""
import json, os, sys
KIT = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(KIT)
sys.path.insert(0, KIT)
from properties import PROPS, NOT_APPLICABLE
props = json.load(open(os.path.join(KIT, "props.json")))
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in PROPS]
checks, na = [], []
for i in ids:
    if i in props:
        P = props[i]
        n = sum(len(g["harnesses"]) for g in P["groups"]); b = sum(len(g.get("bounded", [])) for g in P["groups"])
        checks.append({"property": i, "quick_cmd": f"python3 kit/run.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 kit/run.py {i}",
            "technique": P.get("technique", "function contracts on the mirrored real source, discharged by Kani/CBMC"), "level": P["level"],
            "level_note": P.get("note", f"{n} contract harnesses" + (f" + {b} bounded ones (labelled, not counted as proved)" if b else "") + ". Trusted: models of external crates; assumptions: " + "; ".join(P.get("assumptions", [])))})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE[i]})
assert not [i for i in props if i not in ids]
m = {"version": 1, "setup_cmd": "python3 kit/setup.py",
     "hooks": {"guard": "none (no hook commits in /repo)", "enable": "not needed: sources are mirrored mechanically", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Checks mirror /repo's current sources on every run (kit/mirror.py). See DESIGN.md."}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1); open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not claimed")
