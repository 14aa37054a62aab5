#!/usr/bin/env python3
"""Writes MANIFEST.json from units.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from units import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in ids:
    if p in PROPS:
        s = PROPS[p]
        checks.append(dict(property=p, quick_cmd=f"python3 check.py {p} quick", thorough_cmd=f"python3 check.py {p} thorough",
                           technique=s.get("technique", "contract-based deductive verification with Verus of functions extracted mechanically from /repo on every run; bounded executable-contract search supplies concrete witnesses"),
                           level=s["level"], level_note=s["note"] + " Assumes: " + "; ".join(s.get("assumptions", [])) + "."))
na = [dict(property=p, reason=NOT_APPLICABLE[p]) for p in ids if p not in PROPS]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo. Each check extracts the functions under contract from /repo/cinereus/src, /repo/hotmeal/src and /repo/hotmeal-server/src (extract/), splices in the contracts of proof/, and runs Verus; harness/ is the executable form of the same contracts over the real cinereus crate, and harness-html/ over the real hotmeal and hotmeal-server sources, compiled against stand-ins (shims/) of the dependencies that are not available offline.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
