#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED grows as checks are built."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
CLAIMED = {}
exec(open(os.path.join(here, "claimed.py")).read())
NA = {
 "C90": "A pure function of its arguments: no schedule, clock, I/O, randomness or fault for a simulator to control; this technique would degenerate into property-based testing.",
 "C91": "A pure function of the account tree and the expression: nothing for a simulator to control.",
 "C92": "TypeScript running in a browser on a static document; its build needs an npm bundle that cannot be produced here, and it has no fault or schedule dimension.",
}
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for id in props:
    if id in CLAIMED:
        level, note = CLAIMED[id]
        m["checks"].append(dict(property=id, quick_cmd="bash check.sh %s" % id,
            thorough_cmd="VERIF_TIER=thorough bash check.sh %s" % id,
            technique="deterministic simulation with fault injection (seeded search)", level=level, level_note=note))
    else:
        m["not_applicable"].append(dict(property=id, reason=NA.get(id, "Check not built yet.")))
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
