"""writes MANIFEST.json from the list of checks and levels"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAP = ("TLA+ specification of object graphs (Heap): TLC builds objects exhaustively within bounds and by simulation, the compiled library is run on each, and TLC validates every reported event against the specification",
        "Exhaustive for the small schemas named in the evidence, sampled beyond them. Trusts gcc, AddressSanitizer, TLC and the driver's own object walker, which is generated from the same schema as the C declarations but does not use Metaresc.")
from manifest_data import CLAIMS, PENDING
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 lib/setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 run.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % p,
                 "technique": (HEAP[0] if c["technique"] == "heap" else c["technique"]), "level": c["level"],
                 "level_note": (c.get("note", "") + " " + HEAP[1]).strip() if c["technique"] == "heap" else c["note"]} for p, c in CLAIMS.items() if p in props],
     "not_applicable": [{"property": p, "reason": PENDING.get(p, "check under construction")} for p in props if p not in CLAIMS],
     "notes": "All checks are python3 run.py <property>; they build /repo's working tree outside of it. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
