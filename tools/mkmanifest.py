import json, sys
sys.path.insert(0, "/verif/tools")
from na import NA
sys.path.insert(0, '/verif')
from props import PROPS
checks = []
for p, c in PROPS.items():
    proof = bool(c.get("units"))
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                   "technique": c.get("technique") or ("contracts on the real functions, discharged by Verus" if proof else "bounded comparison of the real code with a reference"),
                   "level": "proof" if proof else "exploration",
                   "level_note": c.get("level_note") or ("Verus discharges every obligation of the functions under contract, extracted from /repo on every run; trusted items are listed in the evidence. The compiled code is also run against an independent reference, bounded." if proof else "bounded: not yet proved; the compiled code is compared with an independent reference on generated documents")})
ids = [json.loads(l)["id"] for l in open('/verif/properties.jsonl')]

m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i not in PROPS]}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
