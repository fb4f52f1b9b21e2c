#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of implemented checks."""
import json, re, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
main = open(f"{here}/pbt/src/main.rs").read()
done = set(re.findall(r'\("(C\d\d)"', main))
codec = "property-based testing: generated and exhaustively enumerated inputs against an independent reference codec, with shrinking"
sess = "stateful property-based testing: generated gateway/client histories with injected faults on a controlled clock against a reference session model, with shrinking"
m = {"version": 1, "setup_cmd": "bash run.sh build", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in done:
        n = int(i[1:])
        m["checks"].append({
            "property": i,
            "quick_cmd": f"bash run.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {i}",
            "technique": codec if n <= 15 else sess,
            "level": "exploration",
            "level_note": ("Holds on every enumerated and generated input counted in the evidence; trusts the reference codec in pbt/src/wire.rs."
                if n <= 15 else
                "Holds on every generated history counted in the evidence; real client code, loopback UDP, virtual time, one seeded single-threaded scheduler. Trusts the gateway simulator and session model in pbt/src.")})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
