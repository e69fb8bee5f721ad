#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl, the checks present and tools/notes.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
notes = json.load(open(V + "/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if glob.glob(f"{V}/checks/{i}_*.cpp") and i not in notes.get("disabled", []):
        n = notes["checks"].get(i, {})
        checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {i}",
                       "technique": n.get("technique", "property-based testing with a reference model"), "level": "exploration",
                       "level_note": n.get("note", "Random search over generated cases with shrinking; absence of a violation is evidence, not proof.")})
    else:
        na.append({"property": i, "reason": notes.get("na", {}).get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/build.py all", "hooks": {"guard": "GRINPP_VERIF_EDGEBITS", "enable": "checks/C07_pow.cpp includes the proof-of-work sources with -DGRINPP_VERIF_EDGEBITS=<variable>, which lets C07 shrink the graphs of the fixed-size verifiers", "source_commits": ["582fe80"]}, "checks": checks, "not_applicable": na,
     "notes": "Sources of /repo's working tree are compiled into each check with shims for the secp256k1-zkp and mio headers, which the sandbox lacks (see DESIGN.md)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
