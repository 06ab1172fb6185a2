#!/usr/bin/env python3
"""Write MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from registry import CHECKS  # noqa: E402
try:
    from registry import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
TECH = "symbolic execution of the compiled library (LLVM IR) with z3"
NOTE = ("Every path of the real library code within the bounds is decided by the solver for all inputs on it; violations are replayed on an "
        "ordinary sanitized build. Trusted: the engine, z3, clang at -O1 for the instrumented build. ")
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": []}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in CHECKS:
        C = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json", "technique": C.get("technique", TECH), "level": C.get("level", "model_checking"),
            "level_note": NOTE + "Bounds: " + C["bounds"] + (". Stubs: " + C["stubs"] if C.get("stubs") else "") + "."})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "no check built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
