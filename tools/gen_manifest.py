#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "make -s -j4 -C engine", "checks": [], "not_applicable": [],
     "notes": "Every check: python3 check.py <property> [quick|thorough]. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in CHECKS and not CHECKS[i].get("draft"):
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": "symbolic execution of the compiled code (LLVM IR) with SMT (Z3 bit-vectors)",
            "level": "model_checking",
            "level_note": c.get("note") or ("Holds for every input within: " + "; ".join(j["name"] + ": " + j.get("bound", "") for j in c["jobs"])
                + ". Trusts clang -O1 lowering, the engine (differentially validated against native runs on each check) and Z3. " + " ".join(c.get("assumptions", [])))})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", [x["property"] for x in m["not_applicable"]])
