#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/checks.json."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
checks = json.load(open(V + "/harness/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
NOTE = ("Bounded: for every input, fault and schedule within the bounds listed in the evidence file the assertions were "
        "evaluated on the symbolically executed Go SSA of the current source and decided by cvc5 (z3 for queries it leaves open). "
        "Trusts the executor and its models of MD5 (collision-free), channels, files and HTTP; paths are sampled and "
        "replayed natively, and a violation is reported only after a native replay reproduced it.")
m = {"version": 1,
     "setup_cmd": "cd /verif/gosym && mkdir -p /verif/bin && GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local go build -o /verif/bin/gosym .",
     "checks": [], "not_applicable": [],
     "notes": "Every check is bounded symbolic execution of the real code with an SMT solver; see DESIGN.md."}
NA = {}
if os.path.exists(V + "/not_applicable.json"):
    NA = json.load(open(V + "/not_applicable.json"))
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        m["checks"].append({"property": i, "quick_cmd": f"/verif/check.sh {i}", "thorough_cmd": f"/verif/check.sh {i} -thorough",
            "technique": "symbolic execution of Go SSA with SMT (cvc5, z3), bounded; native replay of counterexamples",
            "level": "model_checking", "level_note": NOTE + (" Outside: " + c["outside"] if c.get("outside") else "")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
