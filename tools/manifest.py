"""Writes MANIFEST.json from the property list and the suites."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import suites
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "TLA+ specification model checked with TLC; behaviours replayed into the library; recorded traces checked against the specification"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in suites.PROPS:
        checks.append({"property": i, "quick_cmd": "bin/check %s" % i, "thorough_cmd": "bin/check %s --tier thorough" % i,
                       "technique": TECH, "level": "model_checking",
                       "level_note": suites.PROPS[i].get("note", "Design model checked exhaustively within the bounds in the evidence file; the library is bound to it by replaying all or a sample of the model's behaviours and seeded random cases, whose recordings are validated by TLC against the specification. No claim beyond the explored inputs.")})
    else:
        na.append({"property": i, "reason": suites.NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
