"""regenerates /verif/MANIFEST.json from rules/table.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from rules.table import RULES, TECH, NA
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 -m compileall -q vflow rules >/dev/null && python3 -c 'import rules.table'",
     "checks": [], "not_applicable": [], "notes": "Value-flow analysis of /repo's source; nothing of /repo is executed. VERIF_REPO can point the checks to another tree."}
for p in props:
    i = p["id"]
    if i in RULES:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, TECH[None]), "level": "other",
                            "level_note": "static value-flow analysis: every obligation is decided for all inputs from the source; obligations outside the term vocabulary are reported as undecided"})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), len(m["not_applicable"]))
