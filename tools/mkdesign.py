"""rewrites the generated part of DESIGN.md (per-property table) from rules/about.py, the evidence of the last run and tools' results"""
import json, os, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from rules.about import ABOUT
from rules.table import RULES, TECH, NA
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
seeds = {}
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    seeds.setdefault(m["property"], []).append(d)
mut = {}
sys.path.insert(0, os.path.join(V, "tools"))
import importlib
for f in sorted(os.listdir(os.path.join(V, "tools", "mutants"))):
    if f.endswith(".py"):
        src = open(os.path.join(V, "tools", "mutants", f)).read()
        for n, p in re.findall(r'^\s*\("([\w-]+)", "([C0-9,]*)"', src, re.M):
            for q in p.split(",") if p else ["equivalent"]:
                mut.setdefault(q, []).append(n)
out = []
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    if i not in RULES:
        out.append(f"Not applicable: {NA[i]}.\n")
        continue
    how, ass = ABOUT[i]
    out.append(how + "\n")
    e = os.path.join(V, "evidence", i + ".json")
    fs = []
    if os.path.exists(e):
        c = json.load(open(e))["coverage"]
        fs = [x.replace("pydsge.", "", 1) for x in c["functions_analysed"]]
        rules = list(dict.fromkeys(o["rule"] for o in c["obligations"]))
        out.append(f"* obligations ({c['obligations_total']}): " + "; ".join(rules[:14]) + ("; ..." if len(rules) > 14 else ""))
    if fs:
        out.append("* analysed: " + ", ".join(fs[:16]) + (f", and {len(fs) - 16} more" if len(fs) > 16 else ""))
    out.append("* assumes: " + ("; ".join(ass) if ass else "only the general assumptions"))
    if seeds.get(i):
        out.append("* planted bugs caught: " + ", ".join(seeds[i]))
    if mut.get(i):
        out.append(f"* small mutants caught: {len(mut[i])} (" + ", ".join(mut[i][:8]) + (", ..." if len(mut[i]) > 8 else "") + ")")
    out.append("")
d = os.path.join(V, "DESIGN.md")
s = open(d).read()
a, b = "<!-- generated: begin -->", "<!-- generated: end -->"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(out) + "\n" + s[s.index(b):]
s = re.sub(r"\d+ equivalent rewritings", f"{len(mut.get('equivalent', []))} equivalent rewritings", s)
s = re.sub(r"\d+ small bugs", f"{len({x for q, l in mut.items() if q != 'equivalent' for x in l})} small bugs", s)
open(d, "w").write(s)
