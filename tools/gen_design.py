#!/usr/bin/env python3
"""Fill the generated parts of DESIGN.md (fixes, planted bugs) from known_findings.json, seeded/ and tools/seed_results.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/design.in.md").read()
fx = "\n".join("* " + f["what"] for f in json.load(open(V + "/known_findings.json")) if f["status"] == "fixed")
res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
rows = ["| plant | property | needs | caught by |", "|---|---|---|---|"]
sd = V + "/seeded"
for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(f"{sd}/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs'].replace('|', '/')} | {res.get(i, '?')} |")
open(V + "/DESIGN.md", "w").write(t.replace("@@FIXES@@", fx).replace("@@SEEDS@@", "\n".join(rows)))
