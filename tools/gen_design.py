#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (planted bugs, costs of the last runs in evidence/)."""
import json, glob, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
s = open(V + "/DESIGN.md").read()
def put(tag, lines):
    global s
    s = re.sub(rf"<!-- {tag} -->.*?<!-- /{tag} -->", lambda _: f"<!-- {tag} -->\n" + "\n".join(lines) + f"\n<!-- /{tag} -->", s, flags=re.S)
rows = ["| planted bug | property | needs |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); rows.append(f"| {f.split('/')[-2]} | {m['property']} | {m['needs']} |")
put("seeds", rows)
rows = ["| property | tier | cases | states | transitions | executions compared | seconds |", "|---|---|---|---|---|---|---|"]
costs = {}
c = V + "/tools/costs.json"
if os.path.exists(c): costs = json.load(open(c))
for f in sorted(glob.glob(V + "/evidence/C*.json")):
    e = json.load(open(f)); k = e["coverage"]
    costs[e["property"] + " " + e["tier"]] = [k["evaluations"], k["states"], k["transitions"], k["traces_validated_against_impl"], round(e["wall_s"], 1)]
json.dump(costs, open(c, "w"), indent=0, sort_keys=True)
for k in sorted(costs):
    i, t = k.split(); rows.append(f"| {i} | {t} | " + " | ".join(f"{x:,}" for x in costs[k]) + " |")
put("cost", rows)
open(V + "/DESIGN.md", "w").write(s)
