#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (tools/DESIGN.in.md -> DESIGN.md)."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(H + "/tools/DESIGN.in.md").read()
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
man = {c["property"]: c for c in json.load(open(H + "/MANIFEST.json"))["checks"]}
pj = json.load(open(H + "/pdsmon/props.json"))
out = []
for p in props:
    out.append(f"### {p['id']} {p['title']}\n")
    if p["id"] in man:
        out.append(f"- Workload: {pj[p['id']]['rule']}.\n- Oracle and limits: {man[p['id']]['level_note']}.\n"
                   f"- Observed at: {'; '.join(p['anchors']['observe_at'])}.\n- Beyond the tests: {p['why_tests_cant']}\n")
    else:
        out.append("- Not claimed (see MANIFEST.json).\n")
seeds = ["| id | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[-2]
    seeds.append(f"| {i} | {m['property']} | {m['needs']} | {m.get('caught', m['property'])} |")
open(H + "/DESIGN.md", "w").write(src.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(seeds)))
