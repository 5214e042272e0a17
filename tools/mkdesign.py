"""Writes DESIGN.md from tools/design.md, known_findings.json and seeded/*/meta.json: python3 tools/mkdesign.py"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(os.path.join(V, "known_findings.json")))
t = open(os.path.join(V, "tools", "design.md")).read()
find = "\n".join(f"* {f['property']} `{f['mech']}`: {f['what']}" for f in k["findings"] if f["status"] == "open")
n = {}
for f in k["fixed"]:
    i = f.split("property=")[1].split()[0]
    n[i] = n.get(i, 0) + 1
find += f"\n\nRepaired: {len(k['fixed'])} entries (" + ", ".join(f"{i} {c}" for i, c in sorted(n.items())) + ")."
rows = ["| change | property | needs | breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
t = t.replace("@FINDINGS@", find).replace("@SEEDED@", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
