#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, props.py, design_text.py and the records."""
import json, os, glob, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []
def prop(id, title, statement, over, text, why, files, mech, level="", technique="", note="", observe=None):
    P.append((id, title, text, why, mech, note))
G = D = M = ""
exec(open(R + "/tools/props.py").read())
exec(open(R + "/tools/design_text.py").read())
seeds = {}
caught = json.load(open(R + "/tools/caught.json")) if os.path.exists(R + "/tools/caught.json") else {}
for d in sorted(glob.glob(R + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    seeds.setdefault(m["property"], []).append((os.path.basename(d), m))
kf = json.load(open(R + "/known_findings.json"))
na = {n["property"]: n["reason"] for n in NA}
o = [open(R + "/tools/design_head.md").read().rstrip() + "\n\n## The properties\n"]
for id, title, text, why, mech, note in P:
    o.append(f"### {id} {title}\n")
    if id in na:
        o.append("Not applicable: " + na[id] + "\n")
        continue
    orc, scope = T[id]
    o.append(f"* **Quantifier**: {text}.\n* **Enumerated**: {note}\n* **Oracle**: {orc}")
    if scope:
        o.append(f"* **Scope**: {scope}")
    o.append(f"* **Beyond the tests**: {why}")
    o.append("* **Anchors**: " + "; ".join(f"{n} (`{w}`)" for n, w in mech))
    nf = sum(f"property={id} " in f for f in kf["fixed"])
    o.append(f"* **Found**: {nf} repaired, {sum(f['property'] == id for f in kf['findings'])} recorded. **Planted**: " +
             (", ".join(s for s, _ in seeds.get(id, [])) or "none") + ".\n")
o.append("## Cost\n\nQuick tiers take 5 to 110 s each on 8 cores (compilation included), all of them about\n35 minutes; thorough tiers take up to 15 minutes each.\n")
o.append("## Findings\n\nRecorded, not repaired (`known_findings.json`):\n")
for f in kf["findings"]:
    o.append(f"* {f['property']} `{f['id']}`: {f['what']}")
o.append("\nRepaired by `fix:` commits in /repo, one defect each:\n")
for f in kf["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f)
    o.append(f"* {m[1]} {m[2]}: {m[3]}")
o.append("\n## Planted bugs\n\nAll pass the repository's tests. 'Caught' by the quick tier of the check of their property unless noted.\n\n| id | property | needs | breaks | caught |\n|-|-|-|-|-|")
for p in sorted(seeds):
    for s, m in seeds[p]:
        o.append(f"| {s} | {p} | {m['needs']} | {m['what_it_breaks']} | {caught.get(s, 'yes')} |")
open(R + "/DESIGN.md", "w").write("\n".join(o) + "\n")
