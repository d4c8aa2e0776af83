"""Assemble DESIGN.md: head (kept in tools/design_head.md) + per-property text + findings + seeded table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "tools")
kf = json.load(open(os.path.join(V, "known_findings.json")))
out = [open(T + "/design_head.md").read(), open(T + "/design_props.md").read(), open(T + "/design_tail.md").read()]
out.append("\n## Known findings (recorded, not repaired)\n")
for k in kf["known"]:
    out.append(f"* {k['property']} `{k['key']}`: {k['what']}. Input: `{k['input']}`.\n")
out.append("\n## Genuine defects repaired in /repo\n")
for l in kf["fixed"]:
    out.append("* " + l[len("fixed: "):] + "\n")
out.append("\n## Planted bugs and the checks that catch them\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n")
cb = json.load(open(T + "/caught.json")) if os.path.exists(T + "/caught.json") else {}
sd = os.path.join(V, "seeded")
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    out.append(f"| {d} | {m['property']} | {m['needs']} | {cb.get(d, '?')} |\n")
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
