#!/usr/bin/env python3
"""writes DESIGN.md from tools/design_*.{md,json}, properties.jsonl, MANIFEST.json and seeded/"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda p: open(os.path.join(V, p)).read()
props = {d["id"]: d for d in map(json.loads, R("properties.jsonl").splitlines()) if d}
notes, detail, M = json.loads(R("tools/notes.json")), json.loads(R("tools/design_props.json")), json.loads(R("MANIFEST.json"))
out = [R("tools/design_head.md"), "## 5. Property by property\n"]
for p in sorted(props):
    out.append(f"### {p} {props[p]['title']}\n")
    if p in notes:
        out.append(detail[p]["how"] + "\n")
        out.append("*Bounds, and what is left to the bounded phase:* " + detail[p]["bounds"] + "\n")
        out.append("*Level note:* " + notes[p]["note"] + "\n")
        out.append("*Why tests cannot settle it:* " + props[p]["why_tests_cant"] + "\n")
    else:
        out.append("**Not applicable.** " + [x["reason"] for x in M["not_applicable"] if x["property"] == p][0] + "\n")
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.loads(R("tools/caught.json"))
for d in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m, n = json.load(open(d)), os.path.basename(os.path.dirname(d))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {caught.get(n, '?')} |")
out.append(R("tools/design_tail.md").replace("@SEEDED@", "\n".join(rows)))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
