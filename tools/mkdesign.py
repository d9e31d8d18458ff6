#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*.md, properties.jsonl, checks.json, known_findings.json, seeded/ and tools/caught.json."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = lambda *p: os.path.join(H, *p)
props = [json.loads(l) for l in open(J("properties.jsonl"))]
checks = json.load(open(J("checks.json")))
na = json.load(open(J("tools/na.json")))
known = json.load(open(J("known_findings.json")))
caught = json.load(open(J("tools/caught.json"))) if os.path.exists(J("tools/caught.json")) else {}
notes = json.load(open(J("tools/design/notes.json")))
o = [open(J("tools/design/head.md")).read(), "\n## The properties\n"]
for p in props:
    i = p["id"]
    o.append(f"### {i} {p['title']}\n")
    if i in na:
        o.append(f"Not applicable: {na[i]}\n"); continue
    c = checks[i]
    if notes.get(i): o.append(notes[i] + "\n")
    o.append("Bounds (quick, thorough in brackets):")
    o += [f"* {b}" for b in c["bounds"]]
    if c["assumptions"]:
        o.append("\nStand-ins and assumptions: " + "; ".join(c["assumptions"]) + ".")
    o.append("\n| entry | quick | thorough | schedules | races |\n|---|---|---|---|---|")
    for e in c["entries"]:
        f = lambda d: " ".join(f"{k}={v}" for k, v in d.items()) or "-"
        o.append(f"| {e['entry']}{' ('+e['note']+')' if e.get('note') else ''} | {f(e['quick'])} | {f(e['thorough'])} | {'yes' if e.get('schedule') else ''} | {'yes' if e.get('races') else ''} |")
    o.append("")
o.append("## Repairs in /repo\n\n| property | commit | what failed |\n|---|---|---|")
for k in known:
    if "fixed" in k:
        s = k["fixed"].split(); o.append(f"| {k['property']} | {s[2]} | {k['what']} |")
o.append("\n## Planted bugs\n\nEach was written from the property and the code, confirmed with its demonstration in a scratch copy, and then given to the checks.\n\n| bug | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(glob.glob(J("seeded/*/meta.json"))):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    o.append(f"| {n} | {m['property']} | {m['needs']} | {caught.get(n, '')} |")
o.append("\n### Misses that led to stronger checks\n")
o.append(open(J("tools/design/misses.md")).read())
o.append(open(J("tools/design/tail.md")).read())
open(J("DESIGN.md"), "w").write("\n".join(o))
