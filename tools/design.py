#!/usr/bin/env python3
"""Writes DESIGN.md from props.py, design_notes.py, known_findings.txt, seeded/ and the evidence of the last quick runs."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOT_CLAIMED
from design_notes import INTRO, NOTES, OUTRO

known = open(f"{root}/known_findings.txt").read().splitlines()
out = [INTRO.strip(), "", "## Properties", ""]
for p in PROPS:
    i = p["id"]
    n = NOTES.get(i, {})
    out += [f"### {i}: {p['title']}", "", p["statement"], ""]
    out.append(f"* **Method**: {p['technique']} (crate `mc/{p['crate']}`).")
    if n.get("oracle"):
        out.append(f"* **Oracle**: {n['oracle']}")
    ev = f"{root}/evidence/{i}.json"
    suites = n.get("suites")
    if os.path.exists(ev):
        d = json.load(open(ev))
        if d["violations"] == 0 and d["tier"] == "quick":
            c = d["coverage"]
            out.append(f"* **Enumerated** (quick tier: {c['cases']:,} cases, {c['transitions']:,} transitions, about {max(1, round(d['wall_s']))} s):")
            for s in c["suites"]:
                out.append(f"  * *{s['suite']}*: {s['rule']} ({s['cases']:,}).")
    out.append(f"* **Bounds and reach**: {p['level_note']} {p['why_tests_cant']}")
    if n.get("open"):
        out.append(f"* **Left open**: {n['open']}")
    if n.get("corrected"):
        out.append(f"* **Corrected on the way** (false alarms): {n['corrected']}")
    f = [l for l in known if f"property={i} " in l]
    if f:
        out.append("* **Defects found in the real code**:")
        for l in f:
            m = re.match(r"fixed: property=\S+ (\S+) (.*)", l)
            if m:
                out.append(f"  * {m.group(2)} (repaired, {m.group(1)})")
            else:
                m = re.match(r"KNOWN-FINDING property=\S+ key=<<<(.*)>>> (.*)", l)
                out.append(f"  * {m.group(2)} (known finding `{m.group(1)}`)")
    out.append("")
if NOT_CLAIMED:
    out += ["## Not claimed", ""]
    for p in NOT_CLAIMED:
        out += [f"* **{p['id']}** {p['title']}: {p['reason']}"]
    out.append("")
out += ["## Planted bugs", "", "Each was written from a property's statement and the code, confirmed in a scratch worktree (compiles, passes the", "stable tests, its demonstration fails with it and passes without), and then tried against the checks.", "", "| bug | property | what it breaks | needs | caught by |", "| --- | --- | --- | --- | --- |"]
for d in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    cb = m.get("caught_by", m["property"])
    out.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {cb} |")
out += ["", OUTRO.strip(), ""]
open(f"{root}/DESIGN.md", "w").write("\n".join(out))
