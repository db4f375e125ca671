#!/usr/bin/env python3
"""Writes DESIGN.md: design/head.md, one section per property (design_notes.py
and the bounds recorded by the last quick run of each check), design/tail.md."""
import json, os
from design_notes import N
V = os.path.dirname(os.path.abspath(__file__))
KIND = {"model": "explicit-state model, every trace replayed on the real code",
        "direct": "exhaustive enumeration on the real code against an independent oracle",
        "metamorphic": "exhaustive enumeration of related executions of the real code",
        "fault": "exhaustive enumeration of fault points on the real code",
        "schedule": "exhaustive enumeration of schedules of the real code"}
out = [open(os.path.join(V, "design/head.md")).read().rstrip(), "", "## Properties", ""]
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    kind, how, why = N[i]
    out += [f"### {i} {p['title']}", "", f"*{KIND[kind]}.* {how}", "", f"Beyond tests: {why}.", ""]
    try:
        e = json.load(open(os.path.join(V, "evidence", i + ".json")))
    except FileNotFoundError:
        continue
    c = e["coverage"]
    out += [f"Quick bounds ({c['states']:,} states, {c['transitions']:,} transitions, {e['wall_s']:.0f} s):", ""]
    out += [f"- `{f['name']}`: {f['bounds']} ({f['cases']:,} cases)" for f in c["families"]]
    out += [""]
# What was missed when it was planted, and what was added.
MISSED = json.load(open(os.path.join(V, "design/missed.json")))
rows = ["| bug | property | needs | first missed, then added |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {MISSED.get(d, '')} |")
out += [open(os.path.join(V, "design/tail.md")).read().rstrip().replace("@SEEDS@", "\n".join(rows)), ""]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
