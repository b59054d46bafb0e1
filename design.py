#!/usr/bin/env python3
"""Rewrites DESIGN.md from design_head.md, properties, the rules of the checks and the planted bugs: python3 design.py"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H + "/sa")
import check  # noqa (imports the checks)
from reg import PROPS

man = json.load(open(H + "/MANIFEST.json"))
props = {}
for l in open(H + "/properties.jsonl"):
    d = json.loads(l)
    props[d["id"]] = d
extra = json.load(open(H + "/design_extra.json"))
out = [open(H + "/design_head.md").read().rstrip(), "", "## The properties", ""]
sec = {}
for m in sorted(os.listdir(H + "/seeded")):
    f = H + "/seeded/%s/meta.json" % m
    if os.path.exists(f):
        d = json.load(open(f))
        sec.setdefault(d["property"], []).append((m, d))
for c in man["checks"]:
    pid = c["property"] if "property" in c else c["property_id"]
    d = props[pid]
    out += ["### %s %s" % (pid, d["title"]), "", d["statement"], "", "- Rule: %s." % PROPS[pid][1],
            "- Quantified over: %s. Why not tests: %s" % (d["quantifier"]["text"], d["why_tests_cant"])]
    for k, v in extra.get(pid, {}).items():
        out.append("- %s: %s" % (k, v))
    if pid in sec:
        out.append("- Planted bugs, all caught by this check: " + "; ".join("`%s` (%s)" % (m, s["what_it_breaks"]) for m, s in sec[pid]) + ".")
    out.append("")
out += ["## Not applicable", "", "Static analysis of the family studied here cannot decide these; no check is registered for them.", ""]
for n in man["not_applicable"]:
    pid = n.get("property") or n.get("property_id") or n.get("id")
    out.append("- %s %s: %s" % (pid, props[pid]["title"], n["reason"]))
out.append("")
out.append(open(H + "/design_tail.md").read().rstrip())
open(H + "/DESIGN.md", "w").write("\n".join(out) + "\n")
