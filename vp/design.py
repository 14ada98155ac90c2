#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md from checks/*, evidence/* (the last runs) and seeded/*/meta.json."""
import glob
import importlib.util
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vp"))
MARK = "<!-- below: written by vp/design.py -->"


def load(p):
    sp = importlib.util.spec_from_file_location("m", p)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


out = [MARK, "", "## Per property", ""]
for d in sorted(glob.glob(os.path.join(V, "checks", "C*"))):
    if not os.path.exists(os.path.join(d, "prop.json")):
        continue
    p = json.load(open(os.path.join(d, "prop.json")))
    m = load(os.path.join(d, "check.py"))
    ev = os.path.join(V, "evidence", p["id"] + ".json")
    cov = json.load(open(ev))["coverage"] if os.path.exists(ev) else {}
    wall = json.load(open(ev)).get("wall_s") if os.path.exists(ev) else None
    out += [f"### {p['id']}: {p['title']}", "", p["statement"], ""]
    ext = {}
    for e in cov.get("extracted", []):
        if e["item"].startswith(("fn ", "impl ")) or " fn " in e["item"]:
            ext.setdefault(e["file"], []).append(e["item"].replace("fn ", ""))
    out.append(f"- **Decided by**: Verus, units {', '.join(n for n, _ in m.UNITS)}; {cov.get('obligations', '?')} obligations, {cov.get('solver_ms', '?')} ms of solver time, about {wall} s in all on the unchanged tree.")
    for f, items in sorted(ext.items()):
        out.append(f"  - `{f}`: {', '.join(sorted(set(items)))}")
    if p.get("how"):
        out.append(f"- **How**: {p['how']}")
    out.append(f"- **Level**: {p['manifest']['level_note']}")
    out.append(f"- **Beyond the tests**: {p['why_tests_cant']}")
    if getattr(m, "BOUNDED", ""):
        out.append(f"- **Bounded part** (never counted as proved): {m.BOUNDED}.")
    for name, lst in (("Trusted", m.TRUSTED), ("Assumed", m.ASSUMPTIONS)):
        if lst:
            out.append(f"- **{name}**:")
            out += [f"  - {x}" for x in lst]
    seeds = []
    for s in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        j = json.load(open(s))
        if j["property"] == p["id"]:
            seeds.append(f"`{os.path.basename(os.path.dirname(s))}` ({j['what_it_breaks']}): {j.get('caught', 'caught')}")
    if seeds:
        out.append("- **Planted bugs**:")
        out += [f"  - {x}" for x in seeds]
    out.append("")
na = os.path.join(V, "checks", "not_applicable.json")
if os.path.exists(na):
    out += ["## Not applicable", ""]
    for j in json.load(open(na)):
        out.append(f"- **{j['property']}**: {j['reason']}")
    out.append("")
f = os.path.join(V, "DESIGN.md")
t = open(f).read().split(MARK)[0].rstrip() + "\n\n"
open(f, "w").write(t + "\n".join(out))
