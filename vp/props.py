#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from checks/*/prop.json and not_applicable.json (run by hand, output committed)."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    props, checks, na = [], [], []
    for p in sorted(glob.glob(os.path.join(V, "checks", "*", "prop.json"))):
        d = json.load(open(p, encoding="utf-8"))
        m = d.pop("manifest")
        props.append(d)
        i = d["id"]
        checks.append({"property": i, "quick_cmd": f"python3 vp/check.py {i} quick",
                       "thorough_cmd": f"python3 vp/check.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": m.get("technique", "Verus contracts on the real functions, extracted from /repo on every run "
                                          "(deductive verification); failed obligations replayed on the compiled code"),
                       "level": m.get("level", "proof"), "level_note": m["level_note"],
                       **({"theorems": m["theorems"]} if "theorems" in m else {})})
    p = os.path.join(V, "checks", "not_applicable.json")
    if os.path.exists(p):
        for d in json.load(open(p, encoding="utf-8")):
            na.append({"property": d["id"], "reason": d.pop("reason")})
            props.append(d)
    props.sort(key=lambda d: d["id"])
    for d in props:
        assert len(d["title"]) <= 80, d["title"]
    with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf-8") as f:
        for d in props:
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    json.dump({"version": 1, "setup_cmd": "python3 vp/setup.py", "checks": checks, "not_applicable": na},
              open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8"), indent=1, ensure_ascii=False)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
    try:
        import jsonschema
        jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for d in props:
            jsonschema.validate(d, s)
        print("valid:", len(props), "properties,", len(checks), "checks")
    except ImportError:
        print("no jsonschema (use python3-vt)")


main()
