#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/table.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from table import PROPERTIES, NOTES  # noqa: E402

props, checks, na = [], [], []
for p in PROPERTIES:
    assert len(p["title"]) <= 80, p["id"]
    props.append({k: p[k] for k in
                  ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        assert os.path.exists(os.path.join(root, "checks", p["id"] + ".cc")), p["id"]
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']} quick",
            "thorough_cmd": f"./check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["level_note"],
        })
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": NOTES,
    }, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in props:
        jsonschema.validate(p, s)
    jsonschema.validate(json.load(open(os.path.join(root, "MANIFEST.json"))),
                        json.load(open("/root/.vp/MANIFEST.schema.json")))
    for p in props:
        for fn in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + fn), fn
    print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
except ImportError:
    print("jsonschema not available; not validated")
