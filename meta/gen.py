"""Writes properties.jsonl and MANIFEST.json from meta/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from meta.props import PROPS
TECH = ("solver-based checking: bounded symbolic execution of the real spins "
        "sources (symx) with z3 deciding every path condition and claim; "
        "counterexamples replayed on the plain code")
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]
            }
        }
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "technique": TECH,
        "level": "other",
        "level_note": p["note"],
        "evidence_file": "evidence/%s.json" % p["id"],
    } for p in PROPS if "na" not in p],
    "not_applicable": [{"property": p["id"], "reason": p["na"]}
                       for p in PROPS if "na" in p],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
