"""Writes DESIGN.md: head + one section per property + tables."""
import importlib, json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from meta.props import PROPS
import ast


def consts(pid):
    """BOUNDS and ASSUMPTIONS of the harness module, without importing it."""
    src = open(os.path.join(HERE, "checks", pid.lower() + ".py")).read()
    tree = ast.parse(src)
    out = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS",
                                                             "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


head = open(os.path.join(HERE, "meta/design_head.md")).read()
tail = open(os.path.join(HERE, "meta/design_tail.md")).read()
catch = json.load(open(os.path.join(HERE, "meta/catch.json")))
out = [head]
for p in PROPS:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    if "na" in p:
        out.append("*Not applicable:* " + p["na"] + "\n")
        continue
    c = consts(p["id"])
    out.append("*Decided by* `checks/%s.py`. %s\n" %
               (p["id"].lower(), p.get("how", "")))
    out.append("*Symbolic over / bounds:* " + c["BOUNDS"] + ".\n")
    if c.get("ASSUMPTIONS"):
        out.append("*Assumptions:* " + "; ".join(c["ASSUMPTIONS"]) + ".\n")
    out.append("*Beyond the tests:* " + p["why"] + ".\n")
    if "cost" in p:
        out.append("*Cost:* " + p["cost"] + ".\n")
out.append(tail)
out.append("## Planted bugs (`seeded/`) and the checks that catch them\n")
out.append("| bug | property | what it breaks | caught by quick check |\n"
           "|---|---|---|---|")
sd = os.path.join(HERE, "seeded")
for b in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, b, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (b, m["property"],
                                          m["what_it_breaks"],
                                          catch.get(b, "not run")))
kf = json.load(open(os.path.join(HERE, "known_findings.json")))
out.append("\n## Defects repaired in /repo (`fix:` commits)\n")
out += ["* " + x[len("fixed: "):] for x in kf["fixed"]]
out.append("\n## Known findings (not repaired)\n")
out += ["* property=%s instance=%s: %s" % (f["property"], f["instance"],
                                          f["what"]) for f in kf["findings"]]
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
