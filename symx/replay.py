"""Replays solver inputs on the plain (unpatched) code.

  python -m symx.replay FILE.json
"""
import contextlib
import importlib
import io
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "agg")


def main(path):
    from symx import harness
    with open(path) as f:
        data = json.load(f)
    prop = data["property"].split("_")[0]
    mod = importlib.import_module("checks." + prop.lower())
    insts = {i.name: i for i in mod.instances("thorough")}
    insts.update({i.name: i for i in mod.instances("quick")})
    import logging
    logging.disable(logging.CRITICAL)
    bad = 0
    for k, job in enumerate(data["jobs"]):
        inst = insts[job["instance"]]
        h = harness.ConcreteH(job["inputs"], inst.opts.get("tol", 1e-5))
        r = {"index": k, "instance": inst.name}
        buf = io.StringIO()
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(buf):
                warnings.simplefilter("ignore")
                inst.fn(h, **inst.kwargs)
            r["outcome"] = "pass" if h.checked else "nochecks"
        except harness.Skip:
            r["outcome"] = "skip"
        except harness.Fail as e:
            r.update(outcome="fail", label=e.label, detail=e.detail)
            bad += 1
        except Exception as e:
            r.update(outcome="error", label="exception",
                     detail="%s: %s | %s" % (type(e).__name__, e,
                                             traceback.format_exc()[-700:]))
            bad += 1
        print("OUTCOME " + json.dumps(r), flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
