"""Check runner:  python -m symx.run P01 [--tier quick|thorough] [--only X]"""
import argparse
from concurrent.futures import ThreadPoolExecutor
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS"):
    os.environ.setdefault(k, "1")
os.environ.setdefault("MPLBACKEND", "agg")
sys.dont_write_bytecode = True


def _worker(inst, budget, conn):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    from symx import harness
    try:
        devnull = open(os.devnull, "w")
        if not os.environ.get("VERIF_DEBUG"):
            sys.stdout = devnull
            sys.stderr = devnull
        import warnings
        import logging
        warnings.simplefilter("ignore")
        logging.disable(logging.CRITICAL)
        r = harness.explore(inst, time.time() + budget)
    except BaseException as e:
        import traceback
        r = {
            "name": inst.name,
            "fatal": "%s: %s" % (type(e).__name__, e),
            "trace": traceback.format_exc()[-2000:]
        }
    conn.send(r)
    conn.close()


def run_all(insts, budget, jobs):
    """Runs every instance in its own forked process."""
    ctx = mp.get_context("fork")
    pend = list(insts)
    running = []
    out = {}
    while pend or running:
        while pend and len(running) < jobs:
            i = pend.pop(0)
            a, b = ctx.Pipe(False)
            bud = i.opts.get("budget", budget)
            p = ctx.Process(target=_worker, args=(i, bud, b))
            p.start()
            b.close()
            running.append((i, p, a, time.time(), bud))
        time.sleep(0.02)
        for t in list(running):
            i, p, a, t0, bud = t
            done = False
            if a.poll():
                try:
                    out[i.name] = a.recv()
                except EOFError:
                    out[i.name] = {"name": i.name, "fatal": "worker died"}
                done = True
            elif not p.is_alive():
                out[i.name] = {"name": i.name, "fatal": "worker died"}
                done = True
            elif time.time() - t0 > bud * 1.5 + 60:
                p.kill()
                out[i.name] = {"name": i.name, "fatal": "timeout"}
                done = True
            if done:
                out[i.name]["wall_s"] = round(time.time() - t0, 2)
                p.join(5)
                if p.is_alive():
                    p.kill()
                running.remove(t)
    return out


def concrete_batch(prop, jobs):
    """Runs [(instance, inputs)] concretely on the plain code, in a fresh
    interpreter.  Returns a list of outcome dicts."""
    if not jobs:
        return []
    d = os.path.join(HERE, "out")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "batch_%s_%d.json" % (prop, os.getpid()))
    with open(path, "w") as f:
        json.dump({"property": prop, "jobs": jobs}, f)
    try:
        p = subprocess.run(
            [sys.executable, "-m", "symx.replay", path],
            cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            timeout=600)
        txt = p.stdout.decode()
        res = {}
        for line in txt.splitlines():
            if line.startswith("OUTCOME "):
                r = json.loads(line[8:])
                res[r["index"]] = r
        out = []
        for i in range(len(jobs)):
            out.append(
                res.get(i, {
                    "index": i,
                    "outcome": "crash",
                    "detail": p.stderr.decode()[-800:]
                }))
        return out
    except subprocess.TimeoutExpired:
        return [{"index": i, "outcome": "crash", "detail": "timeout"}
                for i in range(len(jobs))]
    finally:
        os.remove(path)


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f).get("findings", [])
    return []


def is_known(known, prop, inst, label):
    for k in known:
        if k["property"] == prop and k["instance"] == inst and k[
                "label"] == label:
            return k
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = args.prop

    from symx import loader
    loader.install()
    mod = importlib.import_module("checks." + prop.lower())
    insts = [i for i in mod.instances(args.tier)
             if args.tier == "thorough" or i.tier == "quick"]
    if args.only:
        insts = [i for i in insts if args.only in i.name]
    names = [i.name for i in insts]
    assert len(set(names)) == len(names), "duplicate instance names"
    pre_err = None
    stdout = sys.stdout
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for m in mod.PRELOAD:
                importlib.import_module(m)
    except Exception as e:
        pre_err = "%s: %s" % (type(e).__name__, e)

    budget = 150 if args.tier == "quick" else 900
    order = sorted(insts, key=lambda i: -i.opts.get("weight", 1))
    results = run_all(order, budget, args.jobs)

    # ---- replay on the plain code
    jobs = []
    meta = []
    for i in insts:
        r = results[i.name]
        for kind in ("candidates", "unsupported", "unknown"):
            for c in r.get(kind, []):
                if c.get("inputs") is not None:
                    jobs.append({"instance": i.name, "inputs": c["inputs"]})
                    meta.append((kind, i, c))
        for w in r.get("witnesses", []):
            jobs.append({"instance": i.name, "inputs": w})
            meta.append(("witness", i, {"label": None}))
        if "fatal" in r or not (r.get("witnesses") or r.get("candidates") or
                                r.get("unsupported")):
            jobs.append({"instance": i.name, "inputs": {}})
            meta.append(("fatal", i, {"error": r.get("fatal", "no path")}))
    outs = []
    if jobs:
        # split over processes
        n = max(1, min(args.jobs, (len(jobs) + 3) // 4))

        chunks = [list(range(k, len(jobs), n)) for k in range(n)]
        outs = [None] * len(jobs)
        os.environ["VERIF_TIER"] = args.tier

        def do(ch):
            rs = concrete_batch(prop + "_%d" % ch[0], [jobs[k] for k in ch])
            return ch, rs

        with ThreadPoolExecutor(n) as ex:
            for ch, rs in ex.map(do, chunks):
                for k, r in zip(ch, rs):
                    outs[k] = r

    known = load_known()
    violations = []
    known_hit = {}
    inconclusive = []
    validated = 0
    for (kind, inst, c), o, j in zip(meta, outs, jobs):
        oc = o["outcome"]
        if oc in ("fail", "error"):
            label = o.get("label") or "exception"
            k = is_known(known, prop, inst.name, label)
            if k:
                known_hit[(inst.name, label)] = k
                continue
            violations.append({
                "instance": inst.name,
                "found_by": kind,
                "label": label,
                "detail": o.get("detail", ""),
                "inputs": j["inputs"],
            })
        else:
            if kind == "witness":
                if oc == "pass":
                    validated += 1
            else:
                inconclusive.append({
                    "instance": inst.name,
                    "kind": kind,
                    "what": c.get("label") or c.get("error"),
                    "trace": c.get("trace", ""),
                    "replay": oc,
                    "replay_detail": o.get("detail", ""),
                    "inputs": j["inputs"] if args.v else None,
                })
    for i in insts:
        r = results[i.name]
        if not r.get("complete", False) and not r.get(
                "candidates") and not r.get("unsupported"):
            inconclusive.append({
                "instance": i.name,
                "kind": "budget",
                "what": r.get("fatal", "not all paths explored")
            })

    # ---- report
    def tot(k):
        return sum(r.get("stats", {}).get(k, 0) for r in results.values())

    funcs = sorted(set(f for r in results.values()
                       for f in r.get("functions", [])))
    cov = {
        "instances": len(insts),
        "instance_names": names,
        "bounds": mod.BOUNDS,
        "paths_explored": sum(r.get("paths", 0) for r in results.values()),
        "paths_infeasible": sum(
            r.get("aborted", 0) for r in results.values()),
        "forks": tot("forks"),
        "claims": tot("claims"),
        "equalities": tot("equalities"),
        "queries": tot("queries") + tot("branch_queries"),
        "claim_queries": tot("queries"),
        "branch_queries": tot("branch_queries"),
        "closed_by_normal_form": tot("closed_by_normal_form"),
        "normal_form_confirmed_by_solver":
            tot("normal_form_confirmed_by_solver"),
        "closed_by_clearing_denominators":
            tot("closed_by_clearing_denominators"),
        "closed_within_tolerance": tot("closed_within_tolerance"),
        "solver_s": round(tot("solver_s"), 3),
        "functions_encoded": funcs,
        "reachability_witnesses_replayed": validated,
        "inconclusive": len(inconclusive),
        "inconclusive_items": inconclusive[:40],
        "known_findings": [
            "%s/%s" % k for k in sorted(known_hit)
        ],
        "per_instance_wall_s": {
            i.name: results[i.name].get("wall_s") for i in insts
        },
        "explanation":
            "Bounded symbolic execution of the real sources with z3; every "
            "claim holds for all values of the symbolic inputs within the "
            "stated bounds on every feasible path.",
    }
    ev = {
        "property": prop,
        "tier": args.tier,
        "seed": seed,
        "level": "other",
        "coverage": cov,
        "wall_s": round(time.time() - t0, 2),
        "assumptions": list(mod.ASSUMPTIONS) + COMMON_ASSUMPTIONS,
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not args.only:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d instances, %d paths, %d claims, %d queries, solver %.1fs,"
          " %d witnesses replayed, %d inconclusive, wall %.1fs" %
          (prop, args.tier, len(insts), cov["paths_explored"], cov["claims"],
           cov["queries"], cov["solver_s"], validated, len(inconclusive),
           ev["wall_s"]))
    if args.v:
        for n in names:
            r = results[n]
            print("  ", n, "paths", r.get("paths"), "aborted",
                  r.get("aborted"), "wall", r.get("wall_s"),
                  {k: (round(v, 2) if isinstance(v, float) else v)
                   for k, v in r.get("stats", {}).items()},
                  r.get("fatal", ""), r.get("trace", ""))
    for x in inconclusive:
        print("INCONCLUSIVE", json.dumps(x)[:3000] if args.v else
              "%s %s %s" % (x["instance"], x["kind"], x["what"]))
    for (inst, label), k in sorted(known_hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if violations:
        d = os.path.join(HERE, "out")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "violation_%s.json" % prop)
        with open(p, "w") as f:
            json.dump({
                "property": prop,
                "jobs": [{"instance": v["instance"], "inputs": v["inputs"]}
                         for v in violations],
                "violations": violations
            }, f, indent=1)
        seen = set()
        for v in violations:
            key = (v["instance"], v["label"])
            if key in seen:
                continue
            seen.add(key)
            print("  %s [%s] %s: %s" % (v["instance"], v["found_by"],
                                        v["label"], v["detail"][:300]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if not funcs and not pre_err is None:
        print("ERROR", pre_err)
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    "floating point numbers are modelled as exact reals (complex numbers as "
    "pairs of reals); rounding, overflow, NaN and infinities are outside the "
    "claim",
    "division by zero is excluded (denominators are assumed non-zero)",
    "numpy/scipy array and sparse primitives follow their documented "
    "semantics (symx.symnp / symx.symsparse model them); the model is "
    "validated by replaying solver-generated witnesses on the plain code",
    "equalities that only fail by less than 1e-5 absolute within the input "
    "box count as equal",
]

if __name__ == "__main__":
    sys.exit(main())
