"""Runs the instances of one property in parallel, writes evidence and replay files, sets the exit status."""
import json
import multiprocessing as mp
import os
import sys
import time

from . import env

KNOWN = os.path.join(env.VERIF, "known_findings.json")


def load_known(prop):
    try:
        d = json.load(open(KNOWN))
    except FileNotFoundError:
        return []
    return [k for k in d.get("findings", []) if k["property"] == prop]


_INST = None


def _work(i):
    from . import harness
    inst = _INST[i]
    try:
        if hasattr(inst, "execute"):
            return i, inst.execute(env.SEED)
        return i, harness.run_instance(inst, env.SEED)
    except BaseException as e:                                  # noqa
        import traceback
        return i, {"name": inst.name, "status": "inconclusive", "note": "runner: %s %s" % (type(e).__name__, e),
                   "trace": traceback.format_exc()[-1500:], "wall": 0}


def main(prop, instances, level="other", assumptions=(), explanation="", procs=8, deadline=None):
    """instances: list of harness.Instance (or objects with .name and .execute(seed) -> result)"""
    global _INST
    t0 = time.time()
    only = os.environ.get("SYMX_ONLY")
    if only:
        instances = [i for i in instances if only in i.name]
    names = [i.name for i in instances]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
    _INST = instances
    deadline = deadline or (820 if env.TIER == "quick" else 6000)
    order = sorted(range(len(instances)), key=lambda i: -getattr(instances[i], "cost", 1.0))
    results = [None] * len(instances)
    ctx = mp.get_context("fork")
    tstart = env.T0 if hasattr(env, "T0") else t0
    if os.environ.get("SYMX_SERIAL"):
        for i in order:
            _, results[i] = _work(i)
    else:
        pool = ctx.Pool(min(procs, max(1, len(instances))), maxtasksperchild=12)
        it = pool.imap_unordered(_work, order)
        try:
            for _ in order:
                left = deadline - (time.time() - tstart)
                try:
                    i, r = it.next(timeout=max(left, 0.1))
                except mp.TimeoutError:
                    break
                except StopIteration:
                    break
                results[i] = r
                if os.environ.get("SYMX_VERBOSE") and (r["status"] != "held" or os.environ["SYMX_VERBOSE"] == "2"):
                    print("  [%6.1fs] %-12s %s %s" % (time.time() - t0, r["status"], r["name"], r.get("note", "")), r.get("wall"), flush=True)
        finally:
            pool.terminate()
    for i, r in enumerate(results):
        if r is None:
            results[i] = {"name": instances[i].name, "status": "inconclusive", "note": "no time left", "wall": 0}
    return finish(prop, results, level, assumptions, explanation, t0)


def finish(prop, results, level, assumptions, explanation, t0):
    known = load_known(prop)
    rdir = os.path.join(env.VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    viol = 0
    knownhit = []
    by = {}
    for r in results:
        by.setdefault(r["status"], []).append(r)
    for r in by.get("violation", []):
        k = next((k for k in known if k["instance"] == r["name"] and k.get("note_contains", "") in r.get("note", "")), None)
        if k:
            knownhit.append(k)
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            continue
        viol += 1
        path = os.path.join(rdir, "%s-%d.json" % (prop, viol))
        with open(path, "w") as f:
            json.dump({"property": prop, "instance": r["name"], "tier": env.TIER, "kind": r.get("kind"), "what": r.get("note"),
                       "values": r.get("values", {}), "trace": r.get("trace", ""), "seed": r.get("seed"),
                       "how": "VERIF_TIER=%s /opt/venv/bin/python /verif/tools/replay.py %s" % (env.TIER, path)}, f, indent=1, default=str)
        if viol <= 12:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  instance %s: %s" % (r["name"], r.get("note")))
    for r in by.get("inconclusive", [])[:20]:
        print("INCONCLUSIVE property=%s instance %s: %s" % (prop, r["name"], r.get("note")))
    fns = sorted({f for r in results for f in r.get("functions", [])})
    ops = {}
    agg = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "solver_s": 0.0, "terms": 0}
    tot = {"claims": 0, "entries": 0, "nontrivial": 0, "vars": 0, "atoms": 0, "paths": 0, "validated_points": 0}
    assume = set(assumptions)
    for r in results:
        for k, v in r.get("ops", {}).items():
            ops[k] = ops.get(k, 0) + v
        for k in agg:
            agg[k] += r.get("solver", {}).get(k, 0)
        for k in tot:
            tot[k] += r.get(k, 0) or 0
        assume |= set(r.get("assume", []))
    agg["solver_s"] = round(agg["solver_s"], 3)
    held = by.get("held", [])
    ev = {
        "property": prop, "tier": env.TIER, "seed": env.SEED, "level": level,
        "coverage": {
            "explanation": explanation,
            "instances": len(results), "held": len(held), "skipped_not_applicable": len(by.get("skip", [])),
            "violating": len(by.get("violation", [])), "inconclusive": [{"instance": r["name"], "why": r.get("note")} for r in by.get("inconclusive", [])],
            "known_findings_hit": [k["instance"] for k in knownhit],
            "claims": tot["claims"], "claimed_scalar_equalities": tot["entries"], "depending_on_symbolic_input": tot["nontrivial"],
            "symbolic_variables": tot["vars"], "atoms": tot["atoms"], "paths": tot["paths"],
            "solver": agg, "solver_name": "z3 " + env._z3().get_version_string(),
            "reachability_twins_sat": sum(1 for r in results if r.get("twin") == "sat"),
            "encoder_validation_points": tot["validated_points"],
            "functions_encoded": len(fns), "functions": fns[:400], "aten_ops_interpreted": ops,
            "samples": [{"instance": r["name"], "claims": r.get("claims"), "entries": r.get("entries"), "symbolic": r.get("nontrivial"),
                         "vars": r.get("vars"), "wall_s": r.get("wall")} for r in held[:400]],
        },
        "assumptions": sorted(assume), "wall_s": round(time.time() - t0, 2), "violations": viol,
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s [%s]: %d instances, %d held, %d skipped, %d inconclusive, %d violations, %d known; %d queries (%d unsat), solver %.2fs, wall %.1fs" % (
        prop, env.TIER, len(results), len(held), len(by.get("skip", [])), len(by.get("inconclusive", [])), viol, len(knownhit),
        agg["queries"], agg["unsat"], agg["solver_s"], time.time() - t0))
    if viol:
        return 1
    if results and not held and by.get("inconclusive"):
        return 2
    return 0
