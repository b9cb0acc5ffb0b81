#!/opt/venv/bin/python
"""replay.py <replay file>: run the recorded counterexample against the real code in /repo; exit 1 if it still fails"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import env


def main():
    r = json.load(open(sys.argv[1]))
    env.TIER = r.get("tier", env.TIER)
    env.boot()
    import importlib
    from symx import harness
    mod = importlib.import_module("checks." + r["property"].lower())
    inst = [i for i in mod.instances() if i.name == r["instance"]][0]
    if hasattr(inst, "execute"):
        res = inst.execute(env.SEED)
        print(res["status"], res.get("note"))
        return 1 if res["status"] == "violation" else 0
    try:
        obj = inst.setup()
        mods = inst.mods(obj) if inst.mods else harness._modules_of(obj)
        for m in mods:
            m.double()
        h = harness.numeric(inst, obj, harness.snapshot(mods), r["values"], r.get("seed") or env.SEED)
    except Exception as e:
        print("raised %s: %s" % (type(e).__name__, e))
        return 1
    w = harness.worst(h)
    print("claims: %d" % len(h.claims))
    print("violated: %s  %.9g vs %.9g" % (w[0], w[2], w[3]) if w else "all claims hold at this point")
    return 1 if w else 0


if __name__ == "__main__":
    sys.exit(main())
