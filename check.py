#!/opt/venv/bin/python
"""check.py <property id>: decide one property on /repo's current tree"""
import importlib
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import env
env.T0 = time.time()


def load(prop):
    env.boot()
    return importlib.import_module("checks." + prop.lower())


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        env.TIER = sys.argv[2]
    try:
        mod = load(prop)
        insts = mod.instances()
    except Exception as e:
        # the library cannot even be imported / the configurations not built on this tree
        import traceback
        traceback.print_exc()
        rd = os.path.join(env.VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        print("ERROR property=%s: %s" % (prop, e))
        sys.exit(2)
    from symx import runner
    sys.exit(runner.main(prop, insts, assumptions=mod.ASSUMPTIONS, explanation=mod.EXPLANATION))


if __name__ == "__main__":
    main()
