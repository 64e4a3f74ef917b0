#!/opt/venv/bin/python
"""replay.py FILE : run a reported counterexample on the real code; exit 1 if it still fails"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DSPS_REPO", "/repo")
os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.path[:0] = [REPO, HERE]


def main():
    r = json.load(open(sys.argv[1]))
    m = importlib.import_module(f"props.{r['property']}")
    h = {h.name: h for h in m.harnesses(r.get("tier", "quick"))}[r["harness"]]
    if hasattr(h, "replay"):
        bad = h.replay(r)
        print("still fails:" if bad else "holds", bad)
        return 1 if bad else 0
    import numpy as np
    from symx.harness import Run
    run = Run(h, r["property"])
    vals = {k: np.array(v, dtype=float) for k, v in r["inputs"].items()}
    try:
        ok, bad, o = run.concrete(vals)
    except Exception as e:
        print("raises", type(e).__name__, e)
        return 1
    print("assumptions hold:", ok)
    for n, i in bad:
        print("fails:", n, i)
    for (k, n), v in o.items():
        if k in ("obs", "free"):
            print(n, v)
    return 1 if ok and bad else 0


if __name__ == "__main__":
    sys.exit(main())
