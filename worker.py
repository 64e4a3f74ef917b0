"""worker.py Cxx NAME|--list TIER SEED OUT : run one harness of one property"""
import importlib
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DSPS_REPO", "/repo")
sys.path[:0] = [REPO, HERE]
sys.setrecursionlimit(20000)


def main():
    prop, name, tier, seed, out = sys.argv[1:6]
    verbose = len(sys.argv) > 6
    import dsps  # noqa
    assert dsps.__file__.startswith(REPO + "/"), dsps.__file__
    m = importlib.import_module(f"props.{prop}")
    hs = {h.name: h for h in m.harnesses(tier)}
    if name == "--list":
        order = sorted(hs, key=lambda n: -getattr(hs[n], "cost", 1))
        print(json.dumps(dict(names=order, title=getattr(m, "__doc__", "") or "",
                              assumptions=getattr(m, "ASSUMPTIONS", []) + COMMON)))
        return
    h = hs[name]
    from symx.harness import Run
    if hasattr(h, "run_custom"):
        r = h.run_custom(prop, int(seed), tier, verbose)
    else:
        run = Run(h, prop, seed=int(seed), tier=tier, verbose=verbose)
        run.out = out

        def stop(*a):
            raise TimeoutError
        r = run.run()
    if out == "-":
        r.pop("witness", None)
        print(json.dumps(r, indent=1))
    else:
        with open(out + ".tmp", "w") as f:
            json.dump(r, f)
        os.replace(out + ".tmp", out)


COMMON = [
    "reals: floating-point rounding is outside the claim; goals carry explicit tolerances and every "
    "counterexample is replayed in float64 on the real code before it is reported",
    "JAX's tracer (make_jaxpr) and the primitive semantics in symx/jx.py, validated on every run by evaluating "
    "the encoding against the real code on concrete inputs; z3 4.x / cvc5",
]

if __name__ == "__main__":
    try:
        main()
    except Exception:
        traceback.print_exc()
        sys.exit(3)
