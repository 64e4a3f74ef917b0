#!/opt/venv/bin/python
"""check.py Cxx [--tier quick|thorough]   decide one property (see DESIGN.md).

exit 0: no violation among the obligations explored (undecided ones are printed as
        INCONCLUSIVE and listed in the evidence); exit 1: VIOLATION line printed.
"""
import argparse
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("DSPS_REPO", "/repo")


def env():
    e = dict(os.environ)
    e.update(JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", HOME="/root",
             PYTHONPATH=f"{REPO}:{HERE}", XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    e.pop("DSPS_DRN", None)
    return e


class Stop:
    """in the quick tier the other harnesses get a little more time once one reports a violation"""
    at = None
    known = {}
    grace = 30

    @classmethod
    def seen(cls, r):
        new = [v for v in r.get("violations", []) if (v.get("ident") or f"{r['harness']}:{v['goal']}") not in cls.known]
        if new and cls.at is None and cls.grace is not None:
            cls.at = time.time() + cls.grace


def worker(prop, name, tier, seed, wall, outdir):
    out = os.path.join(outdir, f"{name}.json")
    t = time.time()
    if Stop.at and t > Stop.at:
        return dict(harness=name, errors=["not run: another harness reports a violation"], obligations=0, discharged=0,
                    violations=[], inconclusive=[], functions=[])
    errf = os.path.join(outdir, f"{name}.err")
    err, last = "", 0
    try:
        with open(errf, "w") as ef:
            p = subprocess.Popen([PY, os.path.join(HERE, "worker.py"), prop, name, tier, str(seed), out],
                                 env=env(), cwd=outdir, stdout=subprocess.DEVNULL, stderr=ef)
            while True:
                try:
                    p.wait(1)
                    break
                except subprocess.TimeoutExpired:
                    pass
                now = time.time()
                if now - t > wall or (Stop.at and now > Stop.at):
                    p.kill()
                    p.wait()
                    err = f"wall limit of {wall:.0f} s reached" if now - t > wall else "ended: another harness reports a violation"
                    break
                try:
                    m = os.path.getmtime(out)
                    if m != last:
                        last = m
                        with open(out) as f:
                            Stop.seen(json.load(f))
                except Exception:
                    pass
        if not err:
            with open(errf) as f:
                err = f.read()[-1500:]
    except Exception as e:
        err = f"{type(e).__name__}: {e}"
    try:
        with open(out) as f:
            r = json.load(f)
    except Exception:
        r = dict(harness=name, errors=["no result: " + err], obligations=0, discharged=0,
                 violations=[], inconclusive=[], functions=[])
    if r.get("partial"):
        r["errors"] = r.get("errors", []) + ["stopped: " + err[-300:]]
    Stop.seen(r)
    r["wall_s"] = round(time.time() - t, 2)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    Stop.known = known = load_known(a.prop)
    if a.tier == "thorough":
        Stop.grace = None
    limit = 780 if a.tier == "thorough" else 400
    with tempfile.TemporaryDirectory() as outdir:
        p = subprocess.run([PY, os.path.join(HERE, "worker.py"), a.prop, "--list", a.tier, str(seed), "-"],
                           env=env(), cwd=outdir, stdout=subprocess.PIPE, text=True, stderr=subprocess.PIPE)
        if p.returncode:
            # the package under test cannot even be imported / set up
            meta = dict(title="", names=[], error=p.stderr[-3000:])
        else:
            meta = json.loads(p.stdout.splitlines()[-1])
        names = [n for n in meta["names"] if not a.only or a.only == n]
        res = []
        if names:
            with cf.ThreadPoolExecutor(8) as ex:
                futs = [ex.submit(worker, a.prop, n, a.tier, seed, max(30, limit - (time.time() - t0)), outdir)
                        for n in names]
                res = [f.result() for f in futs]
    viol, inc, errs = [], [], []
    if meta.get("error"):
        errs.append(("setup", meta["error"]))
    rdir = os.path.join(HERE, "replays")
    for r in res:
        for v in r.get("violations", []):
            ident = v.get("ident") or f"{r['harness']}:{v['goal']}"
            if ident in known:
                print(f"KNOWN-FINDING: property={a.prop} {ident}: {known[ident]}")
                continue
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{a.prop}-{r['harness']}-{v['goal'].replace(' ', '_').replace('/', '_')}.json")
            with open(path, "w") as f:
                json.dump(dict(property=a.prop, harness=r["harness"], tier=a.tier, **v), f, indent=1)
            viol.append((r["harness"], v, path))
        for i in r.get("inconclusive", []):
            inc.append((r["harness"], i))
        for e in r.get("errors", []):
            errs.append((r["harness"], e))
    ob = sum(r.get("obligations", 0) for r in res)
    di = sum(r.get("discharged", 0) for r in res)
    funcs = sorted({f for r in res for f in r.get("functions", [])})
    for h, v, path in viol:
        print(f"  {h}: {v['what']}")
        print(f"VIOLATION property={a.prop} replay={path}")
    for h, i in inc[:20]:
        print(f"INCONCLUSIVE {h} {i}")
    for h, e in errs[:20]:
        print(f"NOT-DECIDED {h}: {str(e).strip().splitlines()[-1][:300] if str(e).strip() else e}")
    wall = round(time.time() - t0, 2)
    print(f"{a.prop} {a.tier}: {di}/{ob} obligations discharged in {len(res)} harnesses, "
          f"{sum(r.get('queries', 0) for r in res)} goal queries, "
          f"{sum(r.get('lemma_queries', 0) + r.get('side_queries', 0) for r in res)} side queries, "
          f"solver {sum(r.get('solver_s', 0) for r in res):.1f} s, wall {wall} s")
    ev = dict(
        property=a.prop, tier=a.tier, seed=seed, level="other",
        coverage=dict(
            explanation="Symbolic execution of the real functions (jaxpr or Python bytecode of /repo's current "
                        "tree, re-extracted on this run) with symbolic inputs; every obligation is a goal over "
                        "all inputs within the stated bounds, decided by an SMT solver (or already by the "
                        "canonical form of the encoding); counterexamples are replayed on the real code.",
            obligations=ob, discharged=di,
            discharged_by_canonical_form=sum(r.get("by_normal_form", 0) for r in res),
            inconclusive=[[h] + list(i) for h, i in inc][:40], not_decided=[[h, str(e)[-300:]] for h, e in errs][:20],
            goal_queries=sum(r.get("queries", 0) for r in res),
            side_queries=sum(r.get("side_queries", 0) for r in res),
            lemma_queries=sum(r.get("lemma_queries", 0) for r in res),
            solver_seconds=round(sum(r.get("solver_s", 0) for r in res), 2),
            translation_checks=sum(r.get("translation_checks", 0) for r in res),
            functions_encoded=funcs[:150],
            samples=[{k: r.get(k) for k in ("harness", "note", "inputs", "outside", "obligations", "discharged",
                                            "queries", "primitives", "paths", "wall_s", "abstracted_primitives") if r.get(k)}
                     | ({"reachability_witness": _short(r["witness"])} if r.get("witness") else {})
                     for r in res][:60],
        ),
        assumptions=meta.get("assumptions", []),
        wall_s=wall, violations=len(viol))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    txt = json.dumps(ev, indent=1)
    if len(txt) > 60000:
        for s in ev["coverage"]["samples"]:
            s.pop("reachability_witness", None)
        txt = json.dumps(ev, indent=1)[:]
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        f.write(txt)
    if a.v:
        for r in res:
            print(json.dumps({k: v for k, v in r.items() if k not in ("witness",)}, indent=1)[:6000])
    return 1 if viol else 0


def _short(w):
    s = json.dumps(w)
    return w if len(s) < 600 else s[:600] + "..."


def load_known(prop):
    d = {}
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=" + prop + " "):
                    rest = line.split(" ", 2)[2]
                    ident, _, what = rest.partition(" :: ")
                    d[ident] = what
    except OSError:
        pass
    return d


if __name__ == "__main__":
    sys.exit(main())
