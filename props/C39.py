"""transmission-curve loading: values, refusals, file selection"""
import os

import numpy as np

from symx.pe import PH, outcome

ASSUMPTIONS = ["the file system is real (scratch directory); h5py.File is replaced by an in-memory stand-in with symbolic contents during the symbolic run and is the real one when a counterexample is replayed"]


def mods():
    import dsps.data_loaders.load_filter_data as m
    return m


def values(n):
    def body(E):
        m = mods()
        wave = E.increasing("wave", n, 0.1, 1e5)
        t = E.reals("t", n, -2, 3)
        with E.scratch() as d, E.h5(), E.module(m):
            fn = os.path.join(d, "f.h5")
            E.write_h5(fn, dict(wave=wave, transmission=t))
            kind, r = outcome(m.load_transmission_curve, fn=fn)
        lo, hi = t[0], t[0]
        good = True
        for x in t:
            good = good & ((x >= -0.01) & (x <= 1.01))
        if kind == "raise":
            return {"only unphysical curves are refused": ~good if E.sym else not good,
                    "refused with ValueError": isinstance(r, ValueError)}
        clipped = [0.0 if x < 0 else (1.0 if x > 1 else x) for x in t] if not E.sym else None
        g = {"unphysical curves are refused": good,
             "wavelengths unchanged": E.eq(r.wave, wave),
             "shape kept": np.shape(r.transmission) == (n,)}
        if np.shape(r.transmission) != (n,):
            return g
        from symx import pe
        z = pe.z3
        for i in range(n):
            a = r.transmission[i]
            if E.sym:
                x = pe.term(t[i])
                ref = z.If(x < 0, z.RealVal(0), z.If(x > 1, z.RealVal(1), x))
                g[f"clipped value {i}"] = pe.SBool(pe.term(a) == ref)
            else:
                g[f"clipped value {i}"] = bool(abs(a - clipped[i]) < 1e-12)
        return g
    return body


def selection(E):
    """which file is read, or refused, for every combination of arguments and directory contents"""
    m = mods()
    n = 3
    curves = {}
    has_fn, fn_exists = E.boolean("fn given"), E.boolean("fn exists")
    has_drn, has_env, env_dir = E.boolean("drn given"), E.boolean("env set"), E.boolean("env/filters exists")
    names = ["lsst_r.h5", "lsst_r2.h5", "lsst_i.h5"]
    pat = ["lsst_r*", "lsst_i*", "lsst_r.h5", "sdss_*"][E.choice("pattern", 4)]
    present = [E.boolean(f"{x} present") for x in names]
    old = os.environ.get("DSPS_DRN")
    with E.scratch() as d, E.h5(), E.module(m):
        def put(path):
            k = f"c{len(curves)}"
            curves[path] = (E.array(np.linspace(100., 900., n)), E.reals(k, n, 0, 1))
            E.write_h5(path, dict(wave=curves[path][0], transmission=curves[path][1]))
        a = dict(bn_pat=pat)
        lone = os.path.join(d, "lone.h5")
        if has_fn:
            a["fn"] = lone
            if fn_exists:
                put(lone)
        dd, ee = os.path.join(d, "dd"), os.path.join(d, "ee")
        os.makedirs(dd)
        os.makedirs(ee)
        if env_dir:
            os.makedirs(os.path.join(ee, "filters"))
        if has_drn:
            a["drn"] = dd
        here = []
        for x, p in zip(names, present):
            if p:
                here.append(x)
                put(os.path.join(dd, x))
        # the environment directory holds the mirror image
        there = [x for x in names if x not in here]
        if env_dir:
            for x in there:
                put(os.path.join(ee, "filters", x))
        try:
            os.environ.pop("DSPS_DRN", None)
            if has_env:
                os.environ["DSPS_DRN"] = ee
            kind, r = outcome(m.load_transmission_curve, **a)
        finally:
            os.environ.pop("DSPS_DRN", None)
            if old is not None:
                os.environ["DSPS_DRN"] = old
        import fnmatch
        want, err = None, Exception
        if "fn" in a:
            want = lone if lone in curves else None
        elif "drn" in a:
            hits = [x for x in here if fnmatch.fnmatch(x, pat)]
            want = os.path.join(dd, hits[0]) if len(hits) == 1 else None
        elif not has_env:
            err = ValueError
        elif env_dir:
            hits = [x for x in there if fnmatch.fnmatch(x, pat)]
            want = os.path.join(ee, "filters", hits[0]) if len(hits) == 1 else None
        if want is None:
            return {"refused": kind == "raise", "a missing setting is a ValueError": kind == "raise" and isinstance(r, err)}
        if kind == "raise":
            return {"accepted": False}
        return {"accepted": True, "the requested file's wavelengths": E.eq(r.wave, curves[want][0]),
                "the requested file's transmission": E.eq(r.transmission, curves[want][1])}


def harnesses(tier):
    b = "transmissions in [-2,3], increasing wavelengths in [0.1,1e5], "
    hs = [PH(f"values{n}", values(n), bounds=b + f"{n} samples") for n in ((1, 3, 5) if tier == "quick" else (1, 2, 3, 5, 7, 9))]
    hs.append(PH("selection", selection, bounds="fn/drn/environment variable given or not, file and directory present or not, "
                 "three curve files present or not, four name patterns, symbolic contents", wall=300, max_paths=8000))
    return hs
