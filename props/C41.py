"""SSP libraries: loading, and the export script's round trip"""
import os
import runpy
import sys
from collections import namedtuple

import numpy as np

from symx.pe import PH, outcome, REPO

ASSUMPTIONS = ["h5py.File is replaced by an in-memory stand-in with symbolic contents during the symbolic run and is the real one when a counterexample is replayed",
               "the population-synthesis code behind the export script is replaced by symbolic templates"]
LSUN = 3.828e33   # erg/s (IAU 2015 nominal solar luminosity)
NAMES = ["Ha_6563", "OIII_5007", "Ly_alpha"]


def content(E, nmet, nage, nwave):
    d = dict(ssp_lgmet=E.reals("lgmet", nmet, -6, 0), ssp_lg_age_gyr=E.reals("lgage", nage, -5, 2),
             ssp_wave=E.reals("wave", nwave, 90, 1e8), ssp_flux=E.reals("flux", (nmet, nage, nwave), 0, 1e3))
    return d


def lines(E, nmet, nage, k):
    order = [NAMES, NAMES[::-1], NAMES[1:], NAMES[:1]][k]
    return order, E.reals("line_wave", len(order), 900, 1e7), E.reals("line_lum", (nmet, nage, len(order)), 0, 1e3)


def tables(E, r, d, pre=""):
    return {f"{pre}{k} in its own field": E.eq(getattr(r, k), v) for k, v in d.items()}


def load(nmet, nage, nwave):
    def body(E):
        import dsps.data_loaders.load_ssp_data as m
        d = content(E, nmet, nage, nwave)
        has = E.boolean("lines stored")
        names, lw, ll = None, None, None
        with E.scratch() as tmp, E.h5(), E.module(m):
            store = dict(d)
            if has:
                names, lw, ll = lines(E, nmet, nage, E.choice("line list", 4))
                store.update(ssp_emline_name=np.array(names, dtype="S"), ssp_emline_wave=lw, ssp_emline_luminosity=ll)
            fn = os.path.join(tmp, "ssp.h5")
            E.write_h5(fn, store)
            kind, r = outcome(m.load_ssp_templates, fn=fn)
        if kind == "raise":
            return {"a well-formed file is accepted": False}
        g = tables(E, r, d)
        if names is None:
            g["no line fields without lines"] = r.ssp_emline_wave is None and r.ssp_emline_luminosity is None
            return g
        g["line names in stored order"] = r.ssp_emline_wave is not None and tuple(r.ssp_emline_wave._fields) == tuple(names)
        if g["line names in stored order"]:
            g["line wavelengths"] = E.eq(np.array(list(r.ssp_emline_wave), dtype=object if E.sym else float), lw)
            g["line luminosities in erg/s"] = lumeq(E, r.ssp_emline_luminosity, ll)
        return g
    return body


def lumeq(E, got, lsun):
    """got = lsun * Lsun to a part in a thousand (the nominal value of the solar luminosity has changed over time)"""
    if np.shape(got) != np.shape(lsun):
        return False
    x = np.ravel(np.asarray(got))
    y = np.ravel(np.asarray(lsun))
    lo, hi = LSUN * (1 - 1e-2), LSUN * (1 + 1e-2)
    return E.all([E.le(b * lo, a) for a, b in zip(x, y)] + [E.le(a, b * hi) for a, b in zip(x, y)]
                 + [E.eq(a * y[0], b * x[0]) for a, b in zip(x, y)])


def where(E):
    """which file is read for every combination of arguments"""
    import dsps.data_loaders.load_ssp_data as m
    from dsps.data_loaders.defaults import DEFAULT_SSP_BNAME
    fn_given, drn_given, env, bn_given = (E.boolean(k) for k in ("fn given", "drn given", "env set", "bn given"))
    exists = E.boolean("file exists")
    old = os.environ.get("DSPS_DRN")
    with E.scratch() as tmp, E.h5(), E.module(m):
        a = {}
        A, B = os.path.join(tmp, "a"), os.path.join(tmp, "b")
        os.makedirs(A)
        os.makedirs(B)
        bn = DEFAULT_SSP_BNAME
        if bn_given:
            bn = a["bn"] = "other.h5"
        lone = os.path.join(tmp, "lone.h5")
        paths = [lone] + [os.path.join(q, b) for q in (A, B) for b in (DEFAULT_SSP_BNAME, "other.h5")]
        if fn_given:
            a["fn"] = lone
        if drn_given:
            a["drn"] = A
        want = lone if fn_given else os.path.join(A, bn) if drn_given else os.path.join(B, bn) if env else None
        data = {}
        for i, p in enumerate(paths):
            if p != want or exists:
                data[p] = dict(ssp_lgmet=E.reals(f"{i}lgmet", 1, -6, 0), ssp_lg_age_gyr=E.reals(f"{i}lgage", 2, -5, 2),
                               ssp_wave=E.reals(f"{i}wave", 2, 90, 1e8), ssp_flux=E.reals(f"{i}flux", (1, 2, 2), 0, 1))
                E.write_h5(p, data[p])
        try:
            os.environ.pop("DSPS_DRN", None)
            if env:
                os.environ["DSPS_DRN"] = B
            kind, r = outcome(m.load_ssp_templates, **a)
        finally:
            os.environ.pop("DSPS_DRN", None)
            if old is not None:
                os.environ["DSPS_DRN"] = old
    if want is None:
        return {"no location is a ValueError": kind == "raise" and isinstance(r, ValueError)}
    if want not in data:
        return {"a missing file is refused": kind == "raise"}
    if kind == "raise":
        return {"the requested file is read": False}
    return tables(E, r, data[want], "requested file's ")


def roundtrip(nmet, nage, nwave):
    def body(E):
        import dsps.data_loaders as dl
        import dsps.data_loaders.load_ssp_data as m
        from dsps.data_loaders.defaults import SSPData
        d = content(E, nmet, nage, nwave)
        names, lw, ll = None, None, None
        if E.boolean("with lines"):
            names, lw, ll = lines(E, nmet, nage, E.choice("line list", 4))
            ssp = SSPData(*d.values(), namedtuple("EmLineWave", names)(*lw), ll)
        else:
            ssp = SSPData(*d.values())
        opts, argv = {}, []
        for o in ("gas_logz", "gas_logu"):
            if E.boolean(o + " given"):
                opts[o] = -0.5 if o == "gas_logz" else -2.0
                argv += ["--" + o, str(opts[o])]
        calls = []

        def fake(*a, **k):
            calls.append((a, k))
            return ssp
        old, oldargv = dl.retrieve_ssp_data_from_fsps, sys.argv
        with E.scratch() as tmp, E.h5(), E.module(m):
            fn = os.path.join(tmp, "out.h5")
            script = os.path.join(REPO, "scripts/write_fsps_data_to_disk.py")
            from symx.pe import NP
            realnp = sys.modules["numpy"]
            try:
                dl.retrieve_ssp_data_from_fsps = fake
                sys.argv = [script, fn] + argv
                if E.sym:
                    sys.modules["numpy"] = NP()
                kind, r = outcome(runpy.run_path, script, run_name="__main__")
            finally:
                sys.modules["numpy"] = realnp
                dl.retrieve_ssp_data_from_fsps, sys.argv = old, oldargv
            if kind == "raise":
                return {"the library is written": False}
            kind, r = outcome(m.load_ssp_templates, fn=fn)
        if kind == "raise":
            return {"the written library loads": False}
        g = {"templates retrieved once": len(calls) == 1, "options passed on": bool(calls) and calls[0] == ((), opts)}
        g.update(tables(E, r, d))
        if names is None:
            g["no line fields without lines"] = r.ssp_emline_wave is None and r.ssp_emline_luminosity is None
            return g
        g["line names in order"] = r.ssp_emline_wave is not None and tuple(r.ssp_emline_wave._fields) == tuple(names)
        if g["line names in order"]:
            g["line wavelengths"] = E.eq(np.array(list(r.ssp_emline_wave), dtype=object if E.sym else float), lw)
            g["line luminosities"] = lumeq(E, r.ssp_emline_luminosity, ll)
        return g
    return body


def harnesses(tier):
    q = tier == "quick"
    b = "symbolic tables of {} metallicities, {} ages, {} wavelengths; no lines or one of four line lists"
    hs = [PH("load", load(2, 3, 4), bounds=b.format(2, 3, 4)),
          PH("where", where, bounds="fn, drn, bn, environment variable given or not; file present or not; symbolic contents"),
          PH("roundtrip", roundtrip(2, 3, 2), bounds=b.format(2, 3, 2) + "; gas options given or not")]
    if not q:
        hs += [PH("load2", load(3, 2, 5), bounds=b.format(3, 2, 5)), PH("load3", load(1, 1, 1), bounds=b.format(1, 1, 1)),
               PH("roundtrip2", roundtrip(3, 4, 5), bounds=b.format(3, 4, 5))]
    return hs
