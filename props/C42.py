"""retrieval of templates from the population-synthesis code"""
import os
import types

import numpy as np

from symx.pe import PH, outcome, REPO

ASSUMPTIONS = ["python-fsps is replaced by a stand-in StellarPopulation whose spectra and luminosities are symbolic and distinct for every metallicity index"]
CAT = os.path.join(REPO, "dsps/data/emlines_info.dat")


def retrieve(nmet, nage, nwave, nline):
    def body(E):
        import dsps.data_loaders.retrieve_fsps_data as m
        z = E.reals("z", nmet, 1e-5, 0.1)
        logage = E.reals("log_age", nage, 5, 10.2)
        wave = E.reals("wave", nwave, 90, 1e8)
        flux = E.reals("flux", (nmet, nage, nwave), 0, 1)
        has = E.boolean("synthesis code gives lines")
        neb = E.choice("add_neb_emission", 3)   # default, True, False
        lum = E.reals("lum", (nmet, nage, nline), 0, 1)
        ref = [line.strip().split(",")[0] for line in open(CAT)]
        lw = np.array([float(ref[i]) for i in (10, 3, 50, 120, 77)[:nline]])
        opts = {}
        if E.boolean("options given"):
            opts = dict(imf_type=2, gas_logu=-2.5)
        calls = []

        class StellarPopulation:
            def __init__(self, *a, **k):
                calls.append((a, dict(k)))
                self.k = dict(k)
                self.zlegend, self.log_age = z, logage
                if has:
                    self.emline_wavelengths = lw
                    if "zmet" in k:
                        self.emline_luminosity = lum[k["zmet"] - 1]
                    else:
                        self.emline_luminosity = lum[0]

            def get_spectrum(self, *a, **k):
                return wave, flux[self.k.get("zmet", 1) - 1]

        a = dict(opts)
        if neb:
            a["add_neb_emission"] = neb == 1
        with E.module(m, HAS_FSPS=True, fsps=types.SimpleNamespace(StellarPopulation=StellarPopulation), print=lambda *a, **k: None):
            kind, r = outcome(m.retrieve_ssp_data_from_fsps, **a)
        if kind == "raise":
            return {"retrieval succeeds": False}
        per = [c for c in calls if "zmet" in c[1]]
        g = {"every metallicity requested once, in order": [c[1]["zmet"] for c in per] == list(range(1, nmet + 1)),
             "caller's options reach every request": all(c[1].get(k) == v for c in calls for k, v in opts.items()),
             "nebular emission as requested": all(c[1].get("add_neb_emission") == (neb != 2) for c in per),
             "discrete metallicities": all(c[1].get("zcontinuous") == 0 for c in calls),
             "nothing else is requested": all(set(c[1]) <= set(opts) | {"zmet", "zcontinuous", "add_neb_emission"} and not c[0] for c in calls),
             "metallicities in log10": E.eq(r.ssp_lgmet, np.log10(z)),
             "ages in log10 Gyr": E.eq(r.ssp_lg_age_gyr, logage - 9.0),
             "wavelengths": E.eq(r.ssp_wave, wave),
             "flux axes": np.shape(r.ssp_flux) == (nmet, nage, nwave)}
        if g["flux axes"]:
            for i in range(nmet):
                g[f"spectra of metallicity {i}"] = E.eq(r.ssp_flux[i], flux[i])
        if not has:
            g["no lines"] = r.ssp_emline_wave is None and r.ssp_emline_luminosity is None
            return g
        g["lines present"] = r.ssp_emline_wave is not None and np.shape(r.ssp_emline_luminosity) == (nmet, nage, nline)
        if g["lines present"]:
            g["line wavelengths in order"] = E.eq(np.array(list(r.ssp_emline_wave), float), lw)
            for i in range(nmet):
                g[f"lines of metallicity {i}"] = E.eq(r.ssp_emline_luminosity[i], lum[i])
        return g
    return body


def unavailable(E):
    """without the synthesis code the function refuses to run"""
    import dsps.data_loaders.retrieve_fsps_data as m
    with E.module(m, HAS_FSPS=False):
        kind, r = outcome(m.retrieve_ssp_data_from_fsps)
    return {"refused": kind == "raise"}


def harnesses(tier):
    b = "{} metallicities, {} ages, {} wavelengths, {} lines; lines provided or not; nebular emission default/on/off; options given or not"
    hs = [PH("retrieve", retrieve(3, 2, 4, 3), bounds=b.format(3, 2, 4, 3)),
          PH("one", retrieve(1, 3, 2, 1), bounds=b.format(1, 3, 2, 1)), PH("unavailable", unavailable)]
    if tier != "quick":
        hs += [PH("retrieve2", retrieve(5, 3, 2, 5), bounds=b.format(5, 3, 2, 5)), PH("retrieve3", retrieve(2, 4, 3, 4), bounds=b.format(2, 4, 3, 4))]
    return hs
