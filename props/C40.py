"""emission-line subsets"""
from collections import namedtuple

import numpy as np

from symx.pe import PH, outcome


def subset(nline, nmet, nage, kmax):
    names = ["Ha", "Hb", "OIII", "NII", "SII"][:nline]

    def body(E):
        import dsps.data_loaders.load_emline_info as m
        from dsps.data_loaders.defaults import SSPData
        wave = E.reals("wave", nline, 900, 1e6)
        lum = E.reals("lum", (nmet, nage, nline), 0, 1e40)
        met, age = E.reals("lgmet", nmet, -5, 0), E.reals("lgage", nage, -5, 2)
        sw, flux = E.reals("ssp_wave", 2, 90, 1e7), E.reals("flux", (nmet, nage, 2), 0, 1)
        EW = namedtuple("EmLineWave", names)
        ssp = SSPData(met, age, sw, flux, EW(*wave), lum)
        k = 1 + E.choice("k", kmax)
        left, sel = list(range(nline)), []
        for q in range(k):
            sel.append(left.pop(E.choice(f"pick{q}", nline) if q == 0 else _pick(E, f"pick{q}", len(left))))
        with E.module(m):
            kind, r = outcome(m.get_subset_emline_data, ssp, [names[i] for i in sel])
        if kind == "raise":
            return {"a valid selection is accepted": False}
        g = {"requested names in order": tuple(r.ssp_emline_wave._fields) == tuple(names[i] for i in sel),
             "other fields untouched": bool(r.ssp_lgmet is met and r.ssp_lg_age_gyr is age and r.ssp_wave is sw and r.ssp_flux is flux)
             or E.eq(np.concatenate([np.ravel(q) for q in (r.ssp_lgmet, r.ssp_lg_age_gyr, r.ssp_wave, r.ssp_flux)]),
                     np.concatenate([np.ravel(q) for q in (met, age, sw, flux)])),
             "input untouched": tuple(ssp.ssp_emline_wave._fields) == tuple(names) and np.shape(ssp.ssp_emline_luminosity) == (nmet, nage, nline)}
        w = list(r.ssp_emline_wave)
        for j, i in enumerate(sel[:len(w)]):
            g[f"wavelength of selected line {j}"] = E.eq(w[j], wave[i])
        L = r.ssp_emline_luminosity
        g["luminosity shape"] = np.shape(L) == (nmet, nage, k)
        if g["luminosity shape"]:
            for j, i in enumerate(sel):
                g[f"luminosities of selected line {j}"] = E.eq(L[:, :, j], lum[:, :, i])
        return g
    return body


def _pick(E, name, n):
    return E.choice(name, n)


def missing(E):
    """a line that is not in the data is refused"""
    import dsps.data_loaders.load_emline_info as m
    from dsps.data_loaders.defaults import SSPData
    names = ["Ha", "Hb", "OIII"]
    EW = namedtuple("EmLineWave", names)
    ssp = SSPData(None, None, None, None, EW(*E.reals("wave", 3, 900, 1e6)), E.reals("lum", (2, 3, 3), 0, 1))
    at = E.choice("position of the unknown name", 3)
    req = ["Hb", "Ha"]
    req.insert(at, "nope")
    with E.module(m):
        kind, r = outcome(m.get_subset_emline_data, ssp, req)
    return {"unknown names are refused": kind == "raise"}


def harnesses(tier):
    q = tier == "quick"
    b = "all ordered selections of up to {} of {} lines, symbolic wavelengths and {}x{} luminosity tables"
    hs = [PH("subset", subset(4, 2, 3, 4), bounds=b.format(4, 4, 2, 3)),
          PH("missing", missing, bounds="unknown name at every position")]
    if not q:
        hs.append(PH("subset5", subset(5, 3, 2, 5), bounds=b.format(5, 5, 3, 2), wall=600))
    return hs
