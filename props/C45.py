"""Photometry of a composite population from the photometry of its SSPs"""
from .phot import *
import dsps.sed.stellar_sed as M
from dsps.sed import calc_rest_sed_sfh_table_lognormal_mdf, calc_rest_sed_sfh_table_met_table
from dsps.photometry.photometry_kernels import calc_obs_mag, calc_rest_mag

CUT = lambda: _both(cut_calls((M, "calc_ssp_weights_sfh_table_lognormal_mdf", "ssp"), (M, "calc_ssp_weights_sfh_table_met_table", "ssp"))(), CUT_D())


@contextlib.contextmanager
def _both(a, b):
    with a, b:
        yield


ZOBS = 0.32


def lin(m):
    return 10 ** (-0.4 * m)


def body(kind, nm, na, nw, nf, nt, what, u=1.0):
    t, lga, Z = jnp.array(T10), jnp.array(np.linspace(-3, 1.1, na)), jnp.array(np.linspace(-3.5, -1.5, nm))
    ws = jnp.array(WS[:nw])
    wf = jnp.array(np.linspace(2500, 3000, nf)[:, None] + 900 * np.arange(nt)[None])
    sed = calc_rest_sed_sfh_table_lognormal_mdf if kind == "lognormal" else calc_rest_sed_sfh_table_met_table

    def fn(sfr, z, sig, flux, tr, *c):
        flux = u * flux if u != 1 else flux
        r = sed(t, sfr, z, sig, Z, lga, flux, 12.0)
        mass = 10 ** jnp.interp(jnp.log10(12.0), jnp.log10(t), jnp.log10(ref_mass_table(t, sfr)))
        w = r.weights.reshape(nm, na)
        c = (ZOBS, *c) if what == "obs" else c
        if what == "rest":
            tab = PP.precompute_ssp_restmags(ws, flux, wf, tr)
            one = [calc_rest_mag(ws, r.rest_sed, wf[k], tr[k]) for k in range(nf)]
        elif what == "kcorrect":
            tab = PP.precompute_ssp_restmags_z_kcorrect(ws, flux, wf, tr, c[0])
            one = [PP.precompute_ssp_restmags_z_kcorrect(ws, r.rest_sed[None, None], wf[k][None], tr[k][None], c[0])[0, 0, 0] for k in range(nf)]
        else:
            tab = PP.precompute_ssp_obsmags_on_z_table(ws, flux, wf, tr, jnp.array(c[0])[None], *c[1:])[0]
            one = [calc_obs_mag(ws, r.rest_sed, wf[k], tr[k], *c) for k in range(nf)]
        g = {}
        for k in range(nf):
            off = PK.distance_modulus_to_z(*c) - 2.5 * jnp.log10(1 + c[0]) if what == "obs" else 0.0
            s = sum(w[i, j] * lin(tab[i, j, k] - off) for i in range(nm) for j in range(na))
            g[f"filter{k}"] = close(lin(one[k] - off), mass * s, 1e-8, 0.0)
        return out(goal=g)
    return fn


def harnesses(tier):
    hs = []
    C = dict( Om0=Box(0.1, 0.6), w0=Box(-1.5, -0.5), wa=Box(-0.5, 0.5), h=Box(0.5, 1))
    for kind in ("lognormal", "table"):
        for what in ("rest", "kcorrect", "obs"):
            nm, na, nw, nf, nt = (3, 4, 5, 2, 3)
            ex = {} if what == "rest" else dict(zk=Box(0.3, 0.35)) if what == "kcorrect" else C
            hs.append(H(f"{kind}_{what}", dict(sfr=Box(0, 1e5, (10,)), z=Box(-6, 1, () if kind == "lognormal" else (10,)), sig=Box(0.01, 2), flux=Box(0.01, 10, (nm, na, nw)),
                                              tr=Box(0.01, 1, (nf, nt)), **ex), body(kind, nm, na, nw, nf, nt, what), patches=CUT, undef_ok=True))
    hs.append(H("lognormal_faint", dict(sfr=Box(0, 1e5, (10,)), z=Box(-6, 1), sig=Box(0.01, 2), flux=Box(0.01, 10, (3, 3, 4)), tr=Box(0.01, 1, (1, 3)), **C),
                body("lognormal", 3, 3, 4, 1, 3, "obs", 2.0**-50), patches=CUT, undef_ok=True, note="SSP spectra of realistic size, about 1e-15 Lsun/Hz"))
    return hs
