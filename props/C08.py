"""The composite SED is stellar mass times the weighted sum of SSP spectra"""
from functools import partial
from .common import *
import dsps.sed.stellar_sed as M
from dsps.sed import (calc_rest_sed_sfh_table_lognormal_mdf, calc_rest_sed_sfh_table_met_table,
                      calc_ssp_weights_sfh_table_lognormal_mdf, calc_ssp_weights_sfh_table_met_table)

CUT = cut_calls((M, "calc_ssp_weights_sfh_table_lognormal_mdf", "ssp"), (M, "calc_ssp_weights_sfh_table_met_table", "ssp"))


def body(t, lga, grid, kind, sfr, z, sig, flux, tobs, u=1.0):
    """u: scale of the spectra (realistic SSP spectra are of order 1e-15 Lsun/Hz/Msun)"""
    sed, wf = ((calc_rest_sed_sfh_table_lognormal_mdf, calc_ssp_weights_sfh_table_lognormal_mdf) if kind == "lognormal"
               else (calc_rest_sed_sfh_table_met_table, calc_ssp_weights_sfh_table_met_table))
    r = sed(t, sfr, z, sig, grid, lga, u * flux if u != 1 else flux, tobs)
    q = jax.tree_util.tree_map(lambda x: cut(x, "ssp"), wf(t, sfr, z, sig, grid, lga, tobs))
    w = q.weights
    m = 10 ** jnp.interp(jnp.log10(tobs), jnp.log10(t), jnp.log10(ref_mass_table(t, sfr)))
    nz, na, nw = flux.shape
    s = sum(w[i, j] * flux[i, j] for i in range(nz) for j in range(na))
    g = dict(shape=jnp.array(r.rest_sed.shape == (nw,) and r.weights.size == nz * na),
             weights=near(r.weights.reshape(nz, na), w, 1e-12), age=near(r.age_weights, q.age_weights, 1e-12),
             lgmet=near(r.lgmet_weights, q.lgmet_weights, 1e-12),
             sed=near(r.rest_sed, m * s if u == 1 else m * (u * s), 1e-9 * u * m))
    return out(goal=g, obs=dict(sed=r.rest_sed) if kind == "lognormal" else None, free=dict(sed=r.rest_sed))


def fixed(t, lga, grid, kind, tobs=None, u=1.0):
    t, lga, grid = jnp.array(t), jnp.array(lga), jnp.array(grid)
    return lambda sfr, z, sig, flux, tobs=tobs: body(t, lga, grid, kind, sfr, z, sig, flux, tobs, u)


def harnesses(tier):
    t5, l4, Z = 0.5 + 3.5 * np.arange(5), -3 + 1.5 * np.arange(4), [-3.0, -2.0, -1.5]
    hs = []
    for kind in ("lognormal", "table"):
        # definedness of the joint weights of a metallicity history is C06
        H_ = partial(H, undef_ok=kind == "table")
        zb = Box(-6, 1, () if kind == "lognormal" else (5,))
        zb10 = Box(-6, 1, () if kind == "lognormal" else (10,))
        hs += [H_(f"{kind}5", dict(sfr=Box(0, 1e5, (5,)), z=zb, sig=Box(0.01, 2), flux=Box(0, 10, (3, 4, 2)), tobs=Box(1, 13.8)), fixed(t5, l4, Z, kind), patches=CUT),
               H_(f"{kind}_early", dict(sfr=Box(0, 1e5, (10,)), z=zb10, sig=Box(0.01, 2), flux=Box(0, 10, (3, 5, 1))), fixed(T10, LGA5, Z, kind, 1.7), patches=CUT),
               H_(f"{kind}_faint", dict(sfr=Box(0, 1e5, (10,)), z=zb10, sig=Box(0.01, 2), flux=Box(0, 10, (3, 5, 1))), fixed(T10, LGA5, Z, kind, 1.7, 2.0**-50), patches=CUT, note="spectra of realistic size, about 1e-15"),
               H_(f"{kind}_real", dict(sfr=Box(0, 1e5, (10,)), z=zb10, sig=Box(0.01, 2), flux=Box(0, 10, (4, 7, 3))),
                 fixed(T10, LGA20[::3], LGMET12[::3], kind, 13.0), patches=CUT)]
    return hs
