"""Metallicity histories are read at the birth time of each population"""
from .common import *
import dsps.sed.metallicity_weights as MZ
from dsps.sed import calc_lgmet_weights_from_lgmet_table, calc_lgmet_weights_from_lognormal_mdf

CUT = cut_calls((MZ, "_calc_lgmet_at_ssp_lgage_table", "zbirth"))


def birth_met(t, z, lga, tobs):
    tb = tobs - 10**lga
    tb = jnp.where(tb < 1e-3, 1e-3, tb)
    return jnp.interp(jnp.log10(tb), jnp.log10(t), z)


def body(t, lga, grid, z, sig, tobs):
    na, nz = len(lga), len(grid)
    w = calc_lgmet_weights_from_lgmet_table(t, z, sig, grid, lga, tobs)
    zb = cut(MZ._calc_lgmet_at_ssp_lgage_table(t, z, lga, tobs), "zbirth") if hasattr(MZ, "_calc_lgmet_at_ssp_lgage_table") else None
    ref = birth_met(t, z, lga, tobs)
    g = dict(shape=jnp.array(w.shape == (nz, na)))
    if zb is not None:
        g["zbirth"] = near(zb, ref, 1e-9)
    else:
        zb = ref
    cols = jnp.stack([calc_lgmet_weights_from_lognormal_mdf(zb[a], sig, grid) for a in range(na)], axis=1)
    g["column"] = near(w * na, cols, 1e-9)
    return out(goal=g, obs=dict(w=w))


def table(t, lga, grid, tobs=None):
    t, lga, grid = jnp.array(t), jnp.array(lga), jnp.array(grid)
    return lambda z, sig, tobs=tobs: body(t, lga, grid, z, sig, tobs)


def const(t, lga, grid, tobs=None):
    t, lga, grid = jnp.array(t), jnp.array(lga), jnp.array(grid)

    def fn(z0, sig, tobs=tobs):
        w = calc_lgmet_weights_from_lgmet_table(t, z0 + 0.0 * t, sig, grid, lga, tobs)
        ref = calc_lgmet_weights_from_lognormal_mdf(z0, sig, grid)
        return out(goal=dict(const=near(w * len(lga), ref[:, None], 1e-9)), obs=dict(w=w))
    return fn


def harnesses(tier):
    Z = [-3.0, -2.0, -1.5]
    z5, S = dict(z=Box(-6, 1, (5,))), dict(sig=Box(0.01, 2))
    t5 = 0.5 + 3.5 * np.arange(5)
    hs = [H("const", dict(z0=Box(-7, 7), **S), const(T10, LGA20[::3], LGMET12[::3], 13.0)),
          H("const_early", dict(z0=Box(-7, 7), sig=Box(0.01, 2), tobs=Box(0.5, 13.8)), const(t5, LGA5, Z)),
          H("table10", dict(z=Box(-6, 1, (10,)), **S), table(T10, LGA20[::3], LGMET12[::4], 13.0)),
          H("table_late", dict(z=Box(-6, 1, (10,)), **S), table(T10, LGA20[::4], Z, 20.0), note="observed after the end of the table"),
          H("table_early", dict(z=Box(-6, 1, (10,)), **S), table(T10, LGA20[::4], Z, 1.0), note="observed before most of the table"),
          H("tobs5", dict(**z5, **S, tobs=Box(1, 13.8)), table(t5, -3 + 1.5 * np.arange(4), Z)),
          H("real", dict(z=Box(-6, 1, (60,)), **S), table(T60, LGA107 if tier == "thorough" else LGA107[::6], LGMET12, 10.0))]
    return hs
