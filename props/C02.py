"""Age weights are the fraction of mass formed in each age bin"""
from .common import *
from dsps.sed.stellar_age_weights import calc_age_weights_from_sfh_table


def edges(lga):
    """SSP age-bin edges: midpoints on a uniform grid (used with uniform grids only)"""
    d = lga[1] - lga[0]
    return jnp.concatenate([lga[:1] - 0.5 * d, 0.5 * (lga[1:] + lga[:-1]), lga[-1:] + 0.5 * d])


def ref(t, sfr, lga, tobs, sfr_min=1e-14):
    m = ref_mass_table(t, sfr, sfr_min)
    tb = tobs - 10 ** edges(lga)
    tb = jnp.where(tb < 1e-3, 1e-3, tb)
    lm = jnp.interp(jnp.log10(tb), jnp.log10(t), jnp.log10(m))
    e = 10**lm
    return e


def body(t, sfr, lga, tobs, zero=True):
    w = calc_age_weights_from_sfh_table(t, sfr, lga, tobs)
    e = ref(t, sfr, lga, tobs)
    d = e[:-1] - e[1:]
    tot = e[0] - e[-1]
    c = cut(w, "w")
    # bins whose youngest stars would be born before the table starts contain nothing
    young = tobs - 10 ** edges(lga)[:-1]
    g = dict(fraction=near(w * tot, d, 1e-8 * tot), older_is_empty=(young > t[0] - 1e-9) | near(c, 0.0, 1e-10))
    return out(goal=g, obs=dict(w=w))


def fixed(t, lga, tobs=None):
    t, lga = jnp.array(t), jnp.array(lga)
    return lambda sfr, tobs=tobs: body(t, sfr, lga, tobs)


def harnesses(tier):
    hs = [H("sfh10", dict(sfr=Box(0, 1e5, (10,))), fixed(T10, LGA20, 13.0)),
          H("sfh10b", dict(sfr=Box(0, 1e5, (10,))), fixed(T10, LGA20, 2.0), note="universe younger than many SSPs"),
          H("tobs5", dict(sfr=Box(0, 1e5, (5,)), tobs=Box(1, 13.8)), fixed(0.5+3.5*np.arange(5), -3+1.0*np.arange(5))),
          H("sfh60", dict(sfr=Box(0, 1e5, (60,))), fixed(T60, LGA107, 10.0))]
    return hs
