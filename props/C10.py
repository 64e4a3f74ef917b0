"""SFR values below the floor behave exactly like the floor"""
from .common import *
from dsps.sed import calc_age_weights_from_sfh_table, calc_rest_sed_sfh_table_lognormal_mdf, calc_rest_sed_sfh_table_met_table

Z = jnp.array([-3.0, -2.0, -1.5])


def ref_mass(t, s, tobs):
    return 10 ** jnp.interp(jnp.log10(tobs), jnp.log10(t), jnp.log10(ref_mass_table(t, s, -1.0)))


def body(t, lga, sfr, fl, floor, tobs):
    """fl: value of the floor, floor: what is passed (None: default)"""
    kw = {} if floor is None else dict(sfr_min=floor)
    na = len(lga)
    flux = jnp.array(1.0 + np.arange(3 * na * 2).reshape(3, na, 2) % 7)
    hi = jnp.where(sfr < fl, fl, sfr)
    w, w2 = [calc_age_weights_from_sfh_table(t, s, lga, tobs, **kw) for s in (sfr, hi)]
    a, b = [calc_rest_sed_sfh_table_lognormal_mdf(t, s, -2.0, 0.3, Z, lga, flux, tobs, **kw) for s in (sfr, hi)]
    c, d = [calc_rest_sed_sfh_table_met_table(t, s, -2.0 + 0 * t, 0.3, Z, lga, flux, tobs, **kw) for s in (sfr, hi)]
    m = ref_mass(t, hi, tobs)
    g = dict(age=near(w, w2, 1e-10))
    # mass behind the SED: (sum of weights = 1, flux table 1) -> SED = mass
    one = jnp.ones((3, na, 1))
    for k, x in (("lognormal", calc_rest_sed_sfh_table_lognormal_mdf(t, sfr, -2.0, 0.3, Z, lga, one, tobs, **kw)),
                 ("table", calc_rest_sed_sfh_table_met_table(t, sfr, -2.0 + 0 * t, 0.3, Z, lga, one, tobs, **kw))):
        g["mass_" + k] = near(x.rest_sed[0], m * x.weights.sum(), 1e-8 * m)
    if floor is None:
        g.update(sed=near(a.rest_sed, b.rest_sed, 1e-9 * m), sed_table=near(c.rest_sed, d.rest_sed, 1e-9 * m))
    return out(goal=g, obs=dict(w=w, a=a.rest_sed, c=c.rest_sed))


def fixed(t, lga, tobs, floor=False):
    t, lga = jnp.array(t), jnp.array(lga)
    if floor:
        return lambda sfr, fl: body(t, lga, sfr, fl, fl, tobs)
    return lambda sfr: body(t, lga, sfr, 1e-14, None, tobs)


def zeros(t, lga):
    t, lga = jnp.array(t), jnp.array(lga)

    def fn(tobs):
        z = jnp.zeros(len(t))
        w = calc_age_weights_from_sfh_table(t, z, lga, tobs)
        one = jnp.ones((3, len(lga), 1))
        s = calc_rest_sed_sfh_table_lognormal_mdf(t, z, -2.0, 0.3, Z, lga, one, tobs).rest_sed
        return out(goal=dict(pos=s > 0), obs=dict(w=w, s=s))
    return fn


def harnesses(tier):
    t5 = 0.5 + 3.5 * np.arange(5)
    hs = [H("default5", dict(sfr=Box(-1e-3, 1e-3, (5,))), fixed(t5, LGA5, 10.0), note="negative, zero and positive entries"),
          H("tiny5", dict(sfr=Box(-1e-14, 1e-13, (5,))), fixed(t5, LGA5, 10.0), note="entries around the floor itself"),
          H("custom5", dict(sfr=Box(0, 10, (5,)), fl=Box(0.001, 5)), fixed(t5, LGA5, 10.0, True), note="user-supplied floor"),
          H("custom10", dict(sfr=Box(0, 10, (10,)), fl=Box(0.001, 5)), fixed(T10, LGA20[::4], 7.3, True)),
          H("zeros", dict(tobs=Box(0.6, 13.8)), zeros(t5, LGA5))]
    return hs
