"""Stellar age weights are a probability distribution"""
from .common import *
from dsps.sed.stellar_age_weights import calc_age_weights_from_sfh_table


def goals(w, na):
    c = cut(w, "w")
    return dict(shape=jnp.array(w.shape == (na,)), nonneg=c >= -1e-12, sum1=near(c.sum(), 1.0))


def sym(nt, na):
    def fn(t, sfr, lga, tobs):
        w = calc_age_weights_from_sfh_table(t, sfr, lga, tobs)
        return out(assume=dict(young=10 ** (1.5 * lga[0] - 0.5 * lga[1]) < tobs - t[0] - 0.001,
                               cover=tobs <= t[-1], old=10**lga[-1] > tobs - t[0]),
                   goal=goals(w, na), obs=dict(w=w))
    return fn


def fixed(t, lga, tobs=None):
    na = len(lga)
    t, lga = jnp.array(t), jnp.array(lga)

    def fn(sfr, tobs=tobs):
        w = calc_age_weights_from_sfh_table(t, sfr, lga, tobs)
        return out(goal=goals(w, na), obs=dict(w=w))
    return fn


def harnesses(tier):
    hs = []
    o = "tables shorter than 3 ages; SSP grids whose oldest age does not cover the galaxy"
    ns = ((3, 3),) if tier == "quick" else ((3, 3), (3, 4), (4, 3))
    for nt, na in ns:
        hs.append(H(f"sym{nt}{na}", dict(t=Grid(nt, 0.01, 20, (0.01, 10)), sfr=Box(0, 1e5, (nt,)),
                                         lga=Grid(na, -4, 1.3, (0.05, 2), ratio=3), tobs=Box(0.1, 20)), sym(nt, na),
                    note="everything symbolic: time table, SFH, SSP ages, time of observation", outside=o))
    hs.append(H("sfh10", dict(sfr=Box(0, 1e5, (10,))), fixed(T10, LGA20, 13.0), note="all SFHs on a 10-point table, 20 ages"))
    hs.append(H("sfh60", dict(sfr=Box(0, 1e5, (60,))), fixed(T60, LGA107, 10.0), note="all SFHs on a 60-point table, 107 ages"))
    hs.append(H("tobs5", dict(sfr=Box(0, 1e5, (5,)), tobs=Box(1, 13.8)),
                fixed(0.5+3.5*np.arange(5), -3+1.5*np.arange(4)), note="all SFHs and times of observation, 5 x 4 tables"))
    hs.append(H("tobs10", dict(sfr=Box(0, 1e5, (10,)), tobs=Box(1, 13.8)), fixed(T10, -3 + 0.625*np.arange(8)),
                note="all SFHs and times of observation, 10 x 8 tables"))
    hs.append(H("uneven_up", dict(sfr=Box(0, 1e5, (10,))), fixed(T10, LGA_UP, 13.0), note="strongly uneven SSP ages"))
    hs.append(H("uneven_down", dict(sfr=Box(0, 1e5, (10,))), fixed(T10, LGA_DOWN, 13.0), note="strongly uneven SSP ages"))
    return hs
